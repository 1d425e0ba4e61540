//! vx UNIT.vrs REPO OUT.rs OUT.json [probe]
//!
//! Builds a Verus file from a unit template: raw Verus text with directives that pull items out of /repo's
//! current source.  Function bodies are copied verbatim, except for the edits listed in the output's "edits".
use quote::ToTokens;
use std::collections::{BTreeMap, HashMap};
use syn::spanned::Spanned;
use syn::visit::Visit;

struct Src {
    text: String,
    line_starts: Vec<usize>,
    file: syn::File,
}
impl Src {
    fn load(path: &str) -> Result<Src, String> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        Src::parse(text, path)
    }
    fn parse(text: String, path: &str) -> Result<Src, String> {
        let file = syn::parse_file(&text).map_err(|e| format!("{path}: {e}"))?;
        let mut line_starts = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                line_starts.push(i + 1);
            }
        }
        Ok(Src { text, line_starts, file })
    }
    /// in the functions named, an arm `A | B => e` becomes `A => e, B => e` (on the same lines)
    fn split_or(self, names: &[&str]) -> Result<Src, String> {
        struct V<'a>(&'a Src, &'a [&'a str], bool, Vec<(usize, usize, String, u32)>);
        impl<'a, 'ast> Visit<'ast> for V<'a> {
            fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
                let o = self.2;
                self.2 = o || self.1.contains(&f.sig.ident.to_string().as_str());
                syn::visit::visit_impl_item_fn(self, f);
                self.2 = o;
            }
            fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
                let o = self.2;
                self.2 = o || self.1.contains(&f.sig.ident.to_string().as_str());
                syn::visit::visit_item_fn(self, f);
                self.2 = o;
            }
            fn visit_arm(&mut self, a: &'ast syn::Arm) {
                if let (true, syn::Pat::Or(p), None) = (self.2, &a.pat, &a.guard) {
                    let (s, e) = self.0.node(p);
                    let nl = self.0.text[s..e].matches('\n').count();
                    let mut t = String::new();
                    for (i, c) in p.cases.iter().enumerate() {
                        t.push_str(&c.to_token_stream().to_string());
                        if i + 1 < p.cases.len() {
                            t.push_str(&format!(" => {{ {} }}, ", a.body.to_token_stream()));
                        }
                    }
                    t.push_str(&"\n".repeat(nl));
                    self.3.push((s, e, t, 0));
                    return;
                }
                syn::visit::visit_arm(self, a)
            }
        }
        let mut v = V(&self, names, false, vec![]);
        v.visit_file(&self.file);
        let mut eds = v.3;
        let text = apply(&self.text, 0, self.text.len(), &mut eds);
        Src::parse(text, "split_or")
    }
    fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        let ls = self.line_starts[lc.line - 1];
        let rest = &self.text[ls..];
        ls + rest.char_indices().nth(lc.column).map(|(i, _)| i).unwrap_or(rest.len())
    }
    fn range(&self, s: proc_macro2::Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
    fn node<T: ToTokens>(&self, t: &T) -> (usize, usize) {
        // the span of a node made of several tokens: join() is not available on stable
        let ts = t.to_token_stream();
        let mut lo = usize::MAX;
        let mut hi = 0;
        for tt in ts {
            let (a, b) = self.range(tt.span());
            lo = lo.min(a);
            hi = hi.max(b);
        }
        (lo, hi)
    }
}

fn norm(s: &str) -> String {
    match s.parse::<proc_macro2::TokenStream>() {
        Ok(t) => t.to_string(),
        Err(_) => s.split_whitespace().collect::<Vec<_>>().join(" "),
    }
}
// token texts compare without their spacing
fn squash(s: &str) -> String {
    s.split_whitespace().collect()
}
fn tnorm<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

#[derive(Clone)]
struct FnItem {
    sig: syn::Signature,
    block: syn::Block,
    self_ty: Option<String>,
}

struct Index {
    fns: HashMap<String, FnItem>,
    types: HashMap<String, syn::Item>,
    consts: HashMap<String, syn::ItemConst>,
}
fn index_block(pre: &str, b: &syn::Block, ix: &mut Index) {
    for s in &b.stmts {
        if let syn::Stmt::Item(i) = s {
            index_item(pre, i, ix)
        }
    }
}
fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| tnorm(a).contains("cfg (test)"))
}
fn index_item(pre: &str, it: &syn::Item, ix: &mut Index) {
    match it {
        syn::Item::Fn(f) => {
            let n = format!("{pre}{}", f.sig.ident);
            index_block(&format!("{n}/"), &f.block, ix);
            ix.fns.insert(n, FnItem { sig: f.sig.clone(), block: (*f.block).clone(), self_ty: None });
        }
        syn::Item::Impl(i) => {
            let ty = match &*i.self_ty {
                syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                other => tnorm(other),
            };
            for m in &i.items {
                if let syn::ImplItem::Fn(f) = m {
                    let n = format!("{pre}{ty}::{}", f.sig.ident);
                    index_block(&format!("{n}/"), &f.block, ix);
                    let item = FnItem { sig: f.sig.clone(), block: f.block.clone(), self_ty: Some(ty.clone()) };
                    if let Some((_, tr, _)) = &i.trait_ {
                        let tn = tr.segments.last().unwrap().ident.to_string();
                        ix.fns.insert(format!("{pre}<{ty} as {tn}>::{}", f.sig.ident), item.clone());
                    }
                    ix.fns.insert(n, item);
                }
            }
        }
        syn::Item::Struct(s) => {
            ix.types.insert(format!("{pre}{}", s.ident), it.clone());
        }
        syn::Item::Const(s) => {
            ix.consts.insert(format!("{pre}{}", s.ident), s.clone());
        }
        syn::Item::Enum(s) => {
            ix.types.insert(format!("{pre}{}", s.ident), it.clone());
        }
        syn::Item::Mod(m) => {
            if is_test(&m.attrs) {
                return;
            }
            if let Some((_, items)) = &m.content {
                for i in items {
                    index_item(pre, i, ix)
                }
            }
        }
        _ => {}
    }
}

#[derive(Default, Clone)]
struct Opts {
    typemap: Vec<(String, String)>,
    exprmap: Vec<(String, String)>,
    strip: Vec<String>,
    methods: Vec<(String, String, String)>, // name, wrapper, mode
    fnren: Vec<(String, String)>,
    closure_ref: Vec<(String, String)>,
    macros: Vec<(String, String)>,
    fullslice: Option<String>,
    /// `E::V` given as a function -> a closure
    ctor: bool,
    /// combinators taking a closure written in place, desugared to a match
    inline: Vec<(String, String)>,
    /// `e[a..b]` on strings -> vx_range(e, a, b) and so on
    slices: Option<String>,
    /// a.m1(x).m2(y) -> w(&mut a, x, y)
    chains: Vec<(String, String, String, String)>,
}

#[derive(Default, Clone)]
struct FnDir {
    file: String,
    path: String,
    rename: Option<String>,
    props: Vec<String>,
    ret: Option<String>,
    params: Vec<String>,
    spec: String,
    loops: BTreeMap<usize, String>,
    loopkinds: BTreeMap<usize, String>,
    loopbegin: BTreeMap<usize, String>,
    loopend: BTreeMap<usize, String>,
    loopafter: BTreeMap<usize, String>,
    pre: String,
    post: String,
    closures: BTreeMap<usize, String>,
    lets: BTreeMap<usize, String>,
    nloops: Option<usize>,
    local: Opts,
    inline_only: bool,
    skip: bool,
    generics: Option<String>,
    /// the whole signature, written out (drops generality of the original)
    sig: Option<String>,
    attrs: String,
    arms: Vec<(String, String)>,
    anchors: Vec<(bool, String, String)>,
}

struct Ed<'s> {
    src: &'s Src,
    o: Vec<&'s Opts>,
    edits: Vec<(usize, usize, String, u32)>,
    seq: u32,
    log: Vec<String>,
    loops: Vec<(String, usize, usize, usize, usize)>, // kind, pos before body brace, body open+1, body close, end
    forinfo: BTreeMap<usize, (usize, String, usize, usize, bool)>,
    loopvars: Vec<Option<(usize, usize)>>,
    closures: Vec<(usize, usize, bool)>, // pos after |..| , body start/end, body is block
    closure_bodies: Vec<(usize, usize)>,
    closure_lets: BTreeMap<usize, String>,
    /// functions given by name (Self::f), written as closures: number -> (start, end)
    etas: BTreeMap<usize, (usize, usize)>,
    /// names of the parameters of each closure
    closure_params: Vec<Vec<String>>,
    unsupported: Vec<String>,
    calls: Vec<(String, usize, usize)>,
    arms: Vec<(String, usize, usize)>,
    stmts: Vec<(Vec<String>, Option<String>, usize, usize)>,
    auto_inline: bool,
    probe_exprs: bool,
}
impl<'s> Ed<'s> {
    fn edit(&mut self, a: usize, b: usize, t: impl Into<String>) {
        self.seq += 1;
        self.edits.push((a, b, t.into(), self.seq));
    }
    /// an insertion that goes in front of every other one at the same place
    fn edit0(&mut self, a: usize, t: impl Into<String>) {
        self.edits.push((a, a, t.into(), 0));
    }
    fn lookup<'a>(v: impl Iterator<Item = &'a (String, String)>, k: &str) -> Option<String> {
        let mut r = None;
        for (a, b) in v {
            if squash(a) == squash(k) {
                r = Some(b.clone());
            }
        }
        r
    }
}
impl<'s, 'ast> Visit<'ast> for Ed<'s> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let (s, e) = self.src.node(a);
        self.edit(s, e, "");
    }
    fn visit_type(&mut self, t: &'ast syn::Type) {
        let k = tnorm(t);
        if let Some(r) = Self::lookup(self.o.iter().flat_map(|o| o.typemap.iter()), &k) {
            let (s, e) = self.src.node(t);
            self.log.push(format!("type `{k}` -> `{r}`"));
            self.edit(s, e, r);
            return;
        }
        syn::visit::visit_type(self, t)
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        let k = tnorm(p);
        for o in self.o.clone() {
            for (a, b) in &o.fnren {
                if *a == k {
                    let (s, e) = self.src.node(p);
                    self.log.push(format!("path `{k}` -> `{b}`"));
                    self.edit(s, e, b.clone());
                    return;
                }
            }
        }
        for o in self.o.clone() {
            for st in &o.strip {
                if k.starts_with(&format!("{st} ::")) {
                    let n = st.split(" :: ").count();
                    let (s, _) = self.src.node(p);
                    let seg = &p.segments[n];
                    let (e, _) = self.src.node(seg);
                    self.edit(s, e, "");
                }
            }
        }
        syn::visit::visit_path(self, p)
    }
    fn visit_expr(&mut self, x: &'ast syn::Expr) {
        let k = tnorm(x);
        if let Some(r) = Self::lookup(self.o.iter().flat_map(|o| o.exprmap.iter()), &k) {
            let (s, e) = self.src.node(x);
            self.log.push(format!("expr `{k}` -> `{r}`"));
            self.edit(s, e, r);
            return;
        }
        if self.slice(x) {
            return;
        }
        match x {
            // &e[..] -> e.as_str() or e.as_slice()
            syn::Expr::Reference(r) => {
                if let (syn::Expr::Index(ix), Some(f)) = (&*r.expr, self.o.iter().filter_map(|o| o.fullslice.clone()).last()) {
                    if matches!(&*ix.index, syn::Expr::Range(g) if g.start.is_none() && g.end.is_none()) {
                        let (xs, xe) = self.src.node(x);
                        let (es, ee) = self.src.node(&*ix.expr);
                        self.edit(xs, es, if f == "amp" { "&(" } else { "(" });
                        self.visit_expr(&ix.expr);
                        self.edit(ee, xe, if f == "amp" { ")".to_string() } else { format!(").{f}()") });
                        self.log.push(format!("`&e[..]` -> `e.{f}()`"));
                        return;
                    }
                }
            }
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let mut hit = None;
                for o in &self.o {
                    for (n, w, mode) in &o.methods {
                        if *n == name {
                            hit = Some((w.clone(), mode.clone()));
                        }
                    }
                }
                if let Some((w, mode)) = hit {
                    let (rs, re) = self.src.node(&m.receiver);
                    let (_, pe) = self.src.range(m.paren_token.span.open());
                    let amp = match mode.as_str() {
                        "ref" => "&",
                        "mut" => "&mut ",
                        _ => "",
                    };
                    self.log.push(format!("method call `.{name}(..)` -> `{w}({amp}receiver, ..)`"));
                    if mode == "drop" {
                        // receiver.method(args) -> receiver
                        let (_, ee) = self.src.node(x);
                        self.edit(re, ee, "");
                        self.visit_expr(&m.receiver);
                        return;
                    }
                    self.edit(rs, rs, format!("{w}({amp}("));
                    self.edit(re, pe, if m.args.is_empty() { ")" } else { "), " });
                    self.visit_expr(&m.receiver);
                    for a in &m.args {
                        if let syn::Expr::Path(p) = a {
                            if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                                let (s, e) = self.src.node(a);
                                self.log.push(format!("`{}` given as a function -> `|vx_x| {}(vx_x)`", tnorm(a), tnorm(a)));
                                self.etas.insert(self.closures.len(), (s, e));
                                self.closures.push((s, s, false));
                                self.closure_bodies.push((s, e));
                                self.closure_params.push(vec!["vx_x".into()]);
                                continue;
                            }
                        }
                        self.visit_expr(a);
                    }
                    return;
                }
                if let syn::Expr::MethodCall(m1) = &*m.receiver {
                    let n1 = m1.method.to_string();
                    let ch = self.o.iter().flat_map(|o| o.chains.iter()).filter(|c| c.0 == n1 && c.1 == name).last().cloned();
                    if let Some((_, _, w, mode)) = ch {
                        let amp = match mode.as_str() {
                            "ref" => "&",
                            "mut" => "&mut ",
                            _ => "",
                        };
                        let (rs, re) = self.src.node(&m1.receiver);
                        let (_, p1) = self.src.range(m1.paren_token.span.open());
                        let (c1, _) = self.src.range(m1.paren_token.span.close());
                        let (_, p2) = self.src.range(m.paren_token.span.open());
                        self.edit(rs, rs, format!("{w}({amp}("));
                        self.edit(re, p1, if m1.args.is_empty() && m.args.is_empty() { ")" } else { "), " });
                        self.edit(c1, p2, if m1.args.is_empty() || m.args.is_empty() { "" } else { ", " });
                        self.log.push(format!("`e.{n1}(x).{name}(y)` -> `{w}({amp}e, x, y)`"));
                        self.visit_expr(&m1.receiver);
                        for a in m1.args.iter().chain(m.args.iter()) {
                            self.visit_expr(a);
                        }
                        return;
                    }
                }
                if self.inline(x, m) {
                    return;
                }
                // f.clone() of a closure passed by reference
                if name == "clone" {
                    if let syn::Expr::Path(p) = &*m.receiver {
                        let rn = tnorm(p);
                        if self.o.iter().any(|o| o.closure_ref.iter().any(|(_, v)| *v == rn)) {
                            let (_, re) = self.src.node(&m.receiver);
                            let (_, ee) = self.src.node(x);
                            self.edit(re, ee, "");
                            return;
                        }
                    }
                }
            }
            syn::Expr::Call(c) => {
                let fname = tnorm(&*c.func);
                let last = fname.rsplit(":: ").next().unwrap().trim().to_string();
                let (cs, ce) = self.src.node(x);
                self.calls.push((fname, cs, ce));
                if self.o.iter().any(|o| o.ctor) {
                    for a in &c.args {
                        if let syn::Expr::Path(p) = a {
                            let sg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                            let up = |s: &String| s.chars().next().map_or(false, |c| c.is_uppercase());
                            if sg.len() == 2 && sg.iter().all(up) {
                                let (s, e) = self.src.node(a);
                                let t = format!("{}::{}", sg[0], sg[1]);
                                self.log.push(format!("`{t}` given as a function -> `|vx_c| {t}(vx_c)`"));
                                self.edit(s, e, format!("|vx_c| -> (vx_r: {}) ensures vx_r == {t}(vx_c) {{ {t}(vx_c) }}", sg[0]));
                            }
                        }
                    }
                }
                if self.o.iter().any(|o| o.closure_ref.iter().any(|(f, _)| *f == last)) {
                    for a in &c.args {
                        if let syn::Expr::Closure(cl) = a {
                            let (s, _) = self.src.node(cl);
                            self.edit(s, s, "&");
                        }
                    }
                }
            }
            syn::Expr::Macro(m) => {
                self.mac(&m.mac, x.span(), self.src.node(x), false);
                return;
            }
            syn::Expr::ForLoop(f) => {
                let i = self.loops.len();
                let (bo, bc) = (self.src.range(f.body.brace_token.span.open()), self.src.range(f.body.brace_token.span.close()));
                let (_, ee) = self.src.node(x);
                self.loops.push(("for".into(), bo.0, bo.1, bc.0, ee));
                let fs = self.src.range(f.for_token.span).0;
                let (ps, pe) = self.src.node(&*f.pat);
                let (xs, xe) = self.src.node(&*f.expr);
                self.forinfo.insert(i, (fs, self.src.text[ps..pe].to_string(), xs, xe, f.label.is_some()));
                let (es, eend) = self.src.node(&*f.expr);
                self.loopvars.push(Some((es, eend)));
                let _ = i;
            }
            syn::Expr::While(f) => {
                let (bo, bc) = (self.src.range(f.body.brace_token.span.open()), self.src.range(f.body.brace_token.span.close()));
                let (_, ee) = self.src.node(x);
                self.loops.push(("while".into(), bo.0, bo.1, bc.0, ee));
                self.loopvars.push(None);
            }
            syn::Expr::Loop(f) => {
                let (bo, bc) = (self.src.range(f.body.brace_token.span.open()), self.src.range(f.body.brace_token.span.close()));
                let (_, ee) = self.src.node(x);
                self.loops.push(("loop".into(), bo.0, bo.1, bc.0, ee));
                self.loopvars.push(None);
            }
            syn::Expr::Closure(c) => {
                let (_, pe) = self.src.range(c.or2_token.span);
                let pe = match &c.output {
                    syn::ReturnType::Default => pe,
                    t => self.src.node(t).1,
                };
                let (bs, be) = self.src.node(&*c.body);
                // |(a, b)| body  ->  |vx_t| { let (a, b) = vx_t; body }
                let mut lets = String::new();
                let mut names = vec![];
                for (n, p) in c.inputs.iter().enumerate() {
                    let pp = match p { syn::Pat::Type(t) => &*t.pat, p => p };
                    if matches!(pp, syn::Pat::Tuple(_) | syn::Pat::TupleStruct(_) | syn::Pat::Struct(_) | syn::Pat::Wild(_)) {
                        let (a, b) = self.src.node(pp);
                        let nm = if n == 0 { "vx_t".to_string() } else { format!("vx_t{n}") };
                        if !matches!(pp, syn::Pat::Wild(_)) {
                            lets.push_str(&format!("let {} = {nm}; ", &self.src.text[a..b]));
                            self.log.push("closure parameter pattern -> a let in the closure".into());
                        }
                        self.edit(a, b, nm.clone());
                        names.push(nm);
                    } else {
                        names.push(match pp { syn::Pat::Ident(i) => i.ident.to_string(), _ => "vx_unnamed".into() });
                    }
                }
                self.closure_params.push(names);
                if !lets.is_empty() {
                    if matches!(&*c.body, syn::Expr::Block(_)) {
                        self.edit0(bs + 1, lets);
                    } else {
                        self.closure_lets.insert(self.closures.len(), lets);
                    }
                }
                self.closures.push((pe, bs, matches!(&*c.body, syn::Expr::Block(_))));
                self.closure_bodies.push((bs, be));
            }
            syn::Expr::Async(_) | syn::Expr::Await(_) | syn::Expr::Unsafe(_) => {
                self.unsupported.push(format!("`{}`", k.chars().take(60).collect::<String>()));
            }
            syn::Expr::Match(m) => {
                for a in &m.arms {
                    let pk = tnorm(&a.pat);
                    let (s, e) = self.src.node(&*a.body);
                    self.arms.push((pk, s, e));
                }
            }
            _ => {}
        }
        syn::visit::visit_expr(self, x)
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if !matches!(s, syn::Stmt::Item(_)) {
            let mut c = Calls(vec![]);
            c.visit_stmt(s);
            let nm = match s {
                syn::Stmt::Local(l) => match &l.pat {
                    syn::Pat::Ident(i) => Some(i.ident.to_string()),
                    _ => None,
                },
                _ => None,
            };
            let (a, b) = self.src.node(s);
            self.stmts.push((c.0, nm, a, b));
        }
        match s {
            syn::Stmt::Macro(m) => {
                self.mac(&m.mac, m.mac.span(), self.src.node(&m.mac), true);
            }
            syn::Stmt::Item(i) => {
                // nested items are dropped: nested functions are units of their own
                let (a, b) = self.src.node(i);
                self.edit(a, b, "");
                self.log.push(format!("nested item dropped: `{}`", tnorm(i).chars().take(50).collect::<String>()));
            }
            _ => syn::visit::visit_stmt(self, s),
        }
    }
}
// the functions and methods called
struct Calls(Vec<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        match e {
            syn::Expr::MethodCall(m) => self.0.push(m.method.to_string()),
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    self.0.push(p.path.segments.last().unwrap().ident.to_string());
                }
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e)
    }
}
struct HasJump(bool);
impl<'a> Visit<'a> for HasJump {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        if matches!(e, syn::Expr::Try(_) | syn::Expr::Return(_)) {
            self.0 = true;
        }
        syn::visit::visit_expr(self, e)
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
impl<'s> Ed<'s> {
    fn slice(&mut self, x: &syn::Expr) -> bool {
        let pre = match self.o.iter().filter_map(|o| o.slices.clone()).last() {
            Some(p) => p,
            None => return false,
        };
        let ix = match x {
            syn::Expr::Reference(r) => match &*r.expr {
                syn::Expr::Index(ix) => ix,
                _ => return false,
            },
            syn::Expr::Index(ix) => ix,
            _ => return false,
        };
        let g = match &*ix.index {
            syn::Expr::Range(g) => g,
            _ => return false,
        };
        if !matches!(g.limits, syn::RangeLimits::HalfOpen(_)) {
            return false;
        }
        let leak = |e: &syn::Expr| -> &'static syn::Expr { Box::leak(Box::new(e.clone())) };
        let amp = if pre == "ref" { "&" } else { "" };
        let (xs, xe) = self.src.node(x);
        let (es, ee) = self.src.node(&*ix.expr);
        let f = match (&g.start, &g.end) {
            (Some(_), None) => "vx_from",
            (None, Some(_)) => "vx_upto",
            (Some(_), Some(_)) => "vx_range",
            _ => return false,
        };
        self.edit(xs, es, format!("{f}({amp}"));
        self.visit_expr(leak(&ix.expr));
        let mut last = ee;
        for b in [&g.start, &g.end].into_iter().flatten() {
            let (bs, be) = self.src.node(&**b);
            self.edit(last, bs, ", ");
            self.visit_expr(leak(b));
            last = be;
        }
        self.edit(last, xe, ")");
        self.log.push("`e[a..b]` -> `vx_range(e, a, b)`".into());
        true
    }
    /// `e.map(|p| b)` -> `match e { Some(p) => Some(b), None => None }`, and so on: what the combinator is defined to be
    fn inline(&mut self, x: &syn::Expr, m: &syn::ExprMethodCall) -> bool {
        let name = m.method.to_string();
        let kind = match Self::lookup(self.o.iter().flat_map(|o| o.inline.iter()), &name) {
            Some(k) => k,
            // those that one type only has (with the closure written in place, and no contract given for it)
            None => match (name.as_str(), m.args.last()) {
                ("map_err" | "is_some_and" | "is_none_or" | "is_ok_and" | "ok_or_else", Some(syn::Expr::Closure(_))) if self.auto_inline => name.clone(),
                ("unwrap_or_else", Some(syn::Expr::Closure(c))) if self.auto_inline => {
                    if c.inputs.is_empty() { "opt_unwrap_or_else".into() } else { "res_unwrap_or_else".into() }
                }
                _ => return false,
            },
        };
        if m.args.len() != 1 {
            return false;
        }
        let (pre, mid, post): (&str, &str, &str) = match kind.as_str() {
            "opt_map" => ("Some($) => Some(", "Some(__v) => Some(", "), None => None"),
            "res_map" => ("Ok($) => Ok(", "Ok(__v) => Ok(", "), Err(__e) => Err(__e)"),
            "map_err" => ("Err($) => Err(", "Err(__v) => Err(", "), Ok(__e) => Ok(__e)"),
            "is_some_and" => ("Some($) => (", "Some(__v) => (", "), None => false"),
            "is_none_or" => ("Some($) => (", "Some(__v) => (", "), None => true"),
            "is_ok_and" => ("Ok($) => (", "Ok(__v) => (", "), Err(_) => false"),
            "res_unwrap_or_else" => ("Err($) => (", "Err(__v) => (", "), Ok(__e) => __e"),
            "opt_and_then" => ("Some($) => (", "Some(__v) => (", "), None => None"),
            "res_and_then" => ("Ok($) => (", "Ok(__v) => (", "), Err(__e) => Err(__e)"),
            "opt_or_else" => ("None => (", "None => (", "), Some(__e) => Some(__e)"),
            "opt_unwrap_or_else" => ("None => (", "None => (", "), Some(__e) => __e"),
            "ok_or_else" => ("None => Err(", "None => Err(", "), Some(__e) => Ok(__e)"),
            "opt_unwrap_or" => ("", "", "), Some(__e) => __e"),
            "ok_or" => ("", "", "), Some(__e) => Ok(__e)"),
            _ => return false,
        };
        let (rs, re) = self.src.node(&m.receiver);
        let (_, ee) = self.src.node(x);
        let arg: &'static syn::Expr = Box::leak(Box::new(m.args[0].clone()));
        let recv: &'static syn::Expr = Box::leak(Box::new((*m.receiver).clone()));
        let noarg = !pre.contains('$');
        match arg {
            _ if pre.is_empty() => {
                // the argument is evaluated only where it is used: a literal or constant, so this makes no difference
                if !matches!(arg, syn::Expr::Lit(_) | syn::Expr::Path(_)) {
                    return false;
                }
                let (bs, be) = self.src.node(arg);
                self.edit(rs, rs, "(match (");
                self.edit(re, bs, if kind == "ok_or" { ") { None => Err(" } else { ") { None => (" });
                self.edit(be, ee, format!("{post} }})"));
                self.visit_expr(recv);
                self.visit_expr(arg);
            }
            syn::Expr::Closure(c) => {
                let mut j = HasJump(false);
                j.visit_expr(&c.body);
                if j.0 || c.inputs.len() != if noarg { 0 } else { 1 } {
                    return false;
                }
                let (bs, be) = self.src.node(&*c.body);
                let open = if noarg {
                    pre.to_string()
                } else {
                    let pat = match &c.inputs[0] {
                        syn::Pat::Type(t) => self.src.node(&*t.pat),
                        p => self.src.node(p),
                    };
                    pre.replace('$', &self.src.text[pat.0..pat.1])
                };
                self.edit(rs, rs, "(match (");
                self.edit(re, bs, format!(") {{ {open}"));
                self.edit(be, ee, format!("{post} }})"));
                self.visit_expr(recv);
                let body: &'static syn::Expr = Box::leak(Box::new((*c.body).clone()));
                self.visit_expr(body);
            }
            syn::Expr::Path(_) if !noarg => {
                let (bs, be) = self.src.node(arg);
                self.edit(rs, rs, "(match (");
                self.edit(re, bs, format!(") {{ {mid}"));
                self.edit(be, ee, format!("(__v){post} }})"));
                self.visit_expr(recv);
                self.visit_expr(arg);
            }
            _ => return false,
        }
        self.log.push(format!("`.{name}(closure)` -> the match it stands for"));
        true
    }
    fn mac(&mut self, m: &syn::Macro, _sp: proc_macro2::Span, (s, e): (usize, usize), stmt: bool) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if let Some(r) = Self::lookup(self.o.iter().flat_map(|o| o.macros.iter()), &name) {
            self.log.push(format!("macro `{name}!(..)` -> `{r}`"));
            self.edit(s, e, r);
            return;
        }
        match name.as_str() {
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                self.log.push(format!("`{name}!(..)` -> `vx_panic()` (requires false)"));
                self.edit(s, e, "vx_panic()");
            }
            "println" | "eprintln" | "print" | "eprint" => {
                self.log.push(format!("`{name}!(..)` removed"));
                self.edit(s, e, "()");
            }
            "format" if self.fmt1(m, s, e) => {}
            "format" => {
                self.log.push("`format!(..)` -> `vx_format()` (unspecified string)".into());
                self.edit(s, e, "vx_format()");
            }
            "vec" => {
                // the arguments are expressions: visit them
                let toks = m.tokens.clone();
                if let Ok(args) = syn::parse::Parser::parse2(
                    syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
                    toks,
                ) {
                    let args: &'static _ = Box::leak(Box::new(args));
                    for a in args.iter() {
                        self.visit_expr(a);
                    }
                } else {
                    self.unsupported.push("vec![x; n]".into());
                }
            }
            "assert" | "debug_assert" => {
                self.log.push(format!("`{name}!(..)`-> vx_assert"));
                let (a, b) = self.src.node(&m.path);
                let _ = b;
                let open = self.src.text[a..].find('(').map(|i| a + i).unwrap_or(b);
                self.edit(a, open, "vx_assert");
            }
            "matches" => {
                // `matches!(e, p)` is understood by Verus; only strip paths in it
                let toks: Vec<proc_macro2::TokenTree> = m.tokens.clone().into_iter().collect();
                self.strip_tokens(&toks);
            }
            "assert_eq" | "assert_ne" | "debug_assert_eq" | "write" | "writeln" => {
                self.unsupported.push(format!("{name}!"));
            }
            _ => self.unsupported.push(format!("{name}!")),
        }
        let _ = stmt;
    }
    /// format!("..{}..", arg) -> vx_format1("..", &(arg), "..")
    fn fmt1(&mut self, m: &syn::Macro, s: usize, e: usize) -> bool {
        let args = match syn::parse::Parser::parse2(
            syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
            m.tokens.clone(),
        ) {
            Ok(a) => a,
            Err(_) => return false,
        };
        let args: &'static _ = Box::leak(Box::new(args));
        let mut it = args.iter();
        if let (Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. })), Some(arg), None) = (it.next(), it.next(), it.next()) {
            let v = l.value();
            let k: Vec<&str> = v.split("{}").collect();
            if k.len() == 2 && !k[0].contains(['{', '}']) && !k[1].contains(['{', '}']) {
                let (a, b) = self.src.node(arg);
                self.edit(s, a, format!("vx_format1({:?}, &(", k[0]));
                self.visit_expr(arg);
                self.edit(b, e, format!("), {:?})", k[1]));
                self.log.push("`format!(\"a{}b\", x)` -> `vx_format1(\"a\", &x, \"b\")`".into());
                return true;
            }
        }
        false
    }
    fn strip_tokens(&mut self, _t: &[proc_macro2::TokenTree]) {
        for o in self.o.clone() {
            for st in &o.strip {
                let want: Vec<&str> = st.split(" :: ").collect();
                let mut i = 0;
                while i + 3 * want.len() <= _t.len() {
                    let mut ok = true;
                    for (j, w) in want.iter().enumerate() {
                        if _t[i + 3 * j].to_string() != *w || _t[i + 3 * j + 1].to_string() != ":" || _t[i + 3 * j + 2].to_string() != ":" {
                            ok = false;
                        }
                    }
                    if ok {
                        let (a, _) = self.src.range(_t[i].span());
                        let (_, b) = self.src.range(_t[i + 3 * want.len() - 1].span());
                        self.edit(a, b, "");
                        i += 3 * want.len();
                    } else {
                        i += 1;
                    }
                }
            }
        }
    }
}

fn apply(text: &str, base: usize, end: usize, edits: &mut Vec<(usize, usize, String, u32)>) -> String {
    edits.sort_by_key(|e| (e.0, e.1, e.3));
    let mut out = String::new();
    let mut pos = base;
    for (a, b, t, _) in edits.iter() {
        if *a < pos {
            if *b <= pos {
                if *a == *b && *a == pos {
                    out.push_str(t);
                }
                continue; // inside something already replaced
            }
        }
        let a = (*a).max(pos);
        out.push_str(&text[pos..a]);
        out.push_str(t);
        pos = (*b).max(a);
    }
    out.push_str(&text[pos..end]);
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let probe = args.get(5).map(|s| s == "probe").unwrap_or(false);
    let skip: Vec<String> = args.get(6).map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    match run(&args[1], &args[2], probe, &skip) {
        Ok((text, json)) => {
            std::fs::write(&args[3], text).unwrap();
            std::fs::write(&args[4], serde_json::to_string_pretty(&json).unwrap()).unwrap();
        }
        Err(e) => {
            let j = serde_json::json!({"lost": [e], "fns": []});
            std::fs::write(&args[3], "").unwrap();
            std::fs::write(&args[4], j.to_string()).unwrap();
        }
    }
}

fn load_template(path: &str) -> Result<Vec<String>, String> {
    let t = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let dir = std::path::Path::new(path).parent().unwrap();
    let mut out = vec![];
    for l in t.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            out.extend(load_template(dir.join(f.trim()).to_str().unwrap())?);
        } else {
            out.push(l.to_string());
        }
    }
    Ok(out)
}
fn two(s: &str) -> (String, String) {
    let (a, b) = s.split_once("=>").expect("=>");
    (norm(a.trim()), b.trim().to_string())
}
fn opt_directive(o: &mut Opts, d: &str, rest: &str) -> bool {
    match d {
        "typemap" => o.typemap.push(two(rest)),
        "exprmap" => o.exprmap.push(two(rest)),
        "inline" => {
            for w in rest.split_whitespace() {
                let (a, b) = w.split_once('=').unwrap_or((w, w));
                o.inline.push((a.into(), b.into()));
            }
        }
        "slices" => o.slices = Some(rest.trim().to_string()),
        "chain" => {
            let (a, b) = rest.split_once("=>").expect("=>");
            let (m1, m2) = a.trim().split_once('.').expect("a.b");
            let mut w = b.split_whitespace();
            o.chains.push((m1.into(), m2.into(), w.next().unwrap_or("").into(), w.next().unwrap_or("").into()));
        }
        "fullslice" => o.fullslice = Some(rest.trim().to_string()),
        "ctor" => o.ctor = true,
        "fnren" => o.fnren.push(two(rest)),
        "macro" => o.macros.push(two(rest)),
        "strip" => o.strip.extend(rest.split_whitespace().map(|s| norm(s.trim_end_matches("::")))),
        "method" => {
            let (a, b) = rest.split_once("=>").expect("=>");
            let mut w = b.split_whitespace();
            o.methods.push((a.trim().to_string(), w.next().unwrap_or("").to_string(), w.next().unwrap_or("").to_string()));
        }
        "closure-ref" => {
            let mut w = rest.split_whitespace();
            o.closure_ref.push((w.next().unwrap().into(), w.next().unwrap().into()));
        }
        _ => return false,
    }
    true
}

fn run(unit: &str, repo: &str, probe: bool, skip: &[String]) -> Result<(String, serde_json::Value), String> {
    let lines = load_template(unit)?;
    let mut srcs: HashMap<String, (Src, Index)> = HashMap::new();
    let mut opts = Opts::default();
    let mut out = String::new();
    let mut fns: Vec<serde_json::Value> = vec![];
    let mut lost: Vec<String> = vec![];
    let mut log: Vec<String> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim();
        if let Some(d) = l.strip_prefix("//@") {
            let (d, rest) = d.split_once(' ').unwrap_or((d, ""));
            match d {
                "file" => {
                    let (a, p) = rest.trim().split_once(' ').unwrap();
                    let (p, so) = p.split_once(" splitor=").unwrap_or((p, ""));
                    let mut s = Src::load(&format!("{repo}/{}", p.trim()))?;
                    if !so.is_empty() {
                        s = s.split_or(&so.split(',').map(|x| x.trim()).collect::<Vec<_>>())?;
                        log.push(format!("in {}: an arm `A | B => e` -> `A => e, B => e`", so.trim()));
                    }
                    let mut ix = Index { fns: HashMap::new(), types: HashMap::new(), consts: HashMap::new() };
                    for it in &s.file.items {
                        index_item("", it, &mut ix);
                    }
                    srcs.insert(a.to_string(), (s, ix));
                }
                "type" => {
                    let w: Vec<&str> = rest.split_whitespace().collect();
                    let (s, ix) = &srcs[w[0]];
                    match ix.types.get(w[1]) {
                        None => lost.push(format!("type {} not found", w[1])),
                        Some(it) => {
                            let derive = w.iter().find_map(|x| x.strip_prefix("derive="));
                            let mut t = emit_type(s, it, &opts, derive);
                            if let Some(n) = w.iter().find_map(|x| x.strip_prefix("as=")) {
                                t = t.replacen(&format!("enum {}", w[1]), &format!("enum {n}"), 1).replacen(&format!("struct {}", w[1]), &format!("struct {n}"), 1);
                            }
                            out.push_str(&t);
                        }
                    }
                }
                "const" => {
                    let w: Vec<&str> = rest.split_whitespace().collect();
                    let (s, ix) = &srcs[w[0]];
                    match ix.consts.get(w[1]) {
                        None => lost.push(format!("const {} not found", w[1])),
                        Some(it) => {
                            let (a, b) = s.node(it);
                            out.push_str(&s.text[a..b].replace("&str", "&'static str"));
                            out.push('\n');
                        }
                    }
                }
                "fn" => {
                    let w: Vec<&str> = rest.split_whitespace().collect();
                    let mut fd = FnDir { file: w[0].into(), path: w[1].replace('~', " "), ..Default::default() };
                    for x in &w[2..] {
                        if let Some(v) = x.strip_prefix("props=") {
                            fd.props = v.split(',').map(|s| s.to_string()).collect();
                        } else if let Some(v) = x.strip_prefix("ret=") {
                            fd.ret = Some(v.into());
                        } else if let Some(v) = x.strip_prefix("as=") {
                            fd.rename = Some(v.into());
                        } else if let Some(v) = x.strip_prefix("params=") {
                            fd.params = v.split(',').map(|s| s.to_string()).collect();
                        } else if let Some(v) = x.strip_prefix("loops=") {
                            fd.nloops = Some(v.parse().unwrap());
                        } else if *x == "inline" {
                            fd.inline_only = true;
                        }
                    }
                    i += 1;
                    let mut sect: (String, usize, String) = ("spec".into(), 0, String::new());
                    loop {
                        if i >= lines.len() {
                            return Err(format!("{}: no //@end", fd.path));
                        }
                        let t = lines[i].trim();
                        if let Some(d) = t.strip_prefix("//@") {
                            let (d, rest) = d.split_once(' ').unwrap_or((d, ""));
                            match d {
                                "end" => break,
                                "loop" | "loopbegin" | "loopend" | "loopafter" | "closure" => {
                                    let mut w = rest.split_whitespace();
                                    let n: usize = w.next().unwrap().parse().unwrap();
                                    if let Some(k) = w.next() {
                                        fd.loopkinds.insert(n, k.to_string());
                                    }
                                    sect = (d.into(), n, String::new());
                                    match d {
                                        "loop" => fd.loops.entry(n).or_default(),
                                        "loopbegin" => fd.loopbegin.entry(n).or_default(),
                                        "loopend" => fd.loopend.entry(n).or_default(),
                                        "loopafter" => fd.loopafter.entry(n).or_default(),
                                        _ => fd.closures.entry(n).or_default(),
                                    };
                                }
                                "pre" => sect = ("pre".into(), 0, String::new()),
                                "post" => sect = ("post".into(), 0, String::new()),
                                "arm" => {
                                    fd.arms.push((norm(rest), String::new()));
                                    sect = ("arm".into(), fd.arms.len() - 1, String::new());
                                }
                                "aftercall" | "beforecall" => {
                                    fd.anchors.push((d == "aftercall", rest.trim().to_string(), String::new()));
                                    sect = ("anchor".into(), fd.anchors.len() - 1, String::new());
                                }
                                "sig" => fd.sig = Some(rest.to_string()),
                                "generics" => fd.generics = Some(rest.to_string()),
                                "attr" => fd.attrs.push_str(&format!("{rest}\n")),
                                _ => {
                                    if !opt_directive(&mut fd.local, d, rest) {
                                        return Err(format!("bad directive {t}"));
                                    }
                                }
                            }
                        } else {
                            let s = format!("{}\n", lines[i]);
                            match sect.0.as_str() {
                                "spec" => fd.spec.push_str(&s),
                                "pre" => fd.pre.push_str(&s),
                                "post" => fd.post.push_str(&s),
                                "loop" => fd.loops.get_mut(&sect.1).unwrap().push_str(&s),
                                "loopbegin" => fd.loopbegin.get_mut(&sect.1).unwrap().push_str(&s),
                                "loopend" => fd.loopend.get_mut(&sect.1).unwrap().push_str(&s),
                                "loopafter" => fd.loopafter.get_mut(&sect.1).unwrap().push_str(&s),
                                "arm" => fd.arms[sect.1].1.push_str(&s),
                                "anchor" => fd.anchors[sect.1].2.push_str(&s),
                                _ => fd.closures.get_mut(&sect.1).unwrap().push_str(&s),
                            }
                        }
                        i += 1;
                    }
                    let mut skipped = false;
                    let (s, ix) = srcs.get(&fd.file).ok_or(format!("no file {}", fd.file))?;
                    match ix.fns.get(&fd.path) {
                        None => lost.push(format!("function {} not found", fd.path)),
                        Some(f) => match {
                            let id = fd.rename.clone().unwrap_or(fd.path.clone());
                            let mut r = if skip.contains(&id) { Err(format!("{id}: set aside")) } else { emit_fn(s, f, &fd, &opts, probe, ix) };
                            if let Err(e) = &r {
                                // its contract is assumed, and its body left to the bounded check
                                lost.push(e.clone());
                                skipped = true;
                                let mut fd2 = fd.clone();
                                fd2.attrs.push_str("#[verifier::external_body]\n");
                                fd2.skip = true;
                                if let Some(k) = fd2.spec.find("decreases ") {
                                    fd2.spec.truncate(k);
                                }
                                r = emit_fn(s, f, &fd2, &opts, false, ix);
                            } else {
                                skipped = false;
                            }
                            r
                        } {
                            Err(_) => {}
                            Ok((t, lg, body)) => {
                                let start = out.matches('\n').count() + 1;
                                out.push_str(&t);
                                out.push('\n');
                                let end = out.matches('\n').count();
                                let (a, _) = s.range(f.sig.span());
                                let line = s.text[..a].matches('\n').count() + 1;
                                fns.push(serde_json::json!({"name": fd.path, "file": fd.file, "line": line, "start": start, "end": end, "props": fd.props, "edits": lg, "as": fd.rename, "skipped": skipped, "body": body}));
                                log.extend(lg);
                            }
                        },
                    }
                }
                _ => {
                    if !opt_directive(&mut opts, d, rest) {
                        return Err(format!("bad directive {l}"));
                    }
                }
            }
        } else {
            out.push_str(&lines[i]);
            out.push('\n');
        }
        i += 1;
    }
    log.sort();
    log.dedup();
    Ok((out, serde_json::json!({"fns": fns, "lost": lost, "edits": log})))
}

fn emit_type(s: &Src, it: &syn::Item, o: &Opts, derive: Option<&str>) -> String {
    let mut ed = new_ed(s, vec![o]);
    // strip attributes, make everything public
    struct V<'a, 'b>(&'a mut Ed<'b>);
    let (mut a, b) = s.node(it);
    let (attrs, vis, kw) = match it {
        syn::Item::Struct(x) => (&x.attrs, &x.vis, x.struct_token.span),
        syn::Item::Enum(x) => (&x.attrs, &x.vis, x.enum_token.span),
        _ => unreachable!(),
    };
    let _ = vis;
    for at in attrs {
        let _ = at;
    }
    a = a.max(s.range(kw).0);
    let fields = match it {
        syn::Item::Struct(x) => x.fields.iter().collect::<Vec<_>>(),
        _ => vec![],
    };
    for f in fields {
        let p = match &f.ident {
            Some(i) => s.range(i.span()).0,
            None => s.node(&f.ty).0,
        };
        let st = match &f.vis {
            syn::Visibility::Inherited => p,
            v => s.node(v).0,
        };
        ed.edit(st, p, "pub ");
    }
    match it {
        syn::Item::Struct(x) => {
            for f in &x.fields {
                for at in &f.attrs {
                    ed.visit_attribute(at);
                }
                ed.visit_type(&f.ty);
            }
        }
        syn::Item::Enum(x) => {
            for v in &x.variants {
                for at in &v.attrs {
                    ed.visit_attribute(at);
                }
                for f in &v.fields {
                    for at in &f.attrs {
                        ed.visit_attribute(at);
                    }
                    ed.visit_type(&f.ty);
                }
            }
        }
        _ => {}
    }
    let _ = V(&mut ed);
    let t = apply(&s.text, a, b, &mut ed.edits);
    let d = derive.map(|d| format!("#[derive({d})]\n")).unwrap_or_default();
    format!("{d}pub {t}\n")
}
fn new_ed<'s>(s: &'s Src, o: Vec<&'s Opts>) -> Ed<'s> {
    Ed { src: s, o, edits: vec![], seq: 0, log: vec![], loops: vec![], loopvars: vec![], forinfo: BTreeMap::new(), closures: vec![], closure_bodies: vec![], closure_lets: BTreeMap::new(), etas: BTreeMap::new(), closure_params: vec![], unsupported: vec![], calls: vec![], arms: vec![], stmts: vec![], probe_exprs: false, auto_inline: false }
}

fn subst(text: &str, params: &[String], actual: &[String]) -> String {
    let mut t = text.to_string();
    let mut idx: Vec<usize> = (0..params.len()).collect();
    idx.sort_by_key(|i| std::cmp::Reverse(params[*i].len()));
    for i in idx {
        t = t.replace(&format!("${}", params[i]), &actual[i]);
    }
    t
}

// $1, $2.. in the contract of a closure: its parameters
fn nth(text: &str, names: &[String]) -> String {
    let mut t = text.to_string();
    for (i, n) in names.iter().enumerate().rev() {
        t = t.replace(&format!("${}", i + 1), n);
    }
    t
}

fn emit_fn(s: &Src, f: &FnItem, fd: &FnDir, o: &Opts, probe: bool, _ix: &Index) -> Result<(String, Vec<String>, String), String> {
    let mut ed = new_ed(s, vec![o, &fd.local]);
    ed.auto_inline = fd.closures.is_empty();
    let sig = &f.sig;
    // parameters
    let mut actual = vec![];
    for (n, a) in sig.inputs.iter().enumerate() {
        match a {
            syn::FnArg::Receiver(_) => actual.push("self".to_string()),
            syn::FnArg::Typed(t) => match &*t.pat {
                syn::Pat::Ident(i) => actual.push(i.ident.to_string()),
                syn::Pat::Wild(_) => {
                    let (a, b) = s.node(&*t.pat);
                    let nm = format!("_vx_arg{n}");
                    ed.edit(a, b, nm.clone());
                    actual.push(nm);
                }
                _ => return Err(format!("{}: parameter pattern", fd.path)),
            },
        }
    }
    if !fd.params.is_empty() && fd.params.len() != actual.len() {
        return Err(format!("{}: {} parameters, expected {}", fd.path, actual.len(), fd.params.len()));
    }
    let (fs, _) = s.range(sig.fn_token.span);
    let (ids, ide) = s.range(sig.ident.span());
    if let Some(r) = &fd.rename {
        ed.edit(ids, ide, r.clone());
    }
    for a in &sig.inputs {
        if let syn::FnArg::Typed(t) = a {
            for at in &t.attrs {
                ed.visit_attribute(at);
            }
            // closures passed by reference
            if let (syn::Pat::Ident(i), syn::Type::Path(_)) = (&*t.pat, &*t.ty) {
                if o.closure_ref.iter().chain(fd.local.closure_ref.iter()).any(|(n, v)| *n == sig.ident.to_string() && i.ident == v) {
                    let (ts, _) = s.node(&*t.ty);
                    ed.edit(ts, ts, "&");
                    ed.log.push(format!("parameter {} taken by reference", i.ident));
                }
            }
            ed.visit_type(&t.ty);
        } else if let syn::FnArg::Receiver(r) = a {
            let k = tnorm(r);
            if let Some(rep) = Ed::lookup(o.typemap.iter().chain(fd.local.typemap.iter()), &k) {
                let (a, b) = s.node(r);
                ed.edit(a, b, rep);
            }
        }
    }
    if let Some(g) = &fd.generics {
        // replace generics and where clause
        let (_, gs) = s.range(sig.ident.span());
        let ge = s.range(sig.paren_token.span.open()).0;
        ed.edit(gs, ge, g.clone());
        if let Some(w) = &sig.generics.where_clause {
            let (a, b) = s.node(w);
            ed.edit(a, b, "");
        }
        ed.log.push(format!("generics of {} written as {g}", fd.path));
    } else {
        ed.visit_generics(&sig.generics);
    }
    let (bo, bc) = (s.range(f.block.brace_token.span.open()), s.range(f.block.brace_token.span.close()));
    let mut sigend = s.range(sig.paren_token.span.close()).1;
    match &sig.output {
        syn::ReturnType::Default => {}
        syn::ReturnType::Type(_, t) => {
            let (a, b) = s.node(&**t);
            sigend = b;
            if let Some(r) = &fd.ret {
                ed.edit(a, a, format!("({r}: "));
                ed.edit(b, b, ")");
            }
            ed.visit_type(t);
        }
    }
    let _ = sigend;
    if let Some(t) = &fd.sig {
        ed.edits.clear();
        ed.log.clear();
        ed.edit(fs, bo.0, t.clone());
        ed.log.push(format!("signature of {} instantiated: {t}", fd.path));
    }
    let spec = subst(&fd.spec, &fd.params, &actual);
    ed.edit(bo.0, bo.0, format!("\n{spec}\n"));
    if fd.skip {
        ed.edit(bo.0, bc.1, "{ unimplemented!() }");
        let t = apply(&s.text, fs, bc.1, &mut ed.edits);
        return Ok((format!("{}{}", fd.attrs, t), vec![], String::new()));
    }
    let pre = subst(&fd.pre, &fd.params, &actual);
    let p = if probe { "\n proof { assert(vx_probe()); }\n" } else { "" };
    // proof text after the value of the body is known
    let wrap = !fd.post.is_empty() && fd.ret.is_some() && matches!(f.block.stmts.last(), Some(syn::Stmt::Expr(_, None))) && !matches!(sig.output, syn::ReturnType::Default);
    let w = if wrap { format!("let {} = {{", fd.ret.as_deref().unwrap()) } else { String::new() };
    ed.edit(bo.1, bo.1, format!("{p}{pre}{w}"));
    for st in &f.block.stmts {
        ed.visit_stmt(st);
    }
    if !ed.unsupported.is_empty() {
        return Err(format!("{}: unsupported construct {}", fd.path, ed.unsupported.join(", ")));
    }
    let nl = fd.nloops.unwrap_or_else(|| fd.loops.keys().max().map(|m| m + 1).unwrap_or(0));
    if ed.loops.len() != nl {
        return Err(format!("{}: {} loops, expected {}", fd.path, ed.loops.len(), nl));
    }
    for (n, kind) in &fd.loopkinds {
        if fd.loops.contains_key(n) {
            let (k, arg) = kind.split_once(':').unwrap_or((kind, ""));
            if k == "fornext" {
                let (fs, pat, xs, xe, label) = match ed.forinfo.get(n) {
                    Some(f) => f.clone(),
                    None => return Err(format!("{}: loop {n} is a {}, expected a for", fd.path, ed.loops[*n].0)),
                };
                if label {
                    return Err(format!("{}: loop {n} has a label", fd.path));
                }
                ed.edit(fs, xs, format!("{{ let mut vx_it{n} = "));
                ed.edit0(xe, "; loop ");
                let p = ed.loops[*n].2;
                ed.edit0(p, format!(" let {pat} = match vx_it{n}.next() {{ Some(vx_v) => vx_v, None => break }};"));
                let e = ed.loops[*n].4;
                ed.edit(e, e, " }");
                ed.log.push("`for p in e { .. }` -> `let mut it = e; loop { let p = match it.next() { Some(v) => v, None => break }; .. }`".into());
                continue;
            }
            if ed.loops[*n].0 != k {
                return Err(format!("{}: loop {n} is a {}, expected {k}", fd.path, ed.loops[*n].0));
            }
            if !arg.is_empty() {
                // name for the ghost iterator of a for loop
                if let Some((es, _)) = ed.loopvars[*n] {
                    ed.edit0(es, format!("{arg}: "));
                }
            }
        }
    }
    for (n, t) in &fd.loops {
        let p = ed.loops[*n].1;
        ed.edit(p, p, format!("\n{}", subst(t, &fd.params, &actual)));
    }
    for (n, t) in &fd.loopbegin {
        if *n >= ed.loops.len() { return Err(format!("{}: loop {n}", fd.path)); }
        let p = ed.loops[*n].2;
        ed.edit(p, p, format!("\n{}", subst(t, &fd.params, &actual)));
    }
    for (n, t) in &fd.loopend {
        if *n >= ed.loops.len() { return Err(format!("{}: loop {n}", fd.path)); }
        let p = ed.loops[*n].3;
        ed.edit(p, p, format!("\n{}", subst(t, &fd.params, &actual)));
    }
    for (n, t) in &fd.loopafter {
        if *n >= ed.loops.len() { return Err(format!("{}: loop {n}", fd.path)); }
        let p = ed.loops[*n].4;
        ed.edit(p, p, format!("\n{}", subst(t, &fd.params, &actual)));
    }
    for (n, t) in &fd.closures {
        if *n >= ed.closures.len() {
            return Err(format!("{}: {} closures, expected more than {n}", fd.path, ed.closures.len()));
        }
        if ed.etas.contains_key(n) {
            continue;
        }
        let (pe, bs, isblock) = ed.closures[*n];
        let t = nth(&subst(t, &fd.params, &actual), &ed.closure_params[*n]);
        ed.edit(pe, pe, format!(" {t}"));
        if !isblock {
            let (_, be) = ed.closure_bodies[*n];
            let l = ed.closure_lets.remove(n).unwrap_or_default();
            ed.edit0(bs, format!("{{ {l}"));
            ed.edit(be, be, " }");
        }
    }
    for (n, (a, b)) in std::mem::take(&mut ed.etas) {
        let t = fd.closures.get(&n).map(|t| nth(&subst(t, &fd.params, &actual), &["vx_x".to_string()])).unwrap_or_default();
        let path = ed.src.text[a..b].to_string();
        ed.edit(a, b, format!("|vx_x| {} {{ {path}(vx_x) }}", t.trim_end()));
    }
    for (n, l) in std::mem::take(&mut ed.closure_lets) {
        let (_, bs, _) = ed.closures[n];
        let (_, be) = ed.closure_bodies[n];
        ed.edit0(bs, format!("{{ {l}"));
        ed.edit(be, be, " }");
    }
    for (k, t) in &fd.arms {
        // proof text put in front of the body of the match arm whose pattern starts like this
        let hits: Vec<_> = ed.arms.iter().filter(|a| a.0.starts_with(k.as_str())).cloned().collect();
        for (_, s0, e0) in hits {
            ed.edit0(s0, format!("{{ proof {{ {} }} ", subst(t, &fd.params, &actual).trim_end()));
            ed.seq += 100000;
            ed.edit(e0, e0, " }");
        }
    }
    for (after, n, t) in &fd.anchors {
        // proof text after the let, or before the innermost statement, that calls this function
        // (a number behind the name counts the innermost such statements from the top)
        let (n, k) = match n.rsplit_once(' ') {
            Some((a, k)) if k.parse::<usize>().is_ok() => (a.to_string(), k.parse::<usize>().ok()),
            _ => (n.clone(), None),
        };
        let hits: Vec<_> = ed.stmts.iter().filter(|s| s.0.contains(&n) && (!after || s.1.is_some())).cloned().collect();
        let hit = match k {
            None => hits.iter().min_by_key(|s| s.3 - s.2).cloned(),
            Some(k) => {
                let mut inner: Vec<_> = hits.iter().filter(|s| !hits.iter().any(|t| (t.2, t.3) != (s.2, s.3) && s.2 <= t.2 && t.3 <= s.3)).cloned().collect();
                inner.sort_by_key(|s| s.2);
                inner.get(k).cloned()
            }
        };
        match hit {
            None => return Err(format!("{}: no statement calls {n}", fd.path)),
            Some((_, nm, a, b)) => {
                let t = subst(t, &fd.params, &actual).replace("$let", nm.as_deref().unwrap_or("_"));
                let p = if *after { b } else { a };
                ed.edit0(p, format!(" {} ", t.trim_end()));
            }
        }
    }
    if !fd.post.is_empty() {
        let p = bc.0;
        if matches!(f.block.stmts.last(), Some(syn::Stmt::Expr(_, None))) && matches!(sig.output, syn::ReturnType::Default) {
            ed.edit(p, p, ";");
        }
        let t = subst(&fd.post, &fd.params, &actual);
        ed.edit(p, p, if wrap { format!("}};\n{t}\n{}\n", fd.ret.as_deref().unwrap()) } else { t });
    }
    let mut lg = std::mem::take(&mut ed.log);
    lg.sort();
    lg.dedup();
    let body = s.text[bo.0..bc.1].to_string();
    let t = apply(&s.text, fs, bc.1, &mut ed.edits);
    // attributes and defaults
    Ok((format!("{}{}", fd.attrs, t), lg, body))
}
