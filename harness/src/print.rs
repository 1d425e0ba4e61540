//! Schemas in compact and XML syntax; documents.
use crate::rnd::Rnd;
use crate::sem::{Elem, Node, NC};
use crate::sx::{FileS, Knobs, Op, G, S};
use std::collections::BTreeMap;

fn nss(nc: &NC, out: &mut Vec<(String, bool)>, elem: bool) {
    match nc {
        NC::Named(n, _) => out.push((n.clone(), elem)),
        NC::Ns(n, e) => {
            out.push((n.clone(), false));
            out.push((n.clone(), false));
            if let Some(e) = e {
                nss(e, out, elem)
            }
        }
        NC::Any(e) => {
            if let Some(e) = e {
                nss(e, out, elem)
            }
        }
        NC::Alt(a, b) => {
            nss(a, out, elem);
            nss(b, out, elem)
        }
    }
}
fn walk(s: &S, f: &mut dyn FnMut(&S)) {
    f(s);
    match s {
        S::Choice(v) | S::Group(v) | S::Inter(v) => v.iter().for_each(|x| walk(x, f)),
        S::Opt(x) | S::Star(x) | S::Plus(x) | S::Mixed(x) | S::List(x) | S::Att(_, x) | S::Elem(_, x) => walk(x, f),
        S::Data(_, _, Some(e)) => walk(e, f),
        S::Grammar(v) => v.iter().for_each(|g| walkg(g, f)),
        _ => {}
    }
}
fn walkg(g: &G, f: &mut dyn FnMut(&S)) {
    match g {
        G::Def(_, _, s) => walk(s, f),
        G::Include(_, v) | G::Div(v) => v.iter().for_each(|g| walkg(g, f)),
    }
}
fn walkf(x: &FileS, f: &mut dyn FnMut(&S)) {
    match x {
        FileS::Pattern(s) => walk(s, f),
        FileS::Grammar(v) => v.iter().for_each(|g| walkg(g, f)),
    }
}
pub fn fname(i: usize, xml: bool) -> String {
    format!("{}{i}.{}", if i == 0 { "main" } else { "f" }, if xml { "rng" } else { "rnc" })
}

// ------------------------------------------------------------------------------------------------ compact syntax
struct Rnc<'r> {
    r: &'r mut Rnd,
    k: Knobs,
    default: String,
    pfx: BTreeMap<String, String>, // uri -> prefix
    dtp: Option<String>,           // prefix for the xsd library, if declared under another name
    inherit: BTreeMap<usize, String>, // how files are included
}
pub fn rnc(r: &mut Rnd, k: &Knobs, files: &[FileS]) -> Vec<(String, String)> {
    let mut out = vec![(String::new(), String::new()); files.len()];
    // default namespace in force where each file is included from
    let mut inherited: BTreeMap<usize, String> = BTreeMap::new();
    let mut todo = vec![0];
    let mut done = vec![false; files.len()];
    while let Some(i) = todo.pop() {
        if std::mem::replace(&mut done[i], true) {
            continue; // files that include each other
        }
        let f = &files[i];
        let inh = inherited.get(&i).cloned().unwrap_or_default();
        let mut used = vec![];
        let mut kids = vec![];
        walkf(f, &mut |s| match s {
            S::Elem(nc, _) => nss(nc, &mut used, true),
            S::Att(nc, _) => nss(nc, &mut used, false),
            S::External(j) => kids.push(*j),
            _ => {}
        });
        fn incs(v: &[G], out: &mut Vec<usize>) {
            for g in v {
                match g {
                    G::Include(j, _) => out.push(*j),
                    G::Div(v) => incs(v, out),
                    _ => {}
                }
            }
        }
        walkf(f, &mut |s| {
            if let S::Grammar(v) = s {
                incs(v, &mut kids)
            }
        });
        if let FileS::Grammar(v) = f {
            incs(v, &mut kids)
        }
        let mut head: Vec<String> = vec![];
        // element names in no namespace have to be written without a prefix
        let needs_none = used.iter().any(|(n, e)| n.is_empty() && *e);
        let mut prefixes = vec!["p", "q", "r", "pre", "x", "s.t", "u-v"];
        r.shuffle(&mut prefixes);
        let mut pfx = BTreeMap::new();
        let mut uris: Vec<String> = used.iter().map(|(n, _)| n.clone()).filter(|n| !n.is_empty()).collect();
        if uris.iter().any(|u| u == XMLNS) {
            pfx.insert(XMLNS.to_string(), "xml".to_string());
            uris.retain(|u| u != XMLNS);
        }
        uris.sort();
        uris.dedup();
        let mut default = inh.clone();
        let pick = if needs_none { String::new() } else if !uris.is_empty() { r.pick(&uris).clone() } else { "urn:a".into() };
        let mut declared_default = false;
        if default != pick && (needs_none || r.pct(50)) {
            default = pick;
            declared_default = true;
        } else if r.pct(20) {
            declared_default = true; // say it again
        }
        let mut default_prefix = None;
        if declared_default {
            if !default.is_empty() && r.pct(30) {
                let p = prefixes.pop().unwrap();
                default_prefix = Some(p);
                head.push(format!("default namespace {p} = {}", uri(&default, &inh, r)));
            } else {
                head.push(format!("default namespace = {}", uri(&default, &inh, r)));
            }
        }
        for u in &uris {
            if *u == default && default_prefix.is_some() && r.pct(60) {
                pfx.insert(u.clone(), default_prefix.unwrap().to_string());
                continue;
            }
            let p = prefixes.pop().unwrap();
            head.push(format!("namespace {p} = {}", uri(u, &inh, r)));
            pfx.insert(u.clone(), p.to_string());
        }
        // names in no namespace in name classes such as nsName
        if used.iter().any(|(n, _)| n.is_empty()) {
            head.push(format!("namespace none = {}", uri("", &inh, r)));
            pfx.insert(String::new(), "none".into());
        }
        let mut dtp = None;
        if r.pct(k.ns / 2) {
            let p = if r.pct(50) { "xsd" } else { "dt" };
            dtp = Some(p.to_string());
            head.push(format!("datatypes {p} = \"http://www.w3.org/2001/XMLSchema-datatypes\""));
        }
        if r.pct(k.ns / 4) {
            head.push("namespace unused = \"urn:unused\"".into());
        }
        r.shuffle(&mut head);
        let mut inherit = BTreeMap::new();
        for j in kids {
            inherited.insert(j, default.clone());
            if !pfx.is_empty() && r.pct(k.ns / 2) {
                let all: Vec<(&String, &String)> = pfx.iter().collect();
                let (u, p) = *r.pick(&all);
                inherited.insert(j, u.clone());
                inherit.insert(j, format!(" inherit = {p}"));
            }
            todo.push(j);
        }
        let mut pr = Rnc { r, k: k.clone(), default, pfx, dtp, inherit };
        let mut t = head.join("\n");
        t.push('\n');
        match f {
            FileS::Pattern(s) => t.push_str(&pr.pat(s, 0)),
            FileS::Grammar(v) => {
                let v: Vec<String> = v.iter().map(|g| pr.gram(g)).collect();
                t.push_str(&v.join("\n"));
            }
        }
        t.push('\n');
        if r.pct(k.annot * 4) {
            t = respace(&t, r);
        }
        out[i] = (fname(i, false), t);
    }
    out
}
const KEYWORDS: [&str; 19] = [
    "attribute", "default", "datatypes", "div", "element", "empty", "external", "grammar", "include", "inherit", "list", "mixed", "namespace", "notAllowed", "parent", "start", "string", "text", "token",
];
/// a namespace that is declared, perhaps as the one inherited
fn uri(s: &str, inherited: &str, r: &mut Rnd) -> String {
    if s == inherited && r.pct(40) {
        "inherit".into()
    } else {
        lit(s, r)
    }
}
fn quote(s: &str, r: &mut Rnd) -> String {
    // (\x{...} escapes are not supported; a long literal may contain line breaks)
    let line = !s.contains(['\n', '\r']);
    let mut v = vec![];
    for (q, w) in [("\"", 10), ("'", 3), ("\"\"\"", 1), ("'''", 1)] {
        let c = &q[..1];
        if if q.len() == 1 { line && !s.contains(c) } else { !s.contains(q) && !s.ends_with(c) } {
            v.extend(vec![q; w]);
        }
    }
    let q = if v.is_empty() { "\"\"\"" } else { *r.pick(&v) };
    format!("{q}{s}{q}")
}
fn lit(s: &str, r: &mut Rnd) -> String {
    if r.pct(8) {
        // in several segments
        let c: Vec<char> = s.chars().collect();
        let k = r.below(c.len() + 1);
        let (a, b): (String, String) = (c[..k].iter().collect(), c[k..].iter().collect());
        let t = quote(&a, r);
        return format!("{t} ~ {}", lit(&b, r));
    }
    quote(s, r)
}
/// the same tokens with other white space and comments between them
fn respace(t: &str, r: &mut Rnd) -> String {
    let c: Vec<char> = t.chars().collect();
    // lexemes: literals, runs of white space and comments, single punctuation marks, anything else
    let mut v: Vec<String> = vec![];
    let mut i = 0;
    while i < c.len() {
        let s = i;
        if c[i] == '"' || c[i] == '\'' {
            let n = if i + 2 < c.len() && c[i + 1] == c[i] && c[i + 2] == c[i] { 3 } else { 1 };
            i += n;
            while i + n <= c.len() && !c[i..i + n].iter().all(|x| *x == c[s]) {
                i += 1;
            }
            i += n;
            if i > c.len() {
                return t.into();
            }
        } else if c[i].is_whitespace() || c[i] == '#' {
            while i < c.len() && (c[i].is_whitespace() || c[i] == '#') {
                if c[i] == '#' {
                    while i < c.len() && c[i] != '\n' && c[i] != '\r' {
                        i += 1;
                    }
                } else {
                    i += 1;
                }
            }
        } else if "{}(),?".contains(c[i]) {
            i += 1;
        } else {
            while i < c.len() && !c[i].is_whitespace() && !"{}(),?#\"'".contains(c[i]) {
                i += 1;
            }
        }
        v.push(c[s..i].iter().collect());
    }
    let space = |r: &mut Rnd| match r.below(9) {
        0 => "\n".to_string(),
        1 => "\t".into(),
        2 => "\r\n".into(),
        3 => format!("{}#{}\n", r.pick(&["", " "]), r.pick(&["", "# doc", " it's", " \" { ( start = text", " )}]", " \u{e9}"])),
        4 => "  ".into(),
        _ => " ".into(),
    };
    let mut o = String::new();
    for k in 0..v.len() {
        let p = if k > 0 { v[k - 1].as_str() } else { "" };
        let n = v.get(k + 1).map_or("", |s| s.as_str());
        let x = &v[k];
        if x.starts_with(|c: char| c.is_whitespace() || c == '#') {
            let tail = k + 1 == v.len();
            let drop = tail || matches!(p, "{" | "(" | "," | "=" | "|=" | "&=" | "|" | "&" | "~" | "-") || matches!(n, "{" | "}" | ")" | "," | "=" | "|=" | "&=" | "|" | "&" | "~" | "?");
            if drop && r.pct(40) {
                if tail && r.pct(30) {
                    o.push_str("# the end");
                }
            } else if r.pct(40) {
                o.push_str(&space(r));
            } else {
                o.push_str(x);
            }
        } else {
            let mark = |s: &str| s.len() == 1 && "{}(),?".contains(s);
            let pw = p.is_empty() || p.starts_with(|c: char| c.is_whitespace() || c == '#');
            let literal = p.starts_with(['"', '\'']);
            if !pw && (mark(x) || mark(p) || literal && x.starts_with(['*', '+'])) && r.pct(15) {
                o.push_str(&space(r));
            }
            o.push_str(x);
        }
    }
    o
}
// precedence levels: 0 anything, 1 operand of a connector, 2 operand of ?*+
impl<'r> Rnc<'r> {
    fn par(&mut self, s: String, need: bool) -> String {
        if need || self.r.pct(self.k.nest / 4) {
            format!("({s})")
        } else {
            s
        }
    }
    /// an annotation before something
    fn note(&mut self) -> String {
        if !self.r.pct(self.k.annot / 4) {
            return String::new();
        }
        self.r.pick(&["[] ", "[ x = \"1\" ]", "[a:y=\"\" z = 'q']\n", "[ element [ ] ] ", "[ x=\"\" a:doc [ lang = \"en\" \"some text\" b [ ] ] ] "]).to_string()
    }
    /// and after it
    fn after(&mut self) -> String {
        if !self.r.pct(self.k.annot / 8) {
            return String::new();
        }
        self.r.pick(&[" >> x []", ">>a:doc [ x = \"1\" ] ", " >> element [ \"text\" ] >> y [ ]"]).to_string()
    }
    fn pat(&mut self, s: &S, lvl: u8) -> String {
        let t = self.pat0(s, lvl);
        let whole = !matches!(s, S::Opt(_) | S::Star(_) | S::Plus(_) | S::Choice(_) | S::Group(_) | S::Inter(_) | S::Raw(..));
        let n = if t.starts_with('[') { String::new() } else { self.note() };
        let a = if whole { self.after() } else { String::new() };
        format!("{n}{t}{a}")
    }
    fn pat0(&mut self, s: &S, lvl: u8) -> String {
        match s {
            S::Empty => "empty".into(),
            S::NotAllowed => "notAllowed".into(),
            S::Text => "text".into(),
            S::Choice(v) | S::Group(v) | S::Inter(v) => {
                let op = match s {
                    S::Choice(_) => " | ",
                    S::Group(_) => ", ",
                    _ => " & ",
                };
                let v: Vec<String> = v.iter().map(|x| self.pat(x, 1)).collect();
                let t = v.join(op);
                self.par(t, lvl > 0)
            }
            S::Opt(x) => self.post(x, '?', lvl),
            S::Star(x) => self.post(x, '*', lvl),
            S::Plus(x) => self.post(x, '+', lvl),
            S::Mixed(x) => format!("mixed {{ {} }}", self.pat(x, 0)),
            S::List(x) => format!("list {{ {} }}", self.pat(x, 0)),
            S::Att(nc, x) => format!("attribute {} {{ {} }}", self.nc(nc, false, 0), self.pat(x, 0)),
            S::Elem(nc, x) => format!("element {} {{ {} }}", self.nc(nc, true, 0), self.pat(x, 0)),
            S::Ref(n) => self.id(n),
            S::Parent(n) => format!("parent {}", self.id(n)),
            S::Value(dt, v) => {
                let p = if dt.xsd {
                    format!("{}:{} ", self.dtp.clone().unwrap_or("xsd".into()), dt.name)
                } else if dt.name == "string" {
                    "string ".into()
                } else if self.r.pct(50) {
                    "token ".to_string()
                } else {
                    String::new()
                };
                format!("{p}{}", lit(v, self.r))
            }
            S::Data(dt, ps, e) => {
                let mut t = if dt.xsd { format!("{}:{}", self.dtp.clone().unwrap_or("xsd".into()), dt.name) } else { dt.name.clone() };
                if !ps.is_empty() {
                    let v: Vec<String> = ps.iter().map(|(k, v)| format!("{}{k} = {}", self.note(), lit(v, self.r))).collect();
                    t = format!("{t} {{ {} }}", v.join(" "));
                }
                if let Some(e) = e {
                    let needs = matches!(**e, S::Choice(_));
                    let s = self.pat(e, if needs { 2 } else { 1 });
                    t = format!("{t} - {s}");
                    // an except binds to what follows it: parenthesise so that nothing is appended
                    return format!("({t})");
                }
                t
            }
            S::Grammar(v) => {
                let v: Vec<String> = v.iter().map(|g| self.gram(g)).collect();
                format!("grammar {{ {} }}", v.join("\n"))
            }
            S::External(f) => format!("external \"{}\"{}", fname(*f, false), self.inherit.get(f).cloned().unwrap_or_default()),
            S::Raw(t, _) => t.clone(),
        }
    }
    /// an identifier, quoted if it has to be
    fn id(&mut self, n: &str) -> String {
        // (the definition called start, which is not the start of the grammar, has the backslash already)
        if n.starts_with('\\') {
            n.to_string()
        } else if KEYWORDS.contains(&n) || self.r.pct(4) {
            format!("\\{n}")
        } else {
            n.to_string()
        }
    }
    fn post(&mut self, x: &S, op: char, _lvl: u8) -> String {
        let need = matches!(x, S::Choice(_) | S::Group(_) | S::Inter(_) | S::Opt(_) | S::Star(_) | S::Plus(_));
        let t = self.pat(x, 0);
        let t = if need { format!("({t})") } else { self.par(t, false) };
        format!("{t}{op}")
    }
    fn nc(&mut self, nc: &NC, elem: bool, lvl: u8) -> String {
        let t = self.nc0(nc, elem, lvl);
        let n = if t.starts_with('[') { String::new() } else { self.note() };
        let a = if matches!(nc, NC::Named(..)) { self.after() } else { String::new() };
        format!("{n}{t}{a}")
    }
    fn nc0(&mut self, nc: &NC, elem: bool, lvl: u8) -> String {
        match nc {
            NC::Named(ns, l) => {
                let implied = if elem { self.default.clone() } else { String::new() };
                if *ns == implied && (self.r.pct(70) || !self.pfx.contains_key(ns)) {
                    if self.r.pct(4) { format!("\\{l}") } else { l.clone() }
                } else {
                    format!("{}:{l}", self.pfx[ns])
                }
            }
            NC::Ns(ns, e) => {
                let t = format!("{}:*", self.pfx[ns]);
                match e {
                    None => t,
                    Some(e) => {
                        let t = format!("{t} - {}", self.nc(e, elem, 2));
                        if lvl > 0 {
                            format!("({t})")
                        } else {
                            t
                        }
                    }
                }
            }
            NC::Any(e) => match e {
                None => "*".into(),
                Some(e) => {
                    let t = format!("* - {}", self.nc(e, elem, 2));
                    if lvl > 0 {
                        format!("({t})")
                    } else {
                        t
                    }
                }
            },
            NC::Alt(a, b) => {
                let t = format!("{} | {}", self.nc(a, elem, 1), self.nc(b, elem, 1));
                if lvl > 0 || self.r.pct(20) {
                    format!("({t})")
                } else {
                    t
                }
            }
        }
    }
    fn gram(&mut self, g: &G) -> String {
        let t = self.gram0(g);
        let n = self.note();
        let e = if self.r.pct(self.k.annot / 8) { "a:doc [ x = \"1\" \"text\" ]\n" } else { "" };
        format!("{e}{n}{t}")
    }
    fn gram0(&mut self, g: &G) -> String {
        match g {
            G::Def(n, op, s) => {
                let o = match op {
                    Op::Assign => "=",
                    Op::Choice => "|=",
                    Op::Inter => "&=",
                };
                let c = if self.r.pct(self.k.annot) { "# a comment\n" } else { "" };
                let n = if n == "start" { n.clone() } else { self.id(n) };
                format!("{c}{n} {o} {}", self.pat(s, 0))
            }
            G::Include(f, v) => {
                let t = format!("include \"{}\"{}", fname(*f, false), self.inherit.get(f).cloned().unwrap_or_default());
                if v.is_empty() {
                    t
                } else {
                    let v: Vec<String> = v.iter().map(|g| self.gram(g)).collect();
                    format!("{t} {{ {} }}", v.join("\n"))
                }
            }
            G::Div(v) => {
                let v: Vec<String> = v.iter().map(|g| self.gram(g)).collect();
                format!("div {{ {} }}", v.join("\n"))
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ XML syntax
pub fn esc(s: &str, attr: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '&' => o.push_str("&amp;"),
            '>' => o.push_str("&gt;"),
            '"' if attr => o.push_str("&quot;"),
            '\n' | '\t' | '\r' if attr => o.push_str(&format!("&#{};", c as u32)),
            c => o.push(c),
        }
    }
    o
}
#[derive(Clone)]
struct Cx {
    ns: String,
    dt: String,
}
struct Rng<'r> {
    r: &'r mut Rnd,
    k: Knobs,
    pfx: BTreeMap<String, String>,
    rng_pfx: &'static str, // prefix for the RELAX NG namespace itself ("" or "rng:")
}
const XSD: &str = "http://www.w3.org/2001/XMLSchema-datatypes";
pub fn rng(r: &mut Rnd, k: &Knobs, files: &[FileS]) -> Vec<(String, String)> {
    let mut out = vec![];
    for (i, f) in files.iter().enumerate() {
        let mut pfx = BTreeMap::new();
        let mut prefixes = vec!["p", "q", "r", "pre", "x"];
        r.shuffle(&mut prefixes);
        let mut at = String::new();
        pfx.insert(XMLNS.to_string(), "xml".to_string());
        for u in ["urn:a", "urn:b"] {
            if r.pct(50) {
                let p = prefixes.pop().unwrap();
                at.push_str(&format!(" xmlns:{p}=\"{u}\""));
                pfx.insert(u.to_string(), p.to_string());
            }
        }
        let rp = if r.pct(k.ns / 3) { "rng:" } else { "" };
        at.push_str(&if rp.is_empty() { " xmlns=\"http://relaxng.org/ns/structure/1.0\"".to_string() } else { " xmlns:rng=\"http://relaxng.org/ns/structure/1.0\"".to_string() });
        let mut cx = Cx { ns: String::new(), dt: String::new() };
        // written on the outermost element, so that nothing depends on how files are put together
        cx.ns = r.pick(&["", "urn:a", "urn:b"]).to_string();
        if !cx.ns.is_empty() || i > 0 || r.pct(30) {
            at.push_str(&format!(" ns=\"{}\"", cx.ns));
        }
        cx.dt = r.pick(&["", XSD]).to_string();
        if !cx.dt.is_empty() || i > 0 || r.pct(20) {
            at.push_str(&format!(" datatypeLibrary=\"{}\"", cx.dt));
        }
        let mut pr = Rng { r, k: k.clone(), pfx, rng_pfx: rp };
        let t = match f {
            FileS::Pattern(s) => pr.pat(s, &cx, &at),
            FileS::Grammar(v) => pr.grammar(v, &cx, &at),
        };
        let decl = if r.pct(50) { "<?xml version=\"1.0\"?>\n" } else { "" };
        out.push((fname(i, true), format!("{decl}{t}\n")));
    }
    out
}
impl<'r> Rng<'r> {
    fn el(&mut self, name: &str, at: &str, kids: &str) -> String {
        let p = self.rng_pfx;
        let mut at = at.to_string();
        if self.r.pct(self.k.annot / 3) {
            at.push_str(" xmlns:f=\"urn:foreign\" f:name=\"other\" f:ns=\"urn:other\"");
        }
        if kids.is_empty() && self.r.pct(70) {
            format!("<{p}{name}{at}/>")
        } else {
            let (a, b) = if matches!(name, "value" | "name" | "param") { (String::new(), String::new()) } else { (self.noise(), self.noise()) };
            format!("<{p}{name}{at}>{a}{kids}{b}</{p}{name}>")
        }
    }
    fn noise(&mut self) -> String {
        if !self.r.pct(self.k.annot) {
            return if self.r.pct(50) { "\n".into() } else { String::new() };
        }
        match self.r.below(4) {
            0 => "<!-- <text/> -->".into(),
            1 => "<f:doc xmlns:f=\"urn:foreign\">some <f:b/> text</f:doc>".into(),
            2 => "<doc xmlns=\"urn:foreign\"/>".into(),
            _ => " \n ".into(),
        }
    }
    /// possibly set ns or datatypeLibrary here
    fn shift(&mut self, cx: &Cx) -> (Cx, String) {
        let mut c = cx.clone();
        let mut at = String::new();
        if self.r.pct(self.k.ns / 2) {
            c.ns = self.r.pick(&["", "urn:a", "urn:b"]).to_string();
            at.push_str(&format!(" ns=\"{}\"", c.ns));
        }
        if self.r.pct(self.k.ns / 3) {
            c.dt = self.r.pick(&["", XSD]).to_string();
            at.push_str(&format!(" datatypeLibrary=\"{}\"", c.dt));
        }
        (c, at)
    }
    fn kids(&mut self, v: &[S], cx: &Cx) -> String {
        let mut t = String::new();
        for s in v {
            t.push_str(&self.pat(s, cx, ""));
            t.push_str(&self.noise());
        }
        t
    }
    /// the contents of an element whose children are grouped
    fn body(&mut self, s: &S, cx: &Cx) -> String {
        match s {
            S::Group(v) if self.r.pct(75) => {
                let mut t = String::new();
                for x in v {
                    // a nested group may be spliced in, too
                    t.push_str(&self.body(x, cx));
                    t.push_str(&self.noise());
                }
                t
            }
            _ => self.pat(s, cx, ""),
        }
    }
    fn pat(&mut self, s: &S, cx0: &Cx, at0: &str) -> String {
        let (cx, at) = if at0.is_empty() { self.shift(cx0) } else { (cx0.clone(), at0.to_string()) };
        let cx = &cx;
        match s {
            S::Empty => self.el("empty", &at, ""),
            S::NotAllowed => self.el("notAllowed", &at, ""),
            S::Text => self.el("text", &at, ""),
            S::Choice(v) => {
                let k = self.kids(v, cx);
                self.el("choice", &at, &k)
            }
            S::Group(v) => {
                let k = self.kids(v, cx);
                self.el("group", &at, &k)
            }
            S::Inter(v) => {
                let k = self.kids(v, cx);
                self.el("interleave", &at, &k)
            }
            S::Opt(x) => {
                let k = self.body(x, cx);
                self.el("optional", &at, &k)
            }
            S::Star(x) => {
                let k = self.body(x, cx);
                self.el("zeroOrMore", &at, &k)
            }
            S::Plus(x) => {
                let k = self.body(x, cx);
                self.el("oneOrMore", &at, &k)
            }
            S::Mixed(x) => {
                let k = self.body(x, cx);
                self.el("mixed", &at, &k)
            }
            S::List(x) => {
                let k = self.body(x, cx);
                self.el("list", &at, &k)
            }
            S::Elem(nc, x) => {
                let (cx2, at2, nk) = self.named(nc, cx, at, true);
                let k = self.body(x, &cx2);
                let n = self.noise();
                self.el("element", &at2, &format!("{nk}{n}{k}"))
            }
            S::Att(nc, x) => {
                let (cx2, at2, nk) = self.named(nc, cx, at, false);
                let k = if matches!(**x, S::Text) && self.r.pct(50) { String::new() } else { self.pat(x, &cx2, "") };
                self.el("attribute", &at2, &format!("{nk}{k}"))
            }
            S::Ref(n) => {
                let n = self.sp(n.trim_start_matches('\\'));
                self.el("ref", &format!("{at} name=\"{n}\""), "")
            }
            S::Parent(n) => {
                let n = self.sp(n.trim_start_matches('\\'));
                self.el("parentRef", &format!("{at} name=\"{n}\""), "")
            }
            S::Value(dt, v) => {
                let lib = if dt.xsd { XSD } else { "" };
                let mut at = at;
                if !dt.xsd && dt.name == "token" && self.r.pct(50) {
                    // without a type attribute, it's the built-in token
                } else {
                    at.push_str(&format!(" type=\"{}\"", dt.name));
                    if cx.dt != lib {
                        at = drop_att(&at, "datatypeLibrary");
                        at.push_str(&format!(" datatypeLibrary=\"{lib}\""));
                    }
                }
                let t = self.text(v);
                self.el("value", &at, &t)
            }
            S::Data(dt, ps, e) => {
                let lib = if dt.xsd { XSD } else { "" };
                let mut at = format!("{at} type=\"{}\"", dt.name);
                let mut cx2 = cx.clone();
                if cx.dt != lib {
                    at = drop_att(&at, "datatypeLibrary");
                    at.push_str(&format!(" datatypeLibrary=\"{lib}\""));
                    cx2.dt = lib.into();
                }
                let mut k = String::new();
                for (n, v) in ps {
                    let v = self.text(v);
                    k.push_str(&self.el("param", &format!(" name=\"{n}\""), &v));
                    k.push_str(&self.noise());
                }
                if let Some(e) = e {
                    let x = match &**e {
                        S::Choice(v) if self.r.pct(60) => self.kids(v, &cx2),
                        e => self.pat(e, &cx2, ""),
                    };
                    k.push_str(&self.el("except", "", &x));
                }
                self.el("data", &at, &k)
            }
            S::Grammar(v) => self.grammar(v, cx, &at),
            S::Raw(_, t) => t.replace('%', self.rng_pfx),
            S::External(f) => self.el("externalRef", &format!("{at} href=\"{}\"", fname(*f, true)), ""),
        }
    }
    fn sp(&mut self, n: &str) -> String {
        n.to_string()
    }
    fn text(&mut self, v: &str) -> String {
        if v.contains("]]>") || v.is_empty() {
            return esc(v, false);
        }
        let parts: Vec<char> = v.chars().collect();
        let cut = self.r.below(parts.len() + 1);
        let (a, b): (String, String) = (parts[..cut].iter().collect(), parts[cut..].iter().collect());
        match self.r.below(6) {
            0 => format!("{}<!-- c -->{}", esc(&a, false), esc(&b, false)),
            1 => format!("{}<![CDATA[{}]]>", esc(&a, false), b),
            _ => esc(v, false),
        }
    }
    /// the name of an element or attribute pattern: context for its children, attributes, and name class child
    fn named(&mut self, nc: &NC, cx: &Cx, at: String, elem: bool) -> (Cx, String, String) {
        if let NC::Named(ns, l) = nc {
            let own_ns = at.contains(" ns=\"");
            let plain = if elem || own_ns { *ns == cx.ns } else { ns.is_empty() };
            if plain && self.r.pct(70) {
                return (cx.clone(), format!("{at} name=\"{l}\""), String::new());
            }
            if let Some(p) = self.pfx.get(ns).cloned() {
                if self.r.pct(60) {
                    return (cx.clone(), format!("{at} name=\"{p}:{l}\""), String::new());
                }
            }
            if !ns.is_empty() && ns != XMLNS && self.r.pct(10) {
                return (cx.clone(), format!("{at} xmlns:own=\"{ns}\" name=\"own:{l}\""), String::new());
            }
            if self.r.pct(50) {
                let mut c = cx.clone();
                c.ns = ns.clone();
                let at = drop_att(&at, "ns");
                return (c, format!("{at} ns=\"{ns}\" name=\"{l}\""), String::new());
            }
        }
        let k = self.nc(nc, cx);
        (cx.clone(), at, k)
    }
    fn nc(&mut self, nc: &NC, cx: &Cx) -> String {
        match nc {
            NC::Named(ns, l) => {
                if *ns == cx.ns && self.r.pct(60) {
                    return self.el("name", "", l);
                }
                if let Some(p) = self.pfx.get(ns).cloned() {
                    if self.r.pct(50) {
                        return self.el("name", "", &format!("{p}:{l}"));
                    }
                }
                if !ns.is_empty() && ns != XMLNS && self.r.pct(30) {
                    // a prefix of its own, which may hide one of the schema's
                    let p = *self.r.pick(&["own", "p", "q", "x"]);
                    return self.el("name", &format!(" xmlns:{p}=\"{ns}\""), &format!("{p}:{l}"));
                }
                let l = if self.r.pct(20) { format!(" {l}\n") } else { l.clone() };
                self.el("name", &format!(" ns=\"{ns}\""), &l)
            }
            NC::Ns(ns, e) => {
                let mut c = cx.clone();
                let at = if *ns == cx.ns && self.r.pct(60) {
                    String::new()
                } else {
                    c.ns = ns.clone();
                    format!(" ns=\"{ns}\"")
                };
                let k = self.exc(e, &c);
                self.el("nsName", &at, &k)
            }
            NC::Any(e) => {
                let k = self.exc(e, cx);
                self.el("anyName", "", &k)
            }
            NC::Alt(_, _) => {
                let mut v = vec![];
                self.alts(nc, &mut v);
                let (c, at) = self.shift(cx);
                let at = drop_att(&at, "datatypeLibrary");
                let mut k = String::new();
                for x in v {
                    k.push_str(&self.nc(&x, &c));
                    k.push_str(&self.noise());
                }
                self.el("choice", &at, &k)
            }
        }
    }
    fn alts(&mut self, nc: &NC, out: &mut Vec<NC>) {
        if let NC::Alt(a, b) = nc {
            for x in [a, b] {
                if matches!(**x, NC::Alt(_, _)) && self.r.pct(60) {
                    self.alts(x, out)
                } else {
                    out.push((**x).clone())
                }
            }
        }
    }
    fn exc(&mut self, e: &Option<Box<NC>>, cx: &Cx) -> String {
        match e {
            None => String::new(),
            Some(e) => {
                let k = match &**e {
                    NC::Alt(_, _) if self.r.pct(60) => {
                        let mut v = vec![];
                        self.alts(e, &mut v);
                        v.iter().map(|x| self.nc(x, cx)).collect::<Vec<_>>().concat()
                    }
                    e => self.nc(e, cx),
                };
                self.el("except", "", &k)
            }
        }
    }
    fn grammar(&mut self, v: &[G], cx: &Cx, at: &str) -> String {
        let k = self.grams(v, cx);
        self.el("grammar", at, &k)
    }
    fn grams(&mut self, v: &[G], cx: &Cx) -> String {
        let mut t = String::new();
        // XML syntax wants one or more elements in a define; a start takes exactly one
        for g in v {
            t.push_str(&self.noise());
            let (cx, at) = self.shift(cx);
            match g {
                G::Def(n, op, s) => {
                    let c = match op {
                        Op::Assign => "",
                        Op::Choice => " combine=\"choice\"",
                        Op::Inter => " combine=\"interleave\"",
                    };
                    if n == "start" {
                        let k = self.pat(s, &cx, "");
                        t.push_str(&self.el("start", &format!("{at}{c}"), &k));
                    } else {
                        let k = self.body(s, &cx);
                        t.push_str(&self.el("define", &format!("{at}{c} name=\"{}\"", n.trim_start_matches('\\')), &k));
                    }
                }
                G::Include(f, v) => {
                    // an ns attribute on include would be handed on to the included file: not written here
                    let at2 = drop_att(&drop_att(&at, "ns"), "datatypeLibrary");
                    let k = self.grams_noshift(v, &cx, &at);
                    t.push_str(&self.el("include", &format!("{at2} href=\"{}\"", fname(*f, true)), &k));
                }
                G::Div(v) => {
                    let k = self.grams(v, &cx);
                    t.push_str(&self.el("div", &at, &k));
                }
            }
        }
        t
    }
    fn grams_noshift(&mut self, v: &[G], cx: &Cx, at: &str) -> String {
        // (the include element itself carries no ns/datatypeLibrary, so the attributes go on what it contains)
        let mut t = String::new();
        for g in v {
            if let G::Div(v) = g {
                let k = if at.is_empty() { self.grams(v, cx) } else { self.grams_noshift(v, cx, "") };
                t.push_str(&self.el("div", at, &k));
            }
            if let G::Def(n, op, s) = g {
                let c = match op {
                    Op::Assign => "",
                    Op::Choice => " combine=\"choice\"",
                    Op::Inter => " combine=\"interleave\"",
                };
                if n == "start" {
                    let k = self.pat(s, cx, "");
                    t.push_str(&self.el("start", &format!("{at}{c}"), &k));
                } else {
                    let k = self.body(s, cx);
                    t.push_str(&self.el("define", &format!("{at}{c} name=\"{}\"", n.trim_start_matches('\\')), &k));
                }
            }
        }
        t
    }
}
fn drop_att(at: &str, name: &str) -> String {
    let key = format!(" {name}=\"");
    match at.find(&key) {
        None => at.to_string(),
        Some(i) => {
            let rest = &at[i + key.len()..];
            let j = rest.find('"').unwrap();
            format!("{}{}", &at[..i], &rest[j + 1..])
        }
    }
}

// ------------------------------------------------------------------------------------------------ documents
#[derive(Clone)]
pub struct DocKnobs {
    pub split: usize,   // division of text by comments, CDATA and references
    pub ns: usize,      // redundant and shadowing declarations
    pub entities: bool, // declared entities
}
impl Default for DocKnobs {
    fn default() -> Self {
        DocKnobs { split: 15, ns: 20, entities: false }
    }
}
struct Dp<'r> {
    r: &'r mut Rnd,
    k: DocKnobs,
    ents: Vec<(String, String)>,
}
pub fn doc(r: &mut Rnd, k: &DocKnobs, e: &Elem) -> String {
    let mut ents = vec![];
    if k.entities && r.pct(70) {
        for (n, v) in [("e1", "x"), ("e2", "x y"), ("long.name", "12"), ("sp", " "), ("nil", ""), ("true", "tru"), ("\u{e9}", "\u{e9}t")] {
            if r.pct(60) {
                ents.push((n.to_string(), v.to_string()));
            }
        }
    }
    let mut p = Dp { r, k: k.clone(), ents };
    let mut t = String::new();
    if p.r.pct(30) {
        t.push_str("<?xml version=\"1.0\"?>");
    }
    if p.r.pct(10) {
        t.push_str("<!-- top -->");
    }
    if !p.ents.is_empty() {
        t.push_str("<!DOCTYPE doc [");
        for (n, v) in p.ents.clone() {
            t.push_str(&format!("<!ENTITY {n} \"{v}\">\n"));
            if p.r.pct(20) {
                t.push_str(&format!("<!ENTITY {n} \"not this\">"));
            }
        }
        t.push_str("]>\n");
    }
    let scope: BTreeMap<String, String> = BTreeMap::new();
    t.push_str(&p.elem(e, &scope));
    if p.r.pct(10) {
        t.push_str("<!-- end --><?pi x?>");
    }
    t
}
pub const XMLNS: &str = "http://www.w3.org/XML/1998/namespace";
const PFX: [&str; 4] = ["p", "q", "r", "p2"];
impl<'r> Dp<'r> {
    fn elem(&mut self, e: &Elem, outer: &BTreeMap<String, String>) -> String {
        let mut scope = outer.clone();
        let mut decl: BTreeMap<String, String> = BTreeMap::new();
        // gratuitous declarations, which may shadow outer ones
        while self.r.pct(self.k.ns) && decl.len() < 3 {
            let p = if self.r.pct(30) { "" } else { *self.r.pick(&PFX) };
            let u = *self.r.pick(&["urn:a", "urn:b", "urn:c"]);
            if p.is_empty() && self.r.pct(30) {
                decl.insert("".into(), "".into());
            } else {
                decl.insert(p.into(), u.into());
            }
        }
        // the element's own name
        for (k, v) in &decl {
            scope.insert(k.clone(), v.clone());
        }
        let mut fixed: Vec<String> = vec![]; // prefixes whose binding has been relied upon
        let tag = if e.ns.is_empty() {
            if scope.get("").is_some_and(|u| !u.is_empty()) {
                decl.insert("".into(), "".into());
                scope.insert("".into(), "".into());
            }
            fixed.push("".into());
            e.local.clone()
        } else {
            let p = self.prefix(&e.ns, &mut scope, &mut decl, &mut fixed, true);
            if p.is_empty() {
                e.local.clone()
            } else {
                format!("{p}:{}", e.local)
            }
        };
        let mut atts: Vec<String> = vec![];
        for (ns, l, v) in &e.attrs {
            let n = if ns.is_empty() {
                l.clone()
            } else {
                let p = self.prefix(ns, &mut scope, &mut decl, &mut fixed, false);
                format!("{p}:{l}")
            };
            let q = if self.r.pct(20) { '\'' } else { '"' };
            let v = self.attval(v, q);
            atts.push(format!(" {n}={q}{v}{q}"));
        }
        for (p, u) in &decl {
            let a = if p.is_empty() { format!(" xmlns=\"{u}\"") } else { format!(" xmlns:{p}=\"{u}\"") };
            // anywhere among the attributes
            let i = self.r.below(atts.len() + 1);
            atts.insert(i, a);
        }
        let at = atts.concat();
        if e.kids.is_empty() {
            let ways = if self.r.pct(self.k.split) { 4 } else { 2 };
            return match self.r.below(ways) {
                0 => format!("<{tag}{at}/>"),
                1 => format!("<{tag}{at}></{tag}>"),
                2 => format!("<{tag}{at}><!-- nothing --></{tag}>"),
                _ => format!("<{tag}{at} ><![CDATA[]]></{tag} >"),
            };
        }
        let mut t = format!("<{tag}{at}>");
        for k in &e.kids {
            match k {
                Node::El(x) => t.push_str(&self.elem(x, &scope)),
                Node::Tx(s) => t.push_str(&self.text(s)),
            }
            if self.r.pct(self.k.split / 3) {
                t.push_str("<!-- c -->");
            }
        }
        t.push_str(&format!("</{tag}>"));
        t
    }
    fn prefix(&mut self, ns: &str, scope: &mut BTreeMap<String, String>, decl: &mut BTreeMap<String, String>, fixed: &mut Vec<String>, elem: bool) -> String {
        if ns == XMLNS {
            return "xml".into();
        }
        let have: Vec<String> = scope.iter().filter(|(p, u)| *u == ns && (elem || !p.is_empty())).map(|(p, _)| p.clone()).collect();
        if !have.is_empty() && self.r.pct(85) {
            let p = self.r.pick(&have).clone();
            fixed.push(p.clone());
            return p;
        }
        // declare one here; not one that has been used in this tag already, or is declared here
        let mut cand: Vec<String> = PFX.iter().map(|s| s.to_string()).chain((0..6).map(|i| format!("n{i}"))).filter(|p| !fixed.contains(p) && !decl.contains_key(p)).collect();
        cand.truncate(3);
        if elem && !fixed.contains(&String::new()) && !decl.contains_key("") && self.r.pct(40) {
            cand = vec![String::new()];
        }
        let p = self.r.pick(&cand).clone();
        decl.insert(p.clone(), ns.to_string());
        scope.insert(p.clone(), ns.to_string());
        fixed.push(p.clone());
        p
    }
    fn ch(&mut self, c: char, attr: Option<char>) -> String {
        let must = matches!(c, '<' | '&') || (c == '>' && attr.is_none()) || attr == Some(c) || (attr.is_some() && matches!(c, '\n' | '\t')) || c == '\r';
        if must || self.r.pct(self.k.split / 3) {
            let named = match c {
                '<' => "lt",
                '>' => "gt",
                '&' => "amp",
                '"' => "quot",
                '\'' => "apos",
                _ => "",
            };
            if !named.is_empty() && self.r.pct(60) {
                return format!("&{named};");
            }
            return match self.r.below(4) {
                0 => format!("&#{};", c as u32),
                1 => format!("&#x{:x};", c as u32),
                2 => format!("&#x{:X};", c as u32),
                _ => format!("&#0{};", c as u32),
            };
        }
        c.to_string()
    }
    fn ent(&mut self, rest: &str) -> Option<(String, usize)> {
        if self.ents.is_empty() || !self.r.pct(40) {
            return None;
        }
        let i = self.r.below(self.ents.len());
        let (n, v) = self.ents[i].clone();
        if rest.starts_with(&v) {
            Some((format!("&{n};"), v.len()))
        } else {
            None
        }
    }
    fn attval(&mut self, s: &str, q: char) -> String {
        let mut o = String::new();
        let mut i = 0;
        while i < s.len() {
            if let Some((t, n)) = self.ent(&s[i..]) {
                o.push_str(&t);
                if n > 0 {
                    i += n;
                    continue;
                }
            }
            let c = s[i..].chars().next().unwrap();
            o.push_str(&self.ch(c, Some(q)));
            i += c.len_utf8();
        }
        o
    }
    fn text(&mut self, s: &str) -> String {
        let mut o = String::new();
        let mut i = 0;
        while i < s.len() {
            if self.r.pct(self.k.split / 3) {
                match self.r.below(4) {
                    0 => o.push_str("<!-- & < -->"),
                    1 => o.push_str("<?pi data?>"),
                    2 => o.push_str("<![CDATA[]]>"),
                    _ => {
                        // a stretch of CDATA
                        let mut j = i;
                        for c in s[i..].chars().take(self.r.range(1, 4)) {
                            j += c.len_utf8();
                        }
                        if !s[i..j].contains(']') && !s[i..j].contains('\r') {
                            o.push_str(&format!("<![CDATA[{}]]>", &s[i..j]));
                            i = j;
                            continue;
                        }
                    }
                }
            }
            if let Some((t, n)) = self.ent(&s[i..]) {
                o.push_str(&t);
                if n > 0 {
                    i += n;
                    continue;
                }
            }
            let c = s[i..].chars().next().unwrap();
            o.push_str(&self.ch(c, None));
            i += c.len_utf8();
        }
        o
    }
}
