//! Random schemas (in flat form), random documents for them.
use crate::rnd::Rnd;
use crate::sem::*;

#[derive(Clone)]
pub struct Cfg {
    pub depth: usize,
    pub defs: usize,
    pub ns: Vec<&'static str>,
    pub att: usize,  // weight of attributes
    pub data: usize, // weight of data content
    pub text: usize, // weight of text
    pub refs: usize,
    pub inter: usize,
    pub group: usize,
    pub choice: usize,
    pub rep: usize,
    pub empties: usize,
    pub wild: usize, // percentage of name classes that aren't a single name
    pub xsd: bool,
    pub list: usize,
    pub arity: usize,
    pub locals: usize,
    pub shuffle: usize, // percentage of documents whose top children are put in another order
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { depth: 3, defs: 2, ns: vec!["", "urn:a", "urn:b"], att: 2, data: 2, text: 2, refs: 2, inter: 2, group: 3, choice: 3, rep: 2, empties: 1, wild: 15, xsd: true, list: 1, arity: 3, locals: 4, shuffle: 0 }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Elem,
    Complex,
    ComplexAtt,
    Data,
}
pub const LOCALS: [&str; 6] = ["a", "b", "c", "text", "e", "f"];
pub const STRINGS: [&str; 18] = ["", " ", "x", "y", " x ", "x y", "x  y", "5", "12", "true", "xx", "\u{e9}t\u{e9}", "a", "b c", "07", "\n x\t", "foo", "-3"];

pub struct Gen<'r> {
    pub r: &'r mut Rnd,
    pub c: Cfg,
    pub kinds: Vec<Kind>,
}
impl<'r> Gen<'r> {
    pub fn schema(r: &'r mut Rnd, c: Cfg) -> Schema {
        let n = c.defs;
        let mut kinds: Vec<Kind> = (0..n).map(|_| *r.pick(&[Kind::Elem, Kind::Elem, Kind::Complex, Kind::Complex, Kind::ComplexAtt, Kind::Data])).collect();
        if c.data == 0 {
            for k in kinds.iter_mut() {
                if *k == Kind::Data {
                    *k = Kind::Complex
                }
            }
        }
        if c.att == 0 {
            for k in kinds.iter_mut() {
                if *k == Kind::ComplexAtt {
                    *k = Kind::Elem
                }
            }
        }
        let mut g = Gen { r, c, kinds };
        let mut defs = vec![];
        for i in 0..n {
            let k = g.kinds[i];
            let d = g.c.depth;
            defs.push(match k {
                Kind::Elem => g.elem(d, 0),
                Kind::Complex => g.complex(d.saturating_sub(1), false, i + 1),
                Kind::ComplexAtt => g.complex(d.saturating_sub(1), true, i + 1),
                Kind::Data => g.data(2, i + 1),
            });
        }
        let d = g.c.depth;
        // the start pattern: an element, a choice of elements or a reference to one
        let elems: Vec<usize> = (0..n).filter(|i| g.kinds[*i] == Kind::Elem).collect();
        let start = if !elems.is_empty() && g.r.pct(40) {
            P::Ref(*g.r.pick(&elems))
        } else if g.r.pct(25) {
            P::Choice(vec![g.elem(d, 0), g.elem(d, 0)])
        } else {
            g.elem(d, 0)
        };
        Schema { start, defs }
    }
    pub fn name(&mut self) -> (String, String) {
        let ns = self.r.pick(&self.c.ns.clone()).to_string();
        let n = self.c.locals;
        (ns, LOCALS[self.r.below(n)].to_string())
    }
    fn named(&mut self) -> NC {
        let (a, b) = self.name();
        NC::Named(a, b)
    }
    /// any: anyName allowed; nsn: nsName allowed
    pub fn nc(&mut self, any: bool, nsn: bool, depth: usize) -> NC {
        let w = self.c.wild;
        if !self.r.pct(w) && depth == 2 {
            return self.named();
        }
        match self.r.weighted(&[2, if any { 2 } else { 0 }, if nsn { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
            0 => self.named(),
            1 => {
                let e = if depth > 0 && self.r.pct(60) { Some(Box::new(self.nc(false, true, depth - 1))) } else { None };
                NC::Any(e)
            }
            2 => {
                let ns = self.r.pick(&self.c.ns.clone()).to_string();
                let e = if depth > 0 && self.r.pct(50) { Some(Box::new(self.nc(false, false, depth - 1))) } else { None };
                NC::Ns(ns, e)
            }
            _ => NC::Alt(Box::new(self.nc(any, nsn, depth - 1)), Box::new(self.nc(any, nsn, depth - 1))),
        }
    }
    fn infinite(&mut self) -> NC {
        if self.r.pct(50) {
            NC::Any(if self.r.pct(50) { Some(Box::new(self.nc(false, true, 1))) } else { None })
        } else {
            let ns = self.r.pick(&self.c.ns.clone()).to_string();
            NC::Ns(ns, if self.r.pct(50) { Some(Box::new(self.nc(false, false, 1))) } else { None })
        }
    }
    pub fn elem(&mut self, d: usize, first: usize) -> P {
        let nc = self.nc(true, true, 2);
        // inside an element any definition may be referred to
        let _ = first;
        P::Elem(nc, Box::new(self.content(d.saturating_sub(1))))
    }
    fn content(&mut self, d: usize) -> P {
        let w = [if d == 0 { 1 } else { 6 }, self.c.data, if d == 0 { 2 } else { 1 }, self.c.text, if self.c.data > 0 { 1 } else { 0 }];
        let mut p = match self.r.weighted(&w) {
            0 => self.complex(d, true, 0),
            1 => self.data(2, 0),
            2 => P::Empty,
            3 => P::Text,
            _ => P::Choice(vec![self.data(1, 0), self.complex(d, true, 0)]),
        };
        // attributes in front of, behind or interleaved with the content
        if self.c.att > 0 {
            let n = self.r.weighted(&[6, self.c.att, self.c.att / 2]);
            for _ in 0..n {
                let a = self.att();
                let a = if self.r.pct(30) { P::Opt(Box::new(a)) } else { a };
                p = match self.r.below(3) {
                    0 => P::Group(vec![a, p]),
                    1 => P::Group(vec![p, a]),
                    _ => P::Inter(vec![a, p]),
                };
            }
        }
        p
    }
    fn att(&mut self) -> P {
        let nc = if self.r.pct(80) { self.named() } else { NC::Alt(Box::new(self.named()), Box::new(self.named())) };
        let v = self.attval();
        P::Att(nc, Box::new(v))
    }
    fn attval(&mut self) -> P {
        if self.c.data == 0 || self.r.pct(40) {
            return P::Text;
        }
        match self.r.below(6) {
            0 => P::Empty,
            1 => P::Choice(vec![self.data(1, 0), P::Empty]),
            _ => self.data(2, 0),
        }
    }
    /// content made of elements and text; `att`: may contain attributes; definitions below `first` can't be referred to
    pub fn complex(&mut self, d: usize, att: bool, first: usize) -> P {
        let c = self.c.clone();
        let rec = if d == 0 { 0 } else { 1 };
        let w = [
            3 + rec,
            c.refs,
            c.text,
            c.empties,
            if c.empties > 0 && self.r.pct(20) { 1 } else { 0 },
            c.choice * rec,
            c.group * rec,
            c.inter * rec,
            c.rep * rec,
            c.rep * rec,
            c.rep * rec,
            if c.text > 0 { rec } else { 0 },
            if att { c.att } else { 0 },
        ];
        match self.r.weighted(&w) {
            0 => {
                if d == 0 {
                    let nc = self.nc(true, true, 2);
                    let t = if self.r.pct(30) { P::Text } else { P::Empty };
                    P::Elem(nc, Box::new(t))
                } else {
                    self.elem(d, first)
                }
            }
            1 => {
                let ok: Vec<usize> = (0..self.kinds.len())
                    .filter(|i| {
                        let k = self.kinds[*i];
                        k == Kind::Elem || (*i >= first && (k == Kind::Complex || (k == Kind::ComplexAtt && att)))
                    })
                    .collect();
                if ok.is_empty() {
                    P::Elem(self.named(), Box::new(P::Empty))
                } else {
                    P::Ref(*self.r.pick(&ok))
                }
            }
            2 => P::Text,
            3 => P::Empty,
            4 => P::NotAllowed,
            5 => P::Choice(self.many(d - 1, att, first)),
            6 => P::Group(self.many(d - 1, att, first)),
            7 => P::Inter(self.many(d - 1, att, first)),
            8 => P::Opt(Box::new(self.complex(d - 1, att, first))),
            9 | 10 => {
                let q = if att && c.att > 0 && self.r.pct(20) {
                    let nc = self.infinite();
                    let v = self.attval();
                    P::Att(nc, Box::new(v))
                } else {
                    self.complex(d - 1, false, first)
                };
                if self.r.pct(50) {
                    P::Star(Box::new(q))
                } else {
                    P::Plus(Box::new(q))
                }
            }
            11 => P::Mixed(Box::new(self.complex(d - 1, att, first))),
            _ => self.att(),
        }
    }
    fn many(&mut self, d: usize, att: bool, first: usize) -> Vec<P> {
        let a = self.c.arity;
        let n = self.r.range(2, a.max(2));
        (0..n).map(|_| self.complex(d, att, first)).collect()
    }
    fn dt(&mut self) -> (Dt, Vec<(String, String)>) {
        if !self.c.xsd || self.r.pct(35) {
            return (Dt { xsd: false, name: self.r.pick(&["string", "token"]).to_string() }, vec![]);
        }
        let name = *self.r.pick(&["string", "string", "int", "short", "integer", "boolean", "NCName", "unsignedShort", "decimal", "token", "NMTOKEN", "NMTOKENS"]);
        let mut ps: Vec<(String, String)> = vec![];
        if matches!(name, "string" | "NCName" | "token" | "NMTOKEN" | "NMTOKENS") {
            match self.r.below(4) {
                0 => ps.push(("length".into(), self.r.below(4).to_string())),
                1 => ps.push(("minLength".into(), self.r.below(3).to_string())),
                2 => {
                    ps.push(("minLength".into(), self.r.below(2).to_string()));
                    ps.push(("maxLength".into(), self.r.range(1, 4).to_string()));
                }
                _ => {}
            }
            if name == "string" && self.r.pct(20) {
                ps.push(("pattern".into(), self.r.pick(&["[a-z]+", "a|b", "x*"]).to_string()));
            }
        } else if name != "boolean" {
            if self.r.pct(50) {
                ps.push((self.r.pick(&["minInclusive", "minExclusive"]).to_string(), self.r.below(6).to_string()));
            }
            if self.r.pct(50) {
                ps.push((self.r.pick(&["maxInclusive", "maxExclusive"]).to_string(), self.r.range(7, 13).to_string()));
            }
        }
        self.r.shuffle(&mut ps);
        (Dt { xsd: true, name: name.into() }, ps)
    }
    fn value(&mut self) -> P {
        let xsd = self.c.xsd && self.r.pct(30);
        let name = if self.r.pct(35) { "string" } else { "token" };
        P::Value(Dt { xsd, name: name.into() }, self.r.pick(&STRINGS).to_string())
    }
    fn except(&mut self, d: usize) -> P {
        match self.r.below(if d == 0 { 2 } else { 3 }) {
            0 => self.value(),
            1 => {
                let (dt, ps) = self.dt();
                P::Data(dt, ps, None)
            }
            _ => P::Choice((0..self.r.range(2, 4)).map(|_| self.except(d - 1)).collect()),
        }
    }
    pub fn data(&mut self, d: usize, first: usize) -> P {
        match self.r.weighted(&[4, 4, if d > 0 { 3 } else { 0 }, if d > 0 { 3 * self.c.list } else { 0 }, self.c.refs]) {
            0 => self.value(),
            1 => {
                let (dt, ps) = self.dt();
                let e = if self.r.pct(25) { Some(Box::new(self.except(1))) } else { None };
                P::Data(dt, ps, e)
            }
            2 => P::Choice(vec![self.data(d - 1, first), self.data(d - 1, first)]),
            3 => P::List(Box::new(self.list(2))),
            _ => {
                let ok: Vec<usize> = (first..self.kinds.len()).filter(|i| self.kinds[*i] == Kind::Data).collect();
                // (a list may not contain a list, so references are only used at the top)
                if ok.is_empty() {
                    self.value()
                } else {
                    P::Ref(*self.r.pick(&ok))
                }
            }
        }
    }
    fn list(&mut self, d: usize) -> P {
        match self.r.weighted(&[4, 3, if d > 0 { 3 } else { 0 }, if d > 0 { 3 } else { 0 }, if d > 0 { 2 } else { 0 }, if d > 0 { 3 } else { 0 }, 1]) {
            0 => self.value(),
            1 => {
                let (dt, ps) = self.dt();
                P::Data(dt, ps, if self.r.pct(15) { Some(Box::new(self.except(0))) } else { None })
            }
            2 => P::Choice(vec![self.list(d - 1), self.list(d - 1)]),
            3 => P::Group((0..self.r.range(2, 3)).map(|_| self.list(d - 1)).collect()),
            4 => P::Opt(Box::new(self.list(d - 1))),
            5 => {
                let q = Box::new(self.list(d - 1));
                if self.r.pct(50) {
                    P::Star(q)
                } else {
                    P::Plus(q)
                }
            }
            _ => P::Empty,
        }
    }
}

// ------------------------------------------------------------------------------------------------ documents
pub struct Docs<'r, 's> {
    pub r: &'r mut Rnd,
    pub s: &'s Schema,
    pub ns: Vec<&'static str>,
    pub locals: usize,
    pub strings: Vec<String>,
    fuel: usize,
    shuffle: usize,
}
#[derive(Default)]
struct Out {
    attrs: Vec<(String, String, String)>,
    kids: Vec<Node>,
}
pub fn collect_strings(p: &P, out: &mut Vec<String>) {
    match p {
        P::Choice(v) | P::Group(v) | P::Inter(v) => v.iter().for_each(|q| collect_strings(q, out)),
        P::Opt(q) | P::Star(q) | P::Plus(q) | P::Mixed(q) | P::List(q) | P::Att(_, q) | P::Elem(_, q) => collect_strings(q, out),
        P::Value(_, v) => out.push(v.clone()),
        P::Data(_, ps, e) => {
            for (k, v) in ps {
                if k.ends_with("clusive") {
                    out.push(v.clone());
                }
            }
            if let Some(e) = e {
                collect_strings(e, out)
            }
        }
        _ => {}
    }
}
impl<'r, 's> Docs<'r, 's> {
    pub fn new(r: &'r mut Rnd, s: &'s Schema, c: &Cfg) -> Self {
        let mut strings: Vec<String> = STRINGS.iter().map(|s| s.to_string()).collect();
        let mut own = vec![];
        collect_strings(&s.start, &mut own);
        s.defs.iter().for_each(|d| collect_strings(d, &mut own));
        for _ in 0..3 {
            strings.extend(own.clone());
        }
        Docs { r, s, ns: c.ns.clone(), locals: c.locals, strings, fuel: 0, shuffle: c.shuffle }
    }
    pub fn string(&mut self) -> String {
        let i = self.r.below(self.strings.len());
        self.strings[i].clone()
    }
    fn name_in(&mut self, nc: &NC) -> Option<(String, String)> {
        if let NC::Named(a, b) = nc {
            return Some((a.clone(), b.clone()));
        }
        for _ in 0..12 {
            let n = self.any_name();
            if nc.has(&n.0, &n.1) {
                return Some(n);
            }
        }
        None
    }
    fn any_name(&mut self) -> (String, String) {
        let mut ns = self.r.pick(&self.ns.clone()).to_string();
        if self.r.pct(4) {
            ns = "urn:z".into();
        }
        let mut l = LOCALS[self.r.below(self.locals)].to_string();
        if self.r.pct(3) {
            l = "zz".into();
        }
        (ns, l)
    }
    fn data_string(&mut self, p: &P) -> Option<String> {
        match p {
            P::Value(dt, v) => Some(if dt.name == "token" && self.r.pct(40) { format!(" {}  ", v.replace(' ', "  ")) } else { v.clone() }),
            P::Data(dt, ps, e) => {
                for _ in 0..15 {
                    let s = self.string();
                    if data_ok(dt, ps, &s) && !e.as_ref().is_some_and(|e| self.excluded(e, &s)) {
                        return Some(s);
                    }
                }
                None
            }
            P::Choice(v) => {
                let i = self.r.below(v.len());
                self.data_string(&v[i])
            }
            P::Ref(i) => {
                let s = self.s;
                self.data_string(&s.defs[*i])
            }
            P::List(q) => {
                let mut t = vec![];
                self.list(q, &mut t)?;
                let sep = *self.r.pick(&[" ", "  ", "\n"]);
                let s = t.join(sep);
                Some(if self.r.pct(20) { format!(" {s} ") } else { s })
            }
            P::Empty => Some(if self.r.pct(80) { "".into() } else { " ".into() }),
            P::Text => Some(self.string()),
            P::Opt(q) => {
                if self.r.pct(50) {
                    self.data_string(q)
                } else {
                    Some(String::new())
                }
            }
            _ => Some(self.string()),
        }
    }
    fn excluded(&mut self, e: &P, s: &str) -> bool {
        match e {
            P::Value(dt, v) => value_ok(dt, v, s),
            P::Data(dt, ps, e) => data_ok(dt, ps, s) && !e.as_ref().is_some_and(|e| self.excluded(e, s)),
            P::Choice(v) => v.iter().any(|q| self.excluded(q, s)),
            _ => false,
        }
    }
    fn list(&mut self, p: &P, out: &mut Vec<String>) -> Option<()> {
        if out.len() > 6 {
            return None;
        }
        match p {
            P::Choice(v) => {
                let i = self.r.below(v.len());
                self.list(&v[i], out)
            }
            P::Group(v) => v.iter().try_for_each(|q| self.list(q, out)),
            P::Opt(q) => {
                if self.r.pct(50) {
                    self.list(q, out)
                } else {
                    Some(())
                }
            }
            P::Star(q) | P::Plus(q) => {
                let lo = if matches!(p, P::Plus(_)) { 1 } else { 0 };
                for _ in 0..self.r.range(lo, 3) {
                    self.list(q, out)?;
                }
                Some(())
            }
            P::Empty => Some(()),
            P::Value(_, v) => {
                out.push(v.trim().to_string());
                Some(())
            }
            P::Data(dt, ps, e) => {
                for _ in 0..15 {
                    let s = self.string();
                    let s = s.trim().to_string();
                    if !s.is_empty() && !s.contains([' ', '\n', '\t']) && data_ok(dt, ps, &s) && !e.as_ref().is_some_and(|e| self.excluded(e, &s)) {
                        out.push(s);
                        return Some(());
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn sample(&mut self, p: &P, d: usize, out: &mut Out) -> Option<()> {
        if self.fuel == 0 || out.kids.len() > 9 || out.attrs.len() > 4 {
            return None;
        }
        self.fuel -= 1;
        match p {
            P::Empty => Some(()),
            P::NotAllowed | P::Raw(_, _) => None,
            P::Text => {
                if self.r.pct(60) {
                    let s = self.string();
                    out.kids.push(Node::Tx(s));
                }
                Some(())
            }
            P::Choice(v) => {
                let n = v.len();
                let i = self.r.below(n);
                for j in 0..n {
                    let (a, k) = (out.attrs.len(), out.kids.len());
                    if self.sample(&v[(i + j) % n], d, out).is_some() {
                        return Some(());
                    }
                    out.attrs.truncate(a);
                    out.kids.truncate(k);
                }
                None
            }
            P::Group(v) => v.iter().try_for_each(|q| self.sample(q, d, out)),
            P::Inter(v) => {
                let mut parts = vec![];
                for q in v {
                    let mut o = Out::default();
                    self.sample(q, d, &mut o)?;
                    out.attrs.extend(o.attrs);
                    parts.push(o.kids.into_iter().collect::<std::collections::VecDeque<_>>());
                }
                loop {
                    let live: Vec<usize> = (0..parts.len()).filter(|i| !parts[*i].is_empty()).collect();
                    if live.is_empty() {
                        break;
                    }
                    let i = *self.r.pick(&live);
                    out.kids.push(parts[i].pop_front().unwrap());
                }
                Some(())
            }
            P::Mixed(q) => {
                let mut o = Out::default();
                self.sample(q, d, &mut o)?;
                out.attrs.extend(o.attrs);
                for k in o.kids {
                    if self.r.pct(40) {
                        let s = self.string();
                        out.kids.push(Node::Tx(s));
                    }
                    out.kids.push(k);
                }
                if self.r.pct(40) {
                    let s = self.string();
                    out.kids.push(Node::Tx(s));
                }
                Some(())
            }
            P::Opt(q) => {
                if self.r.pct(60) {
                    let (a, k) = (out.attrs.len(), out.kids.len());
                    if self.sample(q, d, out).is_none() {
                        out.attrs.truncate(a);
                        out.kids.truncate(k);
                    }
                }
                Some(())
            }
            P::Star(q) | P::Plus(q) => {
                let lo = if matches!(p, P::Plus(_)) { 1 } else { 0 };
                let n = self.r.range(lo, 3);
                for i in 0..n {
                    let (a, k) = (out.attrs.len(), out.kids.len());
                    if self.sample(q, d, out).is_none() {
                        out.attrs.truncate(a);
                        out.kids.truncate(k);
                        return if i >= lo { Some(()) } else { None };
                    }
                }
                Some(())
            }
            P::Ref(i) => {
                let s = self.s;
                self.sample(&s.defs[*i], d, out)
            }
            P::Att(nc, q) => {
                let (ns, l) = self.name_in(nc)?;
                let s = self.data_string(q)?;
                out.attrs.push((ns, l, s));
                Some(())
            }
            P::Elem(nc, q) => {
                if d == 0 {
                    return None;
                }
                let (ns, local) = self.name_in(nc)?;
                let mut o = Out::default();
                self.sample(q, d - 1, &mut o)?;
                out.kids.push(Node::El(Elem { ns, local, attrs: o.attrs, kids: o.kids }));
                Some(())
            }
            P::Value(..) | P::Data(..) | P::List(..) => {
                let s = self.data_string(p)?;
                out.kids.push(Node::Tx(s));
                Some(())
            }
        }
    }
    pub fn random_elem(&mut self, d: usize) -> Elem {
        let (ns, local) = self.any_name();
        let mut e = Elem { ns, local, attrs: vec![], kids: vec![] };
        for _ in 0..self.r.weighted(&[5, 3, 1]) {
            let (a, b) = self.any_name();
            let s = self.string();
            e.attrs.push((a, b, s));
        }
        for _ in 0..self.r.below(4) {
            if d > 0 && self.r.pct(60) {
                let k = self.random_elem(d - 1);
                e.kids.push(Node::El(k));
            } else {
                let s = self.string();
                e.kids.push(Node::Tx(s));
            }
        }
        e
    }
    fn paths(e: &Elem, pre: Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(pre.clone());
        for (i, k) in e.kids.iter().enumerate() {
            if let Node::El(x) = k {
                let mut p = pre.clone();
                p.push(i);
                Self::paths(x, p, out);
            }
        }
    }
    fn at<'e>(e: &'e mut Elem, path: &[usize]) -> &'e mut Elem {
        let mut e = e;
        for i in path {
            e = match &mut e.kids[*i] {
                Node::El(x) => x,
                _ => unreachable!(),
            }
        }
        e
    }
    pub fn mutate(&mut self, root: &mut Elem) {
        let mut ps = vec![];
        Self::paths(root, vec![], &mut ps);
        let p = self.r.pick(&ps).clone();
        let nm = self.any_name();
        let s = self.string();
        let sub = self.random_elem(1);
        let k = self.r.below(14);
        let x = self.r.next() as usize;
        let y = self.r.next() as usize;
        let e = Self::at(root, &p);
        let n = e.kids.len();
        match k {
            0 if n > 0 => {
                e.kids.remove(x % n);
            }
            1 if n > 0 => {
                let c = e.kids[x % n].clone();
                e.kids.insert(y % (n + 1), c);
            }
            2 if n > 1 => e.kids.swap(x % n, y % n),
            3 => e.kids.insert(x % (n + 1), Node::Tx(s)),
            4 => e.kids.insert(x % (n + 1), Node::El(sub)),
            5 => e.local = nm.1,
            6 => e.ns = nm.0,
            7 => e.attrs.push((nm.0, nm.1, s)),
            8 if !e.attrs.is_empty() => {
                let i = x % e.attrs.len();
                e.attrs.remove(i);
            }
            9 if !e.attrs.is_empty() => {
                let i = x % e.attrs.len();
                e.attrs[i].2 = s;
            }
            10 if !e.attrs.is_empty() => {
                let i = x % e.attrs.len();
                e.attrs[i].0 = nm.0;
            }
            11 | 12 if n > 0 => {
                if let Node::Tx(t) = &mut e.kids[x % n] {
                    *t = s;
                }
            }
            13 => e.kids.insert(x % (n + 1), Node::Tx(" ".into())),
            _ => {}
        }
    }
    fn tidy(e: &mut Elem, r: &mut Rnd) {
        let mut seen: Vec<(String, String)> = vec![];
        e.attrs.retain(|a| {
            let k = (a.0.clone(), a.1.clone());
            if seen.contains(&k) {
                false
            } else {
                seen.push(k);
                true
            }
        });
        e.attrs.truncate(5);
        r.shuffle(&mut e.attrs);
        e.kids.truncate(9);
        // adjacent text nodes are one text node
        let mut i = 0;
        while i + 1 < e.kids.len() {
            if let (Node::Tx(a), Node::Tx(b)) = (&e.kids[i], &e.kids[i + 1]) {
                let s = format!("{a}{b}");
                e.kids[i] = Node::Tx(s);
                e.kids.remove(i + 1);
            } else {
                i += 1;
            }
        }
        e.kids.retain(|k| !matches!(k, Node::Tx(t) if t.is_empty()));
        for k in e.kids.iter_mut() {
            if let Node::El(x) = k {
                Self::tidy(x, r)
            }
        }
    }
    pub fn doc(&mut self) -> Elem {
        let mut root = None;
        for _ in 0..4 {
            self.fuel = 120;
            let mut o = Out::default();
            let s = self.s;
            if self.sample(&s.start, 7, &mut o).is_some() && o.kids.len() == 1 {
                if let Some(Node::El(e)) = o.kids.pop() {
                    root = Some(e);
                    break;
                }
            }
        }
        let mut root = root.unwrap_or_else(|| self.random_elem(2));
        if self.shuffle > 0 && self.r.pct(self.shuffle) {
            self.r.shuffle(&mut root.kids);
            Self::tidy(&mut root, self.r);
            return root;
        }
        let n = self.r.weighted(&[5, 5, 2, 1]);
        for _ in 0..n {
            self.mutate(&mut root);
        }
        Self::tidy(&mut root, self.r);
        // whitespace between elements
        if self.r.pct(20) {
            Self::indent(&mut root, self.r);
        }
        root
    }
    fn indent(e: &mut Elem, r: &mut Rnd) {
        if e.kids.iter().all(|k| matches!(k, Node::El(_))) && !e.kids.is_empty() {
            let mut v = vec![];
            for k in e.kids.drain(..) {
                if r.pct(60) {
                    v.push(Node::Tx("\n ".into()));
                }
                v.push(k);
            }
            v.push(Node::Tx(" ".into()));
            e.kids = v;
        }
        for k in e.kids.iter_mut() {
            if let Node::El(x) = k {
                Self::indent(x, r)
            }
        }
    }
}
pub fn size(e: &Elem) -> usize {
    1 + e.kids.iter().map(|k| if let Node::El(x) = k { size(x) } else { 1 }).sum::<usize>()
}
