//! What schemas and documents mean: RELAX NG section 9, decided by direct search (no derivatives).
use std::collections::HashMap;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum NC {
    Named(String, String),
    Ns(String, Option<Box<NC>>),
    Any(Option<Box<NC>>),
    Alt(Box<NC>, Box<NC>),
}
impl NC {
    pub fn has(&self, ns: &str, l: &str) -> bool {
        match self {
            NC::Named(n, x) => n == ns && x == l,
            NC::Ns(n, e) => n == ns && !e.as_ref().is_some_and(|e| e.has(ns, l)),
            NC::Any(e) => !e.as_ref().is_some_and(|e| e.has(ns, l)),
            NC::Alt(a, b) => a.has(ns, l) || b.has(ns, l),
        }
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Dt {
    pub xsd: bool,
    pub name: String,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum P {
    Empty,
    NotAllowed,
    Text,
    Choice(Vec<P>),
    Group(Vec<P>),
    Inter(Vec<P>),
    Opt(Box<P>),
    Star(Box<P>),
    Plus(Box<P>),
    Mixed(Box<P>),
    List(Box<P>),
    Att(NC, Box<P>),
    Elem(NC, Box<P>),
    Ref(usize),
    Value(Dt, String),
    Data(Dt, Vec<(String, String)>, Option<Box<P>>),
    /// something written down literally in each syntax (% stands for the prefix of RELAX NG elements)
    Raw(String, String),
}
#[derive(Clone, Debug)]
pub struct Schema {
    pub start: P,
    pub defs: Vec<P>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Elem {
    pub ns: String,
    pub local: String,
    pub attrs: Vec<(String, String, String)>,
    pub kids: Vec<Node>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node {
    El(Elem),
    Tx(String),
}
pub fn is_ws(s: &str) -> bool {
    s.chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n'))
}
pub fn norm(s: &str) -> String {
    tokens(s).join(" ")
}
pub fn tokens(s: &str) -> Vec<&str> {
    s.split(|c| matches!(c, ' ' | '\t' | '\r' | '\n')).filter(|t| !t.is_empty()).collect()
}
pub fn value_ok(dt: &Dt, v: &str, s: &str) -> bool {
    if dt.name == "string" {
        v == s
    } else {
        norm(v) == norm(s)
    }
}
/// decimal number as (negative, integer digits, fraction digits), without redundant zeroes
pub type Num = (bool, Vec<u8>, Vec<u8>);
pub fn num(s: &str, decimal: bool) -> Option<Num> {
    let (neg, r) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let (i, f) = match r.split_once('.') {
        Some((i, f)) if decimal => (i, f),
        Some(_) => return None,
        None => (r, ""),
    };
    if (i.is_empty() && f.is_empty()) || !i.bytes().chain(f.bytes()).all(|b| b.is_ascii_digit()) {
        return None;
    }
    let i = i.trim_start_matches('0').as_bytes().to_vec();
    let f = f.trim_end_matches('0').as_bytes().to_vec();
    let neg = neg && !(i.is_empty() && f.is_empty());
    Some((neg, i, f))
}
pub fn num_cmp(a: &Num, b: &Num) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    let mag = |a: &Num, b: &Num| a.1.len().cmp(&b.1.len()).then_with(|| a.1.cmp(&b.1)).then_with(|| a.2.cmp(&b.2));
    match (a.0, b.0) {
        (false, true) => Greater,
        (true, false) => Less,
        (false, false) => mag(a, b),
        (true, true) => mag(b, a),
    }
}
pub fn num_range(name: &str) -> Option<(Option<&'static str>, Option<&'static str>, bool)> {
    Some(match name {
        "short" => (Some("-32768"), Some("32767"), false),
        "unsignedShort" => (Some("0"), Some("65535"), false),
        "int" => (Some("-2147483648"), Some("2147483647"), false),
        "unsignedInt" => (Some("0"), Some("4294967295"), false),
        "long" => (Some("-9223372036854775808"), Some("9223372036854775807"), false),
        "unsignedLong" => (Some("0"), Some("18446744073709551615"), false),
        "integer" => (None, None, false),
        "positiveInteger" => (Some("1"), None, false),
        "decimal" => (None, None, true),
        _ => return None,
    })
}
pub fn num_ok(name: &str, params: &[(String, String)], s: &str) -> bool {
    use std::cmp::Ordering::*;
    let (lo, hi, dec) = num_range(name).unwrap();
    let s = s.trim_matches(|c| matches!(c, ' ' | '\t' | '\r' | '\n'));
    let v = match num(s, dec) {
        Some(v) => v,
        None => return false,
    };
    if lo.is_some_and(|l| num_cmp(&v, &num(l, dec).unwrap()) == Less) || hi.is_some_and(|h| num_cmp(&v, &num(h, dec).unwrap()) == Greater) {
        return false;
    }
    params.iter().all(|(k, b)| {
        let o = match num(b, dec) {
            Some(b) => num_cmp(&v, &b),
            None => return true,
        };
        match k.as_str() {
            "minInclusive" => o != Less,
            "minExclusive" => o == Greater,
            "maxInclusive" => o != Greater,
            "maxExclusive" => o == Less,
            _ => true,
        }
    })
}
pub fn name_start(c: char) -> bool {
    matches!(c, 'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}'
        | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}'
        | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}
pub fn name_char(c: char) -> bool {
    name_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{0300}'..='\u{036F}' | '\u{203F}'..='\u{2040}')
}
pub fn ncname(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(name_start) && c.all(name_char)
}
/// patterns used by generated schemas, with what they mean
pub fn pattern_ok(p: &str, s: &str) -> bool {
    match p {
        "[a-z]+" => !s.is_empty() && s.bytes().all(|b| b.is_ascii_lowercase()),
        "a|b" => s == "a" || s == "b",
        "[0-9]{2}" => s.len() == 2 && s.bytes().all(|b| b.is_ascii_digit()),
        "x*" => s.bytes().all(|b| b == b'x'),
        "[^0]+" => !s.is_empty() && !s.contains('0') ,
        _ => panic!("unknown pattern {p}"),
    }
}
pub fn data_ok(dt: &Dt, params: &[(String, String)], s: &str) -> bool {
    if !dt.xsd {
        return true;
    }
    if num_range(&dt.name).is_some() {
        return num_ok(&dt.name, params, s) && params.iter().all(|(k, v)| k != "pattern" || pattern_ok(v, s.trim_matches([' ', '\t', '\r', '\n'])));
    }
    let trimmed = s.trim_matches([' ', '\t', '\r', '\n']);
    let items = s.split([' ', '\t', '\r', '\n']).filter(|w| !w.is_empty()).collect::<Vec<_>>();
    let nmtoken = |s: &str| !s.is_empty() && s.chars().all(|c| c == ':' || name_char(c));
    let len_ok = |s: &str| {
        let n = if dt.name == "NMTOKENS" { items.len() } else { s.chars().count() };
        params.iter().all(|(k, v)| match k.as_str() {
            "length" => n == v.parse::<usize>().unwrap(),
            "minLength" => n >= v.parse::<usize>().unwrap(),
            "maxLength" => n <= v.parse::<usize>().unwrap(),
            "pattern" => pattern_ok(v, s),
            _ => true,
        })
    };
    match dt.name.as_str() {
        "string" => len_ok(s),
        "normalizedString" => len_ok(&s.replace(['\t', '\n', '\r'], " ")),
        "boolean" => matches!(trimmed, "true" | "false" | "1" | "0") && len_ok(trimmed),
        "NCName" => ncname(trimmed) && len_ok(trimmed),
        "token" => len_ok(&items.join(" ")),
        "NMTOKEN" => nmtoken(trimmed) && len_ok(trimmed),
        "NMTOKENS" => !items.is_empty() && items.iter().all(|w| nmtoken(w)) && len_ok(trimmed),
        other => panic!("datatype {other}"),
    }
}

enum Item<'a> {
    El(&'a Elem),
    Tx(&'a str),
}
pub struct Oracle<'a> {
    sch: &'a Schema,
    memo: HashMap<(*const P, *const Elem), bool>,
    pub steps: u64,
}
struct Cx<'a> {
    attrs: &'a [(String, String, String)],
    items: Vec<Item<'a>>,
    memo: HashMap<(*const P, u32, u32, bool), bool>,
}
pub const STEPS: u64 = 400_000;
impl<'a> Oracle<'a> {
    pub fn new(sch: &'a Schema) -> Self {
        Oracle { sch, memo: HashMap::new(), steps: 0 }
    }
    /// None: gave up (too much work)
    pub fn valid(sch: &'a Schema, root: &'a Elem) -> Option<bool> {
        let mut o = Oracle::new(sch);
        let mut cx = Cx { attrs: &[], items: vec![Item::El(root)], memo: HashMap::new() };
        let r = o.m(&sch.start, 0, 1, &mut cx);
        if o.steps > STEPS {
            None
        } else {
            Some(r)
        }
    }
    /// the text of an attribute or of an element without element children
    fn text_content(&mut self, p: &'a P, attrs: &'a [(String, String, String)], s: &'a str) -> bool {
        if attrs.len() > 24 {
            self.steps = STEPS + 1;
            return false;
        }
        let am = (1u32 << attrs.len()) - 1;
        let mut cx = Cx { attrs, items: vec![Item::Tx(s)], memo: HashMap::new() };
        self.m(p, am, 1, &mut cx) || (is_ws(s) && self.m(p, am, 0, &mut cx))
    }
    fn content(&mut self, p: &'a P, e: &'a Elem) -> bool {
        if let Some(r) = self.memo.get(&(p as *const P, e as *const Elem)) {
            return *r;
        }
        let has_el = e.kids.iter().any(|k| matches!(k, Node::El(_)));
        let r = if !has_el {
            let s: String = e.kids.iter().map(|k| if let Node::Tx(t) = k { t.as_str() } else { "" }).collect();
            let s: &'a str = Box::leak(s.into_boxed_str());
            self.text_content(p, &e.attrs, s)
        } else {
            let mut items = vec![];
            let mut i = 0;
            while i < e.kids.len() {
                match &e.kids[i] {
                    Node::El(x) => {
                        items.push(Item::El(x));
                        i += 1;
                    }
                    Node::Tx(_) => {
                        let mut s = String::new();
                        while let Some(Node::Tx(t)) = e.kids.get(i) {
                            s.push_str(t);
                            i += 1;
                        }
                        if !is_ws(&s) {
                            items.push(Item::Tx(Box::leak(s.into_boxed_str())));
                        }
                    }
                }
            }
            if items.len() > 24 || e.attrs.len() > 24 {
                self.steps = STEPS + 1;
                return false;
            }
            let am = (1u32 << e.attrs.len()) - 1;
            let cm = (1u32 << items.len()) - 1;
            let mut cx = Cx { attrs: &e.attrs, items, memo: HashMap::new() };
            self.m(p, am, cm, &mut cx)
        };
        self.memo.insert((p as *const P, e as *const Elem), r);
        r
    }
    fn m(&mut self, p: &'a P, a: u32, c: u32, cx: &mut Cx<'a>) -> bool {
        self.steps += 1;
        if self.steps > STEPS {
            return false;
        }
        match p {
            P::Empty => return a == 0 && c == 0,
            P::NotAllowed | P::Raw(_, _) => return false,
            P::Text => return a == 0 && bits(c).all(|i| matches!(cx.items[i], Item::Tx(_))),
            _ => {}
        }
        let k = (p as *const P, a, c, false);
        if let Some(r) = cx.memo.get(&k) {
            return *r;
        }
        let r = match p {
            P::Empty | P::NotAllowed | P::Text | P::Raw(_, _) => unreachable!(),
            P::Choice(v) => v.iter().any(|q| self.m(q, a, c, cx)),
            P::Group(v) => self.group(v, a, c, cx),
            P::Inter(v) => self.inter(v, a, c, cx),
            P::Opt(q) => (a == 0 && c == 0) || self.m(q, a, c, cx),
            P::Star(q) => (a == 0 && c == 0) || self.plus(q, a, c, cx),
            P::Plus(q) => self.plus(q, a, c, cx),
            P::Mixed(q) => {
                let texts: u32 = bits(c).filter(|i| matches!(cx.items[*i], Item::Tx(_))).map(|i| 1 << i).sum();
                subsets(texts).any(|t| self.m(q, a, c & !t, cx))
            }
            P::List(q) => match self.one_text(a, c, cx) {
                Some(s) => {
                    let toks = tokens(s);
                    let n = toks.len();
                    if n > 24 {
                        // too many for this search: give up
                        self.steps = STEPS + 1;
                        return false;
                    }
                    let mut cx2 = Cx { attrs: &[], items: toks.into_iter().map(Item::Tx).collect(), memo: HashMap::new() };
                    self.m(q, 0, (1u32 << n) - 1, &mut cx2)
                }
                None => false,
            },
            P::Att(nc, q) => {
                c == 0 && a.count_ones() == 1 && {
                    let x = &cx.attrs[a.trailing_zeros() as usize];
                    nc.has(&x.0, &x.1) && self.text_content(q, &[], &x.2)
                }
            }
            P::Elem(nc, q) => {
                a == 0 && c.count_ones() == 1 && match cx.items[c.trailing_zeros() as usize] {
                    Item::El(e) => nc.has(&e.ns, &e.local) && self.content(q, e),
                    Item::Tx(_) => false,
                }
            }
            P::Ref(i) => {
                let sch = self.sch;
                self.m(&sch.defs[*i], a, c, cx)
            }
            P::Value(dt, v) => self.one_text(a, c, cx).is_some_and(|s| value_ok(dt, v, s)),
            P::Data(dt, ps, ex) => match self.one_text(a, c, cx) {
                Some(s) => data_ok(dt, ps, s) && !ex.as_ref().is_some_and(|e| self.text_content(e, &[], s)),
                None => false,
            },
        };
        cx.memo.insert(k, r);
        r
    }
    fn one_text(&self, a: u32, c: u32, cx: &Cx<'a>) -> Option<&'a str> {
        if a == 0 && c.count_ones() == 1 {
            if let Item::Tx(s) = cx.items[c.trailing_zeros() as usize] {
                return Some(s);
            }
        }
        None
    }
    fn group(&mut self, v: &'a [P], a: u32, c: u32, cx: &mut Cx<'a>) -> bool {
        if v.len() == 1 {
            return self.m(&v[0], a, c, cx);
        }
        for c1 in prefixes(c) {
            for a1 in subsets(a) {
                if self.m(&v[0], a1, c1, cx) && self.group(&v[1..], a & !a1, c & !c1, cx) {
                    return true;
                }
            }
        }
        false
    }
    fn inter(&mut self, v: &'a [P], a: u32, c: u32, cx: &mut Cx<'a>) -> bool {
        if v.len() == 1 {
            return self.m(&v[0], a, c, cx);
        }
        for c1 in subsets(c) {
            for a1 in subsets(a) {
                if self.m(&v[0], a1, c1, cx) && self.inter(&v[1..], a & !a1, c & !c1, cx) {
                    return true;
                }
            }
        }
        false
    }
    fn plus(&mut self, q: &'a P, a: u32, c: u32, cx: &mut Cx<'a>) -> bool {
        let k = (q as *const P, a, c, true);
        if let Some(r) = cx.memo.get(&k) {
            return *r;
        }
        let mut r = self.m(q, a, c, cx);
        if !r {
            'o: for c1 in prefixes(c) {
                for a1 in subsets(a) {
                    if (c1 == 0 && a1 == 0) || (c1 == c && a1 == a) {
                        continue;
                    }
                    if self.m(q, a1, c1, cx) && self.plus(q, a & !a1, c & !c1, cx) {
                        r = true;
                        break 'o;
                    }
                }
            }
        }
        cx.memo.insert(k, r);
        r
    }
}
fn bits(m: u32) -> impl Iterator<Item = usize> {
    (0..32).filter(move |i| m & (1 << i) != 0)
}
fn subsets(m: u32) -> impl Iterator<Item = u32> {
    let mut s = Some(m);
    std::iter::from_fn(move || {
        let r = s?;
        s = if r == 0 { None } else { Some((r - 1) & m) };
        Some(r)
    })
}
fn prefixes(m: u32) -> Vec<u32> {
    let mut v = vec![0];
    let mut p = 0;
    for i in bits(m) {
        p |= 1 << i;
        v.push(p);
    }
    v
}
