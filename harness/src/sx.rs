//! Ways of writing a flat schema down: grouping, combined definitions, nested grammars, includes, external files.
use crate::rnd::Rnd;
use crate::sem::{Dt, Schema, NC, P};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum S {
    Empty,
    NotAllowed,
    Text,
    Choice(Vec<S>),
    Group(Vec<S>),
    Inter(Vec<S>),
    Opt(Box<S>),
    Star(Box<S>),
    Plus(Box<S>),
    Mixed(Box<S>),
    List(Box<S>),
    Att(NC, Box<S>),
    Elem(NC, Box<S>),
    Ref(String),
    Parent(String),
    Value(Dt, String),
    Data(Dt, Vec<(String, String)>, Option<Box<S>>),
    Grammar(Vec<G>),
    External(usize),
    Raw(String, String),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Assign,
    Choice,
    Inter,
}
#[derive(Clone, Debug)]
pub enum G {
    Def(String, Op, S),
    Include(usize, Vec<G>),
    Div(Vec<G>),
}
#[derive(Clone, Debug)]
pub enum FileS {
    Pattern(S),
    Grammar(Vec<G>),
}
/// how likely (percent) each way of writing things differently is
#[derive(Clone, Default, Debug)]
pub struct Knobs {
    pub nest: usize,    // regroup n-ary patterns
    pub derive: usize,  // write optional, zeroOrMore and mixed out
    pub split: usize,   // combined definitions
    pub grammar: usize, // nested grammars
    pub external: usize,
    pub include: usize,
    pub over: usize, // overrides in includes
    pub div: usize,
    pub plain: usize, // percentage of schemas without definitions that are written as a single pattern
    pub ns: usize,    // variety of namespace declarations
    pub annot: usize, // annotations and comments
}
pub struct Pres<'r, 's> {
    r: &'r mut Rnd,
    k: Knobs,
    sch: &'s Schema,
    pub files: Vec<Option<FileS>>,
    budget: usize,
}
type Scope = BTreeMap<usize, String>;
struct Env {
    scopes: Vec<Scope>,
    extra: Vec<Vec<G>>, // definitions to be added to the grammar of each scope
}
pub const DEFNAMES: [&str; 17] = ["a", "b", "foo", "x.y", "def-1", "list", "start2", "element", "tokens", "string.x", "text-1", "emptyish", "divs", "parent_", "notAllowed1", "includes", "\\start"];

pub fn refs(p: &P, out: &mut Vec<usize>) {
    match p {
        P::Choice(v) | P::Group(v) | P::Inter(v) => v.iter().for_each(|q| refs(q, out)),
        P::Opt(q) | P::Star(q) | P::Plus(q) | P::Mixed(q) | P::List(q) | P::Att(_, q) | P::Elem(_, q) => refs(q, out),
        P::Data(_, _, Some(q)) => refs(q, out),
        P::Ref(i) => {
            if !out.contains(i) {
                out.push(*i)
            }
        }
        _ => {}
    }
}
pub fn closure(sch: &Schema, p: &P) -> Vec<usize> {
    let mut out = vec![];
    refs(p, &mut out);
    let mut i = 0;
    while i < out.len() {
        refs(&sch.defs[out[i]], &mut out);
        i += 1;
    }
    out
}
/// Returns the files (main first).
pub fn present(r: &mut Rnd, k: &Knobs, sch: &Schema) -> Vec<FileS> {
    let mut p = Pres { r, k: k.clone(), sch, files: vec![None], budget: 6 };
    let used = closure(sch, &sch.start);
    let main = if used.is_empty() && p.r.pct(p.k.plain) {
        let mut env = Env { scopes: vec![], extra: vec![] };
        FileS::Pattern(p.conv(&sch.start, &mut env, 0))
    } else {
        let all: Vec<usize> = if p.r.pct(80) { used } else { (0..sch.defs.len()).collect() };
        FileS::Grammar(p.top(&all))
    };
    p.files[0] = Some(main);
    p.files.into_iter().map(|f| f.unwrap()).collect()
}
impl<'r, 's> Pres<'r, 's> {
    fn names(&mut self, defs: &[usize], avoid: &[String]) -> Scope {
        let mut head: Vec<String> = DEFNAMES.iter().map(|s| s.to_string()).filter(|n| !avoid.contains(n)).collect();
        self.r.shuffle(&mut head);
        let pool: Vec<String> = (0..10).map(|i| format!("n{i}")).filter(|n| !avoid.contains(n)).collect();
        head.extend(pool);
        defs.iter().cloned().zip(head).collect()
    }
    /// the contents of a grammar defining `defs`, whose start is the schema's start
    fn top(&mut self, defs: &[usize]) -> Vec<G> {
        let names = self.names(defs, &[]);
        let mut env = Env { scopes: vec![names.clone()], extra: vec![vec![]] };
        let mut pieces: Vec<Vec<G>> = vec![];
        for d in defs {
            let sch = self.sch;
            let x = self.define(&names[d].clone(), &sch.defs[*d], &mut env);
            pieces.push(x);
        }
        let sch = self.sch;
        let start = self.define("start", &sch.start, &mut env);
        pieces.push(start);
        for g in env.extra.pop().unwrap() {
            pieces.push(vec![g]);
        }
        self.spread(pieces)
    }
    /// definitions of a grammar: some in included files, some overridden
    fn spread(&mut self, pieces: Vec<Vec<G>>) -> Vec<G> {
        let mut here: Vec<G> = vec![];
        if self.r.pct(self.k.include) && self.budget > 0 {
            self.budget -= 1;
            let (mut inner, mut over): (Vec<Vec<G>>, Vec<G>) = (vec![], vec![]);
            for p in pieces {
                // (all of it, in however many pieces)
                let single = !p.is_empty() && p.iter().all(|g| matches!(g, G::Def(_, _, _)));
                if self.r.pct(60) {
                    if single && self.r.pct(self.k.over) {
                        // the included file has something else under this name
                        if let G::Def(n, _, _) = &p[0] {
                            let wrong = match self.r.below(3) {
                                0 => S::NotAllowed,
                                1 => S::Text,
                                _ => S::Elem(NC::Named("".into(), "zz".into()), Box::new(S::Empty)),
                            };
                            if self.r.pct(25) {
                                inner.push(vec![G::Def(n.clone(), Op::Choice, wrong.clone()), G::Def(n.clone(), Op::Choice, S::Empty)]);
                            } else {
                                inner.push(vec![G::Def(n.clone(), Op::Assign, wrong)]);
                            }
                        }
                        over.extend(p);
                    } else {
                        inner.push(p);
                    }
                } else {
                    here.extend(p);
                }
            }
            if inner.is_empty() {
                // (an empty file is not accepted as a grammar)
                return self.mix(here);
            }
            let f = self.files.len();
            self.files.push(None);
            let body = if self.budget > 0 && self.r.pct(30) { self.spread(inner) } else { self.mix(inner.into_iter().flatten().collect()) };
            self.files[f] = Some(FileS::Grammar(body));
            let over = self.mix(over);
            here.push(G::Include(f, over));
        } else {
            here = pieces.into_iter().flatten().collect();
        }
        self.mix(here)
    }
    fn mix(&mut self, mut v: Vec<G>) -> Vec<G> {
        self.r.shuffle(&mut v);
        if self.r.pct(self.k.div) && !v.is_empty() {
            let a = self.r.below(v.len());
            let b = self.r.range(a, v.len());
            let inner: Vec<G> = v.drain(a..b).collect();
            let inner = if self.r.pct(35) {
                self.mix(inner)
            } else if self.r.pct(15) {
                vec![G::Div(inner)]
            } else {
                inner
            };
            v.insert(a, G::Div(inner));
        }
        v
    }
    /// one definition, possibly in pieces
    fn define(&mut self, name: &str, p: &P, env: &mut Env) -> Vec<G> {
        let n = name.to_string();
        if self.r.pct(self.k.split) {
            let (op, parts) = match p {
                P::Choice(v) if self.r.pct(80) => (Op::Choice, v.clone()),
                P::Inter(v) if self.r.pct(80) => (Op::Inter, v.clone()),
                _ => {
                    if self.r.pct(50) {
                        (Op::Choice, if self.r.pct(40) { vec![p.clone(), P::NotAllowed] } else { vec![p.clone()] })
                    } else {
                        (Op::Inter, if self.r.pct(40) { vec![p.clone(), P::Empty] } else { vec![p.clone()] })
                    }
                }
            };
            // consecutive members may stay together in one piece
            let mut pieces: Vec<Vec<P>> = vec![];
            for q in parts {
                if !pieces.is_empty() && self.r.pct(30) {
                    pieces.last_mut().unwrap().push(q);
                } else {
                    pieces.push(vec![q]);
                }
            }
            let plain = if self.r.pct(40) { self.r.below(pieces.len()) } else { usize::MAX };
            return pieces
                .into_iter()
                .enumerate()
                .map(|(i, mut v)| {
                    let q = if v.len() == 1 {
                        v.pop().unwrap()
                    } else if op == Op::Choice {
                        P::Choice(v)
                    } else {
                        P::Inter(v)
                    };
                    let s = self.conv(&q, env, 0);
                    G::Def(n.clone(), if i == plain { Op::Assign } else { op }, s)
                })
                .collect();
        }
        vec![G::Def(n, Op::Assign, self.conv(p, env, 0))]
    }
    fn nary(&mut self, v: Vec<S>, mk: fn(Vec<S>) -> S) -> S {
        if v.len() > 2 && self.r.pct(self.k.nest) {
            let a = self.r.below(v.len() - 1);
            let b = self.r.range(a + 2, v.len());
            if b - a < v.len() {
                let mut v = v;
                let mid: Vec<S> = v.drain(a..b).collect();
                let mid = self.nary(mid, mk);
                v.insert(a, mid);
                return self.nary(v, mk);
            }
        }
        mk(v)
    }
    fn conv(&mut self, p: &P, env: &mut Env, depth: usize) -> S {
        if depth > 0 && depth < 8 && self.budget > 0 && !matches!(p, P::Empty | P::NotAllowed | P::Text) {
            if self.r.pct(self.k.grammar) {
                self.budget -= 1;
                return self.grammar(p, env);
            }
            if self.r.pct(self.k.external) {
                self.budget -= 1;
                return self.external(p);
            }
        }
        let d = depth + 1;
        match p {
            P::Empty => S::Empty,
            P::NotAllowed => S::NotAllowed,
            P::Text => S::Text,
            P::Raw(a, b) => S::Raw(a.clone(), b.clone()),
            P::Choice(v) => {
                let v = v.iter().map(|q| self.conv(q, env, d)).collect();
                self.nary(v, S::Choice)
            }
            P::Group(v) => {
                let v = v.iter().map(|q| self.conv(q, env, d)).collect();
                self.nary(v, S::Group)
            }
            P::Inter(v) => {
                let v = v.iter().map(|q| self.conv(q, env, d)).collect();
                self.nary(v, S::Inter)
            }
            P::Opt(q) => {
                let s = self.conv(q, env, d);
                if self.r.pct(self.k.derive) {
                    if self.r.pct(50) {
                        S::Choice(vec![s, S::Empty])
                    } else {
                        S::Choice(vec![S::Empty, s])
                    }
                } else {
                    S::Opt(Box::new(s))
                }
            }
            P::Star(q) => {
                let s = self.conv(q, env, d);
                if self.r.pct(self.k.derive) {
                    match self.r.below(3) {
                        0 => S::Choice(vec![S::Plus(Box::new(s)), S::Empty]),
                        1 => S::Opt(Box::new(S::Plus(Box::new(s)))),
                        _ => S::Choice(vec![S::Empty, S::Plus(Box::new(s))]),
                    }
                } else {
                    S::Star(Box::new(s))
                }
            }
            P::Plus(q) => S::Plus(Box::new(self.conv(q, env, d))),
            P::Mixed(q) => {
                let s = self.conv(q, env, d);
                if self.r.pct(self.k.derive) {
                    if self.r.pct(50) {
                        S::Inter(vec![s, S::Text])
                    } else {
                        S::Inter(vec![S::Text, s])
                    }
                } else {
                    S::Mixed(Box::new(s))
                }
            }
            P::List(q) => S::List(Box::new(self.conv(q, env, d))),
            P::Att(n, q) => S::Att(n.clone(), Box::new(self.conv(q, env, d))),
            P::Elem(n, q) => S::Elem(n.clone(), Box::new(self.conv(q, env, d))),
            P::Ref(i) => self.refer(*i, env),
            P::Value(dt, v) => S::Value(dt.clone(), v.clone()),
            P::Data(dt, ps, e) => {
                // (nothing but data, value and choice in an except)
                let (g, x) = (self.k.grammar, self.k.external);
                self.k.grammar = 0;
                self.k.external = 0;
                let e = e.as_ref().map(|e| Box::new(self.conv(e, env, d)));
                self.k.grammar = g;
                self.k.external = x;
                S::Data(dt.clone(), ps.clone(), e)
            }
        }
    }
    fn refer(&mut self, i: usize, env: &mut Env) -> S {
        let n = env.scopes.len();
        if let Some(s) = env.scopes[n - 1].get(&i) {
            return S::Ref(s.clone());
        }
        if n >= 2 {
            if let Some(s) = env.scopes[n - 2].get(&i) {
                return S::Parent(s.clone());
            }
            // not visible from here: the enclosing grammar gets a definition that passes it on
            let top = env.scopes.pop().unwrap();
            let tex = env.extra.pop().unwrap();
            let via = self.refer(i, env);
            let name = format!("via{i}.{}", env.scopes.len());
            env.extra.last_mut().unwrap().push(G::Def(name.clone(), Op::Assign, via));
            env.scopes.last_mut().unwrap().insert(i, name.clone());
            env.scopes.push(top);
            env.extra.push(tex);
            return S::Parent(name);
        }
        panic!("definition {i} is not in scope")
    }
    /// p as the start of a grammar of its own
    fn grammar(&mut self, p: &P, env: &mut Env) -> S {
        let mut rs = vec![];
        refs(p, &mut rs);
        let local: Vec<usize> = rs.into_iter().filter(|_| self.r.pct(60)).collect();
        let mut scope = self.names(&local, &[]);
        // a definition that nothing in this grammar should see, under the name of one of the enclosing grammar
        let mut decoys = vec![];
        if let Some(outer) = env.scopes.last() {
            for n in outer.values() {
                if !scope.values().any(|x| x == n) && self.r.pct(50) {
                    decoys.push(vec![G::Def(n.clone(), Op::Assign, S::NotAllowed)]);
                }
            }
        }
        let _ = &mut scope;
        env.scopes.push(scope.clone());
        env.extra.push(vec![]);
        let mut pieces = vec![];
        for (i, n) in &scope {
            let sch = self.sch;
            let x = self.define(n, &sch.defs[*i], env);
            pieces.push(x);
        }
        // (the nested grammar's start must not just be another grammar, for fear of running away)
        let x = {
            let g = self.k.grammar;
            self.k.grammar = g / 2;
            let s = self.define("start", p, env);
            self.k.grammar = g;
            s
        };
        pieces.push(x);
        env.scopes.pop();
        for g in env.extra.pop().unwrap() {
            pieces.push(vec![g]);
        }
        pieces.extend(decoys);
        let inc = self.k.include;
        self.k.include = inc / 3;
        let v = self.spread(pieces);
        self.k.include = inc;
        S::Grammar(v)
    }
    fn external(&mut self, p: &P) -> S {
        let f = self.files.len();
        self.files.push(None);
        let used = closure(self.sch, p);
        let body = if used.is_empty() && self.r.pct(60) {
            let mut env = Env { scopes: vec![Scope::new()], extra: vec![vec![]] };
            let s = self.conv(p, &mut env, 0);
            FileS::Pattern(s)
        } else {
            let names = self.names(&used, &[]);
            let mut env = Env { scopes: vec![names.clone()], extra: vec![vec![]] };
            let mut pieces = vec![];
            for (i, n) in &names {
                let sch = self.sch;
                let x = self.define(n, &sch.defs[*i], &mut env);
                pieces.push(x);
            }
            let x = self.define("start", p, &mut env);
            pieces.push(x);
            for g in env.extra.pop().unwrap() {
                pieces.push(vec![g]);
            }
            FileS::Grammar(self.spread(pieces))
        };
        self.files[f] = Some(body);
        S::External(f)
    }
}
