"""writes nomc.vrs: the parts of nom that the parser of the compact syntax uses, mirrored by what they do; unlike nom.vrs with
errors that stop the alternatives (cut), and with less said about why a parser fails"""
import os
o = ['''// ---- mirror of nom and nom_locate (dependencies): a parser is what it says about an input and its result.
// Sequences, alternatives, map, opt, cut, not, peek, delimited, preceded are verified here against those statements; the leaves and the repetitions are trusted.
#[derive(Copy, Clone)]
pub struct Span<'a> { s: &'a str, off: usize }
impl<'a> Span<'a> {
    pub closed spec fn view(&self) -> Seq<char> { self.s@ }
    pub closed spec fn offset(&self) -> usize { self.off }
    pub fn fragment(&self) -> (r: &&'a str) ensures (*r)@ == self@ { &self.s }
    pub fn location_offset(&self) -> (r: usize) ensures r == self.offset() { self.off }
}
impl<'a> VxShow for Span<'a> { open spec fn shown(&self) -> Seq<char> { self@ } }
// an error lets an alternative be tried; a failure does not
pub enum NomErr { Error, Failure }
pub type IResult<I, O> = Result<(I, O), NomErr>;
pub type IRes<'a, O> = Result<(Span<'a>, O), NomErr>;
pub trait Parser<'a, O> {
    spec fn req(&self) -> bool;
    spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool;
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) requires self.req() ensures self.rel(i, r);
}
impl<'a, O, F: Fn(Span<'a>) -> IRes<'a, O>> Parser<'a, O> for F {
    open spec fn req(&self) -> bool { forall|i: Span<'a>| self.requires((i,)) }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { self.ensures((i,), r) }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { (*self)(i) }
}
// failed: what a parser says when it gives up so that the next alternative is tried
pub open spec fn failed<'a, O, P: Parser<'a, O>>(p: P, i: Span<'a>) -> bool { p.rel(i, Err(NomErr::Error)) }
pub struct Alt<T> { pub t: T }
fn alt<T>(t: T) -> (r: Alt<T>) ensures r.t == t { Alt { t } }
''']
N = 'ABCDEFGHJKLMNPQSTUVWXYZ'
def alt(n):
    ls = N[:n]
    rel = f'self.t.{n-1}.rel(i, r)'
    for k in reversed(range(n - 1)):
        rel = f'(r is Ok && self.t.{k}.rel(i, r)) || (failed(self.t.{k}, i) && ({rel}))'
    rel = 'match r { Ok(_) => ' + rel + ', Err(NomErr::Error) => ' + ' && '.join(f'failed(self.t.{k}, i)' for k in range(n)) + ', _ => true }'
    body = f'self.t.{n-1}.parse(i)'
    for k in reversed(range(n - 1)):
        body = f'match self.t.{k}.parse(i) {{ Err(NomErr::Error) => {{ {body} }} x => x }}'
    o.append(f'''impl<'a, O, {', '.join(f"{c}: Parser<'a, O>" for c in ls)}> Parser<'a, O> for Alt<({', '.join(ls)})> {{
    open spec fn req(&self) -> bool {{ {' && '.join(f'self.t.{k}.req()' for k in range(n))} }}
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool {{ {rel} }}
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) {{ {body} }}
}}
''')
for n in (2, 3, 4, 5, 6, 7, 8, 13, 14, 15, 18, 19, 20):
    alt(n)
def seq(n):
    ls = N[:n]
    os_ = ['O' + c for c in ls]
    ok = ' && '.join(f"#[trigger] self.{k}.rel({'i' if k == 0 else 'm%d' % k}, Ok(({'m%d' % (k+1) if k < n - 1 else 'j'}, y{k})))" for k in range(n))
    vs = [f"m{k}: Span<'a>" for k in range(1, n)] + [f'y{k}: O{ls[k]}' for k in range(n)]
    okq = f"exists|{', '.join(vs)}| {ok} && {' && '.join(f'x.{k} == y{k}' for k in range(n))}"
    errs = []
    if n <= 3:
        for k in range(n):
            vs = [f"m{j}: Span<'a>" for j in range(1, k + 1)] + [f'y{j}: O{ls[j]}' for j in range(k)]
            cs = [f"#[trigger] self.{j}.rel({'i' if j == 0 else 'm%d' % j}, Ok((m{j+1}, y{j})))" for j in range(k)] + [f"failed(self.{k}, {'i' if k == 0 else 'm%d' % k})"]
            errs.append(f"({'exists|' + ', '.join(vs) + '| ' if vs else ''}{' && '.join(cs)})")
    tup = '(%s)' % ', '.join(f'y{k}' for k in range(n))
    body = f'''proof {{
            let vx_r: IRes<'a, ({', '.join(os_)})> = Ok((m{n}, {tup}));
            match vx_r {{ Ok((j, x)) => {{ assert(self.{n-1}.rel({'m%d' % (n-1)}, Ok((j, y{n-1})))); assert({okq}); }} _ => {{}} }}
        }}
        Ok((m{n}, {tup}))'''
    steps = ''
    for k in range(n):
        src = 'i' if k == 0 else f'm{k}'
        steps += f'        let (m{k+1}, y{k}) = match self.{k}.parse({src}) {{ Ok(v) => v, Err(e) => {{ return Err(e) }} }};\n        proof {{ assert(self.{k}.rel({src}, Ok((m{k+1}, y{k})))); }}\n'
    o.append(f'''impl<'a, {', '.join(os_)}, {', '.join(f"{c}: Parser<'a, O{c}>" for c in ls)}> Parser<'a, ({', '.join(os_)})> for ({', '.join(ls)}) {{
    open spec fn req(&self) -> bool {{ {' && '.join(f'self.{k}.req()' for k in range(n))} }}
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, ({', '.join(os_)})>) -> bool {{
        match r {{
            Ok((j, x)) => {okq},
            Err(NomErr::Error) => {' || '.join(errs) if errs else 'true'},
            _ => true,
        }}
    }}
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, ({', '.join(os_)})>) {{
{steps}        {body}
    }}
}}
''')
for n in (2, 3, 4, 5, 6, 7, 8, 9, 10):
    seq(n)
o.append('''// map
pub struct Map<O, P, F> { pub p: P, pub f: F, pub g: std::marker::PhantomData<O> }
fn map<'a, O, T, P: Parser<'a, O>, F: Fn(O) -> T>(p: P, f: F) -> (r: Map<O, P, F>) ensures r.p == p, r.f == f { Map { p, f, g: std::marker::PhantomData } }
impl<'a, O, T, P: Parser<'a, O>, F: Fn(O) -> T> Parser<'a, T> for Map<O, P, F> {
    open spec fn req(&self) -> bool { self.p.req() && forall|x: O| self.f.requires((x,)) }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, T>) -> bool {
        match r {
            Ok((j, y)) => exists|x: O| #[trigger] self.p.rel(i, Ok((j, x))) && self.f.ensures((x,), y),
            Err(NomErr::Error) => failed(self.p, i),
            _ => true,
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, T>) {
        match self.p.parse(i) { Ok((j, x)) => {
            let y = (self.f)(x);
            proof {
                let vx_r: IRes<'a, T> = Ok((j, y));
                match vx_r { Ok((j1, y1)) => { assert(self.p.rel(i, Ok((j1, x)))); assert(exists|x: O| #[trigger] self.p.rel(i, Ok((j1, x))) && self.f.ensures((x,), y1)); } _ => {} }
            }
            Ok((j, y))
        } Err(e) => Err(e) }
    }
}
pub struct Recognize<P, O> { pub p: P, pub g: std::marker::PhantomData<O> }
fn recognize<'a, O, P: Parser<'a, O>>(p: P) -> (r: Recognize<P, O>) ensures r.p == p { Recognize { p, g: std::marker::PhantomData } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, Span<'a>> for Recognize<P, O> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Span<'a>>) -> bool {
        match r {
            Ok((j, v)) => exists|x: O| #[trigger] self.p.rel(i, Ok((j, x))) && (j@.len() <= i@.len() ==> v@ == i@.take(i@.len() - j@.len())),
            Err(NomErr::Error) => failed(self.p, i),
            _ => true,
        }
    }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Span<'a>>) { unimplemented!() }
}
pub struct Opt<P> { pub p: P }
fn opt<P>(p: P) -> (r: Opt<P>) ensures r.p == p { Opt { p } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, Option<O>> for Opt<P> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Option<O>>) -> bool {
        match r { Ok((j, Some(x))) => self.p.rel(i, Ok((j, x))), Ok((j, None)) => j == i && failed(self.p, i), Err(e) => e is Failure }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Option<O>>) { match self.p.parse(i) { Ok((j, x)) => Ok((j, Some(x))), Err(NomErr::Error) => Ok((i, None)), Err(e) => Err(e) } }
}
pub struct Not<P, O> { pub p: P, pub g: std::marker::PhantomData<O> }
fn not<'a, O, P: Parser<'a, O>>(p: P) -> (r: Not<P, O>) ensures r.p == p { Not { p, g: std::marker::PhantomData } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, ()> for Not<P, O> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, ()>) -> bool {
        match r { Ok((j, x)) => j == i && failed(self.p, i), Err(NomErr::Error) => exists|j: Span<'a>, x: O| #[trigger] self.p.rel(i, Ok((j, x))), _ => true }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, ()>) { match self.p.parse(i) { Ok((j, x)) => { proof { assert(self.p.rel(i, Ok((j, x)))); } Err(NomErr::Error) }, Err(NomErr::Error) => Ok((i, ())), Err(e) => Err(e) } }
}
pub struct Peek<P> { pub p: P }
fn peek<P>(p: P) -> (r: Peek<P>) ensures r.p == p { Peek { p } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, O> for Peek<P> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool {
        match r { Ok((j, x)) => j == i && exists|m: Span<'a>| #[trigger] self.p.rel(i, Ok((m, x))), Err(NomErr::Error) => failed(self.p, i), _ => true }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.p.parse(i) { Ok((m, x)) => { proof { assert(self.p.rel(i, Ok((m, x)))); let vx_r: IRes<'a, O> = Ok((i, x)); match vx_r { Ok((j, x1)) => { assert(self.p.rel(i, Ok((m, x1)))); } _ => {} } } Ok((i, x)) }, Err(e) => Err(e) } }
}
pub struct Cut<P> { pub p: P }
fn cut<P>(p: P) -> (r: Cut<P>) ensures r.p == p { Cut { p } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, O> for Cut<P> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok(_) => self.p.rel(i, r), Err(e) => e is Failure } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.p.parse(i) { Ok(x) => Ok(x), Err(e) => Err(NomErr::Failure) } }
}
pub struct Preceded<P, Q, O> { pub p: P, pub q: Q, pub g: std::marker::PhantomData<O> }
fn preceded<'a, O, P: Parser<'a, O>, Q>(p: P, q: Q) -> (r: Preceded<P, Q, O>) ensures r.p == p, r.q == q { Preceded { p, q, g: std::marker::PhantomData } }
impl<'a, O, T, P: Parser<'a, O>, Q: Parser<'a, T>> Parser<'a, T> for Preceded<P, Q, O> {
    open spec fn req(&self) -> bool { self.p.req() && self.q.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, T>) -> bool {
        match r {
            Ok((j, y)) => exists|m: Span<'a>, x: O| #[trigger] self.p.rel(i, Ok((m, x))) && self.q.rel(m, r),
            Err(NomErr::Error) => failed(self.p, i) || exists|m: Span<'a>, x: O| #[trigger] self.p.rel(i, Ok((m, x))) && failed(self.q, m),
            _ => true,
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, T>) { match self.p.parse(i) { Ok((m, x)) => { proof { assert(self.p.rel(i, Ok((m, x)))); } self.q.parse(m) }, Err(e) => Err(e) } }
}
pub struct Delimited<P, Q, R, A, B> { pub p: P, pub q: Q, pub r: R, pub g: std::marker::PhantomData<(A, B)> }
fn delimited<'a, A, B, P: Parser<'a, A>, Q, R: Parser<'a, B>>(p: P, q: Q, r: R) -> (v: Delimited<P, Q, R, A, B>) ensures v.p == p, v.q == q, v.r == r { Delimited { p, q, r, g: std::marker::PhantomData } }
impl<'a, A, B, T, P: Parser<'a, A>, Q: Parser<'a, T>, R: Parser<'a, B>> Parser<'a, T> for Delimited<P, Q, R, A, B> {
    open spec fn req(&self) -> bool { self.p.req() && self.q.req() && self.r.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, T>) -> bool {
        match r {
            Ok((j, y)) => exists|m: Span<'a>, x: A, n: Span<'a>, z: B| #[trigger] self.p.rel(i, Ok((m, x))) && self.q.rel(m, Ok((n, y))) && #[trigger] self.r.rel(n, Ok((j, z))),
            _ => true,
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, T>) {
        let (m, x) = match self.p.parse(i) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.p.rel(i, Ok((m, x)))); }
        let (n, y) = match self.q.parse(m) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.q.rel(m, Ok((n, y)))); }
        let (j, z) = match self.r.parse(n) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { let vx_r: IRes<'a, T> = Ok((j, y)); assert(self.r.rel(n, Ok((j, z)))); match vx_r { Ok((j, y)) => { assert(self.q.rel(m, Ok((n, y)))); assert(self.r.rel(n, Ok((j, z)))); } _ => {} } }
        Ok((j, y))
    }
}
// position: consumes nothing
fn position<'a>(i: Span<'a>) -> (r: IRes<'a, Span<'a>>) ensures r matches Ok((j, p)) && j == i && p@.len() == 0 && p.offset() == i.offset() { Ok((i, Span { s: vx_empty(), off: i.off })) }
#[verifier::external_body]
fn vx_empty() -> (r: &'static str) ensures r@.len() == 0 { "" }
// one character
pub open spec fn one(i: Seq<char>, c: bool, r: IRes<'_, char>) -> bool { match r { Ok((j, x)) => i.len() > 0 && c && x == i[0] && j@ == i.drop_first(), Err(NomErr::Error) => !(i.len() > 0 && c), _ => true } }
pub struct Ch { pub c: char }
fn char(c: char) -> (r: Ch) ensures r.c == c { Ch { c } }
impl<'a> Parser<'a, char> for Ch {
    open spec fn req(&self) -> bool { true }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, char>) -> bool { one(i@, i@[0] == self.c, r) }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, char>) { unimplemented!() }
}
// a given text
pub open spec fn pre(s: Seq<char>, t: Seq<char>) -> bool { t.len() <= s.len() && s.take(t.len() as int) == t }
pub struct Tag { pub t: &'static str }
fn tag(t: &'static str) -> (r: Tag) ensures r.t@ == t@ { Tag { t } }
impl<'a> Parser<'a, Span<'a>> for Tag {
    open spec fn req(&self) -> bool { true }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Span<'a>>) -> bool { match r { Ok((j, x)) => pre(i@, self.t@) && x@ == self.t@ && j@ == i@.skip(self.t@.len() as int), Err(e) => e is Error && !pre(i@, self.t@) } }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Span<'a>>) { unimplemented!() }
}
// the characters up to the first of the given ones, at least one
pub struct IsNot { pub t: &'static str }
fn is_not(t: &'static str) -> (r: IsNot) ensures r.t@ == t@ { IsNot { t } }
impl<'a> Parser<'a, Span<'a>> for IsNot {
    open spec fn req(&self) -> bool { true }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Span<'a>>) -> bool {
        match r {
            Ok((j, x)) => x@.len() > 0 && i@ == x@ + j@ && (forall|k: int| 0 <= k < x@.len() ==> !self.t@.contains(#[trigger] x@[k])) && (j@.len() > 0 ==> self.t@.contains(j@[0])),
            Err(e) => e is Error && (i@.len() == 0 || self.t@.contains(i@[0])),
        }
    }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Span<'a>>) { unimplemented!() }
}
// the characters in front of the first occurrence of a text
pub open spec fn occurs(s: Seq<char>, t: Seq<char>, k: int) -> bool { 0 <= k <= s.len() && pre(s.skip(k), t) }
pub struct TakeUntil { pub t: &'static str }
fn take_until(t: &'static str) -> (r: TakeUntil) ensures r.t@ == t@ { TakeUntil { t } }
impl<'a> Parser<'a, Span<'a>> for TakeUntil {
    open spec fn req(&self) -> bool { true }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Span<'a>>) -> bool {
        match r { Ok((j, x)) => i@ == x@ + j@ && pre(j@, self.t@) && forall|k: int| 0 <= k < x@.len() ==> !#[trigger] occurs(i@, self.t@, k), Err(e) => e is Error }
    }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Span<'a>>) { unimplemented!() }
}
// white space: space, tab, carriage return, line feed
pub open spec fn ws(c: char) -> bool { c == ' ' || c == '\\t' || c == '\\n' || c == '\\r' }
pub open spec fn spaces(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s[0]) { spaces(s.drop_first()) } else { s } }
#[verifier::external_body]
fn multispace1<'a>(i: Span<'a>) -> (r: IRes<'a, Span<'a>>) ensures match r { Ok((j, x)) => i@.len() > 0 && ws(i@[0]) && j@ == spaces(i@), Err(e) => e is Error && !(i@.len() > 0 && ws(i@[0])) } { unimplemented!() }
// as often as the parser matches; gives up with an error where it matches without consuming anything
pub open spec fn many_rel<'a, O, P: Parser<'a, O>>(p: P, i: Span<'a>, out: Seq<O>, j: Span<'a>) -> bool decreases out.len() {
    if out.len() == 0 { failed(p, i) && j == i } else { exists|m: Span<'a>| #[trigger] p.rel(i, Ok((m, out[0]))) && m@.len() != i@.len() && many_rel(p, m, out.drop_first(), j) }
}
pub struct Many0<P> { pub p: P }
fn many0<P>(p: P) -> (r: Many0<P>) ensures r.p == p { Many0 { p } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, Vec<O>> for Many0<P> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Vec<O>>) -> bool {
        match r {
            Ok((j, v)) => many_rel(self.p, i, v@, j),
            Err(NomErr::Error) => exists|m: Span<'a>, m2: Span<'a>, x: O| #[trigger] self.p.rel(m, Ok((m2, x))) && m2@.len() == m@.len(),
            _ => true,
        }
    }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Vec<O>>) { unimplemented!() }
}
// the same, folded: nothing is said about the value
pub struct FoldMany<P, O, R> { pub p: P, pub least: nat, pub g: std::marker::PhantomData<(O, R)> }
#[verifier::external_body]
fn fold_many0<'a, O, R, P: Parser<'a, O>, F: Fn() -> R, G: Fn(R, O) -> R>(p: P, f: F, g: G) -> (r: FoldMany<P, O, R>) ensures r.p == p, r.least == 0 { unimplemented!() }
#[verifier::external_body]
fn fold_many1<'a, O, R, P: Parser<'a, O>, F: Fn() -> R, G: Fn(R, O) -> R>(p: P, f: F, g: G) -> (r: FoldMany<P, O, R>) ensures r.p == p, r.least == 1 { unimplemented!() }
impl<'a, O, R, P: Parser<'a, O>> Parser<'a, R> for FoldMany<P, O, R> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, R>) -> bool { match r { Ok((j, v)) => exists|out: Seq<O>| #[trigger] many_rel(self.p, i, out, j) && out.len() >= self.least, _ => true } }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, R>) { unimplemented!() }
}
// items with separators between them; a separator with no item behind it is left alone
pub open spec fn sep_rel<'a, O, S, P: Parser<'a, O>, Q: Parser<'a, S>>(q: Q, p: P, i: Span<'a>, v: Seq<O>, n: nat, j: Span<'a>) -> bool decreases n {
    if n == 0 || n > v.len() { n == 0 && j == i }
    else if n == 1 { p.rel(i, Ok((j, v[0]))) }
    else { exists|m1: Span<'a>, m2: Span<'a>, y: S| sep_rel(q, p, i, v, (n - 1) as nat, m1) && #[trigger] q.rel(m1, Ok((m2, y))) && #[trigger] p.rel(m2, Ok((j, v[n - 1]))) }
}
pub struct Sep<Q, P, S> { pub q: Q, pub p: P, pub least: nat, pub g: std::marker::PhantomData<S> }
#[verifier::external_body]
fn separated_list0<'a, S, P, Q: Parser<'a, S>>(q: Q, p: P) -> (r: Sep<Q, P, S>) ensures r.p == p, r.q == q, r.least == 0 { unimplemented!() }
#[verifier::external_body]
fn separated_list1<'a, S, P, Q: Parser<'a, S>>(q: Q, p: P) -> (r: Sep<Q, P, S>) ensures r.p == p, r.q == q, r.least == 1 { unimplemented!() }
impl<'a, O, S, P: Parser<'a, O>, Q: Parser<'a, S>> Parser<'a, Vec<O>> for Sep<Q, P, S> {
    open spec fn req(&self) -> bool { self.p.req() && self.q.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Vec<O>>) -> bool { match r { Ok((j, v)) => v@.len() >= self.least && sep_rel(self.q, self.p, i, v@, v@.len(), j), _ => true } }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Vec<O>>) { unimplemented!() }
}
pub struct Terminated<P, Q, O> { pub p: P, pub q: Q, pub g: std::marker::PhantomData<O> }
fn terminated<'a, O, S, P: Parser<'a, O>, Q: Parser<'a, S>>(p: P, q: Q) -> (r: Terminated<P, Q, S>) ensures r.p == p, r.q == q { Terminated { p, q, g: std::marker::PhantomData } }
impl<'a, O, S, P: Parser<'a, O>, Q: Parser<'a, S>> Parser<'a, O> for Terminated<P, Q, S> {
    open spec fn req(&self) -> bool { self.p.req() && self.q.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok((j, x)) => exists|m: Span<'a>, y: S| #[trigger] self.p.rel(i, Ok((m, x))) && #[trigger] self.q.rel(m, Ok((j, y))), _ => true } }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { unimplemented!() }
}
pub struct Value<T, P, O> { pub v: T, pub p: P, pub g: std::marker::PhantomData<O> }
fn value<'a, T: Clone, O, P: Parser<'a, O>>(v: T, p: P) -> (r: Value<T, P, O>) ensures r.p == p, r.v == v { Value { v, p, g: std::marker::PhantomData } }
impl<'a, T: Clone, O, P: Parser<'a, O>> Parser<'a, T> for Value<T, P, O> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, T>) -> bool { match r { Ok((j, x)) => cloned(self.v, x) && exists|y: O| #[trigger] self.p.rel(i, Ok((j, y))), Err(NomErr::Error) => failed(self.p, i), _ => true } }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, T>) { unimplemented!() }
}
// all of the input
pub struct All<P> { pub p: P }
fn all_consuming<P>(p: P) -> (r: All<P>) ensures r.p == p { All { p } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, O> for All<P> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok((j, x)) => j@.len() == 0 && self.p.rel(i, r), _ => true } }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { unimplemented!() }
}
''')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'nomc.vrs'), 'w').write(''.join(o))
