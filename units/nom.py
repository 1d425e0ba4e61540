"""writes nom.vrs: the parts of the nom crate that the parser uses, mirrored by what they do"""
o = ['''// ---- mirror of nom and nom_locate (dependencies): a parser is what it says about an input and its result.
// Sequencing, alternatives, map, opt, recognize, many0 are verified here against those statements; the leaves are trusted.
#[derive(Copy, Clone)]
pub struct Span<'a> { s: &'a str, off: usize }
impl<'a> Span<'a> {
    pub closed spec fn view(&self) -> Seq<char> { self.s@ }
    pub closed spec fn offset(&self) -> usize { self.off }
    pub fn new(s: &'a str) -> (r: Self) ensures r@ == s@, r.offset() == 0 { Span { s, off: 0 } }
    pub fn fragment(&self) -> (r: &&'a str) ensures (*r)@ == self@ { &self.s }
    pub fn location_offset(&self) -> (r: usize) ensures r == self.offset() { self.off }
}
impl<'a> VxShow for Span<'a> { open spec fn shown(&self) -> Seq<char> { self@ } }
#[derive(Copy, Clone)]
pub struct NomErr;
pub type IResult<I, O> = Result<(I, O), NomErr>;
pub type IRes<'a, O> = Result<(Span<'a>, O), NomErr>;
pub trait Parser<'a, O> {
    spec fn req(&self) -> bool;
    spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool;
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) requires self.req() ensures self.rel(i, r);
}
impl<'a, O, F: Fn(Span<'a>) -> IRes<'a, O>> Parser<'a, O> for F {
    open spec fn req(&self) -> bool { forall|i: Span<'a>| self.requires((i,)) }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { self.ensures((i,), r) }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { (*self)(i) }
}
''']
L = 'ABCDEFGHJKLMNPQ'
# alt
o.append('pub struct Alt<T> { pub t: T }\nfn alt<T>(t: T) -> (r: Alt<T>) ensures r.t == t { Alt { t } }\n')
def alt(n):
    ls = L[:n]
    rel = 'false'
    err = ' && '.join(f'self.t.{k}.rel(i, Err(NomErr))' for k in range(n))
    oks = []
    for k in range(n):
        oks.append('(' + ' && '.join([f'self.t.{j}.rel(i, Err(NomErr))' for j in range(k)] + [f'self.t.{k}.rel(i, r)']) + ')')
    body = f'self.t.{n-1}.parse(i)'
    for k in reversed(range(n-1)):
        body = f'match self.t.{k}.parse(i) {{ Err(vx_e) => {{ proof {{ assert(vx_e == NomErr); }} {body} }} x => x }}'
    o.append(f'''impl<'a, O, {', '.join(f"{c}: Parser<'a, O>" for c in ls)}> Parser<'a, O> for Alt<({', '.join(ls)})> {{
    open spec fn req(&self) -> bool {{ {' && '.join(f'self.t.{k}.req()' for k in range(n))} }}
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool {{ match r {{ Err(_) => {err}, Ok(_) => {' || '.join(oks)} }} }}
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) {{ let r = {body}; proof {{ match r {{ Err(e) => {{ assert(e == NomErr); }} _ => {{}} }} }} r }}
}}
''')
for n in (2, 3, 4, 5, 7, 14, 15):
    alt(n)
# sequences
def seq(n):
    ls = L[:n]
    os_ = ['O' + c for c in ls]
    ms = [f'm{k}' for k in range(1, n)]
    ok = ' && '.join(f"#[trigger] self.{k}.rel({'i' if k == 0 else 'm%d' % k}, Ok(({'m%d' % (k+1) if k < n - 1 else 'j'}, y{k})))" for k in range(n))
    vs = [m + ": Span<'a>" for m in ms] + [f'y{k}: O{ls[k]}' for k in range(n)]
    okq = f"exists|{', '.join(vs)}| {ok} && {' && '.join(f'x.{k} == y{k}' for k in range(n))}"
    errs = []
    for k in range(n):
        vs = [f"m{j}: Span<'a>" for j in range(1, k + 1)] + [f'y{j}: O{ls[j]}' for j in range(k)]
        cs = [f"#[trigger] self.{j}.rel({'i' if j == 0 else 'm%d' % j}, Ok((m{j+1}, y{j})))" for j in range(k)] + [f"self.{k}.rel({'i' if k == 0 else 'm%d' % k}, Err(NomErr))"]
        errs.append(f"({'exists|' + ', '.join(vs) + '| ' if vs else ''}{' && '.join(cs)})")
    tup = '(%s)' % ', '.join(f'y{k}' for k in range(n))
    body = f'''proof {{
            let vx_r: IRes<'a, ({', '.join(os_)})> = Ok((m{n}, {tup}));
            match vx_r {{ Ok((j, x)) => {{ assert(self.{n-1}.rel({'m%d' % (n-1)}, Ok((j, y{n-1})))); assert({okq}); }} _ => {{}} }}
        }}
        Ok((m{n}, {tup}))'''
    steps = ''
    for k in range(n):
        src = 'i' if k == 0 else f'm{k}'
        steps += f'        let (m{k+1}, y{k}) = match self.{k}.parse({src}) {{ Ok(v) => v, Err(e) => {{ proof {{ assert(e == NomErr); }} return Err(e) }} }};\n        proof {{ assert(self.{k}.rel({src}, Ok((m{k+1}, y{k})))); }}\n'
    o.append(f'''impl<'a, {', '.join(os_)}, {', '.join(f"{c}: Parser<'a, O{c}>" for c in ls)}> Parser<'a, ({', '.join(os_)})> for ({', '.join(ls)}) {{
    open spec fn req(&self) -> bool {{ {' && '.join(f'self.{k}.req()' for k in range(n))} }}
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, ({', '.join(os_)})>) -> bool {{
        match r {{
            Ok((j, x)) => {okq},
            Err(_) => {' || '.join(errs)},
        }}
    }}
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, ({', '.join(os_)})>) {{
{steps}        {body}
    }}
}}
''')
for n in (2, 3, 4, 5, 6, 7, 9, 10):
    seq(n)
o.append('''// map
pub struct Map<O, P, F> { pub p: P, pub f: F, pub g: std::marker::PhantomData<O> }
fn map<'a, O, T, P: Parser<'a, O>, F: Fn(O) -> T>(p: P, f: F) -> (r: Map<O, P, F>) ensures r.p == p, r.f == f { Map { p, f, g: std::marker::PhantomData } }
impl<'a, O, T, P: Parser<'a, O>, F: Fn(O) -> T> Parser<'a, T> for Map<O, P, F> {
    open spec fn req(&self) -> bool { self.p.req() && forall|x: O| self.f.requires((x,)) }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, T>) -> bool {
        match r {
            Ok((j, y)) => exists|x: O| #[trigger] self.p.rel(i, Ok((j, x))) && self.f.ensures((x,), y),
            Err(_) => self.p.rel(i, Err(NomErr)),
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, T>) {
        match self.p.parse(i) { Ok((j, x)) => {
            let y = (self.f)(x);
            proof {
                let vx_r: IRes<'a, T> = Ok((j, y));
                match vx_r { Ok((j1, y1)) => { assert(self.p.rel(i, Ok((j1, x)))); assert(exists|x: O| #[trigger] self.p.rel(i, Ok((j1, x))) && self.f.ensures((x,), y1)); } _ => {} }
            }
            Ok((j, y))
        } Err(e) => { proof { assert(e == NomErr); } Err(e) } }
    }
}
pub struct Recognize<P, O> { pub p: P, pub g: std::marker::PhantomData<O> }
fn recognize<'a, O, P: Parser<'a, O>>(p: P) -> (r: Recognize<P, O>) ensures r.p == p { Recognize { p, g: std::marker::PhantomData } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, Span<'a>> for Recognize<P, O> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Span<'a>>) -> bool {
        match r {
            Ok((j, v)) => exists|x: O| #[trigger] self.p.rel(i, Ok((j, x))) && (j@.len() <= i@.len() ==> v@ == i@.take(i@.len() - j@.len())),
            Err(_) => self.p.rel(i, Err(NomErr)),
        }
    }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Span<'a>>) { unimplemented!() }
}
// position: consumes nothing
fn position<'a>(i: Span<'a>) -> (r: IRes<'a, Span<'a>>) ensures r matches Ok((j, p)) && j == i && p@.len() == 0 && p.offset() == i.offset() { Ok((i, Span { s: vx_empty(), off: i.off })) }
#[verifier::external_body]
fn vx_empty() -> (r: &'static str) ensures r@.len() == 0 { "" }
// one character
pub open spec fn one(i: Seq<char>, c: bool, r: IRes<'_, char>) -> bool { match r { Ok((j, x)) => i.len() > 0 && c && x == i[0] && j@ == i.drop_first(), Err(_) => !(i.len() > 0 && c) } }
pub struct Ch { pub c: char }
fn char(c: char) -> (r: Ch) ensures r.c == c { Ch { c } }
impl<'a> Parser<'a, char> for Ch {
    open spec fn req(&self) -> bool { true }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, char>) -> bool { one(i@, i@[0] == self.c, r) }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, char>) { unimplemented!() }
}
pub struct Satisfy<F> { pub f: F }
fn satisfy<F: Fn(char) -> bool>(f: F) -> (r: Satisfy<F>) requires forall|c: char| f.requires((c,)) ensures r.f == f { Satisfy { f } }
impl<'a, F: Fn(char) -> bool> Parser<'a, char> for Satisfy<F> {
    open spec fn req(&self) -> bool { forall|c: char| self.f.requires((c,)) }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, char>) -> bool {
        if i@.len() == 0 { r is Err } else { exists|b: bool| #[trigger] self.f.ensures((i@[0],), b) && one(i@, b, r) }
    }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, char>) { unimplemented!() }
}
// many0: as often as it matches; gives up with an error where the parser matches without consuming anything
pub open spec fn many_rel<'a, O, P: Parser<'a, O>>(p: P, i: Span<'a>, out: Seq<O>, j: Span<'a>) -> bool decreases out.len() {
    if out.len() == 0 { p.rel(i, Err(NomErr)) && j == i } else { exists|m: Span<'a>| #[trigger] p.rel(i, Ok((m, out[0]))) && m@.len() != i@.len() && many_rel(p, m, out.drop_first(), j) }
}
pub struct Many0<P> { pub p: P }
fn many0<P>(p: P) -> (r: Many0<P>) ensures r.p == p { Many0 { p } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, Vec<O>> for Many0<P> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Vec<O>>) -> bool {
        match r {
            Ok((j, v)) => many_rel(self.p, i, v@, j),
            Err(_) => exists|m: Span<'a>, m2: Span<'a>, x: O| #[trigger] self.p.rel(m, Ok((m2, x))) && m2@.len() == m@.len(),
        }
    }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Vec<O>>) { unimplemented!() }
}
''')
open('nom.vrs', 'w').write('\n'.join(o))
