// ---- mirror of nom and nom_locate (dependencies): a parser is what it says about an input and its result.
// Sequencing, alternatives, map, opt, recognize, many0 are verified here against those statements; the leaves are trusted.
#[derive(Copy, Clone)]
pub struct Span<'a> { s: &'a str, off: usize }
impl<'a> Span<'a> {
    pub closed spec fn view(&self) -> Seq<char> { self.s@ }
    pub closed spec fn offset(&self) -> usize { self.off }
    pub fn new(s: &'a str) -> (r: Self) ensures r@ == s@, r.offset() == 0 { Span { s, off: 0 } }
    pub fn fragment(&self) -> (r: &&'a str) ensures (*r)@ == self@ { &self.s }
    pub fn location_offset(&self) -> (r: usize) ensures r == self.offset() { self.off }
}
impl<'a> VxShow for Span<'a> { open spec fn shown(&self) -> Seq<char> { self@ } }
#[derive(Copy, Clone)]
pub struct NomErr;
pub type IResult<I, O> = Result<(I, O), NomErr>;
pub type IRes<'a, O> = Result<(Span<'a>, O), NomErr>;
pub trait Parser<'a, O> {
    spec fn req(&self) -> bool;
    spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool;
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) requires self.req() ensures self.rel(i, r);
}
impl<'a, O, F: Fn(Span<'a>) -> IRes<'a, O>> Parser<'a, O> for F {
    open spec fn req(&self) -> bool { forall|i: Span<'a>| self.requires((i,)) }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { self.ensures((i,), r) }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { (*self)(i) }
}

pub struct Alt<T> { pub t: T }
fn alt<T>(t: T) -> (r: Alt<T>) ensures r.t == t { Alt { t } }

impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>> Parser<'a, O> for Alt<(A, B)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Err(_) => self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)), Ok(_) => (self.t.0.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, r)) } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { let r = match self.t.0.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } self.t.1.parse(i) } x => x }; proof { match r { Err(e) => { assert(e == NomErr); } _ => {} } } r }
}

impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Err(_) => self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)), Ok(_) => (self.t.0.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, r)) } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { let r = match self.t.0.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.1.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } self.t.2.parse(i) } x => x } } x => x }; proof { match r { Err(e) => { assert(e == NomErr); } _ => {} } } r }
}

impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() && self.t.3.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Err(_) => self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)), Ok(_) => (self.t.0.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, r)) } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { let r = match self.t.0.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.1.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.2.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } self.t.3.parse(i) } x => x } } x => x } } x => x }; proof { match r { Err(e) => { assert(e == NomErr); } _ => {} } } r }
}

impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>, E: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D, E)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() && self.t.3.req() && self.t.4.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Err(_) => self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)), Ok(_) => (self.t.0.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, r)) } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { let r = match self.t.0.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.1.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.2.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.3.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } self.t.4.parse(i) } x => x } } x => x } } x => x } } x => x }; proof { match r { Err(e) => { assert(e == NomErr); } _ => {} } } r }
}

impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>, E: Parser<'a, O>, F: Parser<'a, O>, G: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D, E, F, G)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() && self.t.3.req() && self.t.4.req() && self.t.5.req() && self.t.6.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Err(_) => self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)), Ok(_) => (self.t.0.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, r)) } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { let r = match self.t.0.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.1.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.2.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.3.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.4.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.5.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } self.t.6.parse(i) } x => x } } x => x } } x => x } } x => x } } x => x } } x => x }; proof { match r { Err(e) => { assert(e == NomErr); } _ => {} } } r }
}

impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>, E: Parser<'a, O>, F: Parser<'a, O>, G: Parser<'a, O>, H: Parser<'a, O>, J: Parser<'a, O>, K: Parser<'a, O>, L: Parser<'a, O>, M: Parser<'a, O>, N: Parser<'a, O>, P: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D, E, F, G, H, J, K, L, M, N, P)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() && self.t.3.req() && self.t.4.req() && self.t.5.req() && self.t.6.req() && self.t.7.req() && self.t.8.req() && self.t.9.req() && self.t.10.req() && self.t.11.req() && self.t.12.req() && self.t.13.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Err(_) => self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, Err(NomErr)) && self.t.8.rel(i, Err(NomErr)) && self.t.9.rel(i, Err(NomErr)) && self.t.10.rel(i, Err(NomErr)) && self.t.11.rel(i, Err(NomErr)) && self.t.12.rel(i, Err(NomErr)) && self.t.13.rel(i, Err(NomErr)), Ok(_) => (self.t.0.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, Err(NomErr)) && self.t.8.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, Err(NomErr)) && self.t.8.rel(i, Err(NomErr)) && self.t.9.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, Err(NomErr)) && self.t.8.rel(i, Err(NomErr)) && self.t.9.rel(i, Err(NomErr)) && self.t.10.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, Err(NomErr)) && self.t.8.rel(i, Err(NomErr)) && self.t.9.rel(i, Err(NomErr)) && self.t.10.rel(i, Err(NomErr)) && self.t.11.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, Err(NomErr)) && self.t.8.rel(i, Err(NomErr)) && self.t.9.rel(i, Err(NomErr)) && self.t.10.rel(i, Err(NomErr)) && self.t.11.rel(i, Err(NomErr)) && self.t.12.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, Err(NomErr)) && self.t.8.rel(i, Err(NomErr)) && self.t.9.rel(i, Err(NomErr)) && self.t.10.rel(i, Err(NomErr)) && self.t.11.rel(i, Err(NomErr)) && self.t.12.rel(i, Err(NomErr)) && self.t.13.rel(i, r)) } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { let r = match self.t.0.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.1.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.2.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.3.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.4.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.5.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.6.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.7.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.8.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.9.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.10.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.11.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.12.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } self.t.13.parse(i) } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x }; proof { match r { Err(e) => { assert(e == NomErr); } _ => {} } } r }
}

impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>, E: Parser<'a, O>, F: Parser<'a, O>, G: Parser<'a, O>, H: Parser<'a, O>, J: Parser<'a, O>, K: Parser<'a, O>, L: Parser<'a, O>, M: Parser<'a, O>, N: Parser<'a, O>, P: Parser<'a, O>, Q: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D, E, F, G, H, J, K, L, M, N, P, Q)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() && self.t.3.req() && self.t.4.req() && self.t.5.req() && self.t.6.req() && self.t.7.req() && self.t.8.req() && self.t.9.req() && self.t.10.req() && self.t.11.req() && self.t.12.req() && self.t.13.req() && self.t.14.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Err(_) => self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, Err(NomErr)) && self.t.8.rel(i, Err(NomErr)) && self.t.9.rel(i, Err(NomErr)) && self.t.10.rel(i, Err(NomErr)) && self.t.11.rel(i, Err(NomErr)) && self.t.12.rel(i, Err(NomErr)) && self.t.13.rel(i, Err(NomErr)) && self.t.14.rel(i, Err(NomErr)), Ok(_) => (self.t.0.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, Err(NomErr)) && self.t.8.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, Err(NomErr)) && self.t.8.rel(i, Err(NomErr)) && self.t.9.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, Err(NomErr)) && self.t.8.rel(i, Err(NomErr)) && self.t.9.rel(i, Err(NomErr)) && self.t.10.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, Err(NomErr)) && self.t.8.rel(i, Err(NomErr)) && self.t.9.rel(i, Err(NomErr)) && self.t.10.rel(i, Err(NomErr)) && self.t.11.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, Err(NomErr)) && self.t.8.rel(i, Err(NomErr)) && self.t.9.rel(i, Err(NomErr)) && self.t.10.rel(i, Err(NomErr)) && self.t.11.rel(i, Err(NomErr)) && self.t.12.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, Err(NomErr)) && self.t.8.rel(i, Err(NomErr)) && self.t.9.rel(i, Err(NomErr)) && self.t.10.rel(i, Err(NomErr)) && self.t.11.rel(i, Err(NomErr)) && self.t.12.rel(i, Err(NomErr)) && self.t.13.rel(i, r)) || (self.t.0.rel(i, Err(NomErr)) && self.t.1.rel(i, Err(NomErr)) && self.t.2.rel(i, Err(NomErr)) && self.t.3.rel(i, Err(NomErr)) && self.t.4.rel(i, Err(NomErr)) && self.t.5.rel(i, Err(NomErr)) && self.t.6.rel(i, Err(NomErr)) && self.t.7.rel(i, Err(NomErr)) && self.t.8.rel(i, Err(NomErr)) && self.t.9.rel(i, Err(NomErr)) && self.t.10.rel(i, Err(NomErr)) && self.t.11.rel(i, Err(NomErr)) && self.t.12.rel(i, Err(NomErr)) && self.t.13.rel(i, Err(NomErr)) && self.t.14.rel(i, r)) } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { let r = match self.t.0.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.1.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.2.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.3.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.4.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.5.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.6.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.7.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.8.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.9.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.10.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.11.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.12.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } match self.t.13.parse(i) { Err(vx_e) => { proof { assert(vx_e == NomErr); } self.t.14.parse(i) } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x }; proof { match r { Err(e) => { assert(e == NomErr); } _ => {} } } r }
}

impl<'a, OA, OB, A: Parser<'a, OA>, B: Parser<'a, OB>> Parser<'a, (OA, OB)> for (A, B) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, y0: OA, y1: OB| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((j, y1))) && x.0 == y0 && x.1 == y1,
            Err(_) => (self.0.rel(i, Err(NomErr))) || (exists|m1: Span<'a>, y0: OA| #[trigger] self.0.rel(i, Ok((m1, y0))) && self.1.rel(m1, Err(NomErr))),
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB)> = Ok((m2, (y0, y1)));
            match vx_r { Ok((j, x)) => { assert(self.1.rel(m1, Ok((j, y1)))); assert(exists|m1: Span<'a>, y0: OA, y1: OB| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((j, y1))) && x.0 == y0 && x.1 == y1); } _ => {} }
        }
        Ok((m2, (y0, y1)))
    }
}

impl<'a, OA, OB, OC, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>> Parser<'a, (OA, OB, OC)> for (A, B, C) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() && self.2.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB, OC)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, m2: Span<'a>, y0: OA, y1: OB, y2: OC| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((j, y2))) && x.0 == y0 && x.1 == y1 && x.2 == y2,
            Err(_) => (self.0.rel(i, Err(NomErr))) || (exists|m1: Span<'a>, y0: OA| #[trigger] self.0.rel(i, Ok((m1, y0))) && self.1.rel(m1, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, y0: OA, y1: OB| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && self.2.rel(m2, Err(NomErr))),
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB, OC)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        let (m3, y2) = match self.2.parse(m2) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.2.rel(m2, Ok((m3, y2)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB, OC)> = Ok((m3, (y0, y1, y2)));
            match vx_r { Ok((j, x)) => { assert(self.2.rel(m2, Ok((j, y2)))); assert(exists|m1: Span<'a>, m2: Span<'a>, y0: OA, y1: OB, y2: OC| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((j, y2))) && x.0 == y0 && x.1 == y1 && x.2 == y2); } _ => {} }
        }
        Ok((m3, (y0, y1, y2)))
    }
}

impl<'a, OA, OB, OC, OD, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>> Parser<'a, (OA, OB, OC, OD)> for (A, B, C, D) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() && self.2.req() && self.3.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB, OC, OD)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((j, y3))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3,
            Err(_) => (self.0.rel(i, Err(NomErr))) || (exists|m1: Span<'a>, y0: OA| #[trigger] self.0.rel(i, Ok((m1, y0))) && self.1.rel(m1, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, y0: OA, y1: OB| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && self.2.rel(m2, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, y0: OA, y1: OB, y2: OC| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && self.3.rel(m3, Err(NomErr))),
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB, OC, OD)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        let (m3, y2) = match self.2.parse(m2) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.2.rel(m2, Ok((m3, y2)))); }
        let (m4, y3) = match self.3.parse(m3) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.3.rel(m3, Ok((m4, y3)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB, OC, OD)> = Ok((m4, (y0, y1, y2, y3)));
            match vx_r { Ok((j, x)) => { assert(self.3.rel(m3, Ok((j, y3)))); assert(exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((j, y3))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3); } _ => {} }
        }
        Ok((m4, (y0, y1, y2, y3)))
    }
}

impl<'a, OA, OB, OC, OD, OE, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>, E: Parser<'a, OE>> Parser<'a, (OA, OB, OC, OD, OE)> for (A, B, C, D, E) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() && self.2.req() && self.3.req() && self.4.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB, OC, OD, OE)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((j, y4))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4,
            Err(_) => (self.0.rel(i, Err(NomErr))) || (exists|m1: Span<'a>, y0: OA| #[trigger] self.0.rel(i, Ok((m1, y0))) && self.1.rel(m1, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, y0: OA, y1: OB| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && self.2.rel(m2, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, y0: OA, y1: OB, y2: OC| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && self.3.rel(m3, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && self.4.rel(m4, Err(NomErr))),
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB, OC, OD, OE)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        let (m3, y2) = match self.2.parse(m2) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.2.rel(m2, Ok((m3, y2)))); }
        let (m4, y3) = match self.3.parse(m3) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.3.rel(m3, Ok((m4, y3)))); }
        let (m5, y4) = match self.4.parse(m4) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.4.rel(m4, Ok((m5, y4)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB, OC, OD, OE)> = Ok((m5, (y0, y1, y2, y3, y4)));
            match vx_r { Ok((j, x)) => { assert(self.4.rel(m4, Ok((j, y4)))); assert(exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((j, y4))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4); } _ => {} }
        }
        Ok((m5, (y0, y1, y2, y3, y4)))
    }
}

impl<'a, OA, OB, OC, OD, OE, OF, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>, E: Parser<'a, OE>, F: Parser<'a, OF>> Parser<'a, (OA, OB, OC, OD, OE, OF)> for (A, B, C, D, E, F) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() && self.2.req() && self.3.req() && self.4.req() && self.5.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB, OC, OD, OE, OF)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((j, y5))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5,
            Err(_) => (self.0.rel(i, Err(NomErr))) || (exists|m1: Span<'a>, y0: OA| #[trigger] self.0.rel(i, Ok((m1, y0))) && self.1.rel(m1, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, y0: OA, y1: OB| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && self.2.rel(m2, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, y0: OA, y1: OB, y2: OC| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && self.3.rel(m3, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && self.4.rel(m4, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && self.5.rel(m5, Err(NomErr))),
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB, OC, OD, OE, OF)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        let (m3, y2) = match self.2.parse(m2) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.2.rel(m2, Ok((m3, y2)))); }
        let (m4, y3) = match self.3.parse(m3) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.3.rel(m3, Ok((m4, y3)))); }
        let (m5, y4) = match self.4.parse(m4) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.4.rel(m4, Ok((m5, y4)))); }
        let (m6, y5) = match self.5.parse(m5) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.5.rel(m5, Ok((m6, y5)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB, OC, OD, OE, OF)> = Ok((m6, (y0, y1, y2, y3, y4, y5)));
            match vx_r { Ok((j, x)) => { assert(self.5.rel(m5, Ok((j, y5)))); assert(exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((j, y5))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5); } _ => {} }
        }
        Ok((m6, (y0, y1, y2, y3, y4, y5)))
    }
}

impl<'a, OA, OB, OC, OD, OE, OF, OG, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>, E: Parser<'a, OE>, F: Parser<'a, OF>, G: Parser<'a, OG>> Parser<'a, (OA, OB, OC, OD, OE, OF, OG)> for (A, B, C, D, E, F, G) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() && self.2.req() && self.3.req() && self.4.req() && self.5.req() && self.6.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((j, y6))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5 && x.6 == y6,
            Err(_) => (self.0.rel(i, Err(NomErr))) || (exists|m1: Span<'a>, y0: OA| #[trigger] self.0.rel(i, Ok((m1, y0))) && self.1.rel(m1, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, y0: OA, y1: OB| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && self.2.rel(m2, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, y0: OA, y1: OB, y2: OC| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && self.3.rel(m3, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && self.4.rel(m4, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && self.5.rel(m5, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && self.6.rel(m6, Err(NomErr))),
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        let (m3, y2) = match self.2.parse(m2) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.2.rel(m2, Ok((m3, y2)))); }
        let (m4, y3) = match self.3.parse(m3) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.3.rel(m3, Ok((m4, y3)))); }
        let (m5, y4) = match self.4.parse(m4) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.4.rel(m4, Ok((m5, y4)))); }
        let (m6, y5) = match self.5.parse(m5) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.5.rel(m5, Ok((m6, y5)))); }
        let (m7, y6) = match self.6.parse(m6) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.6.rel(m6, Ok((m7, y6)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG)> = Ok((m7, (y0, y1, y2, y3, y4, y5, y6)));
            match vx_r { Ok((j, x)) => { assert(self.6.rel(m6, Ok((j, y6)))); assert(exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((j, y6))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5 && x.6 == y6); } _ => {} }
        }
        Ok((m7, (y0, y1, y2, y3, y4, y5, y6)))
    }
}

impl<'a, OA, OB, OC, OD, OE, OF, OG, OH, OJ, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>, E: Parser<'a, OE>, F: Parser<'a, OF>, G: Parser<'a, OG>, H: Parser<'a, OH>, J: Parser<'a, OJ>> Parser<'a, (OA, OB, OC, OD, OE, OF, OG, OH, OJ)> for (A, B, C, D, E, F, G, H, J) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() && self.2.req() && self.3.req() && self.4.req() && self.5.req() && self.6.req() && self.7.req() && self.8.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG, OH, OJ)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, m7: Span<'a>, m8: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG, y7: OH, y8: OJ| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((m7, y6))) && #[trigger] self.7.rel(m7, Ok((m8, y7))) && #[trigger] self.8.rel(m8, Ok((j, y8))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5 && x.6 == y6 && x.7 == y7 && x.8 == y8,
            Err(_) => (self.0.rel(i, Err(NomErr))) || (exists|m1: Span<'a>, y0: OA| #[trigger] self.0.rel(i, Ok((m1, y0))) && self.1.rel(m1, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, y0: OA, y1: OB| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && self.2.rel(m2, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, y0: OA, y1: OB, y2: OC| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && self.3.rel(m3, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && self.4.rel(m4, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && self.5.rel(m5, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && self.6.rel(m6, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, m7: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((m7, y6))) && self.7.rel(m7, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, m7: Span<'a>, m8: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG, y7: OH| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((m7, y6))) && #[trigger] self.7.rel(m7, Ok((m8, y7))) && self.8.rel(m8, Err(NomErr))),
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG, OH, OJ)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        let (m3, y2) = match self.2.parse(m2) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.2.rel(m2, Ok((m3, y2)))); }
        let (m4, y3) = match self.3.parse(m3) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.3.rel(m3, Ok((m4, y3)))); }
        let (m5, y4) = match self.4.parse(m4) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.4.rel(m4, Ok((m5, y4)))); }
        let (m6, y5) = match self.5.parse(m5) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.5.rel(m5, Ok((m6, y5)))); }
        let (m7, y6) = match self.6.parse(m6) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.6.rel(m6, Ok((m7, y6)))); }
        let (m8, y7) = match self.7.parse(m7) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.7.rel(m7, Ok((m8, y7)))); }
        let (m9, y8) = match self.8.parse(m8) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.8.rel(m8, Ok((m9, y8)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG, OH, OJ)> = Ok((m9, (y0, y1, y2, y3, y4, y5, y6, y7, y8)));
            match vx_r { Ok((j, x)) => { assert(self.8.rel(m8, Ok((j, y8)))); assert(exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, m7: Span<'a>, m8: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG, y7: OH, y8: OJ| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((m7, y6))) && #[trigger] self.7.rel(m7, Ok((m8, y7))) && #[trigger] self.8.rel(m8, Ok((j, y8))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5 && x.6 == y6 && x.7 == y7 && x.8 == y8); } _ => {} }
        }
        Ok((m9, (y0, y1, y2, y3, y4, y5, y6, y7, y8)))
    }
}

impl<'a, OA, OB, OC, OD, OE, OF, OG, OH, OJ, OK, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>, E: Parser<'a, OE>, F: Parser<'a, OF>, G: Parser<'a, OG>, H: Parser<'a, OH>, J: Parser<'a, OJ>, K: Parser<'a, OK>> Parser<'a, (OA, OB, OC, OD, OE, OF, OG, OH, OJ, OK)> for (A, B, C, D, E, F, G, H, J, K) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() && self.2.req() && self.3.req() && self.4.req() && self.5.req() && self.6.req() && self.7.req() && self.8.req() && self.9.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG, OH, OJ, OK)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, m7: Span<'a>, m8: Span<'a>, m9: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG, y7: OH, y8: OJ, y9: OK| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((m7, y6))) && #[trigger] self.7.rel(m7, Ok((m8, y7))) && #[trigger] self.8.rel(m8, Ok((m9, y8))) && #[trigger] self.9.rel(m9, Ok((j, y9))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5 && x.6 == y6 && x.7 == y7 && x.8 == y8 && x.9 == y9,
            Err(_) => (self.0.rel(i, Err(NomErr))) || (exists|m1: Span<'a>, y0: OA| #[trigger] self.0.rel(i, Ok((m1, y0))) && self.1.rel(m1, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, y0: OA, y1: OB| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && self.2.rel(m2, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, y0: OA, y1: OB, y2: OC| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && self.3.rel(m3, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && self.4.rel(m4, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && self.5.rel(m5, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && self.6.rel(m6, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, m7: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((m7, y6))) && self.7.rel(m7, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, m7: Span<'a>, m8: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG, y7: OH| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((m7, y6))) && #[trigger] self.7.rel(m7, Ok((m8, y7))) && self.8.rel(m8, Err(NomErr))) || (exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, m7: Span<'a>, m8: Span<'a>, m9: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG, y7: OH, y8: OJ| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((m7, y6))) && #[trigger] self.7.rel(m7, Ok((m8, y7))) && #[trigger] self.8.rel(m8, Ok((m9, y8))) && self.9.rel(m9, Err(NomErr))),
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG, OH, OJ, OK)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        let (m3, y2) = match self.2.parse(m2) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.2.rel(m2, Ok((m3, y2)))); }
        let (m4, y3) = match self.3.parse(m3) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.3.rel(m3, Ok((m4, y3)))); }
        let (m5, y4) = match self.4.parse(m4) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.4.rel(m4, Ok((m5, y4)))); }
        let (m6, y5) = match self.5.parse(m5) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.5.rel(m5, Ok((m6, y5)))); }
        let (m7, y6) = match self.6.parse(m6) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.6.rel(m6, Ok((m7, y6)))); }
        let (m8, y7) = match self.7.parse(m7) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.7.rel(m7, Ok((m8, y7)))); }
        let (m9, y8) = match self.8.parse(m8) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.8.rel(m8, Ok((m9, y8)))); }
        let (m10, y9) = match self.9.parse(m9) { Ok(v) => v, Err(e) => { proof { assert(e == NomErr); } return Err(e) } };
        proof { assert(self.9.rel(m9, Ok((m10, y9)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG, OH, OJ, OK)> = Ok((m10, (y0, y1, y2, y3, y4, y5, y6, y7, y8, y9)));
            match vx_r { Ok((j, x)) => { assert(self.9.rel(m9, Ok((j, y9)))); assert(exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, m7: Span<'a>, m8: Span<'a>, m9: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG, y7: OH, y8: OJ, y9: OK| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((m7, y6))) && #[trigger] self.7.rel(m7, Ok((m8, y7))) && #[trigger] self.8.rel(m8, Ok((m9, y8))) && #[trigger] self.9.rel(m9, Ok((j, y9))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5 && x.6 == y6 && x.7 == y7 && x.8 == y8 && x.9 == y9); } _ => {} }
        }
        Ok((m10, (y0, y1, y2, y3, y4, y5, y6, y7, y8, y9)))
    }
}

// map
pub struct Map<O, P, F> { pub p: P, pub f: F, pub g: std::marker::PhantomData<O> }
fn map<'a, O, T, P: Parser<'a, O>, F: Fn(O) -> T>(p: P, f: F) -> (r: Map<O, P, F>) ensures r.p == p, r.f == f { Map { p, f, g: std::marker::PhantomData } }
impl<'a, O, T, P: Parser<'a, O>, F: Fn(O) -> T> Parser<'a, T> for Map<O, P, F> {
    open spec fn req(&self) -> bool { self.p.req() && forall|x: O| self.f.requires((x,)) }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, T>) -> bool {
        match r {
            Ok((j, y)) => exists|x: O| #[trigger] self.p.rel(i, Ok((j, x))) && self.f.ensures((x,), y),
            Err(_) => self.p.rel(i, Err(NomErr)),
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, T>) {
        match self.p.parse(i) { Ok((j, x)) => {
            let y = (self.f)(x);
            proof {
                let vx_r: IRes<'a, T> = Ok((j, y));
                match vx_r { Ok((j1, y1)) => { assert(self.p.rel(i, Ok((j1, x)))); assert(exists|x: O| #[trigger] self.p.rel(i, Ok((j1, x))) && self.f.ensures((x,), y1)); } _ => {} }
            }
            Ok((j, y))
        } Err(e) => { proof { assert(e == NomErr); } Err(e) } }
    }
}
pub struct Recognize<P, O> { pub p: P, pub g: std::marker::PhantomData<O> }
fn recognize<'a, O, P: Parser<'a, O>>(p: P) -> (r: Recognize<P, O>) ensures r.p == p { Recognize { p, g: std::marker::PhantomData } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, Span<'a>> for Recognize<P, O> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Span<'a>>) -> bool {
        match r {
            Ok((j, v)) => exists|x: O| #[trigger] self.p.rel(i, Ok((j, x))) && (j@.len() <= i@.len() ==> v@ == i@.take(i@.len() - j@.len())),
            Err(_) => self.p.rel(i, Err(NomErr)),
        }
    }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Span<'a>>) { unimplemented!() }
}
// position: consumes nothing
fn position<'a>(i: Span<'a>) -> (r: IRes<'a, Span<'a>>) ensures r matches Ok((j, p)) && j == i && p@.len() == 0 && p.offset() == i.offset() { Ok((i, Span { s: vx_empty(), off: i.off })) }
#[verifier::external_body]
fn vx_empty() -> (r: &'static str) ensures r@.len() == 0 { "" }
// one character
pub open spec fn one(i: Seq<char>, c: bool, r: IRes<'_, char>) -> bool { match r { Ok((j, x)) => i.len() > 0 && c && x == i[0] && j@ == i.drop_first(), Err(_) => !(i.len() > 0 && c) } }
pub struct Ch { pub c: char }
fn char(c: char) -> (r: Ch) ensures r.c == c { Ch { c } }
impl<'a> Parser<'a, char> for Ch {
    open spec fn req(&self) -> bool { true }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, char>) -> bool { one(i@, i@[0] == self.c, r) }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, char>) { unimplemented!() }
}
pub struct Satisfy<F> { pub f: F }
fn satisfy<F: Fn(char) -> bool>(f: F) -> (r: Satisfy<F>) requires forall|c: char| f.requires((c,)) ensures r.f == f { Satisfy { f } }
impl<'a, F: Fn(char) -> bool> Parser<'a, char> for Satisfy<F> {
    open spec fn req(&self) -> bool { forall|c: char| self.f.requires((c,)) }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, char>) -> bool {
        if i@.len() == 0 { r is Err } else { exists|b: bool| #[trigger] self.f.ensures((i@[0],), b) && one(i@, b, r) }
    }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, char>) { unimplemented!() }
}
// many0: as often as it matches; gives up with an error where the parser matches without consuming anything
pub open spec fn many_rel<'a, O, P: Parser<'a, O>>(p: P, i: Span<'a>, out: Seq<O>, j: Span<'a>) -> bool decreases out.len() {
    if out.len() == 0 { p.rel(i, Err(NomErr)) && j == i } else { exists|m: Span<'a>| #[trigger] p.rel(i, Ok((m, out[0]))) && m@.len() != i@.len() && many_rel(p, m, out.drop_first(), j) }
}
pub struct Many0<P> { pub p: P }
fn many0<P>(p: P) -> (r: Many0<P>) ensures r.p == p { Many0 { p } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, Vec<O>> for Many0<P> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Vec<O>>) -> bool {
        match r {
            Ok((j, v)) => many_rel(self.p, i, v@, j),
            Err(_) => exists|m: Span<'a>, m2: Span<'a>, x: O| #[trigger] self.p.rel(m, Ok((m2, x))) && m2@.len() == m@.len(),
        }
    }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Vec<O>>) { unimplemented!() }
}
