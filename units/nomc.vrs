// ---- mirror of nom and nom_locate (dependencies): a parser is what it says about an input and its result.
// Sequences, alternatives, map, opt, cut, not, peek, delimited, preceded are verified here against those statements; the leaves and the repetitions are trusted.
#[derive(Copy, Clone)]
pub struct Span<'a> { s: &'a str, off: usize }
impl<'a> Span<'a> {
    pub closed spec fn view(&self) -> Seq<char> { self.s@ }
    pub closed spec fn offset(&self) -> usize { self.off }
    pub fn fragment(&self) -> (r: &&'a str) ensures (*r)@ == self@ { &self.s }
    pub fn location_offset(&self) -> (r: usize) ensures r == self.offset() { self.off }
}
impl<'a> VxShow for Span<'a> { open spec fn shown(&self) -> Seq<char> { self@ } }
// an error lets an alternative be tried; a failure does not
pub enum NomErr { Error, Failure }
pub type IResult<I, O> = Result<(I, O), NomErr>;
pub type IRes<'a, O> = Result<(Span<'a>, O), NomErr>;
pub trait Parser<'a, O> {
    spec fn req(&self) -> bool;
    spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool;
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) requires self.req() ensures self.rel(i, r);
}
impl<'a, O, F: Fn(Span<'a>) -> IRes<'a, O>> Parser<'a, O> for F {
    open spec fn req(&self) -> bool { forall|i: Span<'a>| self.requires((i,)) }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { self.ensures((i,), r) }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { (*self)(i) }
}
// failed: what a parser says when it gives up so that the next alternative is tried
pub open spec fn failed<'a, O, P: Parser<'a, O>>(p: P, i: Span<'a>) -> bool { p.rel(i, Err(NomErr::Error)) }
pub struct Alt<T> { pub t: T }
fn alt<T>(t: T) -> (r: Alt<T>) ensures r.t == t { Alt { t } }
impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>> Parser<'a, O> for Alt<(A, B)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok(_) => (r is Ok && self.t.0.rel(i, r)) || (failed(self.t.0, i) && (self.t.1.rel(i, r))), Err(NomErr::Error) => failed(self.t.0, i) && failed(self.t.1, i), _ => true } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.t.0.parse(i) { Err(NomErr::Error) => { self.t.1.parse(i) } x => x } }
}
impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok(_) => (r is Ok && self.t.0.rel(i, r)) || (failed(self.t.0, i) && ((r is Ok && self.t.1.rel(i, r)) || (failed(self.t.1, i) && (self.t.2.rel(i, r))))), Err(NomErr::Error) => failed(self.t.0, i) && failed(self.t.1, i) && failed(self.t.2, i), _ => true } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.t.0.parse(i) { Err(NomErr::Error) => { match self.t.1.parse(i) { Err(NomErr::Error) => { self.t.2.parse(i) } x => x } } x => x } }
}
impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() && self.t.3.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok(_) => (r is Ok && self.t.0.rel(i, r)) || (failed(self.t.0, i) && ((r is Ok && self.t.1.rel(i, r)) || (failed(self.t.1, i) && ((r is Ok && self.t.2.rel(i, r)) || (failed(self.t.2, i) && (self.t.3.rel(i, r))))))), Err(NomErr::Error) => failed(self.t.0, i) && failed(self.t.1, i) && failed(self.t.2, i) && failed(self.t.3, i), _ => true } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.t.0.parse(i) { Err(NomErr::Error) => { match self.t.1.parse(i) { Err(NomErr::Error) => { match self.t.2.parse(i) { Err(NomErr::Error) => { self.t.3.parse(i) } x => x } } x => x } } x => x } }
}
impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>, E: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D, E)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() && self.t.3.req() && self.t.4.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok(_) => (r is Ok && self.t.0.rel(i, r)) || (failed(self.t.0, i) && ((r is Ok && self.t.1.rel(i, r)) || (failed(self.t.1, i) && ((r is Ok && self.t.2.rel(i, r)) || (failed(self.t.2, i) && ((r is Ok && self.t.3.rel(i, r)) || (failed(self.t.3, i) && (self.t.4.rel(i, r))))))))), Err(NomErr::Error) => failed(self.t.0, i) && failed(self.t.1, i) && failed(self.t.2, i) && failed(self.t.3, i) && failed(self.t.4, i), _ => true } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.t.0.parse(i) { Err(NomErr::Error) => { match self.t.1.parse(i) { Err(NomErr::Error) => { match self.t.2.parse(i) { Err(NomErr::Error) => { match self.t.3.parse(i) { Err(NomErr::Error) => { self.t.4.parse(i) } x => x } } x => x } } x => x } } x => x } }
}
impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>, E: Parser<'a, O>, F: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D, E, F)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() && self.t.3.req() && self.t.4.req() && self.t.5.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok(_) => (r is Ok && self.t.0.rel(i, r)) || (failed(self.t.0, i) && ((r is Ok && self.t.1.rel(i, r)) || (failed(self.t.1, i) && ((r is Ok && self.t.2.rel(i, r)) || (failed(self.t.2, i) && ((r is Ok && self.t.3.rel(i, r)) || (failed(self.t.3, i) && ((r is Ok && self.t.4.rel(i, r)) || (failed(self.t.4, i) && (self.t.5.rel(i, r))))))))))), Err(NomErr::Error) => failed(self.t.0, i) && failed(self.t.1, i) && failed(self.t.2, i) && failed(self.t.3, i) && failed(self.t.4, i) && failed(self.t.5, i), _ => true } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.t.0.parse(i) { Err(NomErr::Error) => { match self.t.1.parse(i) { Err(NomErr::Error) => { match self.t.2.parse(i) { Err(NomErr::Error) => { match self.t.3.parse(i) { Err(NomErr::Error) => { match self.t.4.parse(i) { Err(NomErr::Error) => { self.t.5.parse(i) } x => x } } x => x } } x => x } } x => x } } x => x } }
}
impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>, E: Parser<'a, O>, F: Parser<'a, O>, G: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D, E, F, G)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() && self.t.3.req() && self.t.4.req() && self.t.5.req() && self.t.6.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok(_) => (r is Ok && self.t.0.rel(i, r)) || (failed(self.t.0, i) && ((r is Ok && self.t.1.rel(i, r)) || (failed(self.t.1, i) && ((r is Ok && self.t.2.rel(i, r)) || (failed(self.t.2, i) && ((r is Ok && self.t.3.rel(i, r)) || (failed(self.t.3, i) && ((r is Ok && self.t.4.rel(i, r)) || (failed(self.t.4, i) && ((r is Ok && self.t.5.rel(i, r)) || (failed(self.t.5, i) && (self.t.6.rel(i, r))))))))))))), Err(NomErr::Error) => failed(self.t.0, i) && failed(self.t.1, i) && failed(self.t.2, i) && failed(self.t.3, i) && failed(self.t.4, i) && failed(self.t.5, i) && failed(self.t.6, i), _ => true } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.t.0.parse(i) { Err(NomErr::Error) => { match self.t.1.parse(i) { Err(NomErr::Error) => { match self.t.2.parse(i) { Err(NomErr::Error) => { match self.t.3.parse(i) { Err(NomErr::Error) => { match self.t.4.parse(i) { Err(NomErr::Error) => { match self.t.5.parse(i) { Err(NomErr::Error) => { self.t.6.parse(i) } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } }
}
impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>, E: Parser<'a, O>, F: Parser<'a, O>, G: Parser<'a, O>, H: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D, E, F, G, H)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() && self.t.3.req() && self.t.4.req() && self.t.5.req() && self.t.6.req() && self.t.7.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok(_) => (r is Ok && self.t.0.rel(i, r)) || (failed(self.t.0, i) && ((r is Ok && self.t.1.rel(i, r)) || (failed(self.t.1, i) && ((r is Ok && self.t.2.rel(i, r)) || (failed(self.t.2, i) && ((r is Ok && self.t.3.rel(i, r)) || (failed(self.t.3, i) && ((r is Ok && self.t.4.rel(i, r)) || (failed(self.t.4, i) && ((r is Ok && self.t.5.rel(i, r)) || (failed(self.t.5, i) && ((r is Ok && self.t.6.rel(i, r)) || (failed(self.t.6, i) && (self.t.7.rel(i, r))))))))))))))), Err(NomErr::Error) => failed(self.t.0, i) && failed(self.t.1, i) && failed(self.t.2, i) && failed(self.t.3, i) && failed(self.t.4, i) && failed(self.t.5, i) && failed(self.t.6, i) && failed(self.t.7, i), _ => true } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.t.0.parse(i) { Err(NomErr::Error) => { match self.t.1.parse(i) { Err(NomErr::Error) => { match self.t.2.parse(i) { Err(NomErr::Error) => { match self.t.3.parse(i) { Err(NomErr::Error) => { match self.t.4.parse(i) { Err(NomErr::Error) => { match self.t.5.parse(i) { Err(NomErr::Error) => { match self.t.6.parse(i) { Err(NomErr::Error) => { self.t.7.parse(i) } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } }
}
impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>, E: Parser<'a, O>, F: Parser<'a, O>, G: Parser<'a, O>, H: Parser<'a, O>, J: Parser<'a, O>, K: Parser<'a, O>, L: Parser<'a, O>, M: Parser<'a, O>, N: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D, E, F, G, H, J, K, L, M, N)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() && self.t.3.req() && self.t.4.req() && self.t.5.req() && self.t.6.req() && self.t.7.req() && self.t.8.req() && self.t.9.req() && self.t.10.req() && self.t.11.req() && self.t.12.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok(_) => (r is Ok && self.t.0.rel(i, r)) || (failed(self.t.0, i) && ((r is Ok && self.t.1.rel(i, r)) || (failed(self.t.1, i) && ((r is Ok && self.t.2.rel(i, r)) || (failed(self.t.2, i) && ((r is Ok && self.t.3.rel(i, r)) || (failed(self.t.3, i) && ((r is Ok && self.t.4.rel(i, r)) || (failed(self.t.4, i) && ((r is Ok && self.t.5.rel(i, r)) || (failed(self.t.5, i) && ((r is Ok && self.t.6.rel(i, r)) || (failed(self.t.6, i) && ((r is Ok && self.t.7.rel(i, r)) || (failed(self.t.7, i) && ((r is Ok && self.t.8.rel(i, r)) || (failed(self.t.8, i) && ((r is Ok && self.t.9.rel(i, r)) || (failed(self.t.9, i) && ((r is Ok && self.t.10.rel(i, r)) || (failed(self.t.10, i) && ((r is Ok && self.t.11.rel(i, r)) || (failed(self.t.11, i) && (self.t.12.rel(i, r))))))))))))))))))))))))), Err(NomErr::Error) => failed(self.t.0, i) && failed(self.t.1, i) && failed(self.t.2, i) && failed(self.t.3, i) && failed(self.t.4, i) && failed(self.t.5, i) && failed(self.t.6, i) && failed(self.t.7, i) && failed(self.t.8, i) && failed(self.t.9, i) && failed(self.t.10, i) && failed(self.t.11, i) && failed(self.t.12, i), _ => true } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.t.0.parse(i) { Err(NomErr::Error) => { match self.t.1.parse(i) { Err(NomErr::Error) => { match self.t.2.parse(i) { Err(NomErr::Error) => { match self.t.3.parse(i) { Err(NomErr::Error) => { match self.t.4.parse(i) { Err(NomErr::Error) => { match self.t.5.parse(i) { Err(NomErr::Error) => { match self.t.6.parse(i) { Err(NomErr::Error) => { match self.t.7.parse(i) { Err(NomErr::Error) => { match self.t.8.parse(i) { Err(NomErr::Error) => { match self.t.9.parse(i) { Err(NomErr::Error) => { match self.t.10.parse(i) { Err(NomErr::Error) => { match self.t.11.parse(i) { Err(NomErr::Error) => { self.t.12.parse(i) } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } }
}
impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>, E: Parser<'a, O>, F: Parser<'a, O>, G: Parser<'a, O>, H: Parser<'a, O>, J: Parser<'a, O>, K: Parser<'a, O>, L: Parser<'a, O>, M: Parser<'a, O>, N: Parser<'a, O>, P: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D, E, F, G, H, J, K, L, M, N, P)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() && self.t.3.req() && self.t.4.req() && self.t.5.req() && self.t.6.req() && self.t.7.req() && self.t.8.req() && self.t.9.req() && self.t.10.req() && self.t.11.req() && self.t.12.req() && self.t.13.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok(_) => (r is Ok && self.t.0.rel(i, r)) || (failed(self.t.0, i) && ((r is Ok && self.t.1.rel(i, r)) || (failed(self.t.1, i) && ((r is Ok && self.t.2.rel(i, r)) || (failed(self.t.2, i) && ((r is Ok && self.t.3.rel(i, r)) || (failed(self.t.3, i) && ((r is Ok && self.t.4.rel(i, r)) || (failed(self.t.4, i) && ((r is Ok && self.t.5.rel(i, r)) || (failed(self.t.5, i) && ((r is Ok && self.t.6.rel(i, r)) || (failed(self.t.6, i) && ((r is Ok && self.t.7.rel(i, r)) || (failed(self.t.7, i) && ((r is Ok && self.t.8.rel(i, r)) || (failed(self.t.8, i) && ((r is Ok && self.t.9.rel(i, r)) || (failed(self.t.9, i) && ((r is Ok && self.t.10.rel(i, r)) || (failed(self.t.10, i) && ((r is Ok && self.t.11.rel(i, r)) || (failed(self.t.11, i) && ((r is Ok && self.t.12.rel(i, r)) || (failed(self.t.12, i) && (self.t.13.rel(i, r))))))))))))))))))))))))))), Err(NomErr::Error) => failed(self.t.0, i) && failed(self.t.1, i) && failed(self.t.2, i) && failed(self.t.3, i) && failed(self.t.4, i) && failed(self.t.5, i) && failed(self.t.6, i) && failed(self.t.7, i) && failed(self.t.8, i) && failed(self.t.9, i) && failed(self.t.10, i) && failed(self.t.11, i) && failed(self.t.12, i) && failed(self.t.13, i), _ => true } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.t.0.parse(i) { Err(NomErr::Error) => { match self.t.1.parse(i) { Err(NomErr::Error) => { match self.t.2.parse(i) { Err(NomErr::Error) => { match self.t.3.parse(i) { Err(NomErr::Error) => { match self.t.4.parse(i) { Err(NomErr::Error) => { match self.t.5.parse(i) { Err(NomErr::Error) => { match self.t.6.parse(i) { Err(NomErr::Error) => { match self.t.7.parse(i) { Err(NomErr::Error) => { match self.t.8.parse(i) { Err(NomErr::Error) => { match self.t.9.parse(i) { Err(NomErr::Error) => { match self.t.10.parse(i) { Err(NomErr::Error) => { match self.t.11.parse(i) { Err(NomErr::Error) => { match self.t.12.parse(i) { Err(NomErr::Error) => { self.t.13.parse(i) } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } }
}
impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>, E: Parser<'a, O>, F: Parser<'a, O>, G: Parser<'a, O>, H: Parser<'a, O>, J: Parser<'a, O>, K: Parser<'a, O>, L: Parser<'a, O>, M: Parser<'a, O>, N: Parser<'a, O>, P: Parser<'a, O>, Q: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D, E, F, G, H, J, K, L, M, N, P, Q)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() && self.t.3.req() && self.t.4.req() && self.t.5.req() && self.t.6.req() && self.t.7.req() && self.t.8.req() && self.t.9.req() && self.t.10.req() && self.t.11.req() && self.t.12.req() && self.t.13.req() && self.t.14.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok(_) => (r is Ok && self.t.0.rel(i, r)) || (failed(self.t.0, i) && ((r is Ok && self.t.1.rel(i, r)) || (failed(self.t.1, i) && ((r is Ok && self.t.2.rel(i, r)) || (failed(self.t.2, i) && ((r is Ok && self.t.3.rel(i, r)) || (failed(self.t.3, i) && ((r is Ok && self.t.4.rel(i, r)) || (failed(self.t.4, i) && ((r is Ok && self.t.5.rel(i, r)) || (failed(self.t.5, i) && ((r is Ok && self.t.6.rel(i, r)) || (failed(self.t.6, i) && ((r is Ok && self.t.7.rel(i, r)) || (failed(self.t.7, i) && ((r is Ok && self.t.8.rel(i, r)) || (failed(self.t.8, i) && ((r is Ok && self.t.9.rel(i, r)) || (failed(self.t.9, i) && ((r is Ok && self.t.10.rel(i, r)) || (failed(self.t.10, i) && ((r is Ok && self.t.11.rel(i, r)) || (failed(self.t.11, i) && ((r is Ok && self.t.12.rel(i, r)) || (failed(self.t.12, i) && ((r is Ok && self.t.13.rel(i, r)) || (failed(self.t.13, i) && (self.t.14.rel(i, r))))))))))))))))))))))))))))), Err(NomErr::Error) => failed(self.t.0, i) && failed(self.t.1, i) && failed(self.t.2, i) && failed(self.t.3, i) && failed(self.t.4, i) && failed(self.t.5, i) && failed(self.t.6, i) && failed(self.t.7, i) && failed(self.t.8, i) && failed(self.t.9, i) && failed(self.t.10, i) && failed(self.t.11, i) && failed(self.t.12, i) && failed(self.t.13, i) && failed(self.t.14, i), _ => true } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.t.0.parse(i) { Err(NomErr::Error) => { match self.t.1.parse(i) { Err(NomErr::Error) => { match self.t.2.parse(i) { Err(NomErr::Error) => { match self.t.3.parse(i) { Err(NomErr::Error) => { match self.t.4.parse(i) { Err(NomErr::Error) => { match self.t.5.parse(i) { Err(NomErr::Error) => { match self.t.6.parse(i) { Err(NomErr::Error) => { match self.t.7.parse(i) { Err(NomErr::Error) => { match self.t.8.parse(i) { Err(NomErr::Error) => { match self.t.9.parse(i) { Err(NomErr::Error) => { match self.t.10.parse(i) { Err(NomErr::Error) => { match self.t.11.parse(i) { Err(NomErr::Error) => { match self.t.12.parse(i) { Err(NomErr::Error) => { match self.t.13.parse(i) { Err(NomErr::Error) => { self.t.14.parse(i) } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } }
}
impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>, E: Parser<'a, O>, F: Parser<'a, O>, G: Parser<'a, O>, H: Parser<'a, O>, J: Parser<'a, O>, K: Parser<'a, O>, L: Parser<'a, O>, M: Parser<'a, O>, N: Parser<'a, O>, P: Parser<'a, O>, Q: Parser<'a, O>, S: Parser<'a, O>, T: Parser<'a, O>, U: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D, E, F, G, H, J, K, L, M, N, P, Q, S, T, U)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() && self.t.3.req() && self.t.4.req() && self.t.5.req() && self.t.6.req() && self.t.7.req() && self.t.8.req() && self.t.9.req() && self.t.10.req() && self.t.11.req() && self.t.12.req() && self.t.13.req() && self.t.14.req() && self.t.15.req() && self.t.16.req() && self.t.17.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok(_) => (r is Ok && self.t.0.rel(i, r)) || (failed(self.t.0, i) && ((r is Ok && self.t.1.rel(i, r)) || (failed(self.t.1, i) && ((r is Ok && self.t.2.rel(i, r)) || (failed(self.t.2, i) && ((r is Ok && self.t.3.rel(i, r)) || (failed(self.t.3, i) && ((r is Ok && self.t.4.rel(i, r)) || (failed(self.t.4, i) && ((r is Ok && self.t.5.rel(i, r)) || (failed(self.t.5, i) && ((r is Ok && self.t.6.rel(i, r)) || (failed(self.t.6, i) && ((r is Ok && self.t.7.rel(i, r)) || (failed(self.t.7, i) && ((r is Ok && self.t.8.rel(i, r)) || (failed(self.t.8, i) && ((r is Ok && self.t.9.rel(i, r)) || (failed(self.t.9, i) && ((r is Ok && self.t.10.rel(i, r)) || (failed(self.t.10, i) && ((r is Ok && self.t.11.rel(i, r)) || (failed(self.t.11, i) && ((r is Ok && self.t.12.rel(i, r)) || (failed(self.t.12, i) && ((r is Ok && self.t.13.rel(i, r)) || (failed(self.t.13, i) && ((r is Ok && self.t.14.rel(i, r)) || (failed(self.t.14, i) && ((r is Ok && self.t.15.rel(i, r)) || (failed(self.t.15, i) && ((r is Ok && self.t.16.rel(i, r)) || (failed(self.t.16, i) && (self.t.17.rel(i, r))))))))))))))))))))))))))))))))))), Err(NomErr::Error) => failed(self.t.0, i) && failed(self.t.1, i) && failed(self.t.2, i) && failed(self.t.3, i) && failed(self.t.4, i) && failed(self.t.5, i) && failed(self.t.6, i) && failed(self.t.7, i) && failed(self.t.8, i) && failed(self.t.9, i) && failed(self.t.10, i) && failed(self.t.11, i) && failed(self.t.12, i) && failed(self.t.13, i) && failed(self.t.14, i) && failed(self.t.15, i) && failed(self.t.16, i) && failed(self.t.17, i), _ => true } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.t.0.parse(i) { Err(NomErr::Error) => { match self.t.1.parse(i) { Err(NomErr::Error) => { match self.t.2.parse(i) { Err(NomErr::Error) => { match self.t.3.parse(i) { Err(NomErr::Error) => { match self.t.4.parse(i) { Err(NomErr::Error) => { match self.t.5.parse(i) { Err(NomErr::Error) => { match self.t.6.parse(i) { Err(NomErr::Error) => { match self.t.7.parse(i) { Err(NomErr::Error) => { match self.t.8.parse(i) { Err(NomErr::Error) => { match self.t.9.parse(i) { Err(NomErr::Error) => { match self.t.10.parse(i) { Err(NomErr::Error) => { match self.t.11.parse(i) { Err(NomErr::Error) => { match self.t.12.parse(i) { Err(NomErr::Error) => { match self.t.13.parse(i) { Err(NomErr::Error) => { match self.t.14.parse(i) { Err(NomErr::Error) => { match self.t.15.parse(i) { Err(NomErr::Error) => { match self.t.16.parse(i) { Err(NomErr::Error) => { self.t.17.parse(i) } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } }
}
impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>, E: Parser<'a, O>, F: Parser<'a, O>, G: Parser<'a, O>, H: Parser<'a, O>, J: Parser<'a, O>, K: Parser<'a, O>, L: Parser<'a, O>, M: Parser<'a, O>, N: Parser<'a, O>, P: Parser<'a, O>, Q: Parser<'a, O>, S: Parser<'a, O>, T: Parser<'a, O>, U: Parser<'a, O>, V: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D, E, F, G, H, J, K, L, M, N, P, Q, S, T, U, V)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() && self.t.3.req() && self.t.4.req() && self.t.5.req() && self.t.6.req() && self.t.7.req() && self.t.8.req() && self.t.9.req() && self.t.10.req() && self.t.11.req() && self.t.12.req() && self.t.13.req() && self.t.14.req() && self.t.15.req() && self.t.16.req() && self.t.17.req() && self.t.18.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok(_) => (r is Ok && self.t.0.rel(i, r)) || (failed(self.t.0, i) && ((r is Ok && self.t.1.rel(i, r)) || (failed(self.t.1, i) && ((r is Ok && self.t.2.rel(i, r)) || (failed(self.t.2, i) && ((r is Ok && self.t.3.rel(i, r)) || (failed(self.t.3, i) && ((r is Ok && self.t.4.rel(i, r)) || (failed(self.t.4, i) && ((r is Ok && self.t.5.rel(i, r)) || (failed(self.t.5, i) && ((r is Ok && self.t.6.rel(i, r)) || (failed(self.t.6, i) && ((r is Ok && self.t.7.rel(i, r)) || (failed(self.t.7, i) && ((r is Ok && self.t.8.rel(i, r)) || (failed(self.t.8, i) && ((r is Ok && self.t.9.rel(i, r)) || (failed(self.t.9, i) && ((r is Ok && self.t.10.rel(i, r)) || (failed(self.t.10, i) && ((r is Ok && self.t.11.rel(i, r)) || (failed(self.t.11, i) && ((r is Ok && self.t.12.rel(i, r)) || (failed(self.t.12, i) && ((r is Ok && self.t.13.rel(i, r)) || (failed(self.t.13, i) && ((r is Ok && self.t.14.rel(i, r)) || (failed(self.t.14, i) && ((r is Ok && self.t.15.rel(i, r)) || (failed(self.t.15, i) && ((r is Ok && self.t.16.rel(i, r)) || (failed(self.t.16, i) && ((r is Ok && self.t.17.rel(i, r)) || (failed(self.t.17, i) && (self.t.18.rel(i, r))))))))))))))))))))))))))))))))))))), Err(NomErr::Error) => failed(self.t.0, i) && failed(self.t.1, i) && failed(self.t.2, i) && failed(self.t.3, i) && failed(self.t.4, i) && failed(self.t.5, i) && failed(self.t.6, i) && failed(self.t.7, i) && failed(self.t.8, i) && failed(self.t.9, i) && failed(self.t.10, i) && failed(self.t.11, i) && failed(self.t.12, i) && failed(self.t.13, i) && failed(self.t.14, i) && failed(self.t.15, i) && failed(self.t.16, i) && failed(self.t.17, i) && failed(self.t.18, i), _ => true } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.t.0.parse(i) { Err(NomErr::Error) => { match self.t.1.parse(i) { Err(NomErr::Error) => { match self.t.2.parse(i) { Err(NomErr::Error) => { match self.t.3.parse(i) { Err(NomErr::Error) => { match self.t.4.parse(i) { Err(NomErr::Error) => { match self.t.5.parse(i) { Err(NomErr::Error) => { match self.t.6.parse(i) { Err(NomErr::Error) => { match self.t.7.parse(i) { Err(NomErr::Error) => { match self.t.8.parse(i) { Err(NomErr::Error) => { match self.t.9.parse(i) { Err(NomErr::Error) => { match self.t.10.parse(i) { Err(NomErr::Error) => { match self.t.11.parse(i) { Err(NomErr::Error) => { match self.t.12.parse(i) { Err(NomErr::Error) => { match self.t.13.parse(i) { Err(NomErr::Error) => { match self.t.14.parse(i) { Err(NomErr::Error) => { match self.t.15.parse(i) { Err(NomErr::Error) => { match self.t.16.parse(i) { Err(NomErr::Error) => { match self.t.17.parse(i) { Err(NomErr::Error) => { self.t.18.parse(i) } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } }
}
impl<'a, O, A: Parser<'a, O>, B: Parser<'a, O>, C: Parser<'a, O>, D: Parser<'a, O>, E: Parser<'a, O>, F: Parser<'a, O>, G: Parser<'a, O>, H: Parser<'a, O>, J: Parser<'a, O>, K: Parser<'a, O>, L: Parser<'a, O>, M: Parser<'a, O>, N: Parser<'a, O>, P: Parser<'a, O>, Q: Parser<'a, O>, S: Parser<'a, O>, T: Parser<'a, O>, U: Parser<'a, O>, V: Parser<'a, O>, W: Parser<'a, O>> Parser<'a, O> for Alt<(A, B, C, D, E, F, G, H, J, K, L, M, N, P, Q, S, T, U, V, W)> {
    open spec fn req(&self) -> bool { self.t.0.req() && self.t.1.req() && self.t.2.req() && self.t.3.req() && self.t.4.req() && self.t.5.req() && self.t.6.req() && self.t.7.req() && self.t.8.req() && self.t.9.req() && self.t.10.req() && self.t.11.req() && self.t.12.req() && self.t.13.req() && self.t.14.req() && self.t.15.req() && self.t.16.req() && self.t.17.req() && self.t.18.req() && self.t.19.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok(_) => (r is Ok && self.t.0.rel(i, r)) || (failed(self.t.0, i) && ((r is Ok && self.t.1.rel(i, r)) || (failed(self.t.1, i) && ((r is Ok && self.t.2.rel(i, r)) || (failed(self.t.2, i) && ((r is Ok && self.t.3.rel(i, r)) || (failed(self.t.3, i) && ((r is Ok && self.t.4.rel(i, r)) || (failed(self.t.4, i) && ((r is Ok && self.t.5.rel(i, r)) || (failed(self.t.5, i) && ((r is Ok && self.t.6.rel(i, r)) || (failed(self.t.6, i) && ((r is Ok && self.t.7.rel(i, r)) || (failed(self.t.7, i) && ((r is Ok && self.t.8.rel(i, r)) || (failed(self.t.8, i) && ((r is Ok && self.t.9.rel(i, r)) || (failed(self.t.9, i) && ((r is Ok && self.t.10.rel(i, r)) || (failed(self.t.10, i) && ((r is Ok && self.t.11.rel(i, r)) || (failed(self.t.11, i) && ((r is Ok && self.t.12.rel(i, r)) || (failed(self.t.12, i) && ((r is Ok && self.t.13.rel(i, r)) || (failed(self.t.13, i) && ((r is Ok && self.t.14.rel(i, r)) || (failed(self.t.14, i) && ((r is Ok && self.t.15.rel(i, r)) || (failed(self.t.15, i) && ((r is Ok && self.t.16.rel(i, r)) || (failed(self.t.16, i) && ((r is Ok && self.t.17.rel(i, r)) || (failed(self.t.17, i) && ((r is Ok && self.t.18.rel(i, r)) || (failed(self.t.18, i) && (self.t.19.rel(i, r))))))))))))))))))))))))))))))))))))))), Err(NomErr::Error) => failed(self.t.0, i) && failed(self.t.1, i) && failed(self.t.2, i) && failed(self.t.3, i) && failed(self.t.4, i) && failed(self.t.5, i) && failed(self.t.6, i) && failed(self.t.7, i) && failed(self.t.8, i) && failed(self.t.9, i) && failed(self.t.10, i) && failed(self.t.11, i) && failed(self.t.12, i) && failed(self.t.13, i) && failed(self.t.14, i) && failed(self.t.15, i) && failed(self.t.16, i) && failed(self.t.17, i) && failed(self.t.18, i) && failed(self.t.19, i), _ => true } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.t.0.parse(i) { Err(NomErr::Error) => { match self.t.1.parse(i) { Err(NomErr::Error) => { match self.t.2.parse(i) { Err(NomErr::Error) => { match self.t.3.parse(i) { Err(NomErr::Error) => { match self.t.4.parse(i) { Err(NomErr::Error) => { match self.t.5.parse(i) { Err(NomErr::Error) => { match self.t.6.parse(i) { Err(NomErr::Error) => { match self.t.7.parse(i) { Err(NomErr::Error) => { match self.t.8.parse(i) { Err(NomErr::Error) => { match self.t.9.parse(i) { Err(NomErr::Error) => { match self.t.10.parse(i) { Err(NomErr::Error) => { match self.t.11.parse(i) { Err(NomErr::Error) => { match self.t.12.parse(i) { Err(NomErr::Error) => { match self.t.13.parse(i) { Err(NomErr::Error) => { match self.t.14.parse(i) { Err(NomErr::Error) => { match self.t.15.parse(i) { Err(NomErr::Error) => { match self.t.16.parse(i) { Err(NomErr::Error) => { match self.t.17.parse(i) { Err(NomErr::Error) => { match self.t.18.parse(i) { Err(NomErr::Error) => { self.t.19.parse(i) } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } } x => x } }
}
impl<'a, OA, OB, A: Parser<'a, OA>, B: Parser<'a, OB>> Parser<'a, (OA, OB)> for (A, B) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, y0: OA, y1: OB| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((j, y1))) && x.0 == y0 && x.1 == y1,
            Err(NomErr::Error) => (failed(self.0, i)) || (exists|m1: Span<'a>, y0: OA| #[trigger] self.0.rel(i, Ok((m1, y0))) && failed(self.1, m1)),
            _ => true,
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB)> = Ok((m2, (y0, y1)));
            match vx_r { Ok((j, x)) => { assert(self.1.rel(m1, Ok((j, y1)))); assert(exists|m1: Span<'a>, y0: OA, y1: OB| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((j, y1))) && x.0 == y0 && x.1 == y1); } _ => {} }
        }
        Ok((m2, (y0, y1)))
    }
}
impl<'a, OA, OB, OC, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>> Parser<'a, (OA, OB, OC)> for (A, B, C) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() && self.2.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB, OC)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, m2: Span<'a>, y0: OA, y1: OB, y2: OC| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((j, y2))) && x.0 == y0 && x.1 == y1 && x.2 == y2,
            Err(NomErr::Error) => (failed(self.0, i)) || (exists|m1: Span<'a>, y0: OA| #[trigger] self.0.rel(i, Ok((m1, y0))) && failed(self.1, m1)) || (exists|m1: Span<'a>, m2: Span<'a>, y0: OA, y1: OB| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && failed(self.2, m2)),
            _ => true,
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB, OC)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        let (m3, y2) = match self.2.parse(m2) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.2.rel(m2, Ok((m3, y2)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB, OC)> = Ok((m3, (y0, y1, y2)));
            match vx_r { Ok((j, x)) => { assert(self.2.rel(m2, Ok((j, y2)))); assert(exists|m1: Span<'a>, m2: Span<'a>, y0: OA, y1: OB, y2: OC| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((j, y2))) && x.0 == y0 && x.1 == y1 && x.2 == y2); } _ => {} }
        }
        Ok((m3, (y0, y1, y2)))
    }
}
impl<'a, OA, OB, OC, OD, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>> Parser<'a, (OA, OB, OC, OD)> for (A, B, C, D) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() && self.2.req() && self.3.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB, OC, OD)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((j, y3))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3,
            Err(NomErr::Error) => true,
            _ => true,
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB, OC, OD)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        let (m3, y2) = match self.2.parse(m2) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.2.rel(m2, Ok((m3, y2)))); }
        let (m4, y3) = match self.3.parse(m3) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.3.rel(m3, Ok((m4, y3)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB, OC, OD)> = Ok((m4, (y0, y1, y2, y3)));
            match vx_r { Ok((j, x)) => { assert(self.3.rel(m3, Ok((j, y3)))); assert(exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((j, y3))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3); } _ => {} }
        }
        Ok((m4, (y0, y1, y2, y3)))
    }
}
impl<'a, OA, OB, OC, OD, OE, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>, E: Parser<'a, OE>> Parser<'a, (OA, OB, OC, OD, OE)> for (A, B, C, D, E) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() && self.2.req() && self.3.req() && self.4.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB, OC, OD, OE)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((j, y4))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4,
            Err(NomErr::Error) => true,
            _ => true,
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB, OC, OD, OE)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        let (m3, y2) = match self.2.parse(m2) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.2.rel(m2, Ok((m3, y2)))); }
        let (m4, y3) = match self.3.parse(m3) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.3.rel(m3, Ok((m4, y3)))); }
        let (m5, y4) = match self.4.parse(m4) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.4.rel(m4, Ok((m5, y4)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB, OC, OD, OE)> = Ok((m5, (y0, y1, y2, y3, y4)));
            match vx_r { Ok((j, x)) => { assert(self.4.rel(m4, Ok((j, y4)))); assert(exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((j, y4))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4); } _ => {} }
        }
        Ok((m5, (y0, y1, y2, y3, y4)))
    }
}
impl<'a, OA, OB, OC, OD, OE, OF, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>, E: Parser<'a, OE>, F: Parser<'a, OF>> Parser<'a, (OA, OB, OC, OD, OE, OF)> for (A, B, C, D, E, F) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() && self.2.req() && self.3.req() && self.4.req() && self.5.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB, OC, OD, OE, OF)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((j, y5))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5,
            Err(NomErr::Error) => true,
            _ => true,
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB, OC, OD, OE, OF)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        let (m3, y2) = match self.2.parse(m2) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.2.rel(m2, Ok((m3, y2)))); }
        let (m4, y3) = match self.3.parse(m3) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.3.rel(m3, Ok((m4, y3)))); }
        let (m5, y4) = match self.4.parse(m4) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.4.rel(m4, Ok((m5, y4)))); }
        let (m6, y5) = match self.5.parse(m5) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.5.rel(m5, Ok((m6, y5)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB, OC, OD, OE, OF)> = Ok((m6, (y0, y1, y2, y3, y4, y5)));
            match vx_r { Ok((j, x)) => { assert(self.5.rel(m5, Ok((j, y5)))); assert(exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((j, y5))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5); } _ => {} }
        }
        Ok((m6, (y0, y1, y2, y3, y4, y5)))
    }
}
impl<'a, OA, OB, OC, OD, OE, OF, OG, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>, E: Parser<'a, OE>, F: Parser<'a, OF>, G: Parser<'a, OG>> Parser<'a, (OA, OB, OC, OD, OE, OF, OG)> for (A, B, C, D, E, F, G) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() && self.2.req() && self.3.req() && self.4.req() && self.5.req() && self.6.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((j, y6))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5 && x.6 == y6,
            Err(NomErr::Error) => true,
            _ => true,
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        let (m3, y2) = match self.2.parse(m2) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.2.rel(m2, Ok((m3, y2)))); }
        let (m4, y3) = match self.3.parse(m3) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.3.rel(m3, Ok((m4, y3)))); }
        let (m5, y4) = match self.4.parse(m4) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.4.rel(m4, Ok((m5, y4)))); }
        let (m6, y5) = match self.5.parse(m5) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.5.rel(m5, Ok((m6, y5)))); }
        let (m7, y6) = match self.6.parse(m6) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.6.rel(m6, Ok((m7, y6)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG)> = Ok((m7, (y0, y1, y2, y3, y4, y5, y6)));
            match vx_r { Ok((j, x)) => { assert(self.6.rel(m6, Ok((j, y6)))); assert(exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((j, y6))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5 && x.6 == y6); } _ => {} }
        }
        Ok((m7, (y0, y1, y2, y3, y4, y5, y6)))
    }
}
impl<'a, OA, OB, OC, OD, OE, OF, OG, OH, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>, E: Parser<'a, OE>, F: Parser<'a, OF>, G: Parser<'a, OG>, H: Parser<'a, OH>> Parser<'a, (OA, OB, OC, OD, OE, OF, OG, OH)> for (A, B, C, D, E, F, G, H) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() && self.2.req() && self.3.req() && self.4.req() && self.5.req() && self.6.req() && self.7.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG, OH)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, m7: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG, y7: OH| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((m7, y6))) && #[trigger] self.7.rel(m7, Ok((j, y7))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5 && x.6 == y6 && x.7 == y7,
            Err(NomErr::Error) => true,
            _ => true,
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG, OH)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        let (m3, y2) = match self.2.parse(m2) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.2.rel(m2, Ok((m3, y2)))); }
        let (m4, y3) = match self.3.parse(m3) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.3.rel(m3, Ok((m4, y3)))); }
        let (m5, y4) = match self.4.parse(m4) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.4.rel(m4, Ok((m5, y4)))); }
        let (m6, y5) = match self.5.parse(m5) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.5.rel(m5, Ok((m6, y5)))); }
        let (m7, y6) = match self.6.parse(m6) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.6.rel(m6, Ok((m7, y6)))); }
        let (m8, y7) = match self.7.parse(m7) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.7.rel(m7, Ok((m8, y7)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG, OH)> = Ok((m8, (y0, y1, y2, y3, y4, y5, y6, y7)));
            match vx_r { Ok((j, x)) => { assert(self.7.rel(m7, Ok((j, y7)))); assert(exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, m7: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG, y7: OH| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((m7, y6))) && #[trigger] self.7.rel(m7, Ok((j, y7))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5 && x.6 == y6 && x.7 == y7); } _ => {} }
        }
        Ok((m8, (y0, y1, y2, y3, y4, y5, y6, y7)))
    }
}
impl<'a, OA, OB, OC, OD, OE, OF, OG, OH, OJ, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>, E: Parser<'a, OE>, F: Parser<'a, OF>, G: Parser<'a, OG>, H: Parser<'a, OH>, J: Parser<'a, OJ>> Parser<'a, (OA, OB, OC, OD, OE, OF, OG, OH, OJ)> for (A, B, C, D, E, F, G, H, J) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() && self.2.req() && self.3.req() && self.4.req() && self.5.req() && self.6.req() && self.7.req() && self.8.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG, OH, OJ)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, m7: Span<'a>, m8: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG, y7: OH, y8: OJ| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((m7, y6))) && #[trigger] self.7.rel(m7, Ok((m8, y7))) && #[trigger] self.8.rel(m8, Ok((j, y8))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5 && x.6 == y6 && x.7 == y7 && x.8 == y8,
            Err(NomErr::Error) => true,
            _ => true,
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG, OH, OJ)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        let (m3, y2) = match self.2.parse(m2) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.2.rel(m2, Ok((m3, y2)))); }
        let (m4, y3) = match self.3.parse(m3) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.3.rel(m3, Ok((m4, y3)))); }
        let (m5, y4) = match self.4.parse(m4) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.4.rel(m4, Ok((m5, y4)))); }
        let (m6, y5) = match self.5.parse(m5) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.5.rel(m5, Ok((m6, y5)))); }
        let (m7, y6) = match self.6.parse(m6) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.6.rel(m6, Ok((m7, y6)))); }
        let (m8, y7) = match self.7.parse(m7) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.7.rel(m7, Ok((m8, y7)))); }
        let (m9, y8) = match self.8.parse(m8) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.8.rel(m8, Ok((m9, y8)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG, OH, OJ)> = Ok((m9, (y0, y1, y2, y3, y4, y5, y6, y7, y8)));
            match vx_r { Ok((j, x)) => { assert(self.8.rel(m8, Ok((j, y8)))); assert(exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, m7: Span<'a>, m8: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG, y7: OH, y8: OJ| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((m7, y6))) && #[trigger] self.7.rel(m7, Ok((m8, y7))) && #[trigger] self.8.rel(m8, Ok((j, y8))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5 && x.6 == y6 && x.7 == y7 && x.8 == y8); } _ => {} }
        }
        Ok((m9, (y0, y1, y2, y3, y4, y5, y6, y7, y8)))
    }
}
impl<'a, OA, OB, OC, OD, OE, OF, OG, OH, OJ, OK, A: Parser<'a, OA>, B: Parser<'a, OB>, C: Parser<'a, OC>, D: Parser<'a, OD>, E: Parser<'a, OE>, F: Parser<'a, OF>, G: Parser<'a, OG>, H: Parser<'a, OH>, J: Parser<'a, OJ>, K: Parser<'a, OK>> Parser<'a, (OA, OB, OC, OD, OE, OF, OG, OH, OJ, OK)> for (A, B, C, D, E, F, G, H, J, K) {
    open spec fn req(&self) -> bool { self.0.req() && self.1.req() && self.2.req() && self.3.req() && self.4.req() && self.5.req() && self.6.req() && self.7.req() && self.8.req() && self.9.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG, OH, OJ, OK)>) -> bool {
        match r {
            Ok((j, x)) => exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, m7: Span<'a>, m8: Span<'a>, m9: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG, y7: OH, y8: OJ, y9: OK| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((m7, y6))) && #[trigger] self.7.rel(m7, Ok((m8, y7))) && #[trigger] self.8.rel(m8, Ok((m9, y8))) && #[trigger] self.9.rel(m9, Ok((j, y9))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5 && x.6 == y6 && x.7 == y7 && x.8 == y8 && x.9 == y9,
            Err(NomErr::Error) => true,
            _ => true,
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG, OH, OJ, OK)>) {
        let (m1, y0) = match self.0.parse(i) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.0.rel(i, Ok((m1, y0)))); }
        let (m2, y1) = match self.1.parse(m1) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.1.rel(m1, Ok((m2, y1)))); }
        let (m3, y2) = match self.2.parse(m2) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.2.rel(m2, Ok((m3, y2)))); }
        let (m4, y3) = match self.3.parse(m3) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.3.rel(m3, Ok((m4, y3)))); }
        let (m5, y4) = match self.4.parse(m4) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.4.rel(m4, Ok((m5, y4)))); }
        let (m6, y5) = match self.5.parse(m5) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.5.rel(m5, Ok((m6, y5)))); }
        let (m7, y6) = match self.6.parse(m6) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.6.rel(m6, Ok((m7, y6)))); }
        let (m8, y7) = match self.7.parse(m7) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.7.rel(m7, Ok((m8, y7)))); }
        let (m9, y8) = match self.8.parse(m8) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.8.rel(m8, Ok((m9, y8)))); }
        let (m10, y9) = match self.9.parse(m9) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.9.rel(m9, Ok((m10, y9)))); }
        proof {
            let vx_r: IRes<'a, (OA, OB, OC, OD, OE, OF, OG, OH, OJ, OK)> = Ok((m10, (y0, y1, y2, y3, y4, y5, y6, y7, y8, y9)));
            match vx_r { Ok((j, x)) => { assert(self.9.rel(m9, Ok((j, y9)))); assert(exists|m1: Span<'a>, m2: Span<'a>, m3: Span<'a>, m4: Span<'a>, m5: Span<'a>, m6: Span<'a>, m7: Span<'a>, m8: Span<'a>, m9: Span<'a>, y0: OA, y1: OB, y2: OC, y3: OD, y4: OE, y5: OF, y6: OG, y7: OH, y8: OJ, y9: OK| #[trigger] self.0.rel(i, Ok((m1, y0))) && #[trigger] self.1.rel(m1, Ok((m2, y1))) && #[trigger] self.2.rel(m2, Ok((m3, y2))) && #[trigger] self.3.rel(m3, Ok((m4, y3))) && #[trigger] self.4.rel(m4, Ok((m5, y4))) && #[trigger] self.5.rel(m5, Ok((m6, y5))) && #[trigger] self.6.rel(m6, Ok((m7, y6))) && #[trigger] self.7.rel(m7, Ok((m8, y7))) && #[trigger] self.8.rel(m8, Ok((m9, y8))) && #[trigger] self.9.rel(m9, Ok((j, y9))) && x.0 == y0 && x.1 == y1 && x.2 == y2 && x.3 == y3 && x.4 == y4 && x.5 == y5 && x.6 == y6 && x.7 == y7 && x.8 == y8 && x.9 == y9); } _ => {} }
        }
        Ok((m10, (y0, y1, y2, y3, y4, y5, y6, y7, y8, y9)))
    }
}
// map
pub struct Map<O, P, F> { pub p: P, pub f: F, pub g: std::marker::PhantomData<O> }
fn map<'a, O, T, P: Parser<'a, O>, F: Fn(O) -> T>(p: P, f: F) -> (r: Map<O, P, F>) ensures r.p == p, r.f == f { Map { p, f, g: std::marker::PhantomData } }
impl<'a, O, T, P: Parser<'a, O>, F: Fn(O) -> T> Parser<'a, T> for Map<O, P, F> {
    open spec fn req(&self) -> bool { self.p.req() && forall|x: O| self.f.requires((x,)) }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, T>) -> bool {
        match r {
            Ok((j, y)) => exists|x: O| #[trigger] self.p.rel(i, Ok((j, x))) && self.f.ensures((x,), y),
            Err(NomErr::Error) => failed(self.p, i),
            _ => true,
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, T>) {
        match self.p.parse(i) { Ok((j, x)) => {
            let y = (self.f)(x);
            proof {
                let vx_r: IRes<'a, T> = Ok((j, y));
                match vx_r { Ok((j1, y1)) => { assert(self.p.rel(i, Ok((j1, x)))); assert(exists|x: O| #[trigger] self.p.rel(i, Ok((j1, x))) && self.f.ensures((x,), y1)); } _ => {} }
            }
            Ok((j, y))
        } Err(e) => Err(e) }
    }
}
pub struct Recognize<P, O> { pub p: P, pub g: std::marker::PhantomData<O> }
fn recognize<'a, O, P: Parser<'a, O>>(p: P) -> (r: Recognize<P, O>) ensures r.p == p { Recognize { p, g: std::marker::PhantomData } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, Span<'a>> for Recognize<P, O> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Span<'a>>) -> bool {
        match r {
            Ok((j, v)) => exists|x: O| #[trigger] self.p.rel(i, Ok((j, x))) && (j@.len() <= i@.len() ==> v@ == i@.take(i@.len() - j@.len())),
            Err(NomErr::Error) => failed(self.p, i),
            _ => true,
        }
    }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Span<'a>>) { unimplemented!() }
}
pub struct Opt<P> { pub p: P }
fn opt<P>(p: P) -> (r: Opt<P>) ensures r.p == p { Opt { p } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, Option<O>> for Opt<P> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Option<O>>) -> bool {
        match r { Ok((j, Some(x))) => self.p.rel(i, Ok((j, x))), Ok((j, None)) => j == i && failed(self.p, i), Err(e) => e is Failure }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Option<O>>) { match self.p.parse(i) { Ok((j, x)) => Ok((j, Some(x))), Err(NomErr::Error) => Ok((i, None)), Err(e) => Err(e) } }
}
pub struct Not<P, O> { pub p: P, pub g: std::marker::PhantomData<O> }
fn not<'a, O, P: Parser<'a, O>>(p: P) -> (r: Not<P, O>) ensures r.p == p { Not { p, g: std::marker::PhantomData } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, ()> for Not<P, O> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, ()>) -> bool {
        match r { Ok((j, x)) => j == i && failed(self.p, i), Err(NomErr::Error) => exists|j: Span<'a>, x: O| #[trigger] self.p.rel(i, Ok((j, x))), _ => true }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, ()>) { match self.p.parse(i) { Ok((j, x)) => { proof { assert(self.p.rel(i, Ok((j, x)))); } Err(NomErr::Error) }, Err(NomErr::Error) => Ok((i, ())), Err(e) => Err(e) } }
}
pub struct Peek<P> { pub p: P }
fn peek<P>(p: P) -> (r: Peek<P>) ensures r.p == p { Peek { p } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, O> for Peek<P> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool {
        match r { Ok((j, x)) => j == i && exists|m: Span<'a>| #[trigger] self.p.rel(i, Ok((m, x))), Err(NomErr::Error) => failed(self.p, i), _ => true }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.p.parse(i) { Ok((m, x)) => { proof { assert(self.p.rel(i, Ok((m, x)))); let vx_r: IRes<'a, O> = Ok((i, x)); match vx_r { Ok((j, x1)) => { assert(self.p.rel(i, Ok((m, x1)))); } _ => {} } } Ok((i, x)) }, Err(e) => Err(e) } }
}
pub struct Cut<P> { pub p: P }
fn cut<P>(p: P) -> (r: Cut<P>) ensures r.p == p { Cut { p } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, O> for Cut<P> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok(_) => self.p.rel(i, r), Err(e) => e is Failure } }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { match self.p.parse(i) { Ok(x) => Ok(x), Err(e) => Err(NomErr::Failure) } }
}
pub struct Preceded<P, Q, O> { pub p: P, pub q: Q, pub g: std::marker::PhantomData<O> }
fn preceded<'a, O, P: Parser<'a, O>, Q>(p: P, q: Q) -> (r: Preceded<P, Q, O>) ensures r.p == p, r.q == q { Preceded { p, q, g: std::marker::PhantomData } }
impl<'a, O, T, P: Parser<'a, O>, Q: Parser<'a, T>> Parser<'a, T> for Preceded<P, Q, O> {
    open spec fn req(&self) -> bool { self.p.req() && self.q.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, T>) -> bool {
        match r {
            Ok((j, y)) => exists|m: Span<'a>, x: O| #[trigger] self.p.rel(i, Ok((m, x))) && self.q.rel(m, r),
            Err(NomErr::Error) => failed(self.p, i) || exists|m: Span<'a>, x: O| #[trigger] self.p.rel(i, Ok((m, x))) && failed(self.q, m),
            _ => true,
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, T>) { match self.p.parse(i) { Ok((m, x)) => { proof { assert(self.p.rel(i, Ok((m, x)))); } self.q.parse(m) }, Err(e) => Err(e) } }
}
pub struct Delimited<P, Q, R, A, B> { pub p: P, pub q: Q, pub r: R, pub g: std::marker::PhantomData<(A, B)> }
fn delimited<'a, A, B, P: Parser<'a, A>, Q, R: Parser<'a, B>>(p: P, q: Q, r: R) -> (v: Delimited<P, Q, R, A, B>) ensures v.p == p, v.q == q, v.r == r { Delimited { p, q, r, g: std::marker::PhantomData } }
impl<'a, A, B, T, P: Parser<'a, A>, Q: Parser<'a, T>, R: Parser<'a, B>> Parser<'a, T> for Delimited<P, Q, R, A, B> {
    open spec fn req(&self) -> bool { self.p.req() && self.q.req() && self.r.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, T>) -> bool {
        match r {
            Ok((j, y)) => exists|m: Span<'a>, x: A, n: Span<'a>, z: B| #[trigger] self.p.rel(i, Ok((m, x))) && self.q.rel(m, Ok((n, y))) && #[trigger] self.r.rel(n, Ok((j, z))),
            _ => true,
        }
    }
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, T>) {
        let (m, x) = match self.p.parse(i) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.p.rel(i, Ok((m, x)))); }
        let (n, y) = match self.q.parse(m) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { assert(self.q.rel(m, Ok((n, y)))); }
        let (j, z) = match self.r.parse(n) { Ok(v) => v, Err(e) => { return Err(e) } };
        proof { let vx_r: IRes<'a, T> = Ok((j, y)); assert(self.r.rel(n, Ok((j, z)))); match vx_r { Ok((j, y)) => { assert(self.q.rel(m, Ok((n, y)))); assert(self.r.rel(n, Ok((j, z)))); } _ => {} } }
        Ok((j, y))
    }
}
// position: consumes nothing
fn position<'a>(i: Span<'a>) -> (r: IRes<'a, Span<'a>>) ensures r matches Ok((j, p)) && j == i && p@.len() == 0 && p.offset() == i.offset() { Ok((i, Span { s: vx_empty(), off: i.off })) }
#[verifier::external_body]
fn vx_empty() -> (r: &'static str) ensures r@.len() == 0 { "" }
// one character
pub open spec fn one(i: Seq<char>, c: bool, r: IRes<'_, char>) -> bool { match r { Ok((j, x)) => i.len() > 0 && c && x == i[0] && j@ == i.drop_first(), Err(NomErr::Error) => !(i.len() > 0 && c), _ => true } }
pub struct Ch { pub c: char }
fn char(c: char) -> (r: Ch) ensures r.c == c { Ch { c } }
impl<'a> Parser<'a, char> for Ch {
    open spec fn req(&self) -> bool { true }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, char>) -> bool { one(i@, i@[0] == self.c, r) }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, char>) { unimplemented!() }
}
// a given text
pub open spec fn pre(s: Seq<char>, t: Seq<char>) -> bool { t.len() <= s.len() && s.take(t.len() as int) == t }
pub struct Tag { pub t: &'static str }
fn tag(t: &'static str) -> (r: Tag) ensures r.t@ == t@ { Tag { t } }
impl<'a> Parser<'a, Span<'a>> for Tag {
    open spec fn req(&self) -> bool { true }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Span<'a>>) -> bool { match r { Ok((j, x)) => pre(i@, self.t@) && x@ == self.t@ && j@ == i@.skip(self.t@.len() as int), Err(e) => e is Error && !pre(i@, self.t@) } }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Span<'a>>) { unimplemented!() }
}
// the characters up to the first of the given ones, at least one
pub struct IsNot { pub t: &'static str }
fn is_not(t: &'static str) -> (r: IsNot) ensures r.t@ == t@ { IsNot { t } }
impl<'a> Parser<'a, Span<'a>> for IsNot {
    open spec fn req(&self) -> bool { true }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Span<'a>>) -> bool {
        match r {
            Ok((j, x)) => x@.len() > 0 && i@ == x@ + j@ && (forall|k: int| 0 <= k < x@.len() ==> !self.t@.contains(#[trigger] x@[k])) && (j@.len() > 0 ==> self.t@.contains(j@[0])),
            Err(e) => e is Error && (i@.len() == 0 || self.t@.contains(i@[0])),
        }
    }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Span<'a>>) { unimplemented!() }
}
// the characters in front of the first occurrence of a text
pub open spec fn occurs(s: Seq<char>, t: Seq<char>, k: int) -> bool { 0 <= k <= s.len() && pre(s.skip(k), t) }
pub struct TakeUntil { pub t: &'static str }
fn take_until(t: &'static str) -> (r: TakeUntil) ensures r.t@ == t@ { TakeUntil { t } }
impl<'a> Parser<'a, Span<'a>> for TakeUntil {
    open spec fn req(&self) -> bool { true }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Span<'a>>) -> bool {
        match r { Ok((j, x)) => i@ == x@ + j@ && pre(j@, self.t@) && forall|k: int| 0 <= k < x@.len() ==> !#[trigger] occurs(i@, self.t@, k), Err(e) => e is Error }
    }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Span<'a>>) { unimplemented!() }
}
// white space: space, tab, carriage return, line feed
pub open spec fn ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }
pub open spec fn spaces(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s[0]) { spaces(s.drop_first()) } else { s } }
#[verifier::external_body]
fn multispace1<'a>(i: Span<'a>) -> (r: IRes<'a, Span<'a>>) ensures match r { Ok((j, x)) => i@.len() > 0 && ws(i@[0]) && j@ == spaces(i@), Err(e) => e is Error && !(i@.len() > 0 && ws(i@[0])) } { unimplemented!() }
// as often as the parser matches; gives up with an error where it matches without consuming anything
pub open spec fn many_rel<'a, O, P: Parser<'a, O>>(p: P, i: Span<'a>, out: Seq<O>, j: Span<'a>) -> bool decreases out.len() {
    if out.len() == 0 { failed(p, i) && j == i } else { exists|m: Span<'a>| #[trigger] p.rel(i, Ok((m, out[0]))) && m@.len() != i@.len() && many_rel(p, m, out.drop_first(), j) }
}
pub struct Many0<P> { pub p: P }
fn many0<P>(p: P) -> (r: Many0<P>) ensures r.p == p { Many0 { p } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, Vec<O>> for Many0<P> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Vec<O>>) -> bool {
        match r {
            Ok((j, v)) => many_rel(self.p, i, v@, j),
            Err(NomErr::Error) => exists|m: Span<'a>, m2: Span<'a>, x: O| #[trigger] self.p.rel(m, Ok((m2, x))) && m2@.len() == m@.len(),
            _ => true,
        }
    }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Vec<O>>) { unimplemented!() }
}
// the same, folded: nothing is said about the value
pub struct FoldMany<P, O, R> { pub p: P, pub least: nat, pub g: std::marker::PhantomData<(O, R)> }
#[verifier::external_body]
fn fold_many0<'a, O, R, P: Parser<'a, O>, F: Fn() -> R, G: Fn(R, O) -> R>(p: P, f: F, g: G) -> (r: FoldMany<P, O, R>) ensures r.p == p, r.least == 0 { unimplemented!() }
#[verifier::external_body]
fn fold_many1<'a, O, R, P: Parser<'a, O>, F: Fn() -> R, G: Fn(R, O) -> R>(p: P, f: F, g: G) -> (r: FoldMany<P, O, R>) ensures r.p == p, r.least == 1 { unimplemented!() }
impl<'a, O, R, P: Parser<'a, O>> Parser<'a, R> for FoldMany<P, O, R> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, R>) -> bool { match r { Ok((j, v)) => exists|out: Seq<O>| #[trigger] many_rel(self.p, i, out, j) && out.len() >= self.least, _ => true } }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, R>) { unimplemented!() }
}
// items with separators between them; a separator with no item behind it is left alone
pub open spec fn sep_rel<'a, O, S, P: Parser<'a, O>, Q: Parser<'a, S>>(q: Q, p: P, i: Span<'a>, v: Seq<O>, n: nat, j: Span<'a>) -> bool decreases n {
    if n == 0 || n > v.len() { n == 0 && j == i }
    else if n == 1 { p.rel(i, Ok((j, v[0]))) }
    else { exists|m1: Span<'a>, m2: Span<'a>, y: S| sep_rel(q, p, i, v, (n - 1) as nat, m1) && #[trigger] q.rel(m1, Ok((m2, y))) && #[trigger] p.rel(m2, Ok((j, v[n - 1]))) }
}
pub struct Sep<Q, P, S> { pub q: Q, pub p: P, pub least: nat, pub g: std::marker::PhantomData<S> }
#[verifier::external_body]
fn separated_list0<'a, S, P, Q: Parser<'a, S>>(q: Q, p: P) -> (r: Sep<Q, P, S>) ensures r.p == p, r.q == q, r.least == 0 { unimplemented!() }
#[verifier::external_body]
fn separated_list1<'a, S, P, Q: Parser<'a, S>>(q: Q, p: P) -> (r: Sep<Q, P, S>) ensures r.p == p, r.q == q, r.least == 1 { unimplemented!() }
impl<'a, O, S, P: Parser<'a, O>, Q: Parser<'a, S>> Parser<'a, Vec<O>> for Sep<Q, P, S> {
    open spec fn req(&self) -> bool { self.p.req() && self.q.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, Vec<O>>) -> bool { match r { Ok((j, v)) => v@.len() >= self.least && sep_rel(self.q, self.p, i, v@, v@.len(), j), _ => true } }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, Vec<O>>) { unimplemented!() }
}
pub struct Terminated<P, Q, O> { pub p: P, pub q: Q, pub g: std::marker::PhantomData<O> }
fn terminated<'a, O, S, P: Parser<'a, O>, Q: Parser<'a, S>>(p: P, q: Q) -> (r: Terminated<P, Q, S>) ensures r.p == p, r.q == q { Terminated { p, q, g: std::marker::PhantomData } }
impl<'a, O, S, P: Parser<'a, O>, Q: Parser<'a, S>> Parser<'a, O> for Terminated<P, Q, S> {
    open spec fn req(&self) -> bool { self.p.req() && self.q.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok((j, x)) => exists|m: Span<'a>, y: S| #[trigger] self.p.rel(i, Ok((m, x))) && #[trigger] self.q.rel(m, Ok((j, y))), _ => true } }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { unimplemented!() }
}
pub struct Value<T, P, O> { pub v: T, pub p: P, pub g: std::marker::PhantomData<O> }
fn value<'a, T: Clone, O, P: Parser<'a, O>>(v: T, p: P) -> (r: Value<T, P, O>) ensures r.p == p, r.v == v { Value { v, p, g: std::marker::PhantomData } }
impl<'a, T: Clone, O, P: Parser<'a, O>> Parser<'a, T> for Value<T, P, O> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, T>) -> bool { match r { Ok((j, x)) => cloned(self.v, x) && exists|y: O| #[trigger] self.p.rel(i, Ok((j, y))), Err(NomErr::Error) => failed(self.p, i), _ => true } }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, T>) { unimplemented!() }
}
// all of the input
pub struct All<P> { pub p: P }
fn all_consuming<P>(p: P) -> (r: All<P>) ensures r.p == p { All { p } }
impl<'a, O, P: Parser<'a, O>> Parser<'a, O> for All<P> {
    open spec fn req(&self) -> bool { self.p.req() }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, O>) -> bool { match r { Ok((j, x)) => j@.len() == 0 && self.p.rel(i, r), _ => true } }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, O>) { unimplemented!() }
}
