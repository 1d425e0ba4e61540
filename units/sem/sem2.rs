use vstd::prelude::*;
verus! {
// ---------------------------------------------------------------- documents
pub ghost struct Name { pub ns: Seq<char>, pub local: Seq<char> }
pub ghost struct AttrV { pub name: Name, pub value: Seq<char> }
pub ghost enum Sym { Text(Seq<char>), Child(Name, Cont) }
pub ghost struct Cont { pub attrs: Seq<AttrV>, pub ch: Seq<Sym> }
pub type Stack = Seq<Cont>;
pub type Lang = spec_fn(Stack) -> bool;

pub open spec fn xml_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
pub open spec fn ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> xml_ws(#[trigger] s[i]) }
pub open spec fn clean(w: Seq<Sym>) -> bool { forall|i: int| 0 <= i < w.len() ==> ((#[trigger] w[i]) is Text ==> !ws(w[i]->Text_0)) }
pub open spec fn texts(w: Seq<Sym>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]) is Text }
pub open spec fn headok(w: Seq<Sym>) -> bool { w.len() > 0 ==> w[0] is Child }

pub open spec fn shuf<T>(a: Seq<T>, b: Seq<T>, w: Seq<T>) -> bool
    decreases w.len()
{
    if w.len() == 0 { a.len() == 0 && b.len() == 0 }
    else {
        ||| (a.len() > 0 && a[0] == w[0] && shuf(a.drop_first(), b, w.drop_first()))
        ||| (b.len() > 0 && b[0] == w[0] && shuf(a, b.drop_first(), w.drop_first()))
    }
}
pub open spec fn one(attrs: Seq<AttrV>, ch: Seq<Sym>) -> Stack { seq![Cont { attrs, ch }] }
pub open spec fn nothing() -> Stack { one(seq![], seq![]) }

// ---------------------------------------------------------------- languages
pub open spec fn l_none() -> Lang { |st: Stack| false }
pub open spec fn l_eps() -> Lang { |st: Stack| st.len() == 1 && st[0].attrs.len() == 0 && st[0].ch.len() == 0 }
pub open spec fn l_text() -> Lang { |st: Stack| st.len() == 1 && st[0].attrs.len() == 0 && texts(st[0].ch) }
pub open spec fn l_union(a: Lang, b: Lang) -> Lang { |st: Stack| a(st) || b(st) }
pub open spec fn cat_w(a: Lang, b: Lang, st: Stack, a1: Seq<AttrV>, a2: Seq<AttrV>, k: int) -> bool {
    0 <= k <= st[0].ch.len() && shuf(a1, a2, st[0].attrs)
    && a(one(a1, st[0].ch.take(k))) && b(one(a2, st[0].ch.skip(k)))
}
pub open spec fn cat_m(a: Lang, b: Lang, st: Stack) -> bool {
    st.len() == 1 && exists|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(a, b, st, a1, a2, k)
}
pub open spec fn l_cat(a: Lang, b: Lang) -> Lang { |st: Stack| cat_m(a, b, st) }
pub open spec fn inter_w(a: Lang, b: Lang, st: Stack, a1: Seq<AttrV>, a2: Seq<AttrV>, w1: Seq<Sym>, w2: Seq<Sym>) -> bool {
    shuf(a1, a2, st[0].attrs) && shuf(w1, w2, st[0].ch) && a(one(a1, w1)) && b(one(a2, w2))
}
pub open spec fn inter_m(a: Lang, b: Lang, st: Stack) -> bool {
    st.len() == 1 && exists|a1: Seq<AttrV>, a2: Seq<AttrV>, w1: Seq<Sym>, w2: Seq<Sym>| inter_w(a, b, st, a1, a2, w1, w2)
}
pub open spec fn l_inter(a: Lang, b: Lang) -> Lang { |st: Stack| inter_m(a, b, st) }
pub open spec fn l_rep(a: Lang, n: nat) -> Lang decreases n {
    if n == 0 { l_none() } else if n == 1 { |st: Stack| st.len() == 1 && a(st) } else { l_cat(a, l_rep(a, (n - 1) as nat)) }
}
pub open spec fn l_plus(a: Lang) -> Lang { |st: Stack| exists|n: nat| #[trigger] l_rep(a, n)(st) }
pub open spec fn l_aft(a: Lang, b: Lang) -> Lang { |st: Stack| st.len() >= 2 && a(seq![st[0]]) && b(st.drop_first()) }

// a stack whose top has Child(n,c) / Text(s) / attribute a put in front
pub open spec fn push_ch(st: Stack, x: Sym) -> Stack {
    st.update(0, Cont { attrs: st[0].attrs, ch: seq![x] + st[0].ch })
}
pub open spec fn push_att(st: Stack, a: AttrV) -> Stack {
    st.update(0, Cont { attrs: seq![a] + st[0].attrs, ch: st[0].ch })
}
pub open spec fn flat0(st: Stack) -> bool { st.len() >= 1 && st[0].attrs.len() == 0 }

pub open spec fn nullable(a: Lang) -> bool { a(nothing()) }

// ---------------------------------------------------------------- relations decided by the derivative functions
#[verifier::opaque]
pub open spec fn sd_rel(a: Lang, n: Name, r: Lang) -> bool {
    forall|c: Cont, st: Stack| flat0(st) ==> ((#[trigger] r(seq![c] + st)) <==> a(push_ch(st, Sym::Child(n, c))))
}
#[verifier::opaque]
pub open spec fn td_rel(a: Lang, s: Seq<char>, r: Lang) -> bool {
    forall|st: Stack| #![trigger r(st)] #![trigger push_ch(st, Sym::Text(s))] flat0(st) ==> {
        &&& (clean(st[0].ch) && a(push_ch(st, Sym::Text(s))) ==> r(st))
        &&& (clean(st[0].ch) && ws(s) && headok(st[0].ch) && a(st) ==> r(st))
        &&& (r(st) ==> a(push_ch(st, Sym::Text(s))) || (ws(s) && a(st)))
    }
}
#[verifier::opaque]
pub open spec fn ad_rel(a: Lang, x: AttrV, r: Lang) -> bool {
    forall|st: Stack| #![trigger r(st)] #![trigger push_att(st, x)] st.len() >= 1 ==> (r(st) <==> a(push_att(st, x)))
}
#[verifier::opaque]
pub open spec fn cl_rel(a: Lang, r: Lang) -> bool {
    forall|st: Stack| flat0(st) ==> (#[trigger] r(st) <==> a(st))
}
#[verifier::opaque]
pub open spec fn ed_rel(a: Lang, r: Lang) -> bool {
    forall|st: Stack| st.len() >= 1 ==> (#[trigger] r(st) <==> a(nothing() + st))
}
pub open spec fn att_alone(a: Lang) -> bool {
    forall|st: Stack| st.len() >= 1 && #[trigger] a(st) && st[0].attrs.len() > 0 ==> st.len() == 1 && st[0].ch.len() == 0
}

// what apply_after() does to a residual language
pub ghost enum Ctx { CatL(Lang), InterL(Lang), InterR(Lang), AftL(Lang), CatR(Lang), AftR(Lang), Id }
pub open spec fn plug(k: Ctx, a: Lang) -> Lang {
    match k {
        Ctx::CatL(b) => l_cat(a, b),
        Ctx::CatR(b) => l_cat(b, a),
        Ctx::InterL(b) => l_inter(a, b),
        Ctx::InterR(b) => l_inter(b, a),
        Ctx::AftL(b) => l_aft(a, b),
        Ctx::AftR(b) => l_aft(b, a),
        Ctx::Id => a,
    }
}
pub open spec fn resid(r: Lang, c: Cont) -> Lang { |s: Stack| s.len() >= 1 && r(seq![c] + s) }
pub open spec fn l_lift(k: Ctx, r: Lang) -> Lang {
    |st: Stack| st.len() >= 2 && plug(k, resid(r, st[0]))(st.drop_first())
}
}
fn main(){}
