// ---------------------------------------------------------------- words of attribute-free contents
pub open spec fn m0(a: Lang, w: Seq<Sym>) -> bool { a(one(seq![], w)) }
pub proof fn flat_one(st: Stack) requires flat0(st), st.len() == 1 ensures st == one(seq![], st[0].ch) {
    assert(st[0].attrs =~= seq![]); assert(st =~= one(seq![], st[0].ch));
}
pub open spec fn cons(x: Sym, w: Seq<Sym>) -> Seq<Sym> { seq![x] + w }
pub proof fn push_one(w: Seq<Sym>, x: Sym) ensures push_ch(one(seq![], w), x) == one(seq![], cons(x, w)) {
    assert(push_ch(one(seq![], w), x) =~= one(seq![], cons(x, w)));
}
pub open spec fn cat_k(a: Lang, b: Lang, w: Seq<Sym>, k: int) -> bool { 0 <= k <= w.len() && m0(a, w.take(k)) && m0(b, w.skip(k)) }
pub proof fn cat0(a: Lang, b: Lang, w: Seq<Sym>)
    ensures m0(l_cat(a, b), w) <==> exists|k: int| cat_k(a, b, w, k)
{
    let st = one(seq![], w);
    if cat_m(a, b, st) {
        let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(a, b, st, a1, a2, k);
        assert(a1 =~= seq![]); assert(a2 =~= seq![]);
        assert(cat_k(a, b, w, k));
    }
    if exists|k: int| cat_k(a, b, w, k) {
        let k = choose|k: int| cat_k(a, b, w, k);
        assert(cat_w(a, b, st, seq![], seq![], k));
    }
}
pub proof fn cat0_intro(a: Lang, b: Lang, u: Seq<Sym>, v: Seq<Sym>)
    requires m0(a, u), m0(b, v)
    ensures m0(l_cat(a, b), u + v)
{
    cat0(a, b, u + v);
    assert((u + v).take(u.len() as int) =~= u); assert((u + v).skip(u.len() as int) =~= v);
    assert(cat_k(a, b, u + v, u.len() as int));
}
// elimination: a word of a concatenation splits
pub proof fn cat0_elim(a: Lang, b: Lang, w: Seq<Sym>) -> (r: (Seq<Sym>, Seq<Sym>))
    requires m0(l_cat(a, b), w)
    ensures w == r.0 + r.1, m0(a, r.0), m0(b, r.1)
{
    cat0(a, b, w);
    let k = choose|k: int| cat_k(a, b, w, k);
    assert(w =~= w.take(k) + w.skip(k));
    (w.take(k), w.skip(k))
}
pub proof fn cat0_head(a: Lang, b: Lang, x: Sym, w: Seq<Sym>) -> (r: (Seq<Sym>, Seq<Sym>))
    requires m0(l_cat(a, b), cons(x, w))
    ensures (w == r.0 + r.1 && m0(a, cons(x, r.0)) && m0(b, r.1)) || (nullable(a) && m0(b, cons(x, w)))
{
    let (u, v) = cat0_elim(a, b, cons(x, w));
    if u.len() == 0 { assert(u =~= seq![]); assert(v =~= cons(x, w)); (u, v) }
    else {
        let u1 = u.drop_first();
        assert(u[0] == cons(x, w)[0]);
        assert(u =~= cons(x, u1));
        assert(w =~= u1 + v) by { assert(cons(x, w) =~= cons(x, u1 + v)); assert(w =~= cons(x, w).drop_first()); assert(u1 + v =~= cons(x, u1 + v).drop_first()); }
        (u1, v)
    }
}
pub open spec fn inter_k(a: Lang, b: Lang, w: Seq<Sym>, w1: Seq<Sym>, w2: Seq<Sym>) -> bool { shuf(w1, w2, w) && m0(a, w1) && m0(b, w2) }
pub proof fn inter0(a: Lang, b: Lang, w: Seq<Sym>)
    ensures m0(l_inter(a, b), w) <==> exists|w1: Seq<Sym>, w2: Seq<Sym>| inter_k(a, b, w, w1, w2)
{
    let st = one(seq![], w);
    if inter_m(a, b, st) {
        let (a1, a2, w1, w2) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, w1: Seq<Sym>, w2: Seq<Sym>| inter_w(a, b, st, a1, a2, w1, w2);
        assert(a1 =~= seq![]); assert(a2 =~= seq![]);
        assert(inter_k(a, b, w, w1, w2));
    }
    if exists|w1: Seq<Sym>, w2: Seq<Sym>| inter_k(a, b, w, w1, w2) {
        let (w1, w2) = choose|w1: Seq<Sym>, w2: Seq<Sym>| inter_k(a, b, w, w1, w2);
        assert(inter_w(a, b, st, seq![], seq![], w1, w2));
    }
}
pub proof fn inter0_intro(a: Lang, b: Lang, w: Seq<Sym>, w1: Seq<Sym>, w2: Seq<Sym>)
    requires shuf(w1, w2, w), m0(a, w1), m0(b, w2)
    ensures m0(l_inter(a, b), w)
{ inter0(a, b, w); assert(inter_k(a, b, w, w1, w2)); }
pub proof fn inter0_elim(a: Lang, b: Lang, w: Seq<Sym>) -> (r: (Seq<Sym>, Seq<Sym>))
    requires m0(l_inter(a, b), w)
    ensures shuf(r.0, r.1, w), m0(a, r.0), m0(b, r.1)
{ inter0(a, b, w); let (w1, w2) = choose|w1: Seq<Sym>, w2: Seq<Sym>| inter_k(a, b, w, w1, w2); (w1, w2) }
// head of an interleaving
pub proof fn inter0_head(a: Lang, b: Lang, x: Sym, w: Seq<Sym>) -> (r: (bool, Seq<Sym>, Seq<Sym>))
    requires m0(l_inter(a, b), cons(x, w))
    ensures shuf(r.1, r.2, w), r.0 ==> m0(a, cons(x, r.1)) && m0(b, r.2), !r.0 ==> m0(a, r.1) && m0(b, cons(x, r.2))
{
    let (w1, w2) = inter0_elim(a, b, cons(x, w));
    assert(cons(x, w).drop_first() =~= w);
    if w1.len() > 0 && w1[0] == x && shuf(w1.drop_first(), w2, w) {
        assert(w1 =~= cons(x, w1.drop_first()));
        (true, w1.drop_first(), w2)
    } else {
        assert(w2 =~= cons(x, w2.drop_first()));
        (false, w1, w2.drop_first())
    }
}
// one-or-more
pub proof fn rep_flat(a: Lang, n: nat, st: Stack) requires l_rep(a, n)(st) ensures st.len() == 1, n >= 1 { }
pub proof fn plus_flat(a: Lang) ensures flat(l_plus(a)) {
    assert forall|st: Stack| #[trigger] l_plus(a)(st) implies st.len() == 1 by { let n = choose|n: nat| #[trigger] l_rep(a, n)(st); rep_flat(a, n, st); }
}
pub open spec fn l_star(a: Lang) -> Lang { l_union(l_plus(a), l_eps()) }
pub proof fn rep_head(a: Lang, n: nat, x: Sym, w: Seq<Sym>) -> (r: (Seq<Sym>, Seq<Sym>))
    requires m0(l_rep(a, n), cons(x, w))
    ensures w == r.0 + r.1, m0(a, cons(x, r.0)), m0(l_star(a), r.1)
    decreases n
{
    if n == 1 { assert(w + seq![] =~= w); (w, seq![]) }
    else {
        let r = cat0_head(a, l_rep(a, (n - 1) as nat), x, w);
        if w == r.0 + r.1 && m0(a, cons(x, r.0)) && m0(l_rep(a, (n - 1) as nat), r.1) {
            assert(l_plus(a)(one(seq![], r.1)));
            r
        } else { rep_head(a, (n - 1) as nat, x, w) }
    }
}
pub proof fn plus_head(a: Lang, x: Sym, w: Seq<Sym>) -> (r: (Seq<Sym>, Seq<Sym>))
    requires m0(l_plus(a), cons(x, w))
    ensures w == r.0 + r.1, m0(a, cons(x, r.0)), m0(l_star(a), r.1)
{
    let n = choose|n: nat| #[trigger] l_rep(a, n)(one(seq![], cons(x, w)));
    rep_head(a, n, x, w)
}
pub proof fn plus_cons(a: Lang, u: Seq<Sym>, v: Seq<Sym>)
    requires m0(a, u), m0(l_star(a), v)
    ensures m0(l_plus(a), u + v)
{
    if m0(l_plus(a), v) {
        let n = choose|n: nat| #[trigger] l_rep(a, n)(one(seq![], v));
        rep_flat(a, n, one(seq![], v));
        cat0_intro(a, l_rep(a, n), u, v);
        assert(l_rep(a, (n + 1) as nat)(one(seq![], u + v)));
    } else {
        assert(v =~= seq![]); assert(u + v =~= u);
        assert(l_rep(a, 1)(one(seq![], u)));
    }
}
