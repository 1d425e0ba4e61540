// ---------------------------------------------------------------- start tags
pub open spec fn len2(a: Lang) -> bool { forall|st: Stack| #[trigger] a(st) ==> st.len() == 2 }
// sd_rel for attribute-free single contents
pub proof fn sd_get(a: Lang, n: Name, r: Lang, c: Cont, w: Seq<Sym>)
    requires sd_rel(a, n, r)
    ensures r(seq![c] + one(seq![], w)) <==> m0(a, cons(Sym::Child(n, c), w))
{
    reveal(sd_rel);
    let st = one(seq![], w);
    push_one(w, Sym::Child(n, c));
    assert(flat0(st));
    assert(r(seq![c] + st) <==> a(push_ch(st, Sym::Child(n, c))));
}
pub proof fn push_ch_flat(st: Stack, x: Sym)
    requires flat0(st)
    ensures st.len() == 1 ==> st == one(seq![], st[0].ch) && push_ch(st, x) == one(seq![], cons(x, st[0].ch)),
        st.len() != 1 ==> push_ch(st, x).len() != 1,
        push_ch(st, x).len() == st.len(), push_ch(st, x)[0].ch == cons(x, st[0].ch), push_ch(st, x)[0].attrs == st[0].attrs,
        push_ch(st, x).drop_first() == st.drop_first(),
        seq![push_ch(st, x)[0]] == push_ch(seq![st[0]], x),
{
    if st.len() == 1 { flat_one(st); push_one(st[0].ch, x); }
    assert(push_ch(st, x).drop_first() =~= st.drop_first());
    assert(seq![push_ch(st, x)[0]] =~= push_ch(seq![st[0]], x));
}
pub broadcast proof fn sd_union(a: Lang, b: Lang, n: Name, ra: Lang, rb: Lang)
    requires #[trigger] sd_rel(a, n, ra), #[trigger] sd_rel(b, n, rb)
    ensures #[trigger] sd_rel(l_union(a, b), n, l_union(ra, rb))
{ reveal(sd_rel); }
// patterns no word of which starts with a child element
pub open spec fn no_child(a: Lang) -> bool { forall|st: Stack, n: Name, c: Cont| flat0(st) ==> !(#[trigger] a(push_ch(st, Sym::Child(n, c)))) }
pub proof fn sd_none(a: Lang, n: Name) requires no_child(a) ensures sd_rel(a, n, l_none())
{ reveal(sd_rel); }
pub proof fn lift_at(k: Ctx, r: Lang, c: Cont, st: Stack)
    requires st.len() >= 1
    ensures l_lift(k, r)(seq![c] + st) == plug(k, resid(r, c))(st)
{
    assert((seq![c] + st).drop_first() =~= st);
    assert((seq![c] + st)[0] == c);
}
pub proof fn lift_len2(k: Ctx, r: Lang)
    requires k is CatL || k is InterL || k is InterR || k is CatR
    ensures len2(l_lift(k, r))
{
    assert forall|st: Stack| #[trigger] l_lift(k, r)(st) implies st.len() == 2 by { assert(st.drop_first().len() == 1); }
}
pub open spec fn l_cat_sd(b: Lang, ra: Lang) -> Lang { l_lift(Ctx::CatL(b), ra) }

pub broadcast proof fn sd_cat(a: Lang, b: Lang, n: Name, ra: Lang)
    requires #[trigger] sd_rel(a, n, ra), !nullable(a)
    ensures sd_rel(#[trigger] l_cat(a, b), n, l_lift(Ctx::CatL(b), ra))
{
    sd_cat_aux(a, b, n, ra);
    reveal(sd_rel);
    assert forall|c: Cont, st: Stack| flat0(st) implies ((#[trigger] l_lift(Ctx::CatL(b), ra)(seq![c] + st)) <==> l_cat(a, b)(push_ch(st, Sym::Child(n, c)))) by {
        let x = Sym::Child(n, c);
        push_ch_flat(st, x);
        lift_at(Ctx::CatL(b), ra, c, st);
        if st.len() == 1 {
            sd_cat_at(a, b, n, ra, c, st[0].ch);
        }
    }
}
proof fn sd_cat_aux(a: Lang, b: Lang, n: Name, ra: Lang) ensures true {}
// concatenation, pointwise
proof fn sd_cat_at(a: Lang, b: Lang, n: Name, ra: Lang, c: Cont, w: Seq<Sym>)
    requires sd_rel(a, n, ra)
    ensures
        m0(l_cat(resid(ra, c), b), w) ==> m0(l_cat(a, b), cons(Sym::Child(n, c), w)),
        m0(l_cat(a, b), cons(Sym::Child(n, c), w)) ==> m0(l_cat(resid(ra, c), b), w) || (nullable(a) && m0(b, cons(Sym::Child(n, c), w)))
{
    let x = Sym::Child(n, c);
    if m0(l_cat(resid(ra, c), b), w) {
        let (u, v) = cat0_elim(resid(ra, c), b, w);
        sd_get(a, n, ra, c, u);
        cat0_intro(a, b, cons(x, u), v);
        assert(cons(x, u) + v =~= cons(x, w));
    }
    if m0(l_cat(a, b), cons(x, w)) {
        let (u, v) = cat0_head(a, b, x, w);
        if w == u + v && m0(a, cons(x, u)) && m0(b, v) {
            sd_get(a, n, ra, c, u);
            cat0_intro(resid(ra, c), b, u, v);
        }
    }
}
pub broadcast proof fn sd_cat_null(a: Lang, b: Lang, n: Name, ra: Lang, rb: Lang)
    requires #[trigger] sd_rel(a, n, ra), #[trigger] sd_rel(b, n, rb), nullable(a), len2(rb)
    ensures sd_rel(#[trigger] l_cat(a, b), n, l_union(l_lift(Ctx::CatL(b), ra), rb))
{
    let r = l_union(l_lift(Ctx::CatL(b), ra), rb);
    assert forall|c: Cont, st: Stack| flat0(st) implies ((#[trigger] r(seq![c] + st)) <==> l_cat(a, b)(push_ch(st, Sym::Child(n, c)))) by {
        let x = Sym::Child(n, c);
        push_ch_flat(st, x);
        lift_at(Ctx::CatL(b), ra, c, st);
        if st.len() == 1 {
            sd_cat_at(a, b, n, ra, c, st[0].ch);
            sd_get(b, n, rb, c, st[0].ch);
            if m0(b, cons(x, st[0].ch)) {
                cat0_intro(a, b, seq![], cons(x, st[0].ch));
                assert(seq![] + cons(x, st[0].ch) =~= cons(x, st[0].ch));
            }
        } else {
            assert((seq![c] + st).len() != 2);
        }
    }
    reveal(sd_rel);
}
pub broadcast proof fn sd_inter(a: Lang, b: Lang, n: Name, ra: Lang, rb: Lang)
    requires #[trigger] sd_rel(a, n, ra), #[trigger] sd_rel(b, n, rb)
    ensures sd_rel(#[trigger] l_inter(a, b), n, l_union(l_lift(Ctx::InterL(b), ra), l_lift(Ctx::InterR(a), rb)))
{
    let r = l_union(l_lift(Ctx::InterL(b), ra), l_lift(Ctx::InterR(a), rb));
    assert forall|c: Cont, st: Stack| flat0(st) implies ((#[trigger] r(seq![c] + st)) <==> l_inter(a, b)(push_ch(st, Sym::Child(n, c)))) by {
        let x = Sym::Child(n, c);
        push_ch_flat(st, x);
        lift_at(Ctx::InterL(b), ra, c, st);
        lift_at(Ctx::InterR(a), rb, c, st);
        if st.len() == 1 {
            let w = st[0].ch;
            if m0(l_inter(resid(ra, c), b), w) {
                let (u, v) = inter0_elim(resid(ra, c), b, w);
                sd_get(a, n, ra, c, u);
                shuf_cons(x, u, v, w);
                inter0_intro(a, b, cons(x, w), cons(x, u), v);
            }
            if m0(l_inter(a, resid(rb, c)), w) {
                let (u, v) = inter0_elim(a, resid(rb, c), w);
                sd_get(b, n, rb, c, v);
                shuf_cons(x, u, v, w);
                inter0_intro(a, b, cons(x, w), u, cons(x, v));
            }
            if m0(l_inter(a, b), cons(x, w)) {
                let (lf, u, v) = inter0_head(a, b, x, w);
                if lf { sd_get(a, n, ra, c, u); inter0_intro(resid(ra, c), b, w, u, v); }
                else { sd_get(b, n, rb, c, v); inter0_intro(a, resid(rb, c), w, u, v); }
            }
        }
    }
    reveal(sd_rel);
}
pub broadcast proof fn sd_plus(a: Lang, n: Name, ra: Lang)
    requires #[trigger] sd_rel(a, n, ra)
    ensures sd_rel(#[trigger] l_plus(a), n, l_lift(Ctx::CatL(l_star(a)), ra))
{
    let r = l_lift(Ctx::CatL(l_star(a)), ra);
    plus_flat(a);
    assert forall|c: Cont, st: Stack| flat0(st) implies ((#[trigger] r(seq![c] + st)) <==> l_plus(a)(push_ch(st, Sym::Child(n, c)))) by {
        let x = Sym::Child(n, c);
        push_ch_flat(st, x);
        lift_at(Ctx::CatL(l_star(a)), ra, c, st);
        if st.len() == 1 {
            let w = st[0].ch;
            if m0(l_cat(resid(ra, c), l_star(a)), w) {
                let (u, v) = cat0_elim(resid(ra, c), l_star(a), w);
                sd_get(a, n, ra, c, u);
                plus_cons(a, cons(x, u), v);
                assert(cons(x, u) + v =~= cons(x, w));
            }
            if m0(l_plus(a), cons(x, w)) {
                let (u, v) = plus_head(a, x, w);
                sd_get(a, n, ra, c, u);
                cat0_intro(resid(ra, c), l_star(a), u, v);
            }
        }
    }
    reveal(sd_rel);
}
pub broadcast proof fn sd_aft(a: Lang, b: Lang, n: Name, ra: Lang)
    requires #[trigger] sd_rel(a, n, ra)
    ensures sd_rel(#[trigger] l_aft(a, b), n, l_lift(Ctx::AftL(b), ra))
{
    let r = l_lift(Ctx::AftL(b), ra);
    reveal(sd_rel);
    assert forall|c: Cont, st: Stack| flat0(st) implies ((#[trigger] r(seq![c] + st)) <==> l_aft(a, b)(push_ch(st, Sym::Child(n, c)))) by {
        let x = Sym::Child(n, c);
        push_ch_flat(st, x);
        lift_at(Ctx::AftL(b), ra, c, st);
        assert(flat0(seq![st[0]]));
        assert(ra(seq![c] + seq![st[0]]) <==> a(push_ch(seq![st[0]], x)));
    }
}
