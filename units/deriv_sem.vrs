// ---------------------------------------------------------------- start tags
pub open spec fn len2(a: Lang) -> bool { forall|st: Stack| #[trigger] a(st) ==> st.len() == 2 }
// sd_rel for attribute-free single contents
pub proof fn sd_get(a: Lang, n: Name, r: Lang, c: Cont, w: Seq<Sym>)
    requires sd_rel(a, n, r)
    ensures r(seq![c] + one(seq![], w)) <==> m0(a, cons(Sym::Child(n, c), w))
{
    reveal(sd_rel);
    let st = one(seq![], w);
    push_one(w, Sym::Child(n, c));
    assert(flat0(st));
    assert(r(seq![c] + st) <==> a(push_ch(st, Sym::Child(n, c))));
}
pub proof fn push_ch_flat(st: Stack, x: Sym)
    requires flat0(st)
    ensures st.len() == 1 ==> st == one(seq![], st[0].ch) && push_ch(st, x) == one(seq![], cons(x, st[0].ch)),
        st.len() != 1 ==> push_ch(st, x).len() != 1,
        push_ch(st, x).len() == st.len(), push_ch(st, x)[0].ch == cons(x, st[0].ch), push_ch(st, x)[0].attrs == st[0].attrs,
        push_ch(st, x).drop_first() == st.drop_first(),
        seq![push_ch(st, x)[0]] == push_ch(seq![st[0]], x),
{
    if st.len() == 1 { flat_one(st); push_one(st[0].ch, x); }
    assert(push_ch(st, x).drop_first() =~= st.drop_first());
    assert(seq![push_ch(st, x)[0]] =~= push_ch(seq![st[0]], x));
}
pub broadcast proof fn sd_union(a: Lang, b: Lang, n: Name, ra: Lang, rb: Lang)
    requires #[trigger] sd_rel(a, n, ra), #[trigger] sd_rel(b, n, rb)
    ensures #[trigger] sd_rel(l_union(a, b), n, l_union(ra, rb))
{ reveal(sd_rel); }
// patterns no word of which starts with a child element
pub open spec fn no_child(a: Lang) -> bool { forall|st: Stack, n: Name, c: Cont| flat0(st) ==> !(#[trigger] a(push_ch(st, Sym::Child(n, c)))) }
pub proof fn sd_none(a: Lang, n: Name) requires no_child(a) ensures sd_rel(a, n, l_none())
{ reveal(sd_rel); }
pub proof fn lift_at(k: Ctx, r: Lang, c: Cont, st: Stack)
    requires st.len() >= 1
    ensures l_lift(k, r)(seq![c] + st) == plug(k, resid(r, c))(st)
{
    assert((seq![c] + st).drop_first() =~= st);
    assert((seq![c] + st)[0] == c);
}
pub proof fn lift_len2(k: Ctx, r: Lang)
    requires k is CatL || k is InterL || k is InterR || k is CatR
    ensures len2(l_lift(k, r))
{
    assert forall|st: Stack| #[trigger] l_lift(k, r)(st) implies st.len() == 2 by { assert(st.drop_first().len() == 1); }
}
pub open spec fn l_cat_sd(b: Lang, ra: Lang) -> Lang { l_lift(Ctx::CatL(b), ra) }

pub broadcast proof fn sd_cat(a: Lang, b: Lang, n: Name, ra: Lang)
    requires #[trigger] sd_rel(a, n, ra), !nullable(a)
    ensures sd_rel(#[trigger] l_cat(a, b), n, l_lift(Ctx::CatL(b), ra))
{
    sd_cat_aux(a, b, n, ra);
    reveal(sd_rel);
    assert forall|c: Cont, st: Stack| flat0(st) implies ((#[trigger] l_lift(Ctx::CatL(b), ra)(seq![c] + st)) <==> l_cat(a, b)(push_ch(st, Sym::Child(n, c)))) by {
        let x = Sym::Child(n, c);
        push_ch_flat(st, x);
        lift_at(Ctx::CatL(b), ra, c, st);
        if st.len() == 1 {
            sd_cat_at(a, b, n, ra, c, st[0].ch);
        }
    }
}
proof fn sd_cat_aux(a: Lang, b: Lang, n: Name, ra: Lang) ensures true {}
// concatenation, pointwise
proof fn sd_cat_at(a: Lang, b: Lang, n: Name, ra: Lang, c: Cont, w: Seq<Sym>)
    requires sd_rel(a, n, ra)
    ensures
        m0(l_cat(resid(ra, c), b), w) ==> m0(l_cat(a, b), cons(Sym::Child(n, c), w)),
        m0(l_cat(a, b), cons(Sym::Child(n, c), w)) ==> m0(l_cat(resid(ra, c), b), w) || (nullable(a) && m0(b, cons(Sym::Child(n, c), w)))
{
    let x = Sym::Child(n, c);
    if m0(l_cat(resid(ra, c), b), w) {
        let (u, v) = cat0_elim(resid(ra, c), b, w);
        sd_get(a, n, ra, c, u);
        cat0_intro(a, b, cons(x, u), v);
        assert(cons(x, u) + v =~= cons(x, w));
    }
    if m0(l_cat(a, b), cons(x, w)) {
        let (u, v) = cat0_head(a, b, x, w);
        if w == u + v && m0(a, cons(x, u)) && m0(b, v) {
            sd_get(a, n, ra, c, u);
            cat0_intro(resid(ra, c), b, u, v);
        }
    }
}
pub broadcast proof fn sd_cat_null(a: Lang, b: Lang, n: Name, ra: Lang, rb: Lang)
    requires #[trigger] sd_rel(a, n, ra), #[trigger] sd_rel(b, n, rb), nullable(a), len2(rb)
    ensures sd_rel(#[trigger] l_cat(a, b), n, l_union(l_lift(Ctx::CatL(b), ra), rb))
{
    let r = l_union(l_lift(Ctx::CatL(b), ra), rb);
    assert forall|c: Cont, st: Stack| flat0(st) implies ((#[trigger] r(seq![c] + st)) <==> l_cat(a, b)(push_ch(st, Sym::Child(n, c)))) by {
        let x = Sym::Child(n, c);
        push_ch_flat(st, x);
        lift_at(Ctx::CatL(b), ra, c, st);
        if st.len() == 1 {
            sd_cat_at(a, b, n, ra, c, st[0].ch);
            sd_get(b, n, rb, c, st[0].ch);
            if m0(b, cons(x, st[0].ch)) {
                cat0_intro(a, b, seq![], cons(x, st[0].ch));
                assert(seq![] + cons(x, st[0].ch) =~= cons(x, st[0].ch));
            }
        } else {
            assert((seq![c] + st).len() != 2);
        }
    }
    reveal(sd_rel);
}
pub broadcast proof fn sd_inter(a: Lang, b: Lang, n: Name, ra: Lang, rb: Lang)
    requires #[trigger] sd_rel(a, n, ra), #[trigger] sd_rel(b, n, rb)
    ensures sd_rel(#[trigger] l_inter(a, b), n, l_union(l_lift(Ctx::InterL(b), ra), l_lift(Ctx::InterR(a), rb)))
{
    let r = l_union(l_lift(Ctx::InterL(b), ra), l_lift(Ctx::InterR(a), rb));
    assert forall|c: Cont, st: Stack| flat0(st) implies ((#[trigger] r(seq![c] + st)) <==> l_inter(a, b)(push_ch(st, Sym::Child(n, c)))) by {
        let x = Sym::Child(n, c);
        push_ch_flat(st, x);
        lift_at(Ctx::InterL(b), ra, c, st);
        lift_at(Ctx::InterR(a), rb, c, st);
        if st.len() == 1 {
            let w = st[0].ch;
            if m0(l_inter(resid(ra, c), b), w) {
                let (u, v) = inter0_elim(resid(ra, c), b, w);
                sd_get(a, n, ra, c, u);
                shuf_cons(x, u, v, w);
                inter0_intro(a, b, cons(x, w), cons(x, u), v);
            }
            if m0(l_inter(a, resid(rb, c)), w) {
                let (u, v) = inter0_elim(a, resid(rb, c), w);
                sd_get(b, n, rb, c, v);
                shuf_cons(x, u, v, w);
                inter0_intro(a, b, cons(x, w), u, cons(x, v));
            }
            if m0(l_inter(a, b), cons(x, w)) {
                let (lf, u, v) = inter0_head(a, b, x, w);
                if lf { sd_get(a, n, ra, c, u); inter0_intro(resid(ra, c), b, w, u, v); }
                else { sd_get(b, n, rb, c, v); inter0_intro(a, resid(rb, c), w, u, v); }
            }
        }
    }
    reveal(sd_rel);
}
pub broadcast proof fn sd_plus(a: Lang, n: Name, ra: Lang)
    requires #[trigger] sd_rel(a, n, ra)
    ensures sd_rel(#[trigger] l_plus(a), n, l_lift(Ctx::CatL(l_star(a)), ra))
{
    let r = l_lift(Ctx::CatL(l_star(a)), ra);
    plus_flat(a);
    assert forall|c: Cont, st: Stack| flat0(st) implies ((#[trigger] r(seq![c] + st)) <==> l_plus(a)(push_ch(st, Sym::Child(n, c)))) by {
        let x = Sym::Child(n, c);
        push_ch_flat(st, x);
        lift_at(Ctx::CatL(l_star(a)), ra, c, st);
        if st.len() == 1 {
            let w = st[0].ch;
            if m0(l_cat(resid(ra, c), l_star(a)), w) {
                let (u, v) = cat0_elim(resid(ra, c), l_star(a), w);
                sd_get(a, n, ra, c, u);
                plus_cons(a, cons(x, u), v);
                assert(cons(x, u) + v =~= cons(x, w));
            }
            if m0(l_plus(a), cons(x, w)) {
                let (u, v) = plus_head(a, x, w);
                sd_get(a, n, ra, c, u);
                cat0_intro(resid(ra, c), l_star(a), u, v);
            }
        }
    }
    reveal(sd_rel);
}
pub broadcast proof fn sd_aft(a: Lang, b: Lang, n: Name, ra: Lang)
    requires #[trigger] sd_rel(a, n, ra)
    ensures sd_rel(#[trigger] l_aft(a, b), n, l_lift(Ctx::AftL(b), ra))
{
    let r = l_lift(Ctx::AftL(b), ra);
    reveal(sd_rel);
    assert forall|c: Cont, st: Stack| flat0(st) implies ((#[trigger] r(seq![c] + st)) <==> l_aft(a, b)(push_ch(st, Sym::Child(n, c)))) by {
        let x = Sym::Child(n, c);
        push_ch_flat(st, x);
        lift_at(Ctx::AftL(b), ra, c, st);
        assert(flat0(seq![st[0]]));
        assert(ra(seq![c] + seq![st[0]]) <==> a(push_ch(seq![st[0]], x)));
    }
}
// ---------------------------------------------------------------- text
pub open spec fn txt_sym(s: Seq<char>) -> Sym { Sym::Text(s) }
// td_rel for the attribute-free contents of one element
pub open spec fn td_at(a: Lang, s: Seq<char>, r: Lang, w: Seq<Sym>) -> bool {
    &&& (clean(w) && m0(a, cons(Sym::Text(s), w)) ==> m0(r, w))
    &&& (clean(w) && ws(s) && headok(w) && m0(a, w) ==> m0(r, w))
    &&& (m0(r, w) ==> m0(a, cons(Sym::Text(s), w)) || (ws(s) && m0(a, w)))
}
pub proof fn td_get(a: Lang, s: Seq<char>, r: Lang, w: Seq<Sym>) requires td_rel(a, s, r) ensures td_at(a, s, r, w) {
    reveal(td_rel);
    let st = one(seq![], w);
    push_one(w, Sym::Text(s));
    assert(flat0(st));
    assert(r(st) == m0(r, w));
    assert(push_ch(st, Sym::Text(s)) == one(seq![], cons(Sym::Text(s), w)));
}
pub proof fn td_intro(a: Lang, s: Seq<char>, r: Lang)
    requires flat(a), flat(r), forall|w: Seq<Sym>| td_at(a, s, r, w)
    ensures td_rel(a, s, r)
{
    reveal(td_rel);
    assert forall|st: Stack| #![trigger r(st)] #![trigger push_ch(st, Sym::Text(s))] flat0(st) implies {
        &&& (clean(st[0].ch) && a(push_ch(st, Sym::Text(s))) ==> r(st))
        &&& (clean(st[0].ch) && ws(s) && headok(st[0].ch) && a(st) ==> r(st))
        &&& (r(st) ==> a(push_ch(st, Sym::Text(s))) || (ws(s) && a(st)))
    } by {
        push_ch_flat(st, Sym::Text(s));
        if st.len() == 1 { flat_one(st); assert(td_at(a, s, r, st[0].ch)); }
    }
}
pub broadcast proof fn td_union(a: Lang, b: Lang, s: Seq<char>, ra: Lang, rb: Lang)
    requires #[trigger] td_rel(a, s, ra), #[trigger] td_rel(b, s, rb)
    ensures #[trigger] td_rel(l_union(a, b), s, l_union(ra, rb))
{
    reveal(td_rel);
    let r = l_union(ra, rb); let l = l_union(a, b);
    assert forall|st: Stack| #![trigger r(st)] #![trigger push_ch(st, Sym::Text(s))] flat0(st) implies {
        &&& (clean(st[0].ch) && l(push_ch(st, Sym::Text(s))) ==> r(st))
        &&& (clean(st[0].ch) && ws(s) && headok(st[0].ch) && l(st) ==> r(st))
        &&& (r(st) ==> l(push_ch(st, Sym::Text(s))) || (ws(s) && l(st)))
    } by { assert(ra(st) || !ra(st)); assert(rb(st) || !rb(st)); }
}
pub broadcast proof fn td_aft(a: Lang, b: Lang, s: Seq<char>, ra: Lang)
    requires #[trigger] td_rel(a, s, ra)
    ensures td_rel(#[trigger] l_aft(a, b), s, l_aft(ra, b))
{
    reveal(td_rel);
    let r = l_aft(ra, b); let l = l_aft(a, b);
    assert forall|st: Stack| #![trigger r(st)] #![trigger push_ch(st, Sym::Text(s))] flat0(st) implies {
        &&& (clean(st[0].ch) && l(push_ch(st, Sym::Text(s))) ==> r(st))
        &&& (clean(st[0].ch) && ws(s) && headok(st[0].ch) && l(st) ==> r(st))
        &&& (r(st) ==> l(push_ch(st, Sym::Text(s))) || (ws(s) && l(st)))
    } by {
        push_ch_flat(st, Sym::Text(s));
        let t = seq![st[0]];
        assert(flat0(t)); assert(t[0].ch == st[0].ch);
        assert(ra(t) || !ra(t));
    }
}
proof fn clean_cons(x: Sym, w: Seq<Sym>) requires clean(cons(x, w)) ensures clean(w) {
    assert forall|i: int| 0 <= i < w.len() implies ((#[trigger] w[i]) is Text ==> !ws(w[i]->Text_0)) by { assert(cons(x, w)[i + 1] == w[i]); }
}
proof fn clean_parts(u: Seq<Sym>, v: Seq<Sym>) requires clean(u + v) ensures clean(u), clean(v) {
    assert forall|i: int| 0 <= i < u.len() implies ((#[trigger] u[i]) is Text ==> !ws(u[i]->Text_0)) by { assert((u + v)[i] == u[i]); }
    assert forall|i: int| 0 <= i < v.len() implies ((#[trigger] v[i]) is Text ==> !ws(v[i]->Text_0)) by { assert((u + v)[u.len() + i] == v[i]); }
}
proof fn clean_shuf(u: Seq<Sym>, v: Seq<Sym>, w: Seq<Sym>) requires shuf(u, v, w), clean(w) ensures clean(u), clean(v) decreases w.len() {
    if w.len() > 0 {
        assert(w =~= cons(w[0], w.drop_first())); clean_cons(w[0], w.drop_first());
        if u.len() > 0 && u[0] == w[0] && shuf(u.drop_first(), v, w.drop_first()) { clean_shuf(u.drop_first(), v, w.drop_first()); clean_uncons(u); }
        else { clean_shuf(u, v.drop_first(), w.drop_first()); clean_uncons(v); }
    }
}
proof fn clean_uncons(u: Seq<Sym>) requires u.len() > 0, clean(u.drop_first()), u[0] is Text ==> !ws(u[0]->Text_0) ensures clean(u) {
    assert forall|i: int| 0 <= i < u.len() implies ((#[trigger] u[i]) is Text ==> !ws(u[i]->Text_0)) by { if i > 0 { assert(u.drop_first()[i - 1] == u[i]); } }
}
proof fn td_cat_at(a: Lang, b: Lang, s: Seq<char>, ra: Lang, w: Seq<Sym>)
    requires td_rel(a, s, ra)
    ensures
        m0(l_cat(ra, b), w) ==> m0(l_cat(a, b), cons(Sym::Text(s), w)) || (ws(s) && m0(l_cat(a, b), w)),
        clean(w) && m0(l_cat(a, b), cons(Sym::Text(s), w)) ==> m0(l_cat(ra, b), w) || (nullable(a) && m0(b, cons(Sym::Text(s), w))),
        clean(w) && ws(s) && headok(w) && m0(l_cat(a, b), w) ==> m0(l_cat(ra, b), w),
{
    let x = Sym::Text(s);
    if m0(l_cat(ra, b), w) {
        let (u, v) = cat0_elim(ra, b, w);
        td_get(a, s, ra, u);
        if m0(a, cons(x, u)) { cat0_intro(a, b, cons(x, u), v); assert(cons(x, u) + v =~= cons(x, w)); }
        else { cat0_intro(a, b, u, v); }
    }
    if clean(w) && m0(l_cat(a, b), cons(x, w)) {
        let (u, v) = cat0_head(a, b, x, w);
        if w == u + v && m0(a, cons(x, u)) && m0(b, v) {
            clean_parts(u, v);
            td_get(a, s, ra, u);
            cat0_intro(ra, b, u, v);
        }
    }
    if clean(w) && ws(s) && headok(w) && m0(l_cat(a, b), w) {
        let (u, v) = cat0_elim(a, b, w);
        clean_parts(u, v);
        assert(headok(u)) by { if u.len() > 0 { assert(u[0] == w[0]); } }
        td_get(a, s, ra, u);
        cat0_intro(ra, b, u, v);
    }
}
pub broadcast proof fn td_cat(a: Lang, b: Lang, s: Seq<char>, ra: Lang)
    requires #[trigger] td_rel(a, s, ra), !nullable(a)
    ensures td_rel(#[trigger] l_cat(a, b), s, l_cat(ra, b))
{
    assert forall|w: Seq<Sym>| td_at(l_cat(a, b), s, l_cat(ra, b), w) by { td_cat_at(a, b, s, ra, w); }
    td_intro(l_cat(a, b), s, l_cat(ra, b));
}
pub broadcast proof fn td_cat_null(a: Lang, b: Lang, s: Seq<char>, ra: Lang, rb: Lang)
    requires #[trigger] td_rel(a, s, ra), #[trigger] td_rel(b, s, rb), nullable(a), flat(rb)
    ensures td_rel(#[trigger] l_cat(a, b), s, l_union(l_cat(ra, b), rb))
{
    let r = l_union(l_cat(ra, b), rb); let l = l_cat(a, b);
    assert forall|w: Seq<Sym>| td_at(l, s, r, w) by {
        td_cat_at(a, b, s, ra, w); td_get(b, s, rb, w);
        let x = Sym::Text(s);
        if m0(b, cons(x, w)) { cat0_intro(a, b, seq![], cons(x, w)); assert(seq![] + cons(x, w) =~= cons(x, w)); }
        if m0(b, w) { cat0_intro(a, b, seq![], w); assert(seq![] + w =~= w); }
    }
    td_intro(l, s, r);
}
pub broadcast proof fn td_inter(a: Lang, b: Lang, s: Seq<char>, ra: Lang, rb: Lang)
    requires #[trigger] td_rel(a, s, ra), #[trigger] td_rel(b, s, rb)
    ensures td_rel(#[trigger] l_inter(a, b), s, l_union(l_inter(ra, b), l_inter(a, rb)))
{
    let r = l_union(l_inter(ra, b), l_inter(a, rb)); let l = l_inter(a, b);
    assert forall|w: Seq<Sym>| td_at(l, s, r, w) by {
        let x = Sym::Text(s);
        if m0(l_inter(ra, b), w) {
            let (u, v) = inter0_elim(ra, b, w);
            td_get(a, s, ra, u);
            if m0(a, cons(x, u)) { shuf_cons(x, u, v, w); inter0_intro(a, b, cons(x, w), cons(x, u), v); }
            else { inter0_intro(a, b, w, u, v); }
        }
        if m0(l_inter(a, rb), w) {
            let (u, v) = inter0_elim(a, rb, w);
            td_get(b, s, rb, v);
            if m0(b, cons(x, v)) { shuf_cons(x, u, v, w); inter0_intro(a, b, cons(x, w), u, cons(x, v)); }
            else { inter0_intro(a, b, w, u, v); }
        }
        if clean(w) && m0(l, cons(x, w)) {
            let (lf, u, v) = inter0_head(a, b, x, w);
            clean_shuf(u, v, w);
            if lf { td_get(a, s, ra, u); inter0_intro(ra, b, w, u, v); }
            else { td_get(b, s, rb, v); inter0_intro(a, rb, w, u, v); }
        }
        if clean(w) && ws(s) && headok(w) && m0(l, w) {
            let (u, v) = inter0_elim(a, b, w);
            clean_shuf(u, v, w);
            if headok(u) { td_get(a, s, ra, u); inter0_intro(ra, b, w, u, v); }
            else {
                assert(headok(v));
                td_get(b, s, rb, v); inter0_intro(a, rb, w, u, v);
            }
        }
    }
    td_intro(l, s, r);
}
proof fn plus_split(a: Lang, w: Seq<Sym>) -> (r: (Seq<Sym>, Seq<Sym>)) requires m0(l_plus(a), w)
    ensures w == r.0 + r.1, m0(a, r.0), m0(l_star(a), r.1), w.len() > 0 ==> r.0.len() > 0
{
    if w.len() > 0 {
        let x = w[0]; let t = w.drop_first();
        assert(w =~= cons(x, t));
        let (u, v) = plus_head(a, x, t);
        assert(cons(x, u) + v =~= w);
        (cons(x, u), v)
    } else {
        nul_plus(a); assert(w =~= seq![]);
        assert(w =~= w + w);
        assert(m0(l_star(a), w));
        (w, w)
    }
}
pub broadcast proof fn td_plus(a: Lang, s: Seq<char>, ra: Lang)
    requires #[trigger] td_rel(a, s, ra)
    ensures td_rel(#[trigger] l_plus(a), s, l_cat(ra, l_star(a)))
{
    let r = l_cat(ra, l_star(a)); let l = l_plus(a);
    plus_flat(a);
    assert forall|w: Seq<Sym>| td_at(l, s, r, w) by {
        let x = Sym::Text(s);
        if m0(r, w) {
            let (u, v) = cat0_elim(ra, l_star(a), w);
            td_get(a, s, ra, u);
            if m0(a, cons(x, u)) { plus_cons(a, cons(x, u), v); assert(cons(x, u) + v =~= cons(x, w)); }
            else { plus_cons(a, u, v); }
        }
        if clean(w) && m0(l, cons(x, w)) {
            let (u, v) = plus_head(a, x, w);
            clean_parts(u, v);
            td_get(a, s, ra, u);
            cat0_intro(ra, l_star(a), u, v);
        }
        if clean(w) && ws(s) && headok(w) && m0(l, w) {
            let (u, v) = plus_split(a, w);
            clean_parts(u, v);
            assert(headok(u)) by { if u.len() > 0 { assert(u[0] == w[0]); } }
            td_get(a, s, ra, u);
            cat0_intro(ra, l_star(a), u, v);
        }
    }
    td_intro(l, s, r);
}
// ---- leaves
proof fn cons_first(x: Sym, w: Seq<Sym>) ensures cons(x, w).len() == w.len() + 1, cons(x, w)[0] == x, cons(x, w).drop_first() == w { assert(cons(x, w).drop_first() =~= w); }
pub broadcast proof fn td_eps_ws(s: Seq<char>) requires ws(s) ensures #[trigger] td_rel(l_eps(), s, l_eps()) {
    assert forall|w: Seq<Sym>| td_at(l_eps(), s, l_eps(), w) by { cons_first(Sym::Text(s), w); }
    td_intro(l_eps(), s, l_eps());
}
pub broadcast proof fn td_eps(s: Seq<char>) requires !ws(s) ensures #[trigger] td_rel(l_eps(), s, l_none()) {
    assert forall|w: Seq<Sym>| td_at(l_eps(), s, l_none(), w) by { cons_first(Sym::Text(s), w); }
    td_intro(l_eps(), s, l_none());
}
pub broadcast proof fn td_none(s: Seq<char>) ensures #[trigger] td_rel(l_none(), s, l_none()) {
    assert forall|w: Seq<Sym>| td_at(l_none(), s, l_none(), w) by { }
    td_intro(l_none(), s, l_none());
}
pub broadcast proof fn td_text(s: Seq<char>) ensures #[trigger] td_rel(l_text(), s, l_text()) {
    assert forall|w: Seq<Sym>| td_at(l_text(), s, l_text(), w) by {
        let x = Sym::Text(s); cons_first(x, w);
        if texts(cons(x, w)) { assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]) is Text by { assert(cons(x, w)[i + 1] == w[i]); } }
        if texts(w) { assert forall|i: int| 0 <= i < cons(x, w).len() implies (#[trigger] cons(x, w)[i]) is Text by { if i > 0 { assert(cons(x, w)[i] == w[i - 1]); } } }
    }
    td_intro(l_text(), s, l_text());
}
pub broadcast proof fn td_elem_ws(nc: NamePred, a: Lang, s: Seq<char>) requires ws(s) ensures #[trigger] td_rel(l_elem(nc, a), s, l_elem(nc, a)) {
    let l = l_elem(nc, a);
    assert forall|w: Seq<Sym>| td_at(l, s, l, w) by { cons_first(Sym::Text(s), w); }
    td_intro(l, s, l);
}
pub broadcast proof fn td_elem(nc: NamePred, a: Lang, s: Seq<char>) requires !ws(s) ensures #[trigger] td_rel(l_elem(nc, a), s, l_none()) {
    let l = l_elem(nc, a);
    assert forall|w: Seq<Sym>| td_at(l, s, l_none(), w) by { cons_first(Sym::Text(s), w); }
    td_intro(l, s, l_none());
}
pub broadcast proof fn td_att(nc: NamePred, a: Lang, s: Seq<char>) ensures #[trigger] td_rel(l_att(nc, a), s, l_none()) {
    let l = l_att(nc, a);
    assert forall|w: Seq<Sym>| td_at(l, s, l_none(), w) by { }
    td_intro(l, s, l_none());
}
pub broadcast proof fn td_data_in(p: TextPred, s: Seq<char>) requires p(s) ensures #[trigger] td_rel(l_data(p), s, l_eps()) {
    let l = l_data(p);
    assert forall|w: Seq<Sym>| td_at(l, s, l_eps(), w) by { cons_first(Sym::Text(s), w); }
    td_intro(l, s, l_eps());
}
pub broadcast proof fn td_data_out(p: TextPred, s: Seq<char>) requires !p(s) ensures #[trigger] td_rel(l_data(p), s, l_none()) {
    let l = l_data(p);
    assert forall|w: Seq<Sym>| td_at(l, s, l_none(), w) by { cons_first(Sym::Text(s), w); }
    td_intro(l, s, l_none());
}
// what text_deriv() tells about the string itself
pub broadcast proof fn td_value(a: Lang, s: Seq<char>, r: Lang) requires #[trigger] td_rel(a, s, r) ensures nullable(r) == val_in(a, s) {
    td_get(a, s, r, seq![]);
    assert(cons(Sym::Text(s), seq![]) =~= seq![Sym::Text(s)]);
    assert(clean(Seq::<Sym>::empty()));
}
// ---- the words of a list, one after the other
#[verifier::opaque]
pub open spec fn wres(a: Lang, t: Seq<Sym>, r: Lang) -> bool { forall|w: Seq<Sym>| clean(w) ==> (#[trigger] m0(r, w) <==> m0(a, t + w)) }
pub proof fn wres_nil(a: Lang) ensures wres(a, seq![], a) {
    reveal(wres);
    assert forall|w: Seq<Sym>| clean(w) implies (#[trigger] m0(a, w) <==> m0(a, seq![] + w)) by { assert(seq![] + w =~= w); }
}
pub proof fn wres_step(a: Lang, t: Seq<Sym>, r: Lang, s: Seq<char>, r2: Lang)
    requires wres(a, t, r), td_rel(r, s, r2), !ws(s)
    ensures wres(a, t.push(Sym::Text(s)), r2)
{
    reveal(wres);
    assert forall|w: Seq<Sym>| clean(w) implies (#[trigger] m0(r2, w) <==> m0(a, t.push(Sym::Text(s)) + w)) by {
        let x = Sym::Text(s);
        td_get(r, s, r2, w);
        cons_first(x, w); clean_uncons(cons(x, w));
        assert(t.push(x) + w =~= t + cons(x, w));
        assert(m0(r, cons(x, w)) <==> m0(a, t + cons(x, w)));
    }
}
pub proof fn words_props(s: Seq<char>)
    ensures clean(words(s)), texts(words(s)), words(s).len() == 0 <==> ws(s)
    decreases s.len()
{
    if s.len() > 0 {
        if xml_ws(s[0]) {
            words_props(s.drop_first());
            if ws(s.drop_first()) { assert forall|i: int| 0 <= i < s.len() implies xml_ws(#[trigger] s[i]) by { if i > 0 { assert(s.drop_first()[i - 1] == s[i]); } } }
            if ws(s) { assert forall|i: int| 0 <= i < s.len() - 1 implies xml_ws(#[trigger] s.drop_first()[i]) by { assert(s[i + 1] == s.drop_first()[i]); } }
        } else {
            let k = word_end(s); word_end_le(s);
            words_props(s.skip(k as int));
            let h = s.take(k as int);
            assert(h[0] == s[0]); assert(!ws(h));
            let w = seq![Sym::Text(h)] + words(s.skip(k as int));
            assert(words(s) == w);
            assert(w.drop_first() =~= words(s.skip(k as int)));
            clean_uncons(w);
            assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]) is Text by { if i > 0 { assert(w[i] == words(s.skip(k as int))[i - 1]); } }
            assert(!ws(s)) by { assert(!xml_ws(s[0])); }
        }
    }
}
pub proof fn word_end_le(s: Seq<char>) ensures word_end(s) <= s.len(), s.len() > 0 && !xml_ws(s[0]) ==> word_end(s) > 0,
    forall|i: int| 0 <= i < word_end(s) ==> !xml_ws(#[trigger] s[i]), word_end(s) < s.len() ==> xml_ws(s[word_end(s) as int])
    decreases s.len()
{
    if s.len() > 0 && !xml_ws(s[0]) {
        let t = s.drop_first(); word_end_le(t);
        assert forall|i: int| 0 <= i < word_end(s) implies !xml_ws(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } }
        if word_end(s) < s.len() { assert(t[word_end(t) as int] == s[word_end(s) as int]); }
    }
}
proof fn words_of_clean(ch: Seq<Sym>)
    ensures clean(words_of(ch)), clean(ch) && texts(ch) && ch.len() > 0 ==> words_of(ch).len() > 0
    decreases ch.len()
{
    if ch.len() > 0 {
        words_of_clean(ch.drop_first());
        let h = match ch[0] { Sym::Text(s) => words(s), _ => seq![] };
        if ch[0] is Text { words_props(ch[0]->Text_0); }
        let t = words_of(ch.drop_first());
        assert forall|i: int| 0 <= i < (h + t).len() implies ((#[trigger] (h + t)[i]) is Text ==> !ws((h + t)[i]->Text_0)) by { if i < h.len() { assert((h + t)[i] == h[i]); } else { assert((h + t)[i] == t[i - h.len()]); } }
    }
}
proof fn words_of_cons(s: Seq<char>, w: Seq<Sym>) ensures words_of(cons(Sym::Text(s), w)) == words(s) + words_of(w) { cons_first(Sym::Text(s), w); }
proof fn list_at(a: Lang, w: Seq<Sym>) ensures m0(l_list(a), w) <==> w.len() > 0 && texts(w) && m0(a, words_of(w)) { }
proof fn texts_cons(s: Seq<char>, w: Seq<Sym>) ensures texts(cons(Sym::Text(s), w)) <==> texts(w) {
    let x = Sym::Text(s); cons_first(x, w);
    if texts(cons(x, w)) { assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]) is Text by { assert(cons(x, w)[i + 1] == w[i]); } }
    if texts(w) { assert forall|i: int| 0 <= i < cons(x, w).len() implies (#[trigger] cons(x, w)[i]) is Text by { if i > 0 { assert(cons(x, w)[i] == w[i - 1]); } } }
}
// r: what is left of the list's content after the words of s
pub proof fn td_list(a: Lang, s: Seq<char>, r: Lang) requires wres(a, words(s), r)
    ensures
        r == l_none() ==> td_rel(l_list(a), s, l_none()),
        r == l_eps() ==> td_rel(l_list(a), s, l_eps()),
        nullable(r) ==> td_rel(l_list(a), s, l_union(l_list(r), l_eps())),
        !nullable(r) ==> td_rel(l_list(a), s, l_list(r)),
{
    let l = l_list(a);
    let x = Sym::Text(s);
    reveal(wres);
    assert forall|w: Seq<Sym>| #![trigger td_at(l, s, l_none(), w)] #![trigger td_at(l, s, l_eps(), w)] #![trigger td_at(l, s, l_union(l_list(r), l_eps()), w)] #![trigger td_at(l, s, l_list(r), w)]
        (r == l_none() ==> td_at(l, s, l_none(), w)) && (r == l_eps() ==> td_at(l, s, l_eps(), w)) && (nullable(r) ==> td_at(l, s, l_union(l_list(r), l_eps()), w)) && (!nullable(r) ==> td_at(l, s, l_list(r), w)) by {
        cons_first(x, w); texts_cons(s, w); words_of_cons(s, w); words_of_clean(w);
        list_at(a, cons(x, w)); list_at(r, w); list_at(a, w);
        assert(m0(r, words_of(w)) <==> m0(a, words(s) + words_of(w)));
        if w.len() == 0 { assert(words_of(w) =~= seq![]); assert(w =~= seq![]); }
    }
    if r == l_none() { td_intro(l, s, l_none()); }
    if r == l_eps() { td_intro(l, s, l_eps()); }
    if nullable(r) { td_intro(l, s, l_union(l_list(r), l_eps())); } else { td_intro(l, s, l_list(r)); }
}
// ---------------------------------------------------------------- attributes
pub open spec fn m1(a: Lang, t: Seq<AttrV>, w: Seq<Sym>) -> bool { a(one(t, w)) }
pub open spec fn acons(x: AttrV, t: Seq<AttrV>) -> Seq<AttrV> { seq![x] + t }
proof fn acons_first(x: AttrV, t: Seq<AttrV>) ensures acons(x, t).len() == t.len() + 1, acons(x, t)[0] == x, acons(x, t).drop_first() == t { assert(acons(x, t).drop_first() =~= t); }
pub proof fn push_att_one(t: Seq<AttrV>, w: Seq<Sym>, x: AttrV) ensures push_att(one(t, w), x) == one(acons(x, t), w) { assert(push_att(one(t, w), x) =~= one(acons(x, t), w)); }
pub proof fn ad_get(a: Lang, x: AttrV, r: Lang, t: Seq<AttrV>, w: Seq<Sym>) requires ad_rel(a, x, r) ensures m1(r, t, w) <==> m1(a, acons(x, t), w) {
    reveal(ad_rel);
    push_att_one(t, w, x);
    let st = one(t, w);
    assert(r(st) <==> a(push_att(st, x)));
}
proof fn push_att_props(st: Stack, x: AttrV) requires st.len() >= 1
    ensures push_att(st, x).len() == st.len(), push_att(st, x).drop_first() == st.drop_first(), seq![push_att(st, x)[0]] == push_att(seq![st[0]], x),
        st.len() == 1 ==> st == one(st[0].attrs, st[0].ch) && push_att(st, x) == one(acons(x, st[0].attrs), st[0].ch),
{
    assert(push_att(st, x).drop_first() =~= st.drop_first());
    assert(seq![push_att(st, x)[0]] =~= push_att(seq![st[0]], x));
    if st.len() == 1 { one_eta(st); push_att_one(st[0].attrs, st[0].ch, x); }
}
pub proof fn ad_intro(a: Lang, x: AttrV, r: Lang)
    requires flat(a), flat(r), forall|t: Seq<AttrV>, w: Seq<Sym>| #[trigger] m1(r, t, w) <==> m1(a, acons(x, t), w)
    ensures ad_rel(a, x, r)
{
    reveal(ad_rel);
    assert forall|st: Stack| #![trigger r(st)] #![trigger push_att(st, x)] st.len() >= 1 implies (r(st) <==> a(push_att(st, x))) by {
        push_att_props(st, x);
        if st.len() == 1 { assert(m1(r, st[0].attrs, st[0].ch) <==> m1(a, acons(x, st[0].attrs), st[0].ch)); }
    }
}
pub broadcast proof fn ad_union(a: Lang, b: Lang, x: AttrV, ra: Lang, rb: Lang)
    requires #[trigger] ad_rel(a, x, ra), #[trigger] ad_rel(b, x, rb)
    ensures #[trigger] ad_rel(l_union(a, b), x, l_union(ra, rb))
{ reveal(ad_rel);
  let r = l_union(ra, rb); let l = l_union(a, b);
  assert forall|st: Stack| #![trigger r(st)] #![trigger push_att(st, x)] st.len() >= 1 implies (r(st) <==> l(push_att(st, x))) by { assert(ra(st) <==> a(push_att(st, x))); assert(rb(st) <==> b(push_att(st, x))); }
}
pub broadcast proof fn ad_aft(a: Lang, b: Lang, x: AttrV, ra: Lang)
    requires #[trigger] ad_rel(a, x, ra)
    ensures ad_rel(#[trigger] l_aft(a, b), x, l_aft(ra, b))
{
    reveal(ad_rel);
    let r = l_aft(ra, b); let l = l_aft(a, b);
    assert forall|st: Stack| #![trigger r(st)] #![trigger push_att(st, x)] st.len() >= 1 implies (r(st) <==> l(push_att(st, x))) by {
        push_att_props(st, x);
        let t = seq![st[0]];
        assert(ra(t) <==> a(push_att(t, x)));
    }
}
pub proof fn cat1_elim(a: Lang, b: Lang, t: Seq<AttrV>, w: Seq<Sym>) -> (r: (Seq<AttrV>, Seq<AttrV>, Seq<Sym>, Seq<Sym>))
    requires m1(l_cat(a, b), t, w)
    ensures shuf(r.0, r.1, t), w == r.2 + r.3, m1(a, r.0, r.2), m1(b, r.1, r.3)
{
    let st = one(t, w);
    let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(a, b, st, a1, a2, k);
    assert(w =~= w.take(k) + w.skip(k));
    (a1, a2, w.take(k), w.skip(k))
}
pub proof fn cat1_intro(a: Lang, b: Lang, t: Seq<AttrV>, t1: Seq<AttrV>, t2: Seq<AttrV>, u: Seq<Sym>, v: Seq<Sym>)
    requires shuf(t1, t2, t), m1(a, t1, u), m1(b, t2, v)
    ensures m1(l_cat(a, b), t, u + v)
{
    let w = u + v; let st = one(t, w);
    assert(w.take(u.len() as int) =~= u); assert(w.skip(u.len() as int) =~= v);
    assert(cat_w(a, b, st, t1, t2, u.len() as int));
}
pub proof fn inter1_elim(a: Lang, b: Lang, t: Seq<AttrV>, w: Seq<Sym>) -> (r: (Seq<AttrV>, Seq<AttrV>, Seq<Sym>, Seq<Sym>))
    requires m1(l_inter(a, b), t, w)
    ensures shuf(r.0, r.1, t), shuf(r.2, r.3, w), m1(a, r.0, r.2), m1(b, r.1, r.3)
{
    let st = one(t, w);
    let (a1, a2, u, v) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, u: Seq<Sym>, v: Seq<Sym>| inter_w(a, b, st, a1, a2, u, v);
    (a1, a2, u, v)
}
pub proof fn inter1_intro(a: Lang, b: Lang, t: Seq<AttrV>, t1: Seq<AttrV>, t2: Seq<AttrV>, w: Seq<Sym>, u: Seq<Sym>, v: Seq<Sym>)
    requires shuf(t1, t2, t), shuf(u, v, w), m1(a, t1, u), m1(b, t2, v)
    ensures m1(l_inter(a, b), t, w)
{ assert(inter_w(a, b, one(t, w), t1, t2, u, v)); }
proof fn shuf_head<T>(a: Seq<T>, b: Seq<T>, x: T, w: Seq<T>) -> (lf: bool)
    requires shuf(a, b, seq![x] + w)
    ensures lf ==> a.len() > 0 && a =~= seq![x] + a.drop_first() && shuf(a.drop_first(), b, w), !lf ==> b.len() > 0 && b =~= seq![x] + b.drop_first() && shuf(a, b.drop_first(), w)
{
    let z = seq![x] + w;
    assert(z.drop_first() =~= w); assert(z[0] == x);
    if a.len() > 0 && a[0] == z[0] && shuf(a.drop_first(), b, z.drop_first()) { assert(a =~= seq![x] + a.drop_first()); true } else { assert(b =~= seq![x] + b.drop_first()); false }
}
pub broadcast proof fn ad_cat(a: Lang, b: Lang, x: AttrV, ra: Lang, rb: Lang)
    requires #[trigger] ad_rel(a, x, ra), #[trigger] ad_rel(b, x, rb)
    ensures ad_rel(#[trigger] l_cat(a, b), x, l_union(l_cat(ra, b), l_cat(a, rb)))
{
    let r = l_union(l_cat(ra, b), l_cat(a, rb)); let l = l_cat(a, b);
    assert forall|t: Seq<AttrV>, w: Seq<Sym>| #[trigger] m1(r, t, w) <==> m1(l, acons(x, t), w) by {
        if m1(l_cat(ra, b), t, w) {
            let (t1, t2, u, v) = cat1_elim(ra, b, t, w);
            ad_get(a, x, ra, t1, u); shuf_cons(x, t1, t2, t);
            cat1_intro(a, b, acons(x, t), acons(x, t1), t2, u, v);
        }
        if m1(l_cat(a, rb), t, w) {
            let (t1, t2, u, v) = cat1_elim(a, rb, t, w);
            ad_get(b, x, rb, t2, v); shuf_cons(x, t1, t2, t);
            cat1_intro(a, b, acons(x, t), t1, acons(x, t2), u, v);
        }
        if m1(l, acons(x, t), w) {
            let (t1, t2, u, v) = cat1_elim(a, b, acons(x, t), w);
            if shuf_head(t1, t2, x, t) { ad_get(a, x, ra, t1.drop_first(), u); assert(t1 =~= acons(x, t1.drop_first())); cat1_intro(ra, b, t, t1.drop_first(), t2, u, v); }
            else { ad_get(b, x, rb, t2.drop_first(), v); assert(t2 =~= acons(x, t2.drop_first())); cat1_intro(a, rb, t, t1, t2.drop_first(), u, v); }
        }
    }
    ad_intro(l, x, r);
}
pub broadcast proof fn ad_inter(a: Lang, b: Lang, x: AttrV, ra: Lang, rb: Lang)
    requires #[trigger] ad_rel(a, x, ra), #[trigger] ad_rel(b, x, rb)
    ensures ad_rel(#[trigger] l_inter(a, b), x, l_union(l_inter(ra, b), l_inter(a, rb)))
{
    let r = l_union(l_inter(ra, b), l_inter(a, rb)); let l = l_inter(a, b);
    assert forall|t: Seq<AttrV>, w: Seq<Sym>| #[trigger] m1(r, t, w) <==> m1(l, acons(x, t), w) by {
        if m1(l_inter(ra, b), t, w) {
            let (t1, t2, u, v) = inter1_elim(ra, b, t, w);
            ad_get(a, x, ra, t1, u); shuf_cons(x, t1, t2, t);
            inter1_intro(a, b, acons(x, t), acons(x, t1), t2, w, u, v);
        }
        if m1(l_inter(a, rb), t, w) {
            let (t1, t2, u, v) = inter1_elim(a, rb, t, w);
            ad_get(b, x, rb, t2, v); shuf_cons(x, t1, t2, t);
            inter1_intro(a, b, acons(x, t), t1, acons(x, t2), w, u, v);
        }
        if m1(l, acons(x, t), w) {
            let (t1, t2, u, v) = inter1_elim(a, b, acons(x, t), w);
            if shuf_head(t1, t2, x, t) { ad_get(a, x, ra, t1.drop_first(), u); assert(t1 =~= acons(x, t1.drop_first())); inter1_intro(ra, b, t, t1.drop_first(), t2, w, u, v); }
            else { ad_get(b, x, rb, t2.drop_first(), v); assert(t2 =~= acons(x, t2.drop_first())); inter1_intro(a, rb, t, t1, t2.drop_first(), w, u, v); }
        }
    }
    ad_intro(l, x, r);
}
// one-or-more of patterns in which an attribute stands alone (RELAX NG 7.1.2: no group or interleave of an attribute under oneOrMore)
proof fn rep_ad(a: Lang, n: nat, x: AttrV, ra: Lang, t: Seq<AttrV>, w: Seq<Sym>)
    requires ad_rel(a, x, ra), att_alone(a), m1(l_rep(a, n), acons(x, t), w)
    ensures m1(l_cat(ra, l_star(a)), t, w)
    decreases n
{
    acons_first(x, t);
    if n == 1 {
        ad_get(a, x, ra, t, w);
        shuf_id(t);
        cat1_intro(ra, l_star(a), t, t, seq![], w, seq![]);
        assert(w + seq![] =~= w);
    } else {
        let b = l_rep(a, (n - 1) as nat);
        let (t1, t2, u, v) = cat1_elim(a, b, acons(x, t), w);
        if shuf_head(t1, t2, x, t) {
            let t1r = t1.drop_first();
            assert(t1 =~= acons(x, t1r));
            ad_get(a, x, ra, t1r, u);
            assert(l_plus(a)(one(t2, v)));
            cat1_intro(ra, l_star(a), t, t1r, t2, u, v);
        } else {
            let t2r = t2.drop_first();
            assert(t2 =~= acons(x, t2r));
            rep_ad(a, (n - 1) as nat, x, ra, t2r, v);
            let (s1, s2, u2, v2) = cat1_elim(ra, l_star(a), t2r, v);
            // the part without x comes before; it holds nothing but attributes
            ad_get(a, x, ra, s1, u2);
            acons_first(x, s1);
            assert(one(acons(x, s1), u2)[0].attrs.len() > 0);
            assert(u2 =~= seq![]);
            assert(v =~= v2);
            shuf_sym(t1, t2r, t);
            let q = shuf_assoc(s1, s2, t1, t2r, t);
            shuf_sym(s2, t1, q);
            plus_cons1(a, q, t1, s2, u, v);
            cat1_intro(ra, l_star(a), t, s1, q, seq![], w);
            assert(seq![] + w =~= w);
        }
    }
}
proof fn shuf_nil_l<T>(w: Seq<T>) ensures shuf(seq![], w, w) { shuf_id(w); shuf_sym(w, seq![], w); }
proof fn plus_cons1(a: Lang, t: Seq<AttrV>, t1: Seq<AttrV>, t2: Seq<AttrV>, u: Seq<Sym>, v: Seq<Sym>)
    requires shuf(t1, t2, t), m1(a, t1, u), m1(l_star(a), t2, v)
    ensures m1(l_plus(a), t, u + v)
{
    if m1(l_plus(a), t2, v) {
        let n = choose|n: nat| #[trigger] l_rep(a, n)(one(t2, v));
        rep_flat(a, n, one(t2, v));
        cat1_intro(a, l_rep(a, n), t, t1, t2, u, v);
        assert(l_rep(a, (n + 1) as nat)(one(t, u + v)));
    } else {
        assert(v =~= seq![]); assert(t2 =~= seq![]); assert(u + v =~= u);
        shuf_sym(t1, t2, t); shuf_left_nil(t2, t1, t);
        assert(t == t1);
        assert(l_rep(a, 1)(one(t, u)));
    }
}
pub broadcast proof fn ad_plus(a: Lang, x: AttrV, ra: Lang)
    requires #[trigger] ad_rel(a, x, ra), att_alone(a)
    ensures ad_rel(#[trigger] l_plus(a), x, l_cat(ra, l_star(a)))
{
    let l = l_plus(a); let r = l_cat(ra, l_star(a));
    plus_flat(a);
    assert forall|t: Seq<AttrV>, w: Seq<Sym>| #[trigger] m1(r, t, w) <==> m1(l, acons(x, t), w) by {
        if m1(l, acons(x, t), w) {
            let n = choose|n: nat| #[trigger] l_rep(a, n)(one(acons(x, t), w));
            rep_flat(a, n, one(acons(x, t), w));
            rep_ad(a, n, x, ra, t, w);
        }
        if m1(r, t, w) {
            let (t1, t2, u, v) = cat1_elim(ra, l_star(a), t, w);
            ad_get(a, x, ra, t1, u);
            shuf_cons(x, t1, t2, t);
            plus_cons1(a, acons(x, t), acons(x, t1), t2, u, v);
        }
    }
    ad_intro(l, x, r);
}
// patterns that do not have attributes
pub open spec fn no_att(a: Lang) -> bool { forall|st: Stack| st.len() >= 1 && st[0].attrs.len() > 0 ==> !#[trigger] a(st) }
pub broadcast proof fn ad_none(a: Lang, x: AttrV) requires no_att(a) ensures #[trigger] ad_rel(a, x, l_none()) {
    reveal(ad_rel);
    assert forall|st: Stack| st.len() >= 1 implies !a(#[trigger] push_att(st, x)) by { acons_first(x, st[0].attrs); assert(push_att(st, x)[0].attrs.len() > 0); }
}
pub broadcast proof fn ad_att_in(nc: NamePred, a: Lang, x: AttrV) requires nc(x.name), val_in(a, x.value) ensures #[trigger] ad_rel(l_att(nc, a), x, l_eps()) {
    assert forall|t: Seq<AttrV>, w: Seq<Sym>| #[trigger] m1(l_eps(), t, w) <==> m1(l_att(nc, a), acons(x, t), w) by { acons_first(x, t); }
    ad_intro(l_att(nc, a), x, l_eps());
}
pub broadcast proof fn ad_att_out(nc: NamePred, a: Lang, x: AttrV) requires !(nc(x.name) && val_in(a, x.value)) ensures #[trigger] ad_rel(l_att(nc, a), x, l_none()) {
    assert forall|t: Seq<AttrV>, w: Seq<Sym>| #[trigger] m1(l_none(), t, w) <==> m1(l_att(nc, a), acons(x, t), w) by { acons_first(x, t); }
    ad_intro(l_att(nc, a), x, l_none());
}
// ---------------------------------------------------------------- the end of the attributes
pub broadcast proof fn cl_union(a: Lang, b: Lang, ra: Lang, rb: Lang) requires #[trigger] cl_rel(a, ra), #[trigger] cl_rel(b, rb) ensures #[trigger] cl_rel(l_union(a, b), l_union(ra, rb)) { reveal(cl_rel); }
pub broadcast proof fn cl_same(a: Lang) ensures #[trigger] cl_rel(a, a) { reveal(cl_rel); }
pub broadcast proof fn cl_att(nc: NamePred, a: Lang) ensures #[trigger] cl_rel(l_att(nc, a), l_none()) { reveal(cl_rel); }
pub broadcast proof fn cl_aft(a: Lang, b: Lang, ra: Lang) requires #[trigger] cl_rel(a, ra) ensures cl_rel(#[trigger] l_aft(a, b), l_aft(ra, b)) {
    reveal(cl_rel);
    assert forall|st: Stack| flat0(st) implies (#[trigger] l_aft(ra, b)(st) <==> l_aft(a, b)(st)) by { let t = seq![st[0]]; assert(flat0(t)); assert(ra(t) <==> a(t)); }
}
pub proof fn cl_get(a: Lang, r: Lang, w: Seq<Sym>) requires cl_rel(a, r) ensures m0(r, w) <==> m0(a, w) { reveal(cl_rel); assert(flat0(one(seq![], w))); }
pub broadcast proof fn cl_cat(a: Lang, b: Lang, ra: Lang, rb: Lang) requires #[trigger] cl_rel(a, ra), #[trigger] cl_rel(b, rb) ensures #[trigger] cl_rel(l_cat(a, b), l_cat(ra, rb)) {
    assert forall|st: Stack| flat0(st) implies (#[trigger] l_cat(ra, rb)(st) <==> l_cat(a, b)(st)) by {
        if st.len() == 1 {
            flat_one(st); let w = st[0].ch;
            if m0(l_cat(a, b), w) { let (u, v) = cat0_elim(a, b, w); cl_get(a, ra, u); cl_get(b, rb, v); cat0_intro(ra, rb, u, v); }
            if m0(l_cat(ra, rb), w) { let (u, v) = cat0_elim(ra, rb, w); cl_get(a, ra, u); cl_get(b, rb, v); cat0_intro(a, b, u, v); }
        }
    }
    reveal(cl_rel);
}
pub broadcast proof fn cl_inter(a: Lang, b: Lang, ra: Lang, rb: Lang) requires #[trigger] cl_rel(a, ra), #[trigger] cl_rel(b, rb) ensures #[trigger] cl_rel(l_inter(a, b), l_inter(ra, rb)) {
    assert forall|st: Stack| flat0(st) implies (#[trigger] l_inter(ra, rb)(st) <==> l_inter(a, b)(st)) by {
        if st.len() == 1 {
            flat_one(st); let w = st[0].ch;
            if m0(l_inter(a, b), w) { let (u, v) = inter0_elim(a, b, w); cl_get(a, ra, u); cl_get(b, rb, v); inter0_intro(ra, rb, w, u, v); }
            if m0(l_inter(ra, rb), w) { let (u, v) = inter0_elim(ra, rb, w); cl_get(a, ra, u); cl_get(b, rb, v); inter0_intro(a, b, w, u, v); }
        }
    }
    reveal(cl_rel);
}
// ---------------------------------------------------------------- end tags
pub broadcast proof fn ed_union(a: Lang, b: Lang, ra: Lang, rb: Lang) requires #[trigger] ed_rel(a, ra), #[trigger] ed_rel(b, rb) ensures #[trigger] ed_rel(l_union(a, b), l_union(ra, rb)) { reveal(ed_rel); }
pub broadcast proof fn ed_flat(a: Lang) requires flat(a) ensures #[trigger] ed_rel(a, l_none()) { reveal(ed_rel); assert forall|st: Stack| st.len() >= 1 implies !a(#[trigger] (nothing() + st)) by { assert((nothing() + st).len() > 1); } }
pub broadcast proof fn ed_aft_null(a: Lang, b: Lang) requires nullable(a) ensures #[trigger] ed_rel(l_aft(a, b), b) {
    reveal(ed_rel);
    assert forall|st: Stack| st.len() >= 1 implies (#[trigger] b(st) <==> l_aft(a, b)(nothing() + st)) by { assert((nothing() + st).drop_first() =~= st); assert(seq![(nothing() + st)[0]] =~= nothing()); }
}
pub broadcast proof fn ed_aft(a: Lang, b: Lang) requires !nullable(a) ensures #[trigger] ed_rel(l_aft(a, b), l_none()) {
    reveal(ed_rel);
    assert forall|st: Stack| st.len() >= 1 implies !l_aft(a, b)(#[trigger] (nothing() + st)) by { assert(seq![(nothing() + st)[0]] =~= nothing()); }
}
// ---------------------------------------------------------------- what apply_after() does, pattern by pattern
pub proof fn resid_union(a: Lang, b: Lang, c: Cont) ensures resid(l_union(a, b), c) == l_union(resid(a, c), resid(b, c)) { assert(resid(l_union(a, b), c) =~= l_union(resid(a, c), resid(b, c))); }
pub broadcast proof fn dist_cat_l(a: Lang, b: Lang, c: Lang) ensures #[trigger] l_cat(l_union(a, b), c) == l_union(l_cat(a, c), l_cat(b, c)) {
    assert forall|st: Stack| #[trigger] l_cat(l_union(a, b), c)(st) == l_union(l_cat(a, c), l_cat(b, c))(st) by {
        if cat_m(l_union(a, b), c, st) { let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(l_union(a, b), c, st, a1, a2, k); assert(cat_w(a, c, st, a1, a2, k) || cat_w(b, c, st, a1, a2, k)); }
        if cat_m(a, c, st) { let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(a, c, st, a1, a2, k); assert(cat_w(l_union(a, b), c, st, a1, a2, k)); }
        if cat_m(b, c, st) { let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(b, c, st, a1, a2, k); assert(cat_w(l_union(a, b), c, st, a1, a2, k)); }
    }
    lang_ext(l_cat(l_union(a, b), c), l_union(l_cat(a, c), l_cat(b, c)));
}
pub proof fn dist_cat_r(a: Lang, b: Lang, c: Lang) ensures l_cat(c, l_union(a, b)) == l_union(l_cat(c, a), l_cat(c, b)) {
    assert forall|st: Stack| #[trigger] l_cat(c, l_union(a, b))(st) == l_union(l_cat(c, a), l_cat(c, b))(st) by {
        if cat_m(c, l_union(a, b), st) { let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(c, l_union(a, b), st, a1, a2, k); assert(cat_w(c, a, st, a1, a2, k) || cat_w(c, b, st, a1, a2, k)); }
        if cat_m(c, a, st) { let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(c, a, st, a1, a2, k); assert(cat_w(c, l_union(a, b), st, a1, a2, k)); }
        if cat_m(c, b, st) { let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(c, b, st, a1, a2, k); assert(cat_w(c, l_union(a, b), st, a1, a2, k)); }
    }
    lang_ext(l_cat(c, l_union(a, b)), l_union(l_cat(c, a), l_cat(c, b)));
}
pub proof fn dist_inter(a: Lang, b: Lang, c: Lang) ensures l_inter(l_union(a, b), c) == l_union(l_inter(a, c), l_inter(b, c)), l_inter(c, l_union(a, b)) == l_union(l_inter(c, a), l_inter(c, b)) {
    assert forall|st: Stack| #[trigger] l_inter(l_union(a, b), c)(st) == l_union(l_inter(a, c), l_inter(b, c))(st) by {
        if inter_m(l_union(a, b), c, st) { let (a1, a2, u, v) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, u: Seq<Sym>, v: Seq<Sym>| inter_w(l_union(a, b), c, st, a1, a2, u, v); assert(inter_w(a, c, st, a1, a2, u, v) || inter_w(b, c, st, a1, a2, u, v)); }
        if inter_m(a, c, st) { let (a1, a2, u, v) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, u: Seq<Sym>, v: Seq<Sym>| inter_w(a, c, st, a1, a2, u, v); assert(inter_w(l_union(a, b), c, st, a1, a2, u, v)); }
        if inter_m(b, c, st) { let (a1, a2, u, v) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, u: Seq<Sym>, v: Seq<Sym>| inter_w(b, c, st, a1, a2, u, v); assert(inter_w(l_union(a, b), c, st, a1, a2, u, v)); }
    }
    lang_ext(l_inter(l_union(a, b), c), l_union(l_inter(a, c), l_inter(b, c)));
    ax_inter_comm(c, l_union(a, b)); ax_inter_comm(c, a); ax_inter_comm(c, b);
}
pub proof fn dist_aft(a: Lang, b: Lang, c: Lang) ensures l_aft(l_union(a, b), c) == l_union(l_aft(a, c), l_aft(b, c)), l_aft(c, l_union(a, b)) == l_union(l_aft(c, a), l_aft(c, b)) {
    assert(l_aft(l_union(a, b), c) =~= l_union(l_aft(a, c), l_aft(b, c)));
    assert(l_aft(c, l_union(a, b)) =~= l_union(l_aft(c, a), l_aft(c, b)));
}
pub proof fn plug_union(k: Ctx, a: Lang, b: Lang) ensures plug(k, l_union(a, b)) == l_union(plug(k, a), plug(k, b)) {
    match k {
        Ctx::CatL(c) => { dist_cat_l(a, b, c); }
        Ctx::CatR(c) => { dist_cat_r(a, b, c); }
        Ctx::InterL(c) | Ctx::InterR(c) => { dist_inter(a, b, c); }
        Ctx::AftL(c) | Ctx::AftR(c) => { dist_aft(a, b, c); }
        Ctx::Id => {}
    }
}
pub proof fn lift_union(k: Ctx, a: Lang, b: Lang) ensures l_lift(k, l_union(a, b)) == l_union(l_lift(k, a), l_lift(k, b)) {
    assert forall|st: Stack| #[trigger] l_lift(k, l_union(a, b))(st) == l_union(l_lift(k, a), l_lift(k, b))(st) by {
        if st.len() >= 2 { resid_union(a, b, st[0]); plug_union(k, resid(a, st[0]), resid(b, st[0])); }
    }
    lang_ext(l_lift(k, l_union(a, b)), l_union(l_lift(k, a), l_lift(k, b)));
}
pub proof fn plug_none(k: Ctx) ensures plug(k, l_none()) == l_none() {
    match k {
        Ctx::CatL(c) => { ax_cat_none_l(c); } Ctx::CatR(c) => { ax_cat_none_r(c); }
        Ctx::InterL(c) => { ax_inter_none_l(c); } Ctx::InterR(c) => { ax_inter_none_r(c); }
        Ctx::AftL(c) => { ax_aft_none_l(c); } Ctx::AftR(c) => { ax_aft_none_r(c); }
        Ctx::Id => {}
    }
}
pub proof fn lift_none(k: Ctx) ensures l_lift(k, l_none()) == l_none() {
    assert forall|st: Stack| #[trigger] l_lift(k, l_none())(st) == l_none()(st) by {
        if st.len() >= 2 { assert(resid(l_none(), st[0]) =~= l_none()); plug_none(k); }
    }
    lang_ext(l_lift(k, l_none()), l_none());
}
// what is left after a start tag: always at least one element to go
pub open spec fn ne(a: Lang) -> bool { forall|st: Stack| #[trigger] a(st) ==> st.len() >= 1 }
pub proof fn lift_aft(k: Ctx, a: Lang, b: Lang) requires ne(b) ensures l_lift(k, l_aft(a, b)) == l_aft(a, plug(k, b)) {
    let l = l_lift(k, l_aft(a, b)); let r = l_aft(a, plug(k, b));
    assert forall|st: Stack| #[trigger] l(st) == r(st) by {
        if st.len() >= 2 {
            let x = resid(l_aft(a, b), st[0]);
            assert forall|s: Stack| #[trigger] x(s) == (a(seq![st[0]]) && b(s)) by {
                if s.len() >= 1 {
                    let t = seq![st[0]] + s;
                    assert(t.drop_first() =~= s); assert(t[0] == st[0]); assert(t.len() >= 2);
                }
            }
            if a(seq![st[0]]) { assert(x =~= b); } else { assert(x =~= l_none()); plug_none(k); }
        }
    }
    lang_ext(l, r);
}
// ---------------------------------------------------------------- start tags: the leaves
pub broadcast proof fn sd_elem_in(nc: NamePred, a: Lang, n: Name) requires nc(n) ensures #[trigger] sd_rel(l_elem(nc, a), n, l_aft(a, l_eps())) {
    reveal(sd_rel);
    let l = l_elem(nc, a); let r = l_aft(a, l_eps());
    assert forall|c: Cont, st: Stack| flat0(st) implies ((#[trigger] r(seq![c] + st)) <==> l(push_ch(st, Sym::Child(n, c)))) by {
        let t = seq![c] + st; let x = Sym::Child(n, c);
        assert(t.drop_first() =~= st); assert(seq![t[0]] =~= seq![c]);
        push_ch_flat(st, x);
        cons_first(x, st[0].ch);
    }
}
pub broadcast proof fn sd_elem_out(nc: NamePred, a: Lang, n: Name) requires !nc(n) ensures #[trigger] sd_rel(l_elem(nc, a), n, l_none()) {
    reveal(sd_rel);
    let l = l_elem(nc, a);
    assert forall|c: Cont, st: Stack| flat0(st) implies !(#[trigger] l(push_ch(st, Sym::Child(n, c)))) by { let x = Sym::Child(n, c); push_ch_flat(st, x); cons_first(x, st[0].ch); }
}
pub broadcast proof fn nc_eps() ensures #[trigger] no_child(l_eps()) { assert forall|st: Stack, n: Name, c: Cont| flat0(st) implies !(#[trigger] l_eps()(push_ch(st, Sym::Child(n, c)))) by { let x = Sym::Child(n, c); push_ch_flat(st, x); cons_first(x, st[0].ch); } }
pub broadcast proof fn nc_text() ensures #[trigger] no_child(l_text()) { assert forall|st: Stack, n: Name, c: Cont| flat0(st) implies !(#[trigger] l_text()(push_ch(st, Sym::Child(n, c)))) by { let x = Sym::Child(n, c); push_ch_flat(st, x); cons_first(x, st[0].ch); assert(push_ch(st, x)[0].ch[0] is Child); } }
pub broadcast proof fn nc_none() ensures #[trigger] no_child(l_none()) { }
pub broadcast proof fn nc_att(nc: NamePred, a: Lang) ensures #[trigger] no_child(l_att(nc, a)) { }
pub broadcast proof fn nc_data(p: TextPred) ensures #[trigger] no_child(l_data(p)) { assert forall|st: Stack, n: Name, c: Cont| flat0(st) implies !(#[trigger] l_data(p)(push_ch(st, Sym::Child(n, c)))) by { let x = Sym::Child(n, c); push_ch_flat(st, x); cons_first(x, st[0].ch); } }
pub broadcast proof fn nc_list(a: Lang) ensures #[trigger] no_child(l_list(a)) { assert forall|st: Stack, n: Name, c: Cont| flat0(st) implies !(#[trigger] l_list(a)(push_ch(st, Sym::Child(n, c)))) by { let x = Sym::Child(n, c); push_ch_flat(st, x); cons_first(x, st[0].ch); assert(push_ch(st, x)[0].ch[0] is Child); } }
pub broadcast proof fn na_eps() ensures #[trigger] no_att(l_eps()) {}
pub broadcast proof fn na_text() ensures #[trigger] no_att(l_text()) {}
pub broadcast proof fn na_none() ensures #[trigger] no_att(l_none()) {}
pub broadcast proof fn na_elem(nc: NamePred, a: Lang) ensures #[trigger] no_att(l_elem(nc, a)) {}
pub broadcast proof fn na_data(p: TextPred) ensures #[trigger] no_att(l_data(p)) {}
pub broadcast proof fn na_list(a: Lang) ensures #[trigger] no_att(l_list(a)) {}
pub broadcast proof fn nul_att(nc: NamePred, a: Lang) ensures !#[trigger] nullable(l_att(nc, a)) {}
pub broadcast proof fn nul_elem(nc: NamePred, a: Lang) ensures !#[trigger] nullable(l_elem(nc, a)) {}
pub broadcast proof fn nul_data(p: TextPred) ensures !#[trigger] nullable(l_data(p)) {}
pub broadcast proof fn nul_list(a: Lang) ensures !#[trigger] nullable(l_list(a)) {}
