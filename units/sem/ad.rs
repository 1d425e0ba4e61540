// ---------------------------------------------------------------- attributes
pub open spec fn m1(a: Lang, t: Seq<AttrV>, w: Seq<Sym>) -> bool { a(one(t, w)) }
pub open spec fn acons(x: AttrV, t: Seq<AttrV>) -> Seq<AttrV> { seq![x] + t }
proof fn acons_first(x: AttrV, t: Seq<AttrV>) ensures acons(x, t).len() == t.len() + 1, acons(x, t)[0] == x, acons(x, t).drop_first() == t { assert(acons(x, t).drop_first() =~= t); }
pub proof fn push_att_one(t: Seq<AttrV>, w: Seq<Sym>, x: AttrV) ensures push_att(one(t, w), x) == one(acons(x, t), w) { assert(push_att(one(t, w), x) =~= one(acons(x, t), w)); }
pub proof fn ad_get(a: Lang, x: AttrV, r: Lang, t: Seq<AttrV>, w: Seq<Sym>) requires ad_rel(a, x, r) ensures m1(r, t, w) <==> m1(a, acons(x, t), w) {
    reveal(ad_rel);
    push_att_one(t, w, x);
    let st = one(t, w);
    assert(r(st) <==> a(push_att(st, x)));
}
proof fn push_att_props(st: Stack, x: AttrV) requires st.len() >= 1
    ensures push_att(st, x).len() == st.len(), push_att(st, x).drop_first() == st.drop_first(), seq![push_att(st, x)[0]] == push_att(seq![st[0]], x),
        st.len() == 1 ==> st == one(st[0].attrs, st[0].ch) && push_att(st, x) == one(acons(x, st[0].attrs), st[0].ch),
{
    assert(push_att(st, x).drop_first() =~= st.drop_first());
    assert(seq![push_att(st, x)[0]] =~= push_att(seq![st[0]], x));
    if st.len() == 1 { one_eta(st); push_att_one(st[0].attrs, st[0].ch, x); }
}
pub proof fn ad_intro(a: Lang, x: AttrV, r: Lang)
    requires flat(a), flat(r), forall|t: Seq<AttrV>, w: Seq<Sym>| #[trigger] m1(r, t, w) <==> m1(a, acons(x, t), w)
    ensures ad_rel(a, x, r)
{
    reveal(ad_rel);
    assert forall|st: Stack| #![trigger r(st)] #![trigger push_att(st, x)] st.len() >= 1 implies (r(st) <==> a(push_att(st, x))) by {
        push_att_props(st, x);
        if st.len() == 1 { assert(m1(r, st[0].attrs, st[0].ch) <==> m1(a, acons(x, st[0].attrs), st[0].ch)); }
    }
}
pub broadcast proof fn ad_union(a: Lang, b: Lang, x: AttrV, ra: Lang, rb: Lang)
    requires #[trigger] ad_rel(a, x, ra), #[trigger] ad_rel(b, x, rb)
    ensures #[trigger] ad_rel(l_union(a, b), x, l_union(ra, rb))
{ reveal(ad_rel);
  let r = l_union(ra, rb); let l = l_union(a, b);
  assert forall|st: Stack| #![trigger r(st)] #![trigger push_att(st, x)] st.len() >= 1 implies (r(st) <==> l(push_att(st, x))) by { assert(ra(st) <==> a(push_att(st, x))); assert(rb(st) <==> b(push_att(st, x))); }
}
pub broadcast proof fn ad_aft(a: Lang, b: Lang, x: AttrV, ra: Lang)
    requires #[trigger] ad_rel(a, x, ra)
    ensures ad_rel(#[trigger] l_aft(a, b), x, l_aft(ra, b))
{
    reveal(ad_rel);
    let r = l_aft(ra, b); let l = l_aft(a, b);
    assert forall|st: Stack| #![trigger r(st)] #![trigger push_att(st, x)] st.len() >= 1 implies (r(st) <==> l(push_att(st, x))) by {
        push_att_props(st, x);
        let t = seq![st[0]];
        assert(ra(t) <==> a(push_att(t, x)));
    }
}
pub proof fn cat1_elim(a: Lang, b: Lang, t: Seq<AttrV>, w: Seq<Sym>) -> (r: (Seq<AttrV>, Seq<AttrV>, Seq<Sym>, Seq<Sym>))
    requires m1(l_cat(a, b), t, w)
    ensures shuf(r.0, r.1, t), w == r.2 + r.3, m1(a, r.0, r.2), m1(b, r.1, r.3)
{
    let st = one(t, w);
    let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(a, b, st, a1, a2, k);
    assert(w =~= w.take(k) + w.skip(k));
    (a1, a2, w.take(k), w.skip(k))
}
pub proof fn cat1_intro(a: Lang, b: Lang, t: Seq<AttrV>, t1: Seq<AttrV>, t2: Seq<AttrV>, u: Seq<Sym>, v: Seq<Sym>)
    requires shuf(t1, t2, t), m1(a, t1, u), m1(b, t2, v)
    ensures m1(l_cat(a, b), t, u + v)
{
    let w = u + v; let st = one(t, w);
    assert(w.take(u.len() as int) =~= u); assert(w.skip(u.len() as int) =~= v);
    assert(cat_w(a, b, st, t1, t2, u.len() as int));
}
pub proof fn inter1_elim(a: Lang, b: Lang, t: Seq<AttrV>, w: Seq<Sym>) -> (r: (Seq<AttrV>, Seq<AttrV>, Seq<Sym>, Seq<Sym>))
    requires m1(l_inter(a, b), t, w)
    ensures shuf(r.0, r.1, t), shuf(r.2, r.3, w), m1(a, r.0, r.2), m1(b, r.1, r.3)
{
    let st = one(t, w);
    let (a1, a2, u, v) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, u: Seq<Sym>, v: Seq<Sym>| inter_w(a, b, st, a1, a2, u, v);
    (a1, a2, u, v)
}
pub proof fn inter1_intro(a: Lang, b: Lang, t: Seq<AttrV>, t1: Seq<AttrV>, t2: Seq<AttrV>, w: Seq<Sym>, u: Seq<Sym>, v: Seq<Sym>)
    requires shuf(t1, t2, t), shuf(u, v, w), m1(a, t1, u), m1(b, t2, v)
    ensures m1(l_inter(a, b), t, w)
{ assert(inter_w(a, b, one(t, w), t1, t2, u, v)); }
proof fn shuf_head<T>(a: Seq<T>, b: Seq<T>, x: T, w: Seq<T>) -> (lf: bool)
    requires shuf(a, b, seq![x] + w)
    ensures lf ==> a.len() > 0 && a =~= seq![x] + a.drop_first() && shuf(a.drop_first(), b, w), !lf ==> b.len() > 0 && b =~= seq![x] + b.drop_first() && shuf(a, b.drop_first(), w)
{
    let z = seq![x] + w;
    assert(z.drop_first() =~= w); assert(z[0] == x);
    if a.len() > 0 && a[0] == z[0] && shuf(a.drop_first(), b, z.drop_first()) { assert(a =~= seq![x] + a.drop_first()); true } else { assert(b =~= seq![x] + b.drop_first()); false }
}
pub broadcast proof fn ad_cat(a: Lang, b: Lang, x: AttrV, ra: Lang, rb: Lang)
    requires #[trigger] ad_rel(a, x, ra), #[trigger] ad_rel(b, x, rb)
    ensures ad_rel(#[trigger] l_cat(a, b), x, l_union(l_cat(ra, b), l_cat(a, rb)))
{
    let r = l_union(l_cat(ra, b), l_cat(a, rb)); let l = l_cat(a, b);
    assert forall|t: Seq<AttrV>, w: Seq<Sym>| #[trigger] m1(r, t, w) <==> m1(l, acons(x, t), w) by {
        if m1(l_cat(ra, b), t, w) {
            let (t1, t2, u, v) = cat1_elim(ra, b, t, w);
            ad_get(a, x, ra, t1, u); shuf_cons(x, t1, t2, t);
            cat1_intro(a, b, acons(x, t), acons(x, t1), t2, u, v);
        }
        if m1(l_cat(a, rb), t, w) {
            let (t1, t2, u, v) = cat1_elim(a, rb, t, w);
            ad_get(b, x, rb, t2, v); shuf_cons(x, t1, t2, t);
            cat1_intro(a, b, acons(x, t), t1, acons(x, t2), u, v);
        }
        if m1(l, acons(x, t), w) {
            let (t1, t2, u, v) = cat1_elim(a, b, acons(x, t), w);
            if shuf_head(t1, t2, x, t) { ad_get(a, x, ra, t1.drop_first(), u); assert(t1 =~= acons(x, t1.drop_first())); cat1_intro(ra, b, t, t1.drop_first(), t2, u, v); }
            else { ad_get(b, x, rb, t2.drop_first(), v); assert(t2 =~= acons(x, t2.drop_first())); cat1_intro(a, rb, t, t1, t2.drop_first(), u, v); }
        }
    }
    ad_intro(l, x, r);
}
pub broadcast proof fn ad_inter(a: Lang, b: Lang, x: AttrV, ra: Lang, rb: Lang)
    requires #[trigger] ad_rel(a, x, ra), #[trigger] ad_rel(b, x, rb)
    ensures ad_rel(#[trigger] l_inter(a, b), x, l_union(l_inter(ra, b), l_inter(a, rb)))
{
    let r = l_union(l_inter(ra, b), l_inter(a, rb)); let l = l_inter(a, b);
    assert forall|t: Seq<AttrV>, w: Seq<Sym>| #[trigger] m1(r, t, w) <==> m1(l, acons(x, t), w) by {
        if m1(l_inter(ra, b), t, w) {
            let (t1, t2, u, v) = inter1_elim(ra, b, t, w);
            ad_get(a, x, ra, t1, u); shuf_cons(x, t1, t2, t);
            inter1_intro(a, b, acons(x, t), acons(x, t1), t2, w, u, v);
        }
        if m1(l_inter(a, rb), t, w) {
            let (t1, t2, u, v) = inter1_elim(a, rb, t, w);
            ad_get(b, x, rb, t2, v); shuf_cons(x, t1, t2, t);
            inter1_intro(a, b, acons(x, t), t1, acons(x, t2), w, u, v);
        }
        if m1(l, acons(x, t), w) {
            let (t1, t2, u, v) = inter1_elim(a, b, acons(x, t), w);
            if shuf_head(t1, t2, x, t) { ad_get(a, x, ra, t1.drop_first(), u); assert(t1 =~= acons(x, t1.drop_first())); inter1_intro(ra, b, t, t1.drop_first(), t2, w, u, v); }
            else { ad_get(b, x, rb, t2.drop_first(), v); assert(t2 =~= acons(x, t2.drop_first())); inter1_intro(a, rb, t, t1, t2.drop_first(), w, u, v); }
        }
    }
    ad_intro(l, x, r);
}
// one-or-more of patterns in which an attribute stands alone (RELAX NG 7.1.2: no group or interleave of an attribute under oneOrMore)
proof fn rep_ad(a: Lang, n: nat, x: AttrV, ra: Lang, t: Seq<AttrV>, w: Seq<Sym>)
    requires ad_rel(a, x, ra), att_alone(a), m1(l_rep(a, n), acons(x, t), w)
    ensures m1(l_cat(ra, l_star(a)), t, w)
    decreases n
{
    acons_first(x, t);
    if n == 1 {
        ad_get(a, x, ra, t, w);
        shuf_id(t);
        cat1_intro(ra, l_star(a), t, t, seq![], w, seq![]);
        assert(w + seq![] =~= w);
    } else {
        let b = l_rep(a, (n - 1) as nat);
        let (t1, t2, u, v) = cat1_elim(a, b, acons(x, t), w);
        if shuf_head(t1, t2, x, t) {
            let t1r = t1.drop_first();
            assert(t1 =~= acons(x, t1r));
            ad_get(a, x, ra, t1r, u);
            assert(l_plus(a)(one(t2, v)));
            cat1_intro(ra, l_star(a), t, t1r, t2, u, v);
        } else {
            let t2r = t2.drop_first();
            assert(t2 =~= acons(x, t2r));
            rep_ad(a, (n - 1) as nat, x, ra, t2r, v);
            let (s1, s2, u2, v2) = cat1_elim(ra, l_star(a), t2r, v);
            // the part without x comes before; it holds nothing but attributes
            ad_get(a, x, ra, s1, u2);
            acons_first(x, s1);
            assert(one(acons(x, s1), u2)[0].attrs.len() > 0);
            assert(u2 =~= seq![]);
            assert(v =~= v2);
            shuf_sym(t1, t2r, t);
            let q = shuf_assoc(s1, s2, t1, t2r, t);
            shuf_sym(s2, t1, q);
            plus_cons1(a, q, t1, s2, u, v);
            cat1_intro(ra, l_star(a), t, s1, q, seq![], w);
            assert(seq![] + w =~= w);
        }
    }
}
proof fn shuf_nil_l<T>(w: Seq<T>) ensures shuf(seq![], w, w) { shuf_id(w); shuf_sym(w, seq![], w); }
proof fn plus_cons1(a: Lang, t: Seq<AttrV>, t1: Seq<AttrV>, t2: Seq<AttrV>, u: Seq<Sym>, v: Seq<Sym>)
    requires shuf(t1, t2, t), m1(a, t1, u), m1(l_star(a), t2, v)
    ensures m1(l_plus(a), t, u + v)
{
    if m1(l_plus(a), t2, v) {
        let n = choose|n: nat| #[trigger] l_rep(a, n)(one(t2, v));
        rep_flat(a, n, one(t2, v));
        cat1_intro(a, l_rep(a, n), t, t1, t2, u, v);
        assert(l_rep(a, (n + 1) as nat)(one(t, u + v)));
    } else {
        assert(v =~= seq![]); assert(t2 =~= seq![]); assert(u + v =~= u);
        shuf_sym(t1, t2, t); shuf_left_nil(t2, t1, t);
        assert(t == t1);
        assert(l_rep(a, 1)(one(t, u)));
    }
}
pub broadcast proof fn ad_plus(a: Lang, x: AttrV, ra: Lang)
    requires #[trigger] ad_rel(a, x, ra), att_alone(a)
    ensures ad_rel(#[trigger] l_plus(a), x, l_cat(ra, l_star(a)))
{
    let l = l_plus(a); let r = l_cat(ra, l_star(a));
    plus_flat(a);
    assert forall|t: Seq<AttrV>, w: Seq<Sym>| #[trigger] m1(r, t, w) <==> m1(l, acons(x, t), w) by {
        if m1(l, acons(x, t), w) {
            let n = choose|n: nat| #[trigger] l_rep(a, n)(one(acons(x, t), w));
            rep_flat(a, n, one(acons(x, t), w));
            rep_ad(a, n, x, ra, t, w);
        }
        if m1(r, t, w) {
            let (t1, t2, u, v) = cat1_elim(ra, l_star(a), t, w);
            ad_get(a, x, ra, t1, u);
            shuf_cons(x, t1, t2, t);
            plus_cons1(a, acons(x, t), acons(x, t1), t2, u, v);
        }
    }
    ad_intro(l, x, r);
}
// patterns that do not have attributes
pub open spec fn no_att(a: Lang) -> bool { forall|st: Stack| st.len() >= 1 && st[0].attrs.len() > 0 ==> !#[trigger] a(st) }
pub broadcast proof fn ad_none(a: Lang, x: AttrV) requires no_att(a) ensures #[trigger] ad_rel(a, x, l_none()) {
    reveal(ad_rel);
    assert forall|st: Stack| st.len() >= 1 implies !a(#[trigger] push_att(st, x)) by { acons_first(x, st[0].attrs); assert(push_att(st, x)[0].attrs.len() > 0); }
}
pub broadcast proof fn ad_att_in(nc: NamePred, a: Lang, x: AttrV) requires nc(x.name), val_in(a, x.value) ensures #[trigger] ad_rel(l_att(nc, a), x, l_eps()) {
    assert forall|t: Seq<AttrV>, w: Seq<Sym>| #[trigger] m1(l_eps(), t, w) <==> m1(l_att(nc, a), acons(x, t), w) by { acons_first(x, t); }
    ad_intro(l_att(nc, a), x, l_eps());
}
pub broadcast proof fn ad_att_out(nc: NamePred, a: Lang, x: AttrV) requires !(nc(x.name) && val_in(a, x.value)) ensures #[trigger] ad_rel(l_att(nc, a), x, l_none()) {
    assert forall|t: Seq<AttrV>, w: Seq<Sym>| #[trigger] m1(l_none(), t, w) <==> m1(l_att(nc, a), acons(x, t), w) by { acons_first(x, t); }
    ad_intro(l_att(nc, a), x, l_none());
}
// ---------------------------------------------------------------- the end of the attributes
pub broadcast proof fn cl_union(a: Lang, b: Lang, ra: Lang, rb: Lang) requires #[trigger] cl_rel(a, ra), #[trigger] cl_rel(b, rb) ensures #[trigger] cl_rel(l_union(a, b), l_union(ra, rb)) { reveal(cl_rel); }
pub broadcast proof fn cl_same(a: Lang) ensures #[trigger] cl_rel(a, a) { reveal(cl_rel); }
pub broadcast proof fn cl_att(nc: NamePred, a: Lang) ensures #[trigger] cl_rel(l_att(nc, a), l_none()) { reveal(cl_rel); }
pub broadcast proof fn cl_aft(a: Lang, b: Lang, ra: Lang) requires #[trigger] cl_rel(a, ra) ensures cl_rel(#[trigger] l_aft(a, b), l_aft(ra, b)) {
    reveal(cl_rel);
    assert forall|st: Stack| flat0(st) implies (#[trigger] l_aft(ra, b)(st) <==> l_aft(a, b)(st)) by { let t = seq![st[0]]; assert(flat0(t)); assert(ra(t) <==> a(t)); }
}
pub proof fn cl_get(a: Lang, r: Lang, w: Seq<Sym>) requires cl_rel(a, r) ensures m0(r, w) <==> m0(a, w) { reveal(cl_rel); assert(flat0(one(seq![], w))); }
pub broadcast proof fn cl_cat(a: Lang, b: Lang, ra: Lang, rb: Lang) requires #[trigger] cl_rel(a, ra), #[trigger] cl_rel(b, rb) ensures #[trigger] cl_rel(l_cat(a, b), l_cat(ra, rb)) {
    assert forall|st: Stack| flat0(st) implies (#[trigger] l_cat(ra, rb)(st) <==> l_cat(a, b)(st)) by {
        if st.len() == 1 {
            flat_one(st); let w = st[0].ch;
            if m0(l_cat(a, b), w) { let (u, v) = cat0_elim(a, b, w); cl_get(a, ra, u); cl_get(b, rb, v); cat0_intro(ra, rb, u, v); }
            if m0(l_cat(ra, rb), w) { let (u, v) = cat0_elim(ra, rb, w); cl_get(a, ra, u); cl_get(b, rb, v); cat0_intro(a, b, u, v); }
        }
    }
    reveal(cl_rel);
}
pub broadcast proof fn cl_inter(a: Lang, b: Lang, ra: Lang, rb: Lang) requires #[trigger] cl_rel(a, ra), #[trigger] cl_rel(b, rb) ensures #[trigger] cl_rel(l_inter(a, b), l_inter(ra, rb)) {
    assert forall|st: Stack| flat0(st) implies (#[trigger] l_inter(ra, rb)(st) <==> l_inter(a, b)(st)) by {
        if st.len() == 1 {
            flat_one(st); let w = st[0].ch;
            if m0(l_inter(a, b), w) { let (u, v) = inter0_elim(a, b, w); cl_get(a, ra, u); cl_get(b, rb, v); inter0_intro(ra, rb, w, u, v); }
            if m0(l_inter(ra, rb), w) { let (u, v) = inter0_elim(ra, rb, w); cl_get(a, ra, u); cl_get(b, rb, v); inter0_intro(a, b, w, u, v); }
        }
    }
    reveal(cl_rel);
}
// ---------------------------------------------------------------- end tags
pub broadcast proof fn ed_union(a: Lang, b: Lang, ra: Lang, rb: Lang) requires #[trigger] ed_rel(a, ra), #[trigger] ed_rel(b, rb) ensures #[trigger] ed_rel(l_union(a, b), l_union(ra, rb)) { reveal(ed_rel); }
pub broadcast proof fn ed_flat(a: Lang) requires flat(a) ensures #[trigger] ed_rel(a, l_none()) { reveal(ed_rel); assert forall|st: Stack| st.len() >= 1 implies !a(#[trigger] (nothing() + st)) by { assert((nothing() + st).len() > 1); } }
pub broadcast proof fn ed_aft_null(a: Lang, b: Lang) requires nullable(a) ensures #[trigger] ed_rel(l_aft(a, b), b) {
    reveal(ed_rel);
    assert forall|st: Stack| st.len() >= 1 implies (#[trigger] b(st) <==> l_aft(a, b)(nothing() + st)) by { assert((nothing() + st).drop_first() =~= st); assert(seq![(nothing() + st)[0]] =~= nothing()); }
}
pub broadcast proof fn ed_aft(a: Lang, b: Lang) requires !nullable(a) ensures #[trigger] ed_rel(l_aft(a, b), l_none()) {
    reveal(ed_rel);
    assert forall|st: Stack| st.len() >= 1 implies !l_aft(a, b)(#[trigger] (nothing() + st)) by { assert(seq![(nothing() + st)[0]] =~= nothing()); }
}
// ---------------------------------------------------------------- what apply_after() does, pattern by pattern
pub proof fn resid_union(a: Lang, b: Lang, c: Cont) ensures resid(l_union(a, b), c) == l_union(resid(a, c), resid(b, c)) { assert(resid(l_union(a, b), c) =~= l_union(resid(a, c), resid(b, c))); }
pub broadcast proof fn dist_cat_l(a: Lang, b: Lang, c: Lang) ensures #[trigger] l_cat(l_union(a, b), c) == l_union(l_cat(a, c), l_cat(b, c)) {
    assert forall|st: Stack| #[trigger] l_cat(l_union(a, b), c)(st) == l_union(l_cat(a, c), l_cat(b, c))(st) by {
        if cat_m(l_union(a, b), c, st) { let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(l_union(a, b), c, st, a1, a2, k); assert(cat_w(a, c, st, a1, a2, k) || cat_w(b, c, st, a1, a2, k)); }
        if cat_m(a, c, st) { let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(a, c, st, a1, a2, k); assert(cat_w(l_union(a, b), c, st, a1, a2, k)); }
        if cat_m(b, c, st) { let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(b, c, st, a1, a2, k); assert(cat_w(l_union(a, b), c, st, a1, a2, k)); }
    }
    lang_ext(l_cat(l_union(a, b), c), l_union(l_cat(a, c), l_cat(b, c)));
}
pub proof fn dist_cat_r(a: Lang, b: Lang, c: Lang) ensures l_cat(c, l_union(a, b)) == l_union(l_cat(c, a), l_cat(c, b)) {
    assert forall|st: Stack| #[trigger] l_cat(c, l_union(a, b))(st) == l_union(l_cat(c, a), l_cat(c, b))(st) by {
        if cat_m(c, l_union(a, b), st) { let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(c, l_union(a, b), st, a1, a2, k); assert(cat_w(c, a, st, a1, a2, k) || cat_w(c, b, st, a1, a2, k)); }
        if cat_m(c, a, st) { let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(c, a, st, a1, a2, k); assert(cat_w(c, l_union(a, b), st, a1, a2, k)); }
        if cat_m(c, b, st) { let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(c, b, st, a1, a2, k); assert(cat_w(c, l_union(a, b), st, a1, a2, k)); }
    }
    lang_ext(l_cat(c, l_union(a, b)), l_union(l_cat(c, a), l_cat(c, b)));
}
pub proof fn dist_inter(a: Lang, b: Lang, c: Lang) ensures l_inter(l_union(a, b), c) == l_union(l_inter(a, c), l_inter(b, c)), l_inter(c, l_union(a, b)) == l_union(l_inter(c, a), l_inter(c, b)) {
    assert forall|st: Stack| #[trigger] l_inter(l_union(a, b), c)(st) == l_union(l_inter(a, c), l_inter(b, c))(st) by {
        if inter_m(l_union(a, b), c, st) { let (a1, a2, u, v) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, u: Seq<Sym>, v: Seq<Sym>| inter_w(l_union(a, b), c, st, a1, a2, u, v); assert(inter_w(a, c, st, a1, a2, u, v) || inter_w(b, c, st, a1, a2, u, v)); }
        if inter_m(a, c, st) { let (a1, a2, u, v) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, u: Seq<Sym>, v: Seq<Sym>| inter_w(a, c, st, a1, a2, u, v); assert(inter_w(l_union(a, b), c, st, a1, a2, u, v)); }
        if inter_m(b, c, st) { let (a1, a2, u, v) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, u: Seq<Sym>, v: Seq<Sym>| inter_w(b, c, st, a1, a2, u, v); assert(inter_w(l_union(a, b), c, st, a1, a2, u, v)); }
    }
    lang_ext(l_inter(l_union(a, b), c), l_union(l_inter(a, c), l_inter(b, c)));
    ax_inter_comm(c, l_union(a, b)); ax_inter_comm(c, a); ax_inter_comm(c, b);
}
pub proof fn dist_aft(a: Lang, b: Lang, c: Lang) ensures l_aft(l_union(a, b), c) == l_union(l_aft(a, c), l_aft(b, c)), l_aft(c, l_union(a, b)) == l_union(l_aft(c, a), l_aft(c, b)) {
    assert(l_aft(l_union(a, b), c) =~= l_union(l_aft(a, c), l_aft(b, c)));
    assert(l_aft(c, l_union(a, b)) =~= l_union(l_aft(c, a), l_aft(c, b)));
}
pub proof fn plug_union(k: Ctx, a: Lang, b: Lang) ensures plug(k, l_union(a, b)) == l_union(plug(k, a), plug(k, b)) {
    match k {
        Ctx::CatL(c) => { dist_cat_l(a, b, c); }
        Ctx::CatR(c) => { dist_cat_r(a, b, c); }
        Ctx::InterL(c) | Ctx::InterR(c) => { dist_inter(a, b, c); }
        Ctx::AftL(c) | Ctx::AftR(c) => { dist_aft(a, b, c); }
        Ctx::Id => {}
    }
}
pub proof fn lift_union(k: Ctx, a: Lang, b: Lang) ensures l_lift(k, l_union(a, b)) == l_union(l_lift(k, a), l_lift(k, b)) {
    assert forall|st: Stack| #[trigger] l_lift(k, l_union(a, b))(st) == l_union(l_lift(k, a), l_lift(k, b))(st) by {
        if st.len() >= 2 { resid_union(a, b, st[0]); plug_union(k, resid(a, st[0]), resid(b, st[0])); }
    }
    lang_ext(l_lift(k, l_union(a, b)), l_union(l_lift(k, a), l_lift(k, b)));
}
pub proof fn plug_none(k: Ctx) ensures plug(k, l_none()) == l_none() {
    match k {
        Ctx::CatL(c) => { ax_cat_none_l(c); } Ctx::CatR(c) => { ax_cat_none_r(c); }
        Ctx::InterL(c) => { ax_inter_none_l(c); } Ctx::InterR(c) => { ax_inter_none_r(c); }
        Ctx::AftL(c) => { ax_aft_none_l(c); } Ctx::AftR(c) => { ax_aft_none_r(c); }
        Ctx::Id => {}
    }
}
pub proof fn lift_none(k: Ctx) ensures l_lift(k, l_none()) == l_none() {
    assert forall|st: Stack| #[trigger] l_lift(k, l_none())(st) == l_none()(st) by {
        if st.len() >= 2 { assert(resid(l_none(), st[0]) =~= l_none()); plug_none(k); }
    }
    lang_ext(l_lift(k, l_none()), l_none());
}
// what is left after a start tag: always at least one element to go
pub open spec fn ne(a: Lang) -> bool { forall|st: Stack| #[trigger] a(st) ==> st.len() >= 1 }
pub proof fn lift_aft(k: Ctx, a: Lang, b: Lang) requires ne(b) ensures l_lift(k, l_aft(a, b)) == l_aft(a, plug(k, b)) {
    let l = l_lift(k, l_aft(a, b)); let r = l_aft(a, plug(k, b));
    assert forall|st: Stack| #[trigger] l(st) == r(st) by {
        if st.len() >= 2 {
            let x = resid(l_aft(a, b), st[0]);
            assert forall|s: Stack| #[trigger] x(s) == (a(seq![st[0]]) && b(s)) by {
                if s.len() >= 1 {
                    let t = seq![st[0]] + s;
                    assert(t.drop_first() =~= s); assert(t[0] == st[0]); assert(t.len() >= 2);
                }
            }
            if a(seq![st[0]]) { assert(x =~= b); } else { assert(x =~= l_none()); plug_none(k); }
        }
    }
    lang_ext(l, r);
}
// ---------------------------------------------------------------- start tags: the leaves
pub broadcast proof fn sd_elem_in(nc: NamePred, a: Lang, n: Name) requires nc(n) ensures #[trigger] sd_rel(l_elem(nc, a), n, l_aft(a, l_eps())) {
    reveal(sd_rel);
    let l = l_elem(nc, a); let r = l_aft(a, l_eps());
    assert forall|c: Cont, st: Stack| flat0(st) implies ((#[trigger] r(seq![c] + st)) <==> l(push_ch(st, Sym::Child(n, c)))) by {
        let t = seq![c] + st; let x = Sym::Child(n, c);
        assert(t.drop_first() =~= st); assert(seq![t[0]] =~= seq![c]);
        push_ch_flat(st, x);
        cons_first(x, st[0].ch);
    }
}
pub broadcast proof fn sd_elem_out(nc: NamePred, a: Lang, n: Name) requires !nc(n) ensures #[trigger] sd_rel(l_elem(nc, a), n, l_none()) {
    reveal(sd_rel);
    let l = l_elem(nc, a);
    assert forall|c: Cont, st: Stack| flat0(st) implies !(#[trigger] l(push_ch(st, Sym::Child(n, c)))) by { let x = Sym::Child(n, c); push_ch_flat(st, x); cons_first(x, st[0].ch); }
}
pub broadcast proof fn nc_eps() ensures #[trigger] no_child(l_eps()) { assert forall|st: Stack, n: Name, c: Cont| flat0(st) implies !(#[trigger] l_eps()(push_ch(st, Sym::Child(n, c)))) by { let x = Sym::Child(n, c); push_ch_flat(st, x); cons_first(x, st[0].ch); } }
pub broadcast proof fn nc_text() ensures #[trigger] no_child(l_text()) { assert forall|st: Stack, n: Name, c: Cont| flat0(st) implies !(#[trigger] l_text()(push_ch(st, Sym::Child(n, c)))) by { let x = Sym::Child(n, c); push_ch_flat(st, x); cons_first(x, st[0].ch); assert(push_ch(st, x)[0].ch[0] is Child); } }
pub broadcast proof fn nc_none() ensures #[trigger] no_child(l_none()) { }
pub broadcast proof fn nc_att(nc: NamePred, a: Lang) ensures #[trigger] no_child(l_att(nc, a)) { }
pub broadcast proof fn nc_data(p: TextPred) ensures #[trigger] no_child(l_data(p)) { assert forall|st: Stack, n: Name, c: Cont| flat0(st) implies !(#[trigger] l_data(p)(push_ch(st, Sym::Child(n, c)))) by { let x = Sym::Child(n, c); push_ch_flat(st, x); cons_first(x, st[0].ch); } }
pub broadcast proof fn nc_list(a: Lang) ensures #[trigger] no_child(l_list(a)) { assert forall|st: Stack, n: Name, c: Cont| flat0(st) implies !(#[trigger] l_list(a)(push_ch(st, Sym::Child(n, c)))) by { let x = Sym::Child(n, c); push_ch_flat(st, x); cons_first(x, st[0].ch); assert(push_ch(st, x)[0].ch[0] is Child); } }
pub broadcast proof fn na_eps() ensures #[trigger] no_att(l_eps()) {}
pub broadcast proof fn na_text() ensures #[trigger] no_att(l_text()) {}
pub broadcast proof fn na_none() ensures #[trigger] no_att(l_none()) {}
pub broadcast proof fn na_elem(nc: NamePred, a: Lang) ensures #[trigger] no_att(l_elem(nc, a)) {}
pub broadcast proof fn na_data(p: TextPred) ensures #[trigger] no_att(l_data(p)) {}
pub broadcast proof fn na_list(a: Lang) ensures #[trigger] no_att(l_list(a)) {}
pub broadcast proof fn nul_att(nc: NamePred, a: Lang) ensures !#[trigger] nullable(l_att(nc, a)) {}
pub broadcast proof fn nul_elem(nc: NamePred, a: Lang) ensures !#[trigger] nullable(l_elem(nc, a)) {}
pub broadcast proof fn nul_data(p: TextPred) ensures !#[trigger] nullable(l_data(p)) {}
pub broadcast proof fn nul_list(a: Lang) ensures !#[trigger] nullable(l_list(a)) {}
