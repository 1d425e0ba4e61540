// ---------------------------------------------------------------- helper lemmas
pub proof fn lang_ext(a: Lang, b: Lang)
    requires forall|st: Stack| #[trigger] a(st) == b(st),
    ensures a == b,
{ assert(a =~= b); }

pub proof fn shuf_nil<T>(a: Seq<T>, b: Seq<T>, w: Seq<T>)
    requires shuf(a, b, w), w.len() == 0
    ensures a.len() == 0, b.len() == 0
{ }
pub proof fn shuf_left_nil<T>(a: Seq<T>, b: Seq<T>, w: Seq<T>)
    requires shuf(a, b, w), a.len() == 0
    ensures b =~= w
    decreases w.len()
{
    if w.len() > 0 { shuf_left_nil(a, b.drop_first(), w.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); assert(w =~= seq![w[0]] + w.drop_first()); }
}
pub proof fn shuf_sym<T>(a: Seq<T>, b: Seq<T>, w: Seq<T>)
    requires shuf(a, b, w)
    ensures shuf(b, a, w)
    decreases w.len()
{
    if w.len() > 0 {
        if a.len() > 0 && a[0] == w[0] && shuf(a.drop_first(), b, w.drop_first()) { shuf_sym(a.drop_first(), b, w.drop_first()); }
        else { shuf_sym(a, b.drop_first(), w.drop_first()); }
    }
}
pub proof fn shuf_id<T>(w: Seq<T>)
    ensures shuf(Seq::<T>::empty(), w, w), shuf(w, Seq::<T>::empty(), w)
    decreases w.len()
{
    if w.len() > 0 { shuf_id(w.drop_first()); }
}
pub proof fn shuf_cons<T>(x: T, a: Seq<T>, b: Seq<T>, w: Seq<T>)
    requires shuf(a, b, w)
    ensures shuf(seq![x] + a, b, seq![x] + w), shuf(a, seq![x] + b, seq![x] + w)
{
    assert((seq![x] + a).drop_first() =~= a);
    assert((seq![x] + b).drop_first() =~= b);
    assert((seq![x] + w).drop_first() =~= w);
}
// members of the components are members of the whole
pub proof fn shuf_mem<T>(a: Seq<T>, b: Seq<T>, w: Seq<T>)
    requires shuf(a, b, w)
    ensures a.len() + b.len() == w.len(),
        forall|i: int| 0 <= i < a.len() ==> w.contains(#[trigger] a[i]),
        forall|i: int| 0 <= i < b.len() ==> w.contains(#[trigger] b[i]),
    decreases w.len()
{
    if w.len() > 0 {
        let wt = w.drop_first();
        if a.len() > 0 && a[0] == w[0] && shuf(a.drop_first(), b, wt) {
            let at = a.drop_first();
            shuf_mem(at, b, wt);
            assert forall|i: int| 0 <= i < a.len() implies w.contains(#[trigger] a[i]) by {
                if i > 0 { assert(at[i - 1] == a[i]); let j = choose|j: int| 0 <= j < wt.len() && wt[j] == at[i-1]; assert(w[j + 1] == a[i]); } else { assert(w[0] == a[0]); }
            }
            assert forall|i: int| 0 <= i < b.len() implies w.contains(#[trigger] b[i]) by {
                let j = choose|j: int| 0 <= j < wt.len() && wt[j] == b[i]; assert(w[j + 1] == b[i]);
            }
        } else {
            let bt = b.drop_first();
            shuf_mem(a, bt, wt);
            assert forall|i: int| 0 <= i < b.len() implies w.contains(#[trigger] b[i]) by {
                if i > 0 { assert(bt[i - 1] == b[i]); let j = choose|j: int| 0 <= j < wt.len() && wt[j] == bt[i-1]; assert(w[j + 1] == b[i]); } else { assert(w[0] == b[0]); }
            }
            assert forall|i: int| 0 <= i < a.len() implies w.contains(#[trigger] a[i]) by {
                let j = choose|j: int| 0 <= j < wt.len() && wt[j] == a[i]; assert(w[j + 1] == a[i]);
            }
        }
    }
}

// ---------------------------------------------------------------- algebra of the smart constructors
pub broadcast proof fn ax_union_none_l(b: Lang) ensures #[trigger] l_union(l_none(), b) == b { assert(l_union(l_none(), b) =~= b); }
pub broadcast proof fn ax_union_none_r(a: Lang) ensures #[trigger] l_union(a, l_none()) == a { assert(l_union(a, l_none()) =~= a); }
pub broadcast proof fn ax_union_idem(a: Lang) ensures #[trigger] l_union(a, a) == a { assert(l_union(a, a) =~= a); }
pub broadcast proof fn ax_union_comm(a: Lang, b: Lang) ensures #[trigger] l_union(a, b) == l_union(b, a) { assert(l_union(a, b) =~= l_union(b, a)); }

pub broadcast proof fn ax_cat_none_l(b: Lang) ensures #[trigger] l_cat(l_none(), b) == l_none() { assert(l_cat(l_none(), b) =~= l_none()); }
pub broadcast proof fn ax_cat_none_r(a: Lang) ensures #[trigger] l_cat(a, l_none()) == l_none() { assert(l_cat(a, l_none()) =~= l_none()); }
pub broadcast proof fn ax_inter_none_l(b: Lang) ensures #[trigger] l_inter(l_none(), b) == l_none() { assert(l_inter(l_none(), b) =~= l_none()); }
pub broadcast proof fn ax_inter_none_r(a: Lang) ensures #[trigger] l_inter(a, l_none()) == l_none() { assert(l_inter(a, l_none()) =~= l_none()); }
pub broadcast proof fn ax_aft_none_l(b: Lang) ensures #[trigger] l_aft(l_none(), b) == l_none() { assert(l_aft(l_none(), b) =~= l_none()); }
pub broadcast proof fn ax_aft_none_r(a: Lang) ensures #[trigger] l_aft(a, l_none()) == l_none() { assert(l_aft(a, l_none()) =~= l_none()); }

pub open spec fn flat(a: Lang) -> bool { forall|st: Stack| #[trigger] a(st) ==> st.len() == 1 }

pub proof fn one_eta(st: Stack) requires st.len() == 1 ensures st == one(st[0].attrs, st[0].ch) { assert(st =~= one(st[0].attrs, st[0].ch)); }

pub broadcast proof fn ax_cat_eps_l(b: Lang) requires flat(b) ensures #[trigger] l_cat(l_eps(), b) == b {
    assert forall|st: Stack| #[trigger] l_cat(l_eps(), b)(st) == b(st) by {
        if cat_m(l_eps(), b, st) {
            let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(l_eps(), b, st, a1, a2, k);
            shuf_left_nil(a1, a2, st[0].attrs);
            assert(st[0].ch.skip(k) =~= st[0].ch);
            one_eta(st);
        }
        if b(st) {
            shuf_id(st[0].attrs);
            assert(st[0].ch.skip(0) =~= st[0].ch);
            one_eta(st);
            assert(cat_w(l_eps(), b, st, seq![], st[0].attrs, 0));
        }
    }
    lang_ext(l_cat(l_eps(), b), b);
}
pub broadcast proof fn ax_cat_eps_r(a: Lang) requires flat(a) ensures #[trigger] l_cat(a, l_eps()) == a {
    assert forall|st: Stack| #[trigger] l_cat(a, l_eps())(st) == a(st) by {
        if cat_m(a, l_eps(), st) {
            let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(a, l_eps(), st, a1, a2, k);
            shuf_sym(a1, a2, st[0].attrs);
            shuf_left_nil(a2, a1, st[0].attrs);
            assert(st[0].ch.take(k) =~= st[0].ch);
            one_eta(st);
        }
        if a(st) {
            shuf_id(st[0].attrs);
            let n = st[0].ch.len() as int;
            assert(st[0].ch.take(n) =~= st[0].ch);
            one_eta(st);
            assert(cat_w(a, l_eps(), st, st[0].attrs, seq![], n));
        }
    }
    lang_ext(l_cat(a, l_eps()), a);
}
pub broadcast proof fn ax_inter_eps_l(b: Lang) requires flat(b) ensures #[trigger] l_inter(l_eps(), b) == b {
    assert forall|st: Stack| #[trigger] l_inter(l_eps(), b)(st) == b(st) by {
        if inter_m(l_eps(), b, st) {
            let (a1, a2, w1, w2) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, w1: Seq<Sym>, w2: Seq<Sym>| inter_w(l_eps(), b, st, a1, a2, w1, w2);
            shuf_left_nil(a1, a2, st[0].attrs);
            shuf_left_nil(w1, w2, st[0].ch);
            one_eta(st);
        }
        if b(st) {
            shuf_id(st[0].attrs);
            shuf_id(st[0].ch);
            one_eta(st);
            assert(inter_w(l_eps(), b, st, seq![], st[0].attrs, seq![], st[0].ch));
        }
    }
    lang_ext(l_inter(l_eps(), b), b);
}
pub broadcast proof fn ax_inter_comm(a: Lang, b: Lang) ensures #[trigger] l_inter(a, b) == l_inter(b, a) {
    assert forall|st: Stack| #[trigger] l_inter(a, b)(st) == l_inter(b, a)(st) by {
        if l_inter(a, b)(st) { inter_comm1(a, b, st); } if l_inter(b, a)(st) { inter_comm1(b, a, st); }
    }
    lang_ext(l_inter(a, b), l_inter(b, a));
}
proof fn inter_comm1(a: Lang, b: Lang, st: Stack) requires l_inter(a,b)(st) ensures l_inter(b,a)(st) {
    let (a1, a2, w1, w2) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, w1: Seq<Sym>, w2: Seq<Sym>| inter_w(a, b, st, a1, a2, w1, w2);
    shuf_sym(a1, a2, st[0].attrs); shuf_sym(w1, w2, st[0].ch);
    assert(inter_w(b, a, st, a2, a1, w2, w1));
}
pub broadcast proof fn ax_inter_eps_r(a: Lang) requires flat(a) ensures #[trigger] l_inter(a, l_eps()) == a {
    ax_inter_comm(a, l_eps()); ax_inter_eps_l(a);
}
// ---------------------------------------------------------------- nullability
pub broadcast proof fn nul_none() ensures !#[trigger] nullable(l_none()) {}
pub broadcast proof fn nul_eps() ensures #[trigger] nullable(l_eps()) {}
pub broadcast proof fn nul_text() ensures #[trigger] nullable(l_text()) {}
pub broadcast proof fn nul_union(a: Lang, b: Lang) ensures #[trigger] nullable(l_union(a, b)) == (nullable(a) || nullable(b)) {}
pub broadcast proof fn nul_aft(a: Lang, b: Lang) ensures !#[trigger] nullable(l_aft(a, b)) {}
pub broadcast proof fn nul_cat(a: Lang, b: Lang) ensures #[trigger] nullable(l_cat(a, b)) == (nullable(a) && nullable(b)) {
    let st = nothing();
    if cat_m(a, b, st) {
        let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(a, b, st, a1, a2, k);
        assert(one(a1, st[0].ch.take(k)) =~= nothing()) by { assert(a1 =~= seq![]); assert(st[0].ch.take(k) =~= seq![]); }
        assert(one(a2, st[0].ch.skip(k)) =~= nothing()) by { assert(a2 =~= seq![]); assert(st[0].ch.skip(k) =~= seq![]); }
    }
    if nullable(a) && nullable(b) {
        assert(st[0].ch.take(0) =~= seq![]); assert(st[0].ch.skip(0) =~= seq![]);
        assert(cat_w(a, b, st, seq![], seq![], 0));
    }
}
pub broadcast proof fn nul_inter(a: Lang, b: Lang) ensures #[trigger] nullable(l_inter(a, b)) == (nullable(a) && nullable(b)) {
    let st = nothing();
    if inter_m(a, b, st) {
        let (a1, a2, w1, w2) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, w1: Seq<Sym>, w2: Seq<Sym>| inter_w(a, b, st, a1, a2, w1, w2);
        assert(one(a1, w1) =~= nothing()) by { assert(a1 =~= seq![]); assert(w1 =~= seq![]); }
        assert(one(a2, w2) =~= nothing()) by { assert(a2 =~= seq![]); assert(w2 =~= seq![]); }
    }
    if nullable(a) && nullable(b) {
        assert(inter_w(a, b, st, seq![], seq![], seq![], seq![]));
    }
}
proof fn nul_rep(a: Lang, n: nat) requires nullable(l_rep(a, n)) ensures nullable(a) decreases n {
    if n > 1 { nul_cat(a, l_rep(a, (n - 1) as nat)); }
}
pub broadcast proof fn nul_plus(a: Lang) ensures #[trigger] nullable(l_plus(a)) == nullable(a) {
    if nullable(l_plus(a)) { let n = choose|n: nat| #[trigger] l_rep(a, n)(nothing()); nul_rep(a, n); }
    if nullable(a) { assert(l_rep(a, 1)(nothing())); }
}
