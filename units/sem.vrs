// ---------------------------------------------------------------- documents
pub ghost struct Name { pub ns: Seq<char>, pub local: Seq<char> }
pub ghost struct AttrV { pub name: Name, pub value: Seq<char> }
pub ghost enum Sym { Text(Seq<char>), Child(Name, Cont) }
pub ghost struct Cont { pub attrs: Seq<AttrV>, pub ch: Seq<Sym> }
pub type Stack = Seq<Cont>;
pub type Lang = spec_fn(Stack) -> bool;

pub open spec fn xml_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
pub open spec fn ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> xml_ws(#[trigger] s[i]) }
pub open spec fn clean(w: Seq<Sym>) -> bool { forall|i: int| 0 <= i < w.len() ==> ((#[trigger] w[i]) is Text ==> !ws(w[i]->Text_0)) }
pub open spec fn texts(w: Seq<Sym>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]) is Text }
pub open spec fn headok(w: Seq<Sym>) -> bool { w.len() > 0 ==> w[0] is Child }

pub open spec fn shuf<T>(a: Seq<T>, b: Seq<T>, w: Seq<T>) -> bool
    decreases w.len()
{
    if w.len() == 0 { a.len() == 0 && b.len() == 0 }
    else {
        ||| (a.len() > 0 && a[0] == w[0] && shuf(a.drop_first(), b, w.drop_first()))
        ||| (b.len() > 0 && b[0] == w[0] && shuf(a, b.drop_first(), w.drop_first()))
    }
}
pub open spec fn one(attrs: Seq<AttrV>, ch: Seq<Sym>) -> Stack { seq![Cont { attrs, ch }] }
pub open spec fn nothing() -> Stack { one(seq![], seq![]) }

// ---------------------------------------------------------------- languages
pub open spec fn l_none() -> Lang { |st: Stack| false }
pub open spec fn l_eps() -> Lang { |st: Stack| st.len() == 1 && st[0].attrs.len() == 0 && st[0].ch.len() == 0 }
pub open spec fn l_text() -> Lang { |st: Stack| st.len() == 1 && st[0].attrs.len() == 0 && texts(st[0].ch) }
pub open spec fn l_union(a: Lang, b: Lang) -> Lang { |st: Stack| a(st) || b(st) }
pub open spec fn cat_w(a: Lang, b: Lang, st: Stack, a1: Seq<AttrV>, a2: Seq<AttrV>, k: int) -> bool {
    0 <= k <= st[0].ch.len() && shuf(a1, a2, st[0].attrs)
    && a(one(a1, st[0].ch.take(k))) && b(one(a2, st[0].ch.skip(k)))
}
pub open spec fn cat_m(a: Lang, b: Lang, st: Stack) -> bool {
    st.len() == 1 && exists|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(a, b, st, a1, a2, k)
}
pub open spec fn l_cat(a: Lang, b: Lang) -> Lang { |st: Stack| cat_m(a, b, st) }
pub open spec fn inter_w(a: Lang, b: Lang, st: Stack, a1: Seq<AttrV>, a2: Seq<AttrV>, w1: Seq<Sym>, w2: Seq<Sym>) -> bool {
    shuf(a1, a2, st[0].attrs) && shuf(w1, w2, st[0].ch) && a(one(a1, w1)) && b(one(a2, w2))
}
pub open spec fn inter_m(a: Lang, b: Lang, st: Stack) -> bool {
    st.len() == 1 && exists|a1: Seq<AttrV>, a2: Seq<AttrV>, w1: Seq<Sym>, w2: Seq<Sym>| inter_w(a, b, st, a1, a2, w1, w2)
}
pub open spec fn l_inter(a: Lang, b: Lang) -> Lang { |st: Stack| inter_m(a, b, st) }
pub open spec fn l_rep(a: Lang, n: nat) -> Lang decreases n {
    if n == 0 { l_none() } else if n == 1 { |st: Stack| st.len() == 1 && a(st) } else { l_cat(a, l_rep(a, (n - 1) as nat)) }
}
pub open spec fn l_plus(a: Lang) -> Lang { |st: Stack| exists|n: nat| #[trigger] l_rep(a, n)(st) }
pub open spec fn l_aft(a: Lang, b: Lang) -> Lang { |st: Stack| st.len() >= 2 && a(seq![st[0]]) && b(st.drop_first()) }

// a stack whose top has Child(n,c) / Text(s) / attribute a put in front
pub open spec fn push_ch(st: Stack, x: Sym) -> Stack {
    st.update(0, Cont { attrs: st[0].attrs, ch: seq![x] + st[0].ch })
}
pub open spec fn push_att(st: Stack, a: AttrV) -> Stack {
    st.update(0, Cont { attrs: seq![a] + st[0].attrs, ch: st[0].ch })
}
pub open spec fn flat0(st: Stack) -> bool { st.len() >= 1 && st[0].attrs.len() == 0 }

pub open spec fn nullable(a: Lang) -> bool { a(nothing()) }

// ---------------------------------------------------------------- relations decided by the derivative functions
#[verifier::opaque]
pub open spec fn sd_rel(a: Lang, n: Name, r: Lang) -> bool {
    forall|c: Cont, st: Stack| flat0(st) ==> ((#[trigger] r(seq![c] + st)) <==> a(push_ch(st, Sym::Child(n, c))))
}
#[verifier::opaque]
pub open spec fn td_rel(a: Lang, s: Seq<char>, r: Lang) -> bool {
    forall|st: Stack| #![trigger r(st)] #![trigger push_ch(st, Sym::Text(s))] flat0(st) ==> {
        &&& (clean(st[0].ch) && a(push_ch(st, Sym::Text(s))) ==> r(st))
        &&& (clean(st[0].ch) && ws(s) && headok(st[0].ch) && a(st) ==> r(st))
        &&& (r(st) ==> a(push_ch(st, Sym::Text(s))) || (ws(s) && a(st)))
    }
}
#[verifier::opaque]
pub open spec fn ad_rel(a: Lang, x: AttrV, r: Lang) -> bool {
    forall|st: Stack| #![trigger r(st)] #![trigger push_att(st, x)] st.len() >= 1 ==> (r(st) <==> a(push_att(st, x)))
}
#[verifier::opaque]
pub open spec fn cl_rel(a: Lang, r: Lang) -> bool {
    forall|st: Stack| flat0(st) ==> (#[trigger] r(st) <==> a(st))
}
#[verifier::opaque]
pub open spec fn ed_rel(a: Lang, r: Lang) -> bool {
    forall|st: Stack| st.len() >= 1 ==> (#[trigger] r(st) <==> a(nothing() + st))
}
pub open spec fn att_alone(a: Lang) -> bool {
    forall|st: Stack| st.len() >= 1 && #[trigger] a(st) && st[0].attrs.len() > 0 ==> st.len() == 1 && st[0].ch.len() == 0
}

// what apply_after() does to a residual language
pub ghost enum Ctx { CatL(Lang), InterL(Lang), InterR(Lang), AftL(Lang), CatR(Lang), AftR(Lang), Id }
pub open spec fn plug(k: Ctx, a: Lang) -> Lang {
    match k {
        Ctx::CatL(b) => l_cat(a, b),
        Ctx::CatR(b) => l_cat(b, a),
        Ctx::InterL(b) => l_inter(a, b),
        Ctx::InterR(b) => l_inter(b, a),
        Ctx::AftL(b) => l_aft(a, b),
        Ctx::AftR(b) => l_aft(b, a),
        Ctx::Id => a,
    }
}
pub open spec fn resid(r: Lang, c: Cont) -> Lang { |s: Stack| s.len() >= 1 && r(seq![c] + s) }
pub open spec fn l_lift(k: Ctx, r: Lang) -> Lang {
    |st: Stack| st.len() >= 2 && plug(k, resid(r, st[0]))(st.drop_first())
}
// ---------------------------------------------------------------- helper lemmas
pub proof fn lang_ext(a: Lang, b: Lang)
    requires forall|st: Stack| #[trigger] a(st) == b(st),
    ensures a == b,
{ assert(a =~= b); }

pub proof fn shuf_nil<T>(a: Seq<T>, b: Seq<T>, w: Seq<T>)
    requires shuf(a, b, w), w.len() == 0
    ensures a.len() == 0, b.len() == 0
{ }
pub proof fn shuf_left_nil<T>(a: Seq<T>, b: Seq<T>, w: Seq<T>)
    requires shuf(a, b, w), a.len() == 0
    ensures b =~= w
    decreases w.len()
{
    if w.len() > 0 { shuf_left_nil(a, b.drop_first(), w.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); assert(w =~= seq![w[0]] + w.drop_first()); }
}
pub proof fn shuf_sym<T>(a: Seq<T>, b: Seq<T>, w: Seq<T>)
    requires shuf(a, b, w)
    ensures shuf(b, a, w)
    decreases w.len()
{
    if w.len() > 0 {
        if a.len() > 0 && a[0] == w[0] && shuf(a.drop_first(), b, w.drop_first()) { shuf_sym(a.drop_first(), b, w.drop_first()); }
        else { shuf_sym(a, b.drop_first(), w.drop_first()); }
    }
}
pub proof fn shuf_id<T>(w: Seq<T>)
    ensures shuf(Seq::<T>::empty(), w, w), shuf(w, Seq::<T>::empty(), w)
    decreases w.len()
{
    if w.len() > 0 { shuf_id(w.drop_first()); }
}
pub proof fn shuf_cons<T>(x: T, a: Seq<T>, b: Seq<T>, w: Seq<T>)
    requires shuf(a, b, w)
    ensures shuf(seq![x] + a, b, seq![x] + w), shuf(a, seq![x] + b, seq![x] + w)
{
    assert((seq![x] + a).drop_first() =~= a);
    assert((seq![x] + b).drop_first() =~= b);
    assert((seq![x] + w).drop_first() =~= w);
}
// members of the components are members of the whole
pub proof fn shuf_mem<T>(a: Seq<T>, b: Seq<T>, w: Seq<T>)
    requires shuf(a, b, w)
    ensures a.len() + b.len() == w.len(),
        forall|i: int| 0 <= i < a.len() ==> w.contains(#[trigger] a[i]),
        forall|i: int| 0 <= i < b.len() ==> w.contains(#[trigger] b[i]),
    decreases w.len()
{
    if w.len() > 0 {
        let wt = w.drop_first();
        if a.len() > 0 && a[0] == w[0] && shuf(a.drop_first(), b, wt) {
            let at = a.drop_first();
            shuf_mem(at, b, wt);
            assert forall|i: int| 0 <= i < a.len() implies w.contains(#[trigger] a[i]) by {
                if i > 0 { assert(at[i - 1] == a[i]); let j = choose|j: int| 0 <= j < wt.len() && wt[j] == at[i-1]; assert(w[j + 1] == a[i]); } else { assert(w[0] == a[0]); }
            }
            assert forall|i: int| 0 <= i < b.len() implies w.contains(#[trigger] b[i]) by {
                let j = choose|j: int| 0 <= j < wt.len() && wt[j] == b[i]; assert(w[j + 1] == b[i]);
            }
        } else {
            let bt = b.drop_first();
            shuf_mem(a, bt, wt);
            assert forall|i: int| 0 <= i < b.len() implies w.contains(#[trigger] b[i]) by {
                if i > 0 { assert(bt[i - 1] == b[i]); let j = choose|j: int| 0 <= j < wt.len() && wt[j] == bt[i-1]; assert(w[j + 1] == b[i]); } else { assert(w[0] == b[0]); }
            }
            assert forall|i: int| 0 <= i < a.len() implies w.contains(#[trigger] a[i]) by {
                let j = choose|j: int| 0 <= j < wt.len() && wt[j] == a[i]; assert(w[j + 1] == a[i]);
            }
        }
    }
}

// ---------------------------------------------------------------- algebra of the smart constructors
pub broadcast proof fn ax_union_none_l(b: Lang) ensures #[trigger] l_union(l_none(), b) == b { assert(l_union(l_none(), b) =~= b); }
pub broadcast proof fn ax_union_none_r(a: Lang) ensures #[trigger] l_union(a, l_none()) == a { assert(l_union(a, l_none()) =~= a); }
pub broadcast proof fn ax_union_idem(a: Lang) ensures #[trigger] l_union(a, a) == a { assert(l_union(a, a) =~= a); }
pub broadcast proof fn ax_union_comm(a: Lang, b: Lang) ensures #[trigger] l_union(a, b) == l_union(b, a) { assert(l_union(a, b) =~= l_union(b, a)); }

pub broadcast proof fn ax_cat_none_l(b: Lang) ensures #[trigger] l_cat(l_none(), b) == l_none() { assert(l_cat(l_none(), b) =~= l_none()); }
pub broadcast proof fn ax_cat_none_r(a: Lang) ensures #[trigger] l_cat(a, l_none()) == l_none() { assert(l_cat(a, l_none()) =~= l_none()); }
pub broadcast proof fn ax_inter_none_l(b: Lang) ensures #[trigger] l_inter(l_none(), b) == l_none() { assert(l_inter(l_none(), b) =~= l_none()); }
pub broadcast proof fn ax_inter_none_r(a: Lang) ensures #[trigger] l_inter(a, l_none()) == l_none() { assert(l_inter(a, l_none()) =~= l_none()); }
pub broadcast proof fn ax_aft_none_l(b: Lang) ensures #[trigger] l_aft(l_none(), b) == l_none() { assert(l_aft(l_none(), b) =~= l_none()); }
pub broadcast proof fn ax_aft_none_r(a: Lang) ensures #[trigger] l_aft(a, l_none()) == l_none() { assert(l_aft(a, l_none()) =~= l_none()); }

pub open spec fn flat(a: Lang) -> bool { forall|st: Stack| #[trigger] a(st) ==> st.len() == 1 }

pub proof fn one_eta(st: Stack) requires st.len() == 1 ensures st == one(st[0].attrs, st[0].ch) { assert(st =~= one(st[0].attrs, st[0].ch)); }

pub broadcast proof fn ax_cat_eps_l(b: Lang) requires flat(b) ensures #[trigger] l_cat(l_eps(), b) == b {
    assert forall|st: Stack| #[trigger] l_cat(l_eps(), b)(st) == b(st) by {
        if cat_m(l_eps(), b, st) {
            let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(l_eps(), b, st, a1, a2, k);
            shuf_left_nil(a1, a2, st[0].attrs);
            assert(st[0].ch.skip(k) =~= st[0].ch);
            one_eta(st);
        }
        if b(st) {
            shuf_id(st[0].attrs);
            assert(st[0].ch.skip(0) =~= st[0].ch);
            one_eta(st);
            assert(cat_w(l_eps(), b, st, seq![], st[0].attrs, 0));
        }
    }
    lang_ext(l_cat(l_eps(), b), b);
}
pub broadcast proof fn ax_cat_eps_r(a: Lang) requires flat(a) ensures #[trigger] l_cat(a, l_eps()) == a {
    assert forall|st: Stack| #[trigger] l_cat(a, l_eps())(st) == a(st) by {
        if cat_m(a, l_eps(), st) {
            let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(a, l_eps(), st, a1, a2, k);
            shuf_sym(a1, a2, st[0].attrs);
            shuf_left_nil(a2, a1, st[0].attrs);
            assert(st[0].ch.take(k) =~= st[0].ch);
            one_eta(st);
        }
        if a(st) {
            shuf_id(st[0].attrs);
            let n = st[0].ch.len() as int;
            assert(st[0].ch.take(n) =~= st[0].ch);
            one_eta(st);
            assert(cat_w(a, l_eps(), st, st[0].attrs, seq![], n));
        }
    }
    lang_ext(l_cat(a, l_eps()), a);
}
pub broadcast proof fn ax_inter_eps_l(b: Lang) requires flat(b) ensures #[trigger] l_inter(l_eps(), b) == b {
    assert forall|st: Stack| #[trigger] l_inter(l_eps(), b)(st) == b(st) by {
        if inter_m(l_eps(), b, st) {
            let (a1, a2, w1, w2) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, w1: Seq<Sym>, w2: Seq<Sym>| inter_w(l_eps(), b, st, a1, a2, w1, w2);
            shuf_left_nil(a1, a2, st[0].attrs);
            shuf_left_nil(w1, w2, st[0].ch);
            one_eta(st);
        }
        if b(st) {
            shuf_id(st[0].attrs);
            shuf_id(st[0].ch);
            one_eta(st);
            assert(inter_w(l_eps(), b, st, seq![], st[0].attrs, seq![], st[0].ch));
        }
    }
    lang_ext(l_inter(l_eps(), b), b);
}
pub broadcast proof fn ax_inter_comm(a: Lang, b: Lang) ensures #[trigger] l_inter(a, b) == l_inter(b, a) {
    assert forall|st: Stack| #[trigger] l_inter(a, b)(st) == l_inter(b, a)(st) by {
        if l_inter(a, b)(st) { inter_comm1(a, b, st); } if l_inter(b, a)(st) { inter_comm1(b, a, st); }
    }
    lang_ext(l_inter(a, b), l_inter(b, a));
}
proof fn inter_comm1(a: Lang, b: Lang, st: Stack) requires l_inter(a,b)(st) ensures l_inter(b,a)(st) {
    let (a1, a2, w1, w2) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, w1: Seq<Sym>, w2: Seq<Sym>| inter_w(a, b, st, a1, a2, w1, w2);
    shuf_sym(a1, a2, st[0].attrs); shuf_sym(w1, w2, st[0].ch);
    assert(inter_w(b, a, st, a2, a1, w2, w1));
}
pub broadcast proof fn ax_inter_eps_r(a: Lang) requires flat(a) ensures #[trigger] l_inter(a, l_eps()) == a {
    ax_inter_comm(a, l_eps()); ax_inter_eps_l(a);
}
// ---------------------------------------------------------------- nullability
pub broadcast proof fn nul_none() ensures !#[trigger] nullable(l_none()) {}
pub broadcast proof fn nul_eps() ensures #[trigger] nullable(l_eps()) {}
pub broadcast proof fn nul_text() ensures #[trigger] nullable(l_text()) {}
pub broadcast proof fn nul_union(a: Lang, b: Lang) ensures #[trigger] nullable(l_union(a, b)) == (nullable(a) || nullable(b)) {}
pub broadcast proof fn nul_aft(a: Lang, b: Lang) ensures !#[trigger] nullable(l_aft(a, b)) {}
pub broadcast proof fn nul_cat(a: Lang, b: Lang) ensures #[trigger] nullable(l_cat(a, b)) == (nullable(a) && nullable(b)) {
    let st = nothing();
    if cat_m(a, b, st) {
        let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(a, b, st, a1, a2, k);
        assert(one(a1, st[0].ch.take(k)) =~= nothing()) by { assert(a1 =~= seq![]); assert(st[0].ch.take(k) =~= seq![]); }
        assert(one(a2, st[0].ch.skip(k)) =~= nothing()) by { assert(a2 =~= seq![]); assert(st[0].ch.skip(k) =~= seq![]); }
    }
    if nullable(a) && nullable(b) {
        assert(st[0].ch.take(0) =~= seq![]); assert(st[0].ch.skip(0) =~= seq![]);
        assert(cat_w(a, b, st, seq![], seq![], 0));
    }
}
pub broadcast proof fn nul_inter(a: Lang, b: Lang) ensures #[trigger] nullable(l_inter(a, b)) == (nullable(a) && nullable(b)) {
    let st = nothing();
    if inter_m(a, b, st) {
        let (a1, a2, w1, w2) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, w1: Seq<Sym>, w2: Seq<Sym>| inter_w(a, b, st, a1, a2, w1, w2);
        assert(one(a1, w1) =~= nothing()) by { assert(a1 =~= seq![]); assert(w1 =~= seq![]); }
        assert(one(a2, w2) =~= nothing()) by { assert(a2 =~= seq![]); assert(w2 =~= seq![]); }
    }
    if nullable(a) && nullable(b) {
        assert(inter_w(a, b, st, seq![], seq![], seq![], seq![]));
    }
}
proof fn nul_rep(a: Lang, n: nat) requires nullable(l_rep(a, n)) ensures nullable(a) decreases n {
    if n > 1 { nul_cat(a, l_rep(a, (n - 1) as nat)); }
}
pub broadcast proof fn nul_plus(a: Lang) ensures #[trigger] nullable(l_plus(a)) == nullable(a) {
    if nullable(l_plus(a)) { let n = choose|n: nat| #[trigger] l_rep(a, n)(nothing()); nul_rep(a, n); }
    if nullable(a) { assert(l_rep(a, 1)(nothing())); }
}
// ---------------------------------------------------------------- words of attribute-free contents
pub open spec fn m0(a: Lang, w: Seq<Sym>) -> bool { a(one(seq![], w)) }
pub proof fn flat_one(st: Stack) requires flat0(st), st.len() == 1 ensures st == one(seq![], st[0].ch) {
    assert(st[0].attrs =~= seq![]); assert(st =~= one(seq![], st[0].ch));
}
pub open spec fn cons(x: Sym, w: Seq<Sym>) -> Seq<Sym> { seq![x] + w }
pub proof fn push_one(w: Seq<Sym>, x: Sym) ensures push_ch(one(seq![], w), x) == one(seq![], cons(x, w)) {
    assert(push_ch(one(seq![], w), x) =~= one(seq![], cons(x, w)));
}
pub open spec fn cat_k(a: Lang, b: Lang, w: Seq<Sym>, k: int) -> bool { 0 <= k <= w.len() && m0(a, w.take(k)) && m0(b, w.skip(k)) }
pub proof fn cat0(a: Lang, b: Lang, w: Seq<Sym>)
    ensures m0(l_cat(a, b), w) <==> exists|k: int| cat_k(a, b, w, k)
{
    let st = one(seq![], w);
    if cat_m(a, b, st) {
        let (a1, a2, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(a, b, st, a1, a2, k);
        assert(a1 =~= seq![]); assert(a2 =~= seq![]);
        assert(cat_k(a, b, w, k));
    }
    if exists|k: int| cat_k(a, b, w, k) {
        let k = choose|k: int| cat_k(a, b, w, k);
        assert(cat_w(a, b, st, seq![], seq![], k));
    }
}
pub proof fn cat0_intro(a: Lang, b: Lang, u: Seq<Sym>, v: Seq<Sym>)
    requires m0(a, u), m0(b, v)
    ensures m0(l_cat(a, b), u + v)
{
    cat0(a, b, u + v);
    assert((u + v).take(u.len() as int) =~= u); assert((u + v).skip(u.len() as int) =~= v);
    assert(cat_k(a, b, u + v, u.len() as int));
}
// elimination: a word of a concatenation splits
pub proof fn cat0_elim(a: Lang, b: Lang, w: Seq<Sym>) -> (r: (Seq<Sym>, Seq<Sym>))
    requires m0(l_cat(a, b), w)
    ensures w == r.0 + r.1, m0(a, r.0), m0(b, r.1)
{
    cat0(a, b, w);
    let k = choose|k: int| cat_k(a, b, w, k);
    assert(w =~= w.take(k) + w.skip(k));
    (w.take(k), w.skip(k))
}
pub proof fn cat0_head(a: Lang, b: Lang, x: Sym, w: Seq<Sym>) -> (r: (Seq<Sym>, Seq<Sym>))
    requires m0(l_cat(a, b), cons(x, w))
    ensures (w == r.0 + r.1 && m0(a, cons(x, r.0)) && m0(b, r.1)) || (nullable(a) && m0(b, cons(x, w)))
{
    let (u, v) = cat0_elim(a, b, cons(x, w));
    if u.len() == 0 { assert(u =~= seq![]); assert(v =~= cons(x, w)); (u, v) }
    else {
        let u1 = u.drop_first();
        assert(u[0] == cons(x, w)[0]);
        assert(u =~= cons(x, u1));
        assert(w =~= u1 + v) by { assert(cons(x, w) =~= cons(x, u1 + v)); assert(w =~= cons(x, w).drop_first()); assert(u1 + v =~= cons(x, u1 + v).drop_first()); }
        (u1, v)
    }
}
pub open spec fn inter_k(a: Lang, b: Lang, w: Seq<Sym>, w1: Seq<Sym>, w2: Seq<Sym>) -> bool { shuf(w1, w2, w) && m0(a, w1) && m0(b, w2) }
pub proof fn inter0(a: Lang, b: Lang, w: Seq<Sym>)
    ensures m0(l_inter(a, b), w) <==> exists|w1: Seq<Sym>, w2: Seq<Sym>| inter_k(a, b, w, w1, w2)
{
    let st = one(seq![], w);
    if inter_m(a, b, st) {
        let (a1, a2, w1, w2) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, w1: Seq<Sym>, w2: Seq<Sym>| inter_w(a, b, st, a1, a2, w1, w2);
        assert(a1 =~= seq![]); assert(a2 =~= seq![]);
        assert(inter_k(a, b, w, w1, w2));
    }
    if exists|w1: Seq<Sym>, w2: Seq<Sym>| inter_k(a, b, w, w1, w2) {
        let (w1, w2) = choose|w1: Seq<Sym>, w2: Seq<Sym>| inter_k(a, b, w, w1, w2);
        assert(inter_w(a, b, st, seq![], seq![], w1, w2));
    }
}
pub proof fn inter0_intro(a: Lang, b: Lang, w: Seq<Sym>, w1: Seq<Sym>, w2: Seq<Sym>)
    requires shuf(w1, w2, w), m0(a, w1), m0(b, w2)
    ensures m0(l_inter(a, b), w)
{ inter0(a, b, w); assert(inter_k(a, b, w, w1, w2)); }
pub proof fn inter0_elim(a: Lang, b: Lang, w: Seq<Sym>) -> (r: (Seq<Sym>, Seq<Sym>))
    requires m0(l_inter(a, b), w)
    ensures shuf(r.0, r.1, w), m0(a, r.0), m0(b, r.1)
{ inter0(a, b, w); let (w1, w2) = choose|w1: Seq<Sym>, w2: Seq<Sym>| inter_k(a, b, w, w1, w2); (w1, w2) }
// head of an interleaving
pub proof fn inter0_head(a: Lang, b: Lang, x: Sym, w: Seq<Sym>) -> (r: (bool, Seq<Sym>, Seq<Sym>))
    requires m0(l_inter(a, b), cons(x, w))
    ensures shuf(r.1, r.2, w), r.0 ==> m0(a, cons(x, r.1)) && m0(b, r.2), !r.0 ==> m0(a, r.1) && m0(b, cons(x, r.2))
{
    let (w1, w2) = inter0_elim(a, b, cons(x, w));
    assert(cons(x, w).drop_first() =~= w);
    if w1.len() > 0 && w1[0] == x && shuf(w1.drop_first(), w2, w) {
        assert(w1 =~= cons(x, w1.drop_first()));
        (true, w1.drop_first(), w2)
    } else {
        assert(w2 =~= cons(x, w2.drop_first()));
        (false, w1, w2.drop_first())
    }
}
// one-or-more
pub proof fn rep_flat(a: Lang, n: nat, st: Stack) requires l_rep(a, n)(st) ensures st.len() == 1, n >= 1 { }
pub proof fn plus_flat(a: Lang) ensures flat(l_plus(a)) {
    assert forall|st: Stack| #[trigger] l_plus(a)(st) implies st.len() == 1 by { let n = choose|n: nat| #[trigger] l_rep(a, n)(st); rep_flat(a, n, st); }
}
pub open spec fn l_star(a: Lang) -> Lang { l_union(l_plus(a), l_eps()) }
pub proof fn rep_head(a: Lang, n: nat, x: Sym, w: Seq<Sym>) -> (r: (Seq<Sym>, Seq<Sym>))
    requires m0(l_rep(a, n), cons(x, w))
    ensures w == r.0 + r.1, m0(a, cons(x, r.0)), m0(l_star(a), r.1)
    decreases n
{
    if n == 1 { assert(w + seq![] =~= w); (w, seq![]) }
    else {
        let r = cat0_head(a, l_rep(a, (n - 1) as nat), x, w);
        if w == r.0 + r.1 && m0(a, cons(x, r.0)) && m0(l_rep(a, (n - 1) as nat), r.1) {
            assert(l_plus(a)(one(seq![], r.1)));
            r
        } else { rep_head(a, (n - 1) as nat, x, w) }
    }
}
pub proof fn plus_head(a: Lang, x: Sym, w: Seq<Sym>) -> (r: (Seq<Sym>, Seq<Sym>))
    requires m0(l_plus(a), cons(x, w))
    ensures w == r.0 + r.1, m0(a, cons(x, r.0)), m0(l_star(a), r.1)
{
    let n = choose|n: nat| #[trigger] l_rep(a, n)(one(seq![], cons(x, w)));
    rep_head(a, n, x, w)
}
pub proof fn plus_cons(a: Lang, u: Seq<Sym>, v: Seq<Sym>)
    requires m0(a, u), m0(l_star(a), v)
    ensures m0(l_plus(a), u + v)
{
    if m0(l_plus(a), v) {
        let n = choose|n: nat| #[trigger] l_rep(a, n)(one(seq![], v));
        rep_flat(a, n, one(seq![], v));
        cat0_intro(a, l_rep(a, n), u, v);
        assert(l_rep(a, (n + 1) as nat)(one(seq![], u + v)));
    } else {
        assert(v =~= seq![]); assert(u + v =~= u);
        assert(l_rep(a, 1)(one(seq![], u)));
    }
}
// ---------------------------------------------------------------- associativity
pub proof fn shuf_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, ab: Seq<T>, w: Seq<T>) -> (bc: Seq<T>)
    requires shuf(a, b, ab), shuf(ab, c, w)
    ensures shuf(b, c, bc), shuf(a, bc, w)
    decreases w.len()
{
    if w.len() == 0 { Seq::empty() }
    else {
        let wt = w.drop_first();
        if ab.len() > 0 && ab[0] == w[0] && shuf(ab.drop_first(), c, wt) {
            if a.len() > 0 && a[0] == ab[0] && shuf(a.drop_first(), b, ab.drop_first()) {
                shuf_assoc(a.drop_first(), b, c, ab.drop_first(), wt)
            } else {
                let t = shuf_assoc(a, b.drop_first(), c, ab.drop_first(), wt);
                let bc = seq![b[0]] + t;
                assert(bc.drop_first() =~= t);
                bc
            }
        } else {
            let t = shuf_assoc(a, b, c.drop_first(), ab, wt);
            let bc = seq![c[0]] + t;
            assert(bc.drop_first() =~= t);
            bc
        }
    }
}
pub broadcast proof fn ax_union_assoc(a: Lang, b: Lang, c: Lang) ensures #[trigger] l_union(l_union(a, b), c) == l_union(a, l_union(b, c)) { assert(l_union(l_union(a, b), c) =~= l_union(a, l_union(b, c))); }
proof fn cat_assoc1(a: Lang, b: Lang, c: Lang, st: Stack)
    requires cat_m(l_cat(a, b), c, st)
    ensures cat_m(a, l_cat(b, c), st)
{
    let (a12, a3, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(l_cat(a, b), c, st, a1, a2, k);
    let s1 = one(a12, st[0].ch.take(k));
    assert(cat_m(a, b, s1));
    let (a1, a2, j) = choose|x: Seq<AttrV>, y: Seq<AttrV>, j: int| cat_w(a, b, s1, x, y, j);
    let a23 = shuf_assoc(a1, a2, a3, a12, st[0].attrs);
    let w = st[0].ch;
    assert(w.take(k).take(j) =~= w.take(j));
    let s2 = one(a23, w.skip(j));
    assert(w.skip(j).take(k - j) =~= w.take(k).skip(j));
    assert(w.skip(j).skip(k - j) =~= w.skip(k));
    assert(cat_w(b, c, s2, a2, a3, k - j));
    assert(cat_w(a, l_cat(b, c), st, a1, a23, j));
}
proof fn cat_assoc2(a: Lang, b: Lang, c: Lang, st: Stack)
    requires cat_m(a, l_cat(b, c), st)
    ensures cat_m(l_cat(a, b), c, st)
{
    let (a1, a23, j) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(a, l_cat(b, c), st, a1, a2, k);
    let w = st[0].ch;
    let s2 = one(a23, w.skip(j));
    assert(cat_m(b, c, s2));
    let (a2, a3, i) = choose|x: Seq<AttrV>, y: Seq<AttrV>, i: int| cat_w(b, c, s2, x, y, i);
    shuf_sym(a1, a23, st[0].attrs);
    shuf_sym(a2, a3, a23);
    let a21 = shuf_assoc(a3, a2, a1, a23, st[0].attrs);
    shuf_sym(a2, a1, a21);
    shuf_sym(a3, a21, st[0].attrs);
    let k = j + i;
    assert(w.take(k).take(j) =~= w.take(j));
    assert(w.skip(j).take(i) =~= w.take(k).skip(j));
    assert(w.skip(j).skip(i) =~= w.skip(k));
    let s1 = one(a21, w.take(k));
    assert(cat_w(a, b, s1, a1, a2, j));
    assert(cat_w(l_cat(a, b), c, st, a21, a3, k));
}
pub broadcast proof fn ax_cat_assoc(a: Lang, b: Lang, c: Lang) ensures #[trigger] l_cat(l_cat(a, b), c) == l_cat(a, l_cat(b, c)) {
    assert forall|st: Stack| #[trigger] l_cat(l_cat(a, b), c)(st) == l_cat(a, l_cat(b, c))(st) by {
        if cat_m(l_cat(a, b), c, st) { cat_assoc1(a, b, c, st); }
        if cat_m(a, l_cat(b, c), st) { cat_assoc2(a, b, c, st); }
    }
    lang_ext(l_cat(l_cat(a, b), c), l_cat(a, l_cat(b, c)));
}
proof fn inter_assoc1(a: Lang, b: Lang, c: Lang, st: Stack)
    requires inter_m(l_inter(a, b), c, st)
    ensures inter_m(a, l_inter(b, c), st)
{
    let (a12, a3, w12, w3) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, w1: Seq<Sym>, w2: Seq<Sym>| inter_w(l_inter(a, b), c, st, a1, a2, w1, w2);
    let s1 = one(a12, w12);
    assert(inter_m(a, b, s1));
    let (a1, a2, w1, w2) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, w1: Seq<Sym>, w2: Seq<Sym>| inter_w(a, b, s1, a1, a2, w1, w2);
    let a23 = shuf_assoc(a1, a2, a3, a12, st[0].attrs);
    let w23 = shuf_assoc(w1, w2, w3, w12, st[0].ch);
    assert(inter_w(b, c, one(a23, w23), a2, a3, w2, w3));
    assert(inter_w(a, l_inter(b, c), st, a1, a23, w1, w23));
}
pub broadcast proof fn ax_inter_assoc(a: Lang, b: Lang, c: Lang) ensures #[trigger] l_inter(l_inter(a, b), c) == l_inter(a, l_inter(b, c)) {
    assert forall|st: Stack| #[trigger] l_inter(l_inter(a, b), c)(st) == l_inter(a, l_inter(b, c))(st) by {
        if inter_m(l_inter(a, b), c, st) { inter_assoc1(a, b, c, st); }
        if inter_m(a, l_inter(b, c), st) {
            let bc = l_inter(b, c); let cb = l_inter(c, b); let ba = l_inter(b, a); let ab = l_inter(a, b);
            ax_inter_comm(b, c); assert(bc == cb);
            inter_comm1(a, bc, st);
            assert(l_inter(cb, a)(st));
            inter_assoc1(c, b, a, st);
            ax_inter_comm(b, a); assert(ba == ab);
            assert(l_inter(c, ab)(st));
            inter_comm1(c, ab, st);
        }
    }
    lang_ext(l_inter(l_inter(a, b), c), l_inter(a, l_inter(b, c)));
}
// ---------------------------------------------------------------- n-ary patterns: the binary form of the members, in order
pub ghost enum Op { Choice, Group, Interleave }
pub open spec fn l_op(o: Op, a: Lang, b: Lang) -> Lang { match o { Op::Choice => l_union(a, b), Op::Group => l_cat(a, b), Op::Interleave => l_inter(a, b) } }
pub open spec fn l_unit(o: Op) -> Lang { match o { Op::Choice => l_none(), _ => l_eps() } }
#[verifier::opaque]
pub open spec fn fold(o: Op, s: Seq<Lang>) -> Lang decreases s.len() { if s.len() == 0 { l_unit(o) } else { l_op(o, s[0], fold(o, s.drop_first())) } }
pub open spec fn flats(s: Seq<Lang>) -> bool { forall|i: int| 0 <= i < s.len() ==> flat(#[trigger] s[i]) }
pub proof fn flat_op(o: Op, a: Lang, b: Lang) requires flat(a), flat(b) ensures flat(l_op(o, a, b)) { }
pub proof fn fold_flat(o: Op, s: Seq<Lang>) requires flats(s) ensures flat(fold(o, s)) decreases s.len() {
    reveal_with_fuel(fold, 1);
    if s.len() > 0 { let t = s.drop_first(); assert forall|i: int| 0 <= i < t.len() implies flat(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } fold_flat(o, t); flat_op(o, s[0], fold(o, t)); }
}
pub proof fn op_unit(o: Op, a: Lang) requires flat(a) ensures l_op(o, a, l_unit(o)) == a, l_op(o, l_unit(o), a) == a {
    match o { Op::Choice => { ax_union_none_l(a); ax_union_none_r(a); } Op::Group => { ax_cat_eps_l(a); ax_cat_eps_r(a); } Op::Interleave => { ax_inter_eps_l(a); ax_inter_eps_r(a); } }
}
pub proof fn op_assoc(o: Op, a: Lang, b: Lang, c: Lang) ensures l_op(o, l_op(o, a, b), c) == l_op(o, a, l_op(o, b, c)) {
    match o { Op::Choice => { ax_union_assoc(a, b, c); } Op::Group => { ax_cat_assoc(a, b, c); } Op::Interleave => { ax_inter_assoc(a, b, c); } }
}
pub proof fn op_comm(o: Op, a: Lang, b: Lang) requires !(o is Group) ensures l_op(o, a, b) == l_op(o, b, a) {
    match o { Op::Choice => { ax_union_comm(a, b); } Op::Group => { } Op::Interleave => { ax_inter_comm(a, b); } }
}
pub proof fn fold_add(o: Op, s: Seq<Lang>, t: Seq<Lang>) requires flats(s), flats(t) ensures fold(o, s + t) == l_op(o, fold(o, s), fold(o, t)) decreases s.len() {
    reveal_with_fuel(fold, 1);
    fold_flat(o, t); fold_flat(o, s);
    if s.len() == 0 { assert(s + t =~= t); op_unit(o, fold(o, t)); }
    else {
        let r = s.drop_first();
        assert forall|i: int| 0 <= i < r.len() implies flat(#[trigger] r[i]) by { assert(r[i] == s[i + 1]); }
        assert((s + t).drop_first() =~= r + t); assert((s + t)[0] == s[0]);
        fold_add(o, r, t);
        op_assoc(o, s[0], fold(o, r), fold(o, t));
    }
}
pub proof fn fold_one(o: Op, a: Lang) requires flat(a) ensures fold(o, seq![a]) == a {
    let s = seq![a];
    let t = s.drop_first();
    assert(t.len() == 0 && s[0] == a && s.len() == 1);
    assert(fold(o, t) == l_unit(o)) by { reveal_with_fuel(fold, 1); }
    assert(fold(o, s) == l_op(o, a, l_unit(o))) by { reveal_with_fuel(fold, 1); }
    op_unit(o, a);
}
pub proof fn fold_two(o: Op, a: Lang, b: Lang) requires flat(a), flat(b) ensures fold(o, seq![a, b]) == l_op(o, a, b) {
    let s = seq![a, b];
    assert(s.drop_first() =~= seq![b]);
    fold_one(o, b);
    assert(fold(o, s) == l_op(o, a, fold(o, seq![b]))) by { reveal_with_fuel(fold, 1); }
}
// ---------------------------------------------------------------- the leaves
pub type NamePred = spec_fn(Name) -> bool;
pub type TextPred = spec_fn(Seq<char>) -> bool;
// one child element, with a name of the class and content in the language
pub open spec fn l_elem(nc: NamePred, a: Lang) -> Lang {
    |st: Stack| st.len() == 1 && st[0].attrs.len() == 0 && st[0].ch.len() == 1 && (st[0].ch[0] matches Sym::Child(n, c) && nc(n) && a(seq![c]))
}
// the language of a string matched by a pattern (9.3.3): as text, or as nothing when it is all white space
pub open spec fn val_in(a: Lang, v: Seq<char>) -> bool { a(one(seq![], seq![Sym::Text(v)])) || (ws(v) && nullable(a)) }
pub open spec fn l_att(nc: NamePred, a: Lang) -> Lang {
    |st: Stack| st.len() == 1 && st[0].attrs.len() == 1 && st[0].ch.len() == 0 && nc(st[0].attrs[0].name) && val_in(a, st[0].attrs[0].value)
}
pub open spec fn l_data(p: TextPred) -> Lang {
    |st: Stack| st.len() == 1 && st[0].attrs.len() == 0 && st[0].ch.len() == 1 && (st[0].ch[0] matches Sym::Text(s) && p(s))
}
// the white space separated words of a string
pub open spec fn word_end(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 || xml_ws(s[0]) { 0 } else { 1 + word_end(s.drop_first()) } }
pub open spec fn words(s: Seq<char>) -> Seq<Sym> decreases s.len() {
    if s.len() == 0 { seq![] } else if xml_ws(s[0]) { words(s.drop_first()) } else { let k = word_end(s); if k > s.len() || k == 0 { seq![] } else { seq![Sym::Text(s.take(k as int))] + words(s.skip(k as int)) } }
}
// a list's text is that of all its runs
pub open spec fn words_of(ch: Seq<Sym>) -> Seq<Sym> decreases ch.len() {
    if ch.len() == 0 { seq![] } else { (match ch[0] { Sym::Text(s) => words(s), _ => seq![] }) + words_of(ch.drop_first()) }
}
pub open spec fn l_list(a: Lang) -> Lang {
    |st: Stack| st.len() == 1 && st[0].attrs.len() == 0 && st[0].ch.len() > 0 && texts(st[0].ch) && a(one(seq![], words_of(st[0].ch)))
}
pub open spec fn l_opt(a: Lang) -> Lang { l_union(a, l_eps()) }
pub open spec fn l_zom(a: Lang) -> Lang { l_union(l_plus(a), l_eps()) }
pub open spec fn l_mixed(a: Lang) -> Lang { l_inter(a, l_text()) }
pub open spec fn l_single(a: Lang) -> Lang { |st: Stack| st.len() == 1 && a(st) }
