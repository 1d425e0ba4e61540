// ---------------------------------------------------------------- associativity
pub proof fn shuf_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, ab: Seq<T>, w: Seq<T>) -> (bc: Seq<T>)
    requires shuf(a, b, ab), shuf(ab, c, w)
    ensures shuf(b, c, bc), shuf(a, bc, w)
    decreases w.len()
{
    if w.len() == 0 { Seq::empty() }
    else {
        let wt = w.drop_first();
        if ab.len() > 0 && ab[0] == w[0] && shuf(ab.drop_first(), c, wt) {
            if a.len() > 0 && a[0] == ab[0] && shuf(a.drop_first(), b, ab.drop_first()) {
                shuf_assoc(a.drop_first(), b, c, ab.drop_first(), wt)
            } else {
                let t = shuf_assoc(a, b.drop_first(), c, ab.drop_first(), wt);
                let bc = seq![b[0]] + t;
                assert(bc.drop_first() =~= t);
                bc
            }
        } else {
            let t = shuf_assoc(a, b, c.drop_first(), ab, wt);
            let bc = seq![c[0]] + t;
            assert(bc.drop_first() =~= t);
            bc
        }
    }
}
pub broadcast proof fn ax_union_assoc(a: Lang, b: Lang, c: Lang) ensures #[trigger] l_union(l_union(a, b), c) == l_union(a, l_union(b, c)) { assert(l_union(l_union(a, b), c) =~= l_union(a, l_union(b, c))); }
proof fn cat_assoc1(a: Lang, b: Lang, c: Lang, st: Stack)
    requires cat_m(l_cat(a, b), c, st)
    ensures cat_m(a, l_cat(b, c), st)
{
    let (a12, a3, k) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(l_cat(a, b), c, st, a1, a2, k);
    let s1 = one(a12, st[0].ch.take(k));
    assert(cat_m(a, b, s1));
    let (a1, a2, j) = choose|x: Seq<AttrV>, y: Seq<AttrV>, j: int| cat_w(a, b, s1, x, y, j);
    let a23 = shuf_assoc(a1, a2, a3, a12, st[0].attrs);
    let w = st[0].ch;
    assert(w.take(k).take(j) =~= w.take(j));
    let s2 = one(a23, w.skip(j));
    assert(w.skip(j).take(k - j) =~= w.take(k).skip(j));
    assert(w.skip(j).skip(k - j) =~= w.skip(k));
    assert(cat_w(b, c, s2, a2, a3, k - j));
    assert(cat_w(a, l_cat(b, c), st, a1, a23, j));
}
proof fn cat_assoc2(a: Lang, b: Lang, c: Lang, st: Stack)
    requires cat_m(a, l_cat(b, c), st)
    ensures cat_m(l_cat(a, b), c, st)
{
    let (a1, a23, j) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, k: int| cat_w(a, l_cat(b, c), st, a1, a2, k);
    let w = st[0].ch;
    let s2 = one(a23, w.skip(j));
    assert(cat_m(b, c, s2));
    let (a2, a3, i) = choose|x: Seq<AttrV>, y: Seq<AttrV>, i: int| cat_w(b, c, s2, x, y, i);
    shuf_sym(a1, a23, st[0].attrs);
    shuf_sym(a2, a3, a23);
    let a21 = shuf_assoc(a3, a2, a1, a23, st[0].attrs);
    shuf_sym(a2, a1, a21);
    shuf_sym(a3, a21, st[0].attrs);
    let k = j + i;
    assert(w.take(k).take(j) =~= w.take(j));
    assert(w.skip(j).take(i) =~= w.take(k).skip(j));
    assert(w.skip(j).skip(i) =~= w.skip(k));
    let s1 = one(a21, w.take(k));
    assert(cat_w(a, b, s1, a1, a2, j));
    assert(cat_w(l_cat(a, b), c, st, a21, a3, k));
}
pub broadcast proof fn ax_cat_assoc(a: Lang, b: Lang, c: Lang) ensures #[trigger] l_cat(l_cat(a, b), c) == l_cat(a, l_cat(b, c)) {
    assert forall|st: Stack| #[trigger] l_cat(l_cat(a, b), c)(st) == l_cat(a, l_cat(b, c))(st) by {
        if cat_m(l_cat(a, b), c, st) { cat_assoc1(a, b, c, st); }
        if cat_m(a, l_cat(b, c), st) { cat_assoc2(a, b, c, st); }
    }
    lang_ext(l_cat(l_cat(a, b), c), l_cat(a, l_cat(b, c)));
}
proof fn inter_assoc1(a: Lang, b: Lang, c: Lang, st: Stack)
    requires inter_m(l_inter(a, b), c, st)
    ensures inter_m(a, l_inter(b, c), st)
{
    let (a12, a3, w12, w3) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, w1: Seq<Sym>, w2: Seq<Sym>| inter_w(l_inter(a, b), c, st, a1, a2, w1, w2);
    let s1 = one(a12, w12);
    assert(inter_m(a, b, s1));
    let (a1, a2, w1, w2) = choose|a1: Seq<AttrV>, a2: Seq<AttrV>, w1: Seq<Sym>, w2: Seq<Sym>| inter_w(a, b, s1, a1, a2, w1, w2);
    let a23 = shuf_assoc(a1, a2, a3, a12, st[0].attrs);
    let w23 = shuf_assoc(w1, w2, w3, w12, st[0].ch);
    assert(inter_w(b, c, one(a23, w23), a2, a3, w2, w3));
    assert(inter_w(a, l_inter(b, c), st, a1, a23, w1, w23));
}
pub broadcast proof fn ax_inter_assoc(a: Lang, b: Lang, c: Lang) ensures #[trigger] l_inter(l_inter(a, b), c) == l_inter(a, l_inter(b, c)) {
    assert forall|st: Stack| #[trigger] l_inter(l_inter(a, b), c)(st) == l_inter(a, l_inter(b, c))(st) by {
        if inter_m(l_inter(a, b), c, st) { inter_assoc1(a, b, c, st); }
        if inter_m(a, l_inter(b, c), st) {
            let bc = l_inter(b, c); let cb = l_inter(c, b); let ba = l_inter(b, a); let ab = l_inter(a, b);
            ax_inter_comm(b, c); assert(bc == cb);
            inter_comm1(a, bc, st);
            assert(l_inter(cb, a)(st));
            inter_assoc1(c, b, a, st);
            ax_inter_comm(b, a); assert(ba == ab);
            assert(l_inter(c, ab)(st));
            inter_comm1(c, ab, st);
        }
    }
    lang_ext(l_inter(l_inter(a, b), c), l_inter(a, l_inter(b, c)));
}
// ---------------------------------------------------------------- n-ary patterns: the binary form of the members, in order
pub ghost enum Op { Choice, Group, Interleave }
pub open spec fn l_op(o: Op, a: Lang, b: Lang) -> Lang { match o { Op::Choice => l_union(a, b), Op::Group => l_cat(a, b), Op::Interleave => l_inter(a, b) } }
pub open spec fn l_unit(o: Op) -> Lang { match o { Op::Choice => l_none(), _ => l_eps() } }
#[verifier::opaque]
pub open spec fn fold(o: Op, s: Seq<Lang>) -> Lang decreases s.len() { if s.len() == 0 { l_unit(o) } else { l_op(o, s[0], fold(o, s.drop_first())) } }
pub open spec fn flats(s: Seq<Lang>) -> bool { forall|i: int| 0 <= i < s.len() ==> flat(#[trigger] s[i]) }
pub proof fn flat_op(o: Op, a: Lang, b: Lang) requires flat(a), flat(b) ensures flat(l_op(o, a, b)) { }
pub proof fn fold_flat(o: Op, s: Seq<Lang>) requires flats(s) ensures flat(fold(o, s)) decreases s.len() {
    reveal_with_fuel(fold, 1);
    if s.len() > 0 { let t = s.drop_first(); assert forall|i: int| 0 <= i < t.len() implies flat(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } fold_flat(o, t); flat_op(o, s[0], fold(o, t)); }
}
pub proof fn op_unit(o: Op, a: Lang) requires flat(a) ensures l_op(o, a, l_unit(o)) == a, l_op(o, l_unit(o), a) == a {
    match o { Op::Choice => { ax_union_none_l(a); ax_union_none_r(a); } Op::Group => { ax_cat_eps_l(a); ax_cat_eps_r(a); } Op::Interleave => { ax_inter_eps_l(a); ax_inter_eps_r(a); } }
}
pub proof fn op_assoc(o: Op, a: Lang, b: Lang, c: Lang) ensures l_op(o, l_op(o, a, b), c) == l_op(o, a, l_op(o, b, c)) {
    match o { Op::Choice => { ax_union_assoc(a, b, c); } Op::Group => { ax_cat_assoc(a, b, c); } Op::Interleave => { ax_inter_assoc(a, b, c); } }
}
pub proof fn op_comm(o: Op, a: Lang, b: Lang) requires !(o is Group) ensures l_op(o, a, b) == l_op(o, b, a) {
    match o { Op::Choice => { ax_union_comm(a, b); } Op::Group => { } Op::Interleave => { ax_inter_comm(a, b); } }
}
pub proof fn fold_add(o: Op, s: Seq<Lang>, t: Seq<Lang>) requires flats(s), flats(t) ensures fold(o, s + t) == l_op(o, fold(o, s), fold(o, t)) decreases s.len() {
    reveal_with_fuel(fold, 1);
    fold_flat(o, t); fold_flat(o, s);
    if s.len() == 0 { assert(s + t =~= t); op_unit(o, fold(o, t)); }
    else {
        let r = s.drop_first();
        assert forall|i: int| 0 <= i < r.len() implies flat(#[trigger] r[i]) by { assert(r[i] == s[i + 1]); }
        assert((s + t).drop_first() =~= r + t); assert((s + t)[0] == s[0]);
        fold_add(o, r, t);
        op_assoc(o, s[0], fold(o, r), fold(o, t));
    }
}
pub proof fn fold_one(o: Op, a: Lang) requires flat(a) ensures fold(o, seq![a]) == a {
    let s = seq![a];
    let t = s.drop_first();
    assert(t.len() == 0 && s[0] == a && s.len() == 1);
    assert(fold(o, t) == l_unit(o)) by { reveal_with_fuel(fold, 1); }
    assert(fold(o, s) == l_op(o, a, l_unit(o))) by { reveal_with_fuel(fold, 1); }
    op_unit(o, a);
}
pub proof fn fold_two(o: Op, a: Lang, b: Lang) requires flat(a), flat(b) ensures fold(o, seq![a, b]) == l_op(o, a, b) {
    let s = seq![a, b];
    assert(s.drop_first() =~= seq![b]);
    fold_one(o, b);
    assert(fold(o, s) == l_op(o, a, fold(o, seq![b]))) by { reveal_with_fuel(fold, 1); }
}
