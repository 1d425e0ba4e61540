// ---------------------------------------------------------------- text
pub open spec fn txt_sym(s: Seq<char>) -> Sym { Sym::Text(s) }
// td_rel for the attribute-free contents of one element
pub open spec fn td_at(a: Lang, s: Seq<char>, r: Lang, w: Seq<Sym>) -> bool {
    &&& (clean(w) && m0(a, cons(Sym::Text(s), w)) ==> m0(r, w))
    &&& (clean(w) && ws(s) && headok(w) && m0(a, w) ==> m0(r, w))
    &&& (m0(r, w) ==> m0(a, cons(Sym::Text(s), w)) || (ws(s) && m0(a, w)))
}
pub proof fn td_get(a: Lang, s: Seq<char>, r: Lang, w: Seq<Sym>) requires td_rel(a, s, r) ensures td_at(a, s, r, w) {
    reveal(td_rel);
    let st = one(seq![], w);
    push_one(w, Sym::Text(s));
    assert(flat0(st));
    assert(r(st) == m0(r, w));
    assert(push_ch(st, Sym::Text(s)) == one(seq![], cons(Sym::Text(s), w)));
}
pub proof fn td_intro(a: Lang, s: Seq<char>, r: Lang)
    requires flat(a), flat(r), forall|w: Seq<Sym>| td_at(a, s, r, w)
    ensures td_rel(a, s, r)
{
    reveal(td_rel);
    assert forall|st: Stack| #![trigger r(st)] #![trigger push_ch(st, Sym::Text(s))] flat0(st) implies {
        &&& (clean(st[0].ch) && a(push_ch(st, Sym::Text(s))) ==> r(st))
        &&& (clean(st[0].ch) && ws(s) && headok(st[0].ch) && a(st) ==> r(st))
        &&& (r(st) ==> a(push_ch(st, Sym::Text(s))) || (ws(s) && a(st)))
    } by {
        push_ch_flat(st, Sym::Text(s));
        if st.len() == 1 { flat_one(st); assert(td_at(a, s, r, st[0].ch)); }
    }
}
pub broadcast proof fn td_union(a: Lang, b: Lang, s: Seq<char>, ra: Lang, rb: Lang)
    requires #[trigger] td_rel(a, s, ra), #[trigger] td_rel(b, s, rb)
    ensures #[trigger] td_rel(l_union(a, b), s, l_union(ra, rb))
{
    reveal(td_rel);
    let r = l_union(ra, rb); let l = l_union(a, b);
    assert forall|st: Stack| #![trigger r(st)] #![trigger push_ch(st, Sym::Text(s))] flat0(st) implies {
        &&& (clean(st[0].ch) && l(push_ch(st, Sym::Text(s))) ==> r(st))
        &&& (clean(st[0].ch) && ws(s) && headok(st[0].ch) && l(st) ==> r(st))
        &&& (r(st) ==> l(push_ch(st, Sym::Text(s))) || (ws(s) && l(st)))
    } by { assert(ra(st) || !ra(st)); assert(rb(st) || !rb(st)); }
}
pub broadcast proof fn td_aft(a: Lang, b: Lang, s: Seq<char>, ra: Lang)
    requires #[trigger] td_rel(a, s, ra)
    ensures td_rel(#[trigger] l_aft(a, b), s, l_aft(ra, b))
{
    reveal(td_rel);
    let r = l_aft(ra, b); let l = l_aft(a, b);
    assert forall|st: Stack| #![trigger r(st)] #![trigger push_ch(st, Sym::Text(s))] flat0(st) implies {
        &&& (clean(st[0].ch) && l(push_ch(st, Sym::Text(s))) ==> r(st))
        &&& (clean(st[0].ch) && ws(s) && headok(st[0].ch) && l(st) ==> r(st))
        &&& (r(st) ==> l(push_ch(st, Sym::Text(s))) || (ws(s) && l(st)))
    } by {
        push_ch_flat(st, Sym::Text(s));
        let t = seq![st[0]];
        assert(flat0(t)); assert(t[0].ch == st[0].ch);
        assert(ra(t) || !ra(t));
    }
}
proof fn clean_cons(x: Sym, w: Seq<Sym>) requires clean(cons(x, w)) ensures clean(w) {
    assert forall|i: int| 0 <= i < w.len() implies ((#[trigger] w[i]) is Text ==> !ws(w[i]->Text_0)) by { assert(cons(x, w)[i + 1] == w[i]); }
}
proof fn clean_parts(u: Seq<Sym>, v: Seq<Sym>) requires clean(u + v) ensures clean(u), clean(v) {
    assert forall|i: int| 0 <= i < u.len() implies ((#[trigger] u[i]) is Text ==> !ws(u[i]->Text_0)) by { assert((u + v)[i] == u[i]); }
    assert forall|i: int| 0 <= i < v.len() implies ((#[trigger] v[i]) is Text ==> !ws(v[i]->Text_0)) by { assert((u + v)[u.len() + i] == v[i]); }
}
proof fn clean_shuf(u: Seq<Sym>, v: Seq<Sym>, w: Seq<Sym>) requires shuf(u, v, w), clean(w) ensures clean(u), clean(v) decreases w.len() {
    if w.len() > 0 {
        assert(w =~= cons(w[0], w.drop_first())); clean_cons(w[0], w.drop_first());
        if u.len() > 0 && u[0] == w[0] && shuf(u.drop_first(), v, w.drop_first()) { clean_shuf(u.drop_first(), v, w.drop_first()); clean_uncons(u); }
        else { clean_shuf(u, v.drop_first(), w.drop_first()); clean_uncons(v); }
    }
}
proof fn clean_uncons(u: Seq<Sym>) requires u.len() > 0, clean(u.drop_first()), u[0] is Text ==> !ws(u[0]->Text_0) ensures clean(u) {
    assert forall|i: int| 0 <= i < u.len() implies ((#[trigger] u[i]) is Text ==> !ws(u[i]->Text_0)) by { if i > 0 { assert(u.drop_first()[i - 1] == u[i]); } }
}
proof fn td_cat_at(a: Lang, b: Lang, s: Seq<char>, ra: Lang, w: Seq<Sym>)
    requires td_rel(a, s, ra)
    ensures
        m0(l_cat(ra, b), w) ==> m0(l_cat(a, b), cons(Sym::Text(s), w)) || (ws(s) && m0(l_cat(a, b), w)),
        clean(w) && m0(l_cat(a, b), cons(Sym::Text(s), w)) ==> m0(l_cat(ra, b), w) || (nullable(a) && m0(b, cons(Sym::Text(s), w))),
        clean(w) && ws(s) && headok(w) && m0(l_cat(a, b), w) ==> m0(l_cat(ra, b), w),
{
    let x = Sym::Text(s);
    if m0(l_cat(ra, b), w) {
        let (u, v) = cat0_elim(ra, b, w);
        td_get(a, s, ra, u);
        if m0(a, cons(x, u)) { cat0_intro(a, b, cons(x, u), v); assert(cons(x, u) + v =~= cons(x, w)); }
        else { cat0_intro(a, b, u, v); }
    }
    if clean(w) && m0(l_cat(a, b), cons(x, w)) {
        let (u, v) = cat0_head(a, b, x, w);
        if w == u + v && m0(a, cons(x, u)) && m0(b, v) {
            clean_parts(u, v);
            td_get(a, s, ra, u);
            cat0_intro(ra, b, u, v);
        }
    }
    if clean(w) && ws(s) && headok(w) && m0(l_cat(a, b), w) {
        let (u, v) = cat0_elim(a, b, w);
        clean_parts(u, v);
        assert(headok(u)) by { if u.len() > 0 { assert(u[0] == w[0]); } }
        td_get(a, s, ra, u);
        cat0_intro(ra, b, u, v);
    }
}
pub broadcast proof fn td_cat(a: Lang, b: Lang, s: Seq<char>, ra: Lang)
    requires #[trigger] td_rel(a, s, ra), !nullable(a)
    ensures td_rel(#[trigger] l_cat(a, b), s, l_cat(ra, b))
{
    assert forall|w: Seq<Sym>| td_at(l_cat(a, b), s, l_cat(ra, b), w) by { td_cat_at(a, b, s, ra, w); }
    td_intro(l_cat(a, b), s, l_cat(ra, b));
}
pub broadcast proof fn td_cat_null(a: Lang, b: Lang, s: Seq<char>, ra: Lang, rb: Lang)
    requires #[trigger] td_rel(a, s, ra), #[trigger] td_rel(b, s, rb), nullable(a), flat(rb)
    ensures td_rel(#[trigger] l_cat(a, b), s, l_union(l_cat(ra, b), rb))
{
    let r = l_union(l_cat(ra, b), rb); let l = l_cat(a, b);
    assert forall|w: Seq<Sym>| td_at(l, s, r, w) by {
        td_cat_at(a, b, s, ra, w); td_get(b, s, rb, w);
        let x = Sym::Text(s);
        if m0(b, cons(x, w)) { cat0_intro(a, b, seq![], cons(x, w)); assert(seq![] + cons(x, w) =~= cons(x, w)); }
        if m0(b, w) { cat0_intro(a, b, seq![], w); assert(seq![] + w =~= w); }
    }
    td_intro(l, s, r);
}
pub broadcast proof fn td_inter(a: Lang, b: Lang, s: Seq<char>, ra: Lang, rb: Lang)
    requires #[trigger] td_rel(a, s, ra), #[trigger] td_rel(b, s, rb)
    ensures td_rel(#[trigger] l_inter(a, b), s, l_union(l_inter(ra, b), l_inter(a, rb)))
{
    let r = l_union(l_inter(ra, b), l_inter(a, rb)); let l = l_inter(a, b);
    assert forall|w: Seq<Sym>| td_at(l, s, r, w) by {
        let x = Sym::Text(s);
        if m0(l_inter(ra, b), w) {
            let (u, v) = inter0_elim(ra, b, w);
            td_get(a, s, ra, u);
            if m0(a, cons(x, u)) { shuf_cons(x, u, v, w); inter0_intro(a, b, cons(x, w), cons(x, u), v); }
            else { inter0_intro(a, b, w, u, v); }
        }
        if m0(l_inter(a, rb), w) {
            let (u, v) = inter0_elim(a, rb, w);
            td_get(b, s, rb, v);
            if m0(b, cons(x, v)) { shuf_cons(x, u, v, w); inter0_intro(a, b, cons(x, w), u, cons(x, v)); }
            else { inter0_intro(a, b, w, u, v); }
        }
        if clean(w) && m0(l, cons(x, w)) {
            let (lf, u, v) = inter0_head(a, b, x, w);
            clean_shuf(u, v, w);
            if lf { td_get(a, s, ra, u); inter0_intro(ra, b, w, u, v); }
            else { td_get(b, s, rb, v); inter0_intro(a, rb, w, u, v); }
        }
        if clean(w) && ws(s) && headok(w) && m0(l, w) {
            let (u, v) = inter0_elim(a, b, w);
            clean_shuf(u, v, w);
            if headok(u) { td_get(a, s, ra, u); inter0_intro(ra, b, w, u, v); }
            else {
                assert(headok(v));
                td_get(b, s, rb, v); inter0_intro(a, rb, w, u, v);
            }
        }
    }
    td_intro(l, s, r);
}
proof fn plus_split(a: Lang, w: Seq<Sym>) -> (r: (Seq<Sym>, Seq<Sym>)) requires m0(l_plus(a), w)
    ensures w == r.0 + r.1, m0(a, r.0), m0(l_star(a), r.1), w.len() > 0 ==> r.0.len() > 0
{
    if w.len() > 0 {
        let x = w[0]; let t = w.drop_first();
        assert(w =~= cons(x, t));
        let (u, v) = plus_head(a, x, t);
        assert(cons(x, u) + v =~= w);
        (cons(x, u), v)
    } else {
        nul_plus(a); assert(w =~= seq![]);
        assert(w =~= w + w);
        assert(m0(l_star(a), w));
        (w, w)
    }
}
pub broadcast proof fn td_plus(a: Lang, s: Seq<char>, ra: Lang)
    requires #[trigger] td_rel(a, s, ra)
    ensures td_rel(#[trigger] l_plus(a), s, l_cat(ra, l_star(a)))
{
    let r = l_cat(ra, l_star(a)); let l = l_plus(a);
    plus_flat(a);
    assert forall|w: Seq<Sym>| td_at(l, s, r, w) by {
        let x = Sym::Text(s);
        if m0(r, w) {
            let (u, v) = cat0_elim(ra, l_star(a), w);
            td_get(a, s, ra, u);
            if m0(a, cons(x, u)) { plus_cons(a, cons(x, u), v); assert(cons(x, u) + v =~= cons(x, w)); }
            else { plus_cons(a, u, v); }
        }
        if clean(w) && m0(l, cons(x, w)) {
            let (u, v) = plus_head(a, x, w);
            clean_parts(u, v);
            td_get(a, s, ra, u);
            cat0_intro(ra, l_star(a), u, v);
        }
        if clean(w) && ws(s) && headok(w) && m0(l, w) {
            let (u, v) = plus_split(a, w);
            clean_parts(u, v);
            assert(headok(u)) by { if u.len() > 0 { assert(u[0] == w[0]); } }
            td_get(a, s, ra, u);
            cat0_intro(ra, l_star(a), u, v);
        }
    }
    td_intro(l, s, r);
}
// ---- leaves
proof fn cons_first(x: Sym, w: Seq<Sym>) ensures cons(x, w).len() == w.len() + 1, cons(x, w)[0] == x, cons(x, w).drop_first() == w { assert(cons(x, w).drop_first() =~= w); }
pub broadcast proof fn td_eps_ws(s: Seq<char>) requires ws(s) ensures #[trigger] td_rel(l_eps(), s, l_eps()) {
    assert forall|w: Seq<Sym>| td_at(l_eps(), s, l_eps(), w) by { cons_first(Sym::Text(s), w); }
    td_intro(l_eps(), s, l_eps());
}
pub broadcast proof fn td_eps(s: Seq<char>) requires !ws(s) ensures #[trigger] td_rel(l_eps(), s, l_none()) {
    assert forall|w: Seq<Sym>| td_at(l_eps(), s, l_none(), w) by { cons_first(Sym::Text(s), w); }
    td_intro(l_eps(), s, l_none());
}
pub broadcast proof fn td_none(s: Seq<char>) ensures #[trigger] td_rel(l_none(), s, l_none()) {
    assert forall|w: Seq<Sym>| td_at(l_none(), s, l_none(), w) by { }
    td_intro(l_none(), s, l_none());
}
pub broadcast proof fn td_text(s: Seq<char>) ensures #[trigger] td_rel(l_text(), s, l_text()) {
    assert forall|w: Seq<Sym>| td_at(l_text(), s, l_text(), w) by {
        let x = Sym::Text(s); cons_first(x, w);
        if texts(cons(x, w)) { assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]) is Text by { assert(cons(x, w)[i + 1] == w[i]); } }
        if texts(w) { assert forall|i: int| 0 <= i < cons(x, w).len() implies (#[trigger] cons(x, w)[i]) is Text by { if i > 0 { assert(cons(x, w)[i] == w[i - 1]); } } }
    }
    td_intro(l_text(), s, l_text());
}
pub broadcast proof fn td_elem_ws(nc: NamePred, a: Lang, s: Seq<char>) requires ws(s) ensures #[trigger] td_rel(l_elem(nc, a), s, l_elem(nc, a)) {
    let l = l_elem(nc, a);
    assert forall|w: Seq<Sym>| td_at(l, s, l, w) by { cons_first(Sym::Text(s), w); }
    td_intro(l, s, l);
}
pub broadcast proof fn td_elem(nc: NamePred, a: Lang, s: Seq<char>) requires !ws(s) ensures #[trigger] td_rel(l_elem(nc, a), s, l_none()) {
    let l = l_elem(nc, a);
    assert forall|w: Seq<Sym>| td_at(l, s, l_none(), w) by { cons_first(Sym::Text(s), w); }
    td_intro(l, s, l_none());
}
pub broadcast proof fn td_att(nc: NamePred, a: Lang, s: Seq<char>) ensures #[trigger] td_rel(l_att(nc, a), s, l_none()) {
    let l = l_att(nc, a);
    assert forall|w: Seq<Sym>| td_at(l, s, l_none(), w) by { }
    td_intro(l, s, l_none());
}
pub broadcast proof fn td_data_in(p: TextPred, s: Seq<char>) requires p(s) ensures #[trigger] td_rel(l_data(p), s, l_eps()) {
    let l = l_data(p);
    assert forall|w: Seq<Sym>| td_at(l, s, l_eps(), w) by { cons_first(Sym::Text(s), w); }
    td_intro(l, s, l_eps());
}
pub broadcast proof fn td_data_out(p: TextPred, s: Seq<char>) requires !p(s) ensures #[trigger] td_rel(l_data(p), s, l_none()) {
    let l = l_data(p);
    assert forall|w: Seq<Sym>| td_at(l, s, l_none(), w) by { cons_first(Sym::Text(s), w); }
    td_intro(l, s, l_none());
}
// what text_deriv() tells about the string itself
pub broadcast proof fn td_value(a: Lang, s: Seq<char>, r: Lang) requires #[trigger] td_rel(a, s, r) ensures nullable(r) == val_in(a, s) {
    td_get(a, s, r, seq![]);
    assert(cons(Sym::Text(s), seq![]) =~= seq![Sym::Text(s)]);
    assert(clean(Seq::<Sym>::empty()));
}
// ---- the words of a list, one after the other
#[verifier::opaque]
pub open spec fn wres(a: Lang, t: Seq<Sym>, r: Lang) -> bool { forall|w: Seq<Sym>| clean(w) ==> (#[trigger] m0(r, w) <==> m0(a, t + w)) }
pub proof fn wres_nil(a: Lang) ensures wres(a, seq![], a) {
    reveal(wres);
    assert forall|w: Seq<Sym>| clean(w) implies (#[trigger] m0(a, w) <==> m0(a, seq![] + w)) by { assert(seq![] + w =~= w); }
}
pub proof fn wres_step(a: Lang, t: Seq<Sym>, r: Lang, s: Seq<char>, r2: Lang)
    requires wres(a, t, r), td_rel(r, s, r2), !ws(s)
    ensures wres(a, t.push(Sym::Text(s)), r2)
{
    reveal(wres);
    assert forall|w: Seq<Sym>| clean(w) implies (#[trigger] m0(r2, w) <==> m0(a, t.push(Sym::Text(s)) + w)) by {
        let x = Sym::Text(s);
        td_get(r, s, r2, w);
        cons_first(x, w); clean_uncons(cons(x, w));
        assert(t.push(x) + w =~= t + cons(x, w));
        assert(m0(r, cons(x, w)) <==> m0(a, t + cons(x, w)));
    }
}
pub proof fn words_props(s: Seq<char>)
    ensures clean(words(s)), texts(words(s)), words(s).len() == 0 <==> ws(s)
    decreases s.len()
{
    if s.len() > 0 {
        if xml_ws(s[0]) {
            words_props(s.drop_first());
            if ws(s.drop_first()) { assert forall|i: int| 0 <= i < s.len() implies xml_ws(#[trigger] s[i]) by { if i > 0 { assert(s.drop_first()[i - 1] == s[i]); } } }
            if ws(s) { assert forall|i: int| 0 <= i < s.len() - 1 implies xml_ws(#[trigger] s.drop_first()[i]) by { assert(s[i + 1] == s.drop_first()[i]); } }
        } else {
            let k = word_end(s); word_end_le(s);
            words_props(s.skip(k as int));
            let h = s.take(k as int);
            assert(h[0] == s[0]); assert(!ws(h));
            let w = seq![Sym::Text(h)] + words(s.skip(k as int));
            assert(words(s) == w);
            assert(w.drop_first() =~= words(s.skip(k as int)));
            clean_uncons(w);
            assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]) is Text by { if i > 0 { assert(w[i] == words(s.skip(k as int))[i - 1]); } }
            assert(!ws(s)) by { assert(!xml_ws(s[0])); }
        }
    }
}
pub proof fn word_end_le(s: Seq<char>) ensures word_end(s) <= s.len(), s.len() > 0 && !xml_ws(s[0]) ==> word_end(s) > 0,
    forall|i: int| 0 <= i < word_end(s) ==> !xml_ws(#[trigger] s[i]), word_end(s) < s.len() ==> xml_ws(s[word_end(s) as int])
    decreases s.len()
{
    if s.len() > 0 && !xml_ws(s[0]) {
        let t = s.drop_first(); word_end_le(t);
        assert forall|i: int| 0 <= i < word_end(s) implies !xml_ws(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } }
        if word_end(s) < s.len() { assert(t[word_end(t) as int] == s[word_end(s) as int]); }
    }
}
proof fn words_of_clean(ch: Seq<Sym>)
    ensures clean(words_of(ch)), clean(ch) && texts(ch) && ch.len() > 0 ==> words_of(ch).len() > 0
    decreases ch.len()
{
    if ch.len() > 0 {
        words_of_clean(ch.drop_first());
        let h = match ch[0] { Sym::Text(s) => words(s), _ => seq![] };
        if ch[0] is Text { words_props(ch[0]->Text_0); }
        let t = words_of(ch.drop_first());
        assert forall|i: int| 0 <= i < (h + t).len() implies ((#[trigger] (h + t)[i]) is Text ==> !ws((h + t)[i]->Text_0)) by { if i < h.len() { assert((h + t)[i] == h[i]); } else { assert((h + t)[i] == t[i - h.len()]); } }
    }
}
proof fn words_of_cons(s: Seq<char>, w: Seq<Sym>) ensures words_of(cons(Sym::Text(s), w)) == words(s) + words_of(w) { cons_first(Sym::Text(s), w); }
proof fn list_at(a: Lang, w: Seq<Sym>) ensures m0(l_list(a), w) <==> w.len() > 0 && texts(w) && m0(a, words_of(w)) { }
proof fn texts_cons(s: Seq<char>, w: Seq<Sym>) ensures texts(cons(Sym::Text(s), w)) <==> texts(w) {
    let x = Sym::Text(s); cons_first(x, w);
    if texts(cons(x, w)) { assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]) is Text by { assert(cons(x, w)[i + 1] == w[i]); } }
    if texts(w) { assert forall|i: int| 0 <= i < cons(x, w).len() implies (#[trigger] cons(x, w)[i]) is Text by { if i > 0 { assert(cons(x, w)[i] == w[i - 1]); } } }
}
// r: what is left of the list's content after the words of s
pub proof fn td_list(a: Lang, s: Seq<char>, r: Lang) requires wres(a, words(s), r)
    ensures
        r == l_none() ==> td_rel(l_list(a), s, l_none()),
        r == l_eps() ==> td_rel(l_list(a), s, l_eps()),
        nullable(r) ==> td_rel(l_list(a), s, l_union(l_list(r), l_eps())),
        !nullable(r) ==> td_rel(l_list(a), s, l_list(r)),
{
    let l = l_list(a);
    let x = Sym::Text(s);
    reveal(wres);
    assert forall|w: Seq<Sym>| #![trigger td_at(l, s, l_none(), w)] #![trigger td_at(l, s, l_eps(), w)] #![trigger td_at(l, s, l_union(l_list(r), l_eps()), w)] #![trigger td_at(l, s, l_list(r), w)]
        (r == l_none() ==> td_at(l, s, l_none(), w)) && (r == l_eps() ==> td_at(l, s, l_eps(), w)) && (nullable(r) ==> td_at(l, s, l_union(l_list(r), l_eps()), w)) && (!nullable(r) ==> td_at(l, s, l_list(r), w)) by {
        cons_first(x, w); texts_cons(s, w); words_of_cons(s, w); words_of_clean(w);
        list_at(a, cons(x, w)); list_at(r, w); list_at(a, w);
        assert(m0(r, words_of(w)) <==> m0(a, words(s) + words_of(w)));
        if w.len() == 0 { assert(words_of(w) =~= seq![]); assert(w =~= seq![]); }
    }
    if r == l_none() { td_intro(l, s, l_none()); }
    if r == l_eps() { td_intro(l, s, l_eps()); }
    if nullable(r) { td_intro(l, s, l_union(l_list(r), l_eps())); } else { td_intro(l, s, l_list(r)); }
}
