// ================================================================ whole documents
// what happens to a document, names and references resolved: an element begins, characters, an element ends
pub ghost enum Ev { Start(Name, Seq<AttrV>), Text(Seq<char>), End }
pub open spec fn evs(xs: Seq<Sym>) -> Seq<Ev> decreases xs via evs_dec { if xs.len() == 0 { seq![] } else { ev1(xs[0]) + evs(xs.drop_first()) } }
pub open spec fn ev1(x: Sym) -> Seq<Ev> decreases x via ev1_dec { match x { Sym::Text(s) => seq![Ev::Text(s)], Sym::Child(n, c) => seq![Ev::Start(n, c.attrs)] + evs(c.ch) + seq![Ev::End] } }
#[via_fn] proof fn evs_dec(xs: Seq<Sym>) { if xs.len() > 0 { assert(decreases_to!(xs => xs[0])); assert(decreases_to!(xs => xs.drop_first())); } }
#[via_fn] proof fn ev1_dec(x: Sym) { match x { Sym::Child(n, c) => { assert(decreases_to!(x => c)); assert(decreases_to!(c => c.ch)); } _ => {} } }
// what one event leaves of a; an element without children has the text "" (RELAX NG: the derivative of the empty list of children)
pub open spec fn step1(a: Lang, fresh: bool, e: Ev, r: Lang) -> bool {
    match e {
        Ev::Start(n, at) => start_rel(a, n, at, r),
        Ev::Text(s) => td_rel(a, s, r),
        Ev::End => if fresh { exists|b: Lang| #[trigger] td_rel(a, seq![], b) && ed_rel(b, r) } else { ed_rel(a, r) },
    }
}
pub open spec fn after_start(es: Seq<Ev>, i: int) -> bool { i > 0 && es[i - 1] is Start }
// ls are the residuals between the events
pub open spec fn run(ls: Seq<Lang>, es: Seq<Ev>) -> bool { ls.len() == es.len() + 1 && forall|i: int| 0 <= i < es.len() ==> step1(#[trigger] ls[i], after_start(es, i), es[i], ls[i + 1]) }

// ---- what a document stands for
// RELAX NG: the children of an element are matched as its one text, or with the white space between the elements left out
pub open spec fn reads(xs: Seq<Sym>, w: Seq<Sym>) -> bool decreases xs via reads_dec {
    if xs.len() == 0 { w.len() == 0 } else {
        match xs[0] {
            Sym::Text(s) => if ws(s) { reads(xs.drop_first(), w) } else { w.len() > 0 && w[0] == xs[0] && reads(xs.drop_first(), w.drop_first()) },
            Sym::Child(n, c) => w.len() > 0 && reads1(xs[0], w[0]) && reads(xs.drop_first(), w.drop_first()),
        }
    }
}
pub open spec fn reads1(x: Sym, y: Sym) -> bool decreases x via reads1_dec {
    x matches Sym::Child(n, c) && y matches Sym::Child(m, d) && n == m && c.attrs == d.attrs && if c.ch.len() == 0 { d.ch.len() == 0 || d.ch == seq![Sym::Text(seq![])] }
        else if c.ch.len() == 1 && c.ch[0] is Text { d.ch == c.ch || ws(c.ch[0]->Text_0) && d.ch.len() == 0 }
        else { reads(c.ch, d.ch) }
}
#[via_fn] proof fn reads_dec(xs: Seq<Sym>, w: Seq<Sym>) { if xs.len() > 0 { assert(decreases_to!(xs => xs[0])); assert(decreases_to!(xs => xs.drop_first())); } }
#[via_fn] proof fn reads1_dec(x: Sym, y: Sym) { match x { Sym::Child(n, c) => { assert(decreases_to!(x => c)); assert(decreases_to!(c => c.ch)); } _ => {} } }
// the same, but white space beside elements may also be kept (it makes a difference for patterns that section 7.2 excludes)
pub open spec fn lreads(xs: Seq<Sym>, w: Seq<Sym>) -> bool decreases xs via lreads_dec {
    if xs.len() == 0 { w.len() == 0 } else {
        match xs[0] {
            Sym::Text(s) => ws(s) && lreads(xs.drop_first(), w) || w.len() > 0 && w[0] == xs[0] && lreads(xs.drop_first(), w.drop_first()),
            Sym::Child(n, c) => w.len() > 0 && lreads1(xs[0], w[0]) && lreads(xs.drop_first(), w.drop_first()),
        }
    }
}
pub open spec fn lreads1(x: Sym, y: Sym) -> bool decreases x via lreads1_dec {
    x matches Sym::Child(n, c) && y matches Sym::Child(m, d) && n == m && c.attrs == d.attrs && if c.ch.len() == 0 { d.ch.len() == 0 || d.ch == seq![Sym::Text(seq![])] } else { lreads(c.ch, d.ch) }
}
#[via_fn] proof fn lreads_dec(xs: Seq<Sym>, w: Seq<Sym>) { if xs.len() > 0 { assert(decreases_to!(xs => xs[0])); assert(decreases_to!(xs => xs.drop_first())); } }
#[via_fn] proof fn lreads1_dec(x: Sym, y: Sym) { match x { Sym::Child(n, c) => { assert(decreases_to!(x => c)); assert(decreases_to!(c => c.ch)); } _ => {} } }
// the characters between two tags are one text
pub open spec fn joined(xs: Seq<Sym>) -> bool decreases xs via joined_dec { xs.len() > 0 ==> joined1(xs[0]) && (xs.len() > 1 ==> !(xs[0] is Text && xs[1] is Text)) && joined(xs.drop_first()) }
pub open spec fn joined1(x: Sym) -> bool decreases x via joined1_dec { match x { Sym::Child(n, c) => joined(c.ch), _ => true } }
#[via_fn] proof fn joined_dec(xs: Seq<Sym>) { if xs.len() > 0 { assert(decreases_to!(xs => xs[0])); assert(decreases_to!(xs => xs.drop_first())); } }
#[via_fn] proof fn joined1_dec(x: Sym) { match x { Sym::Child(n, c) => { assert(decreases_to!(x => c)); assert(decreases_to!(c => c.ch)); } _ => {} } }

pub open spec fn before(w: Seq<Sym>, st: Stack) -> Stack { st.update(0, Cont { attrs: st[0].attrs, ch: w + st[0].ch }) }
proof fn before_push(x: Sym, w: Seq<Sym>, st: Stack) requires st.len() > 0 ensures push_ch(before(w, st), x) == before(seq![x] + w, st), before(seq![], st) == st {
    assert(seq![x] + (w + st[0].ch) =~= (seq![x] + w) + st[0].ch); assert(push_ch(before(w, st), x) =~= before(seq![x] + w, st));
    assert(Seq::<Sym>::empty() + st[0].ch =~= st[0].ch); assert(before(seq![], st) =~= st);
}
proof fn after_start_sub(es: Seq<Ev>, a: int, b: int, i: int) requires 0 <= a <= i < b <= es.len(), i > a ensures after_start(es.subrange(a, b), i - a) == after_start(es, i) { }
proof fn run_sub(ls: Seq<Lang>, es: Seq<Ev>, a: int, b: int) requires run(ls, es), 0 <= a <= b <= es.len(), a < b ==> !(es[a] is End) ensures run(ls.subrange(a, b + 1), es.subrange(a, b)) {
    let (l, e) = (ls.subrange(a, b + 1), es.subrange(a, b));
    assert forall|i: int| 0 <= i < e.len() implies step1(#[trigger] l[i], after_start(e, i), e[i], l[i + 1]) by { assert(step1(ls[a + i], after_start(es, a + i), es[a + i], ls[a + i + 1])); }
}
proof fn ev_first(xs: Seq<Sym>) ensures xs.len() > 0 ==> evs(xs).len() > 0 && !(evs(xs)[0] is End) {
    if xs.len() > 0 { let e = ev1(xs[0]); match xs[0] { Sym::Text(s) => { assert(e == seq![Ev::Text(s)]); } Sym::Child(n, c) => { assert(e == seq![Ev::Start(n, c.attrs)] + evs(c.ch) + seq![Ev::End]); assert(e[0] is Start); } } assert(evs(xs)[0] == e[0]); }
}
proof fn ev_last(xs: Seq<Sym>) ensures xs.len() > 0 ==> evs(xs).len() > 0 && !(evs(xs).last() is Start) decreases xs.len() {
    if xs.len() > 0 { let t = xs.drop_first(); ev_last(t);
        if t.len() == 0 { assert(evs(t) =~= seq![]); assert(evs(xs) =~= ev1(xs[0])); } else { assert(evs(xs).last() == evs(t).last()); } }
}
// the parts of the run over the children xs of an element
#[verifier::spinoff_prover] proof fn run_parts(ls: Seq<Lang>, xs: Seq<Sym>) requires run(ls, evs(xs)), xs.len() > 0
    ensures ({ let k = ev1(xs[0]).len() as int; 1 <= k < ls.len() && run(ls.take(k + 1), ev1(xs[0])) && run(ls.skip(k), evs(xs.drop_first())) })
{
    let es = evs(xs); let k = ev1(xs[0]).len() as int; let t = xs.drop_first();
    ev_first(xs); ev_first(t);
    assert(es.subrange(0, k) =~= ev1(xs[0])); assert(es.subrange(k, es.len() as int) =~= evs(t));
    run_sub(ls, es, 0, k); run_sub(ls, es, k, es.len() as int);
    assert(ls.subrange(0, k + 1) =~= ls.take(k + 1)); assert(ls.subrange(k, es.len() as int + 1) =~= ls.skip(k));
}
// the parts of the run over an element
#[verifier::spinoff_prover] proof fn run_elem(ls: Seq<Lang>, n: Name, c: Cont) requires run(ls, ev1(Sym::Child(n, c)))
    ensures ls.len() >= 3, start_rel(ls[0], n, c.attrs, ls[1]), run(ls.subrange(1, ls.len() - 1), evs(c.ch)), step1(ls[ls.len() - 2], c.ch.len() == 0, Ev::End, ls.last())
{
    let es = ev1(Sym::Child(n, c)); let k = evs(c.ch).len() as int;
    ev_first(c.ch); ev_last(c.ch);
    assert(es.subrange(1, 1 + k) =~= evs(c.ch)); run_sub(ls, es, 1, 1 + k);
    assert(step1(ls[0], after_start(es, 0), es[0], ls[1]));
    assert(step1(ls[k + 1], after_start(es, k + 1), es[k + 1], ls[k + 2]));
    if c.ch.len() == 0 { assert(evs(c.ch) =~= seq![]); assert(es[k] is Start); } else { assert(es[k] == evs(c.ch)[k - 1]); }
}
// an element ends: what was required of the last of its children
#[verifier::spinoff_prover] proof fn at_end(a: Lang, fresh: bool, r: Lang, st: Stack) -> (w: Seq<Sym>) requires step1(a, fresh, Ev::End, r), st.len() >= 1, r(st)
    ensures a(before(w, nothing() + st)), w.len() == 0 || fresh && w == seq![Sym::Text(seq![])]
{
    reveal(td_rel); reveal(ed_rel);
    let s = nothing() + st; before_push(Sym::Text(seq![]), seq![], s);
    assert(flat0(s)); assert(seq![Sym::Text(seq![])] + Seq::<Sym>::empty() =~= seq![Sym::Text(seq![])]);
    if fresh { let b = choose|b: Lang| #[trigger] td_rel(a, seq![], b) && ed_rel(b, r); assert(b(s)); if a(s) { seq![] } else { assert(a(push_ch(s, Sym::Text(seq![])))); seq![Sym::Text(seq![])] } }
    else { seq![] }
}
#[verifier::spinoff_prover] proof fn from_end(a: Lang, fresh: bool, r: Lang, st: Stack, w: Seq<Sym>) requires step1(a, fresh, Ev::End, r), st.len() >= 1, w.len() == 0 || fresh && w == seq![Sym::Text(seq![])], a(before(w, nothing() + st))
    ensures r(st)
{
    reveal(td_rel); reveal(ed_rel);
    let s = nothing() + st; before_push(Sym::Text(seq![]), seq![], s);
    assert(flat0(s)); assert(clean(s[0].ch)); assert(headok(s[0].ch)); assert(ws(Seq::<char>::empty()));
    assert(seq![Sym::Text(seq![])] + Seq::<Sym>::empty() =~= seq![Sym::Text(seq![])]);
    if w.len() == 0 { assert(w =~= seq![]); }
    if fresh { let b = choose|b: Lang| #[trigger] td_rel(a, seq![], b) && ed_rel(b, r); assert(b(s)); }
}
proof fn text_sound(a: Lang, x: Seq<char>, r: Lang, w: Seq<Sym>, st: Stack) requires td_rel(a, x, r), flat0(st), r(before(w, st)) ensures ws(x) && a(before(w, st)) || a(before(seq![Sym::Text(x)] + w, st)) {
    reveal(td_rel); before_push(Sym::Text(x), w, st); assert(flat0(before(w, st)));
}
#[verifier::spinoff_prover] proof fn child_start(a: Lang, n: Name, at: Seq<AttrV>, r: Lang, u: Seq<Sym>, w: Seq<Sym>, st: Stack) requires start_rel(a, n, at, r), flat0(st)
    ensures r(before(u, nothing() + before(w, st))) <==> a(before(seq![Sym::Child(n, Cont { attrs: at, ch: u })] + w, st))
{
    reveal(start_rel);
    let s = before(w, st); let y = Sym::Child(n, Cont { attrs: at, ch: u });
    assert(flat0(s));
    assert(u + Seq::<Sym>::empty() =~= u); assert(before(u, nothing() + s) =~= one(seq![], u) + s);
    before_push(y, w, st);
}
// what is left at the end was required at the beginning
#[verifier::spinoff_prover] proof fn doc_sound(ls: Seq<Lang>, xs: Seq<Sym>, st: Stack) -> (w: Seq<Sym>) requires run(ls, evs(xs)), flat0(st), ls.last()(st) ensures lreads(xs, w), ls[0](before(w, st)) decreases xs
{
    before_push(Sym::Text(seq![]), seq![], st);
    if xs.len() == 0 { assert(ls.len() == 1); seq![] } else {
        run_parts(ls, xs); let k = ev1(xs[0]).len() as int; let t = xs.drop_first();
        assert(decreases_to!(xs => xs[0])); assert(decreases_to!(xs => xs.drop_first()));
        assert(ls.skip(k).last() == ls.last());
        let w2 = doc_sound(ls.skip(k), t, st);
        let l = ls.take(k + 1);
        assert(l.last() == ls.skip(k)[0]); assert(l[0] == ls[0]);
        match xs[0] {
            Sym::Text(x) => {
                assert(step1(l[0], after_start(ev1(xs[0]), 0), ev1(xs[0])[0], l[1]));
                text_sound(l[0], x, l[1], w2, st);
                if ws(x) && ls[0](before(w2, st)) { w2 } else { let w = seq![xs[0]] + w2; assert(w.drop_first() =~= w2); w }
            }
            Sym::Child(n, c) => {
                let u = elem_sound(l, xs[0], before(w2, st));
                child_start(l[0], n, c.attrs, l[1], u, w2, st);
                let w = seq![Sym::Child(n, Cont { attrs: c.attrs, ch: u })] + w2; assert(w.drop_first() =~= w2); w
            }
        }
    }
}
#[verifier::spinoff_prover] proof fn elem_sound(l: Seq<Lang>, x: Sym, s: Stack) -> (u: Seq<Sym>) requires x is Child, run(l, ev1(x)), flat0(s), l.last()(s)
    ensures l.len() >= 3, start_rel(l[0], x->Child_0, x->Child_1.attrs, l[1]), l[1](before(u, nothing() + s)), lreads1(x, Sym::Child(x->Child_0, Cont { attrs: x->Child_1.attrs, ch: u })) decreases x
{
    let n = x->Child_0; let c = x->Child_1;
    run_elem(l, n, c); assert(decreases_to!(x => c)); assert(decreases_to!(c => c.ch));
    let v = at_end(l[l.len() - 2], c.ch.len() == 0, l.last(), s);
    let m = l.subrange(1, l.len() - 1); let s2 = nothing() + s;
    assert(m.last() == l[l.len() - 2]); assert(m[0] == l[1]);
    if c.ch.len() == 0 { assert(evs(c.ch) =~= seq![]); assert(m.len() == 1); if v.len() == 0 { assert(v =~= seq![]); } v } else { before_push(x, seq![], s2); assert(v =~= seq![]); doc_sound(m, c.ch, s2) }
}
proof fn text_complete(a: Lang, x: Seq<char>, r: Lang, st: Stack) requires td_rel(a, x, r), flat0(st), clean(st[0].ch) ensures a(push_ch(st, Sym::Text(x))) ==> r(st), ws(x) && headok(st[0].ch) && a(st) ==> r(st) { reveal(td_rel); }
#[verifier::spinoff_prover] proof fn reads_clean(xs: Seq<Sym>, w: Seq<Sym>) requires reads(xs, w) ensures clean(w), xs.len() > 0 && xs[0] is Child ==> w.len() > 0 && w[0] is Child, xs.len() == 0 ==> w.len() == 0 decreases xs.len() {
    if xs.len() > 0 {
        let t = xs.drop_first();
        match xs[0] {
            Sym::Text(s) => { if ws(s) { reads_clean(t, w); } else { reads_clean(t, w.drop_first()); assert forall|i: int| 0 <= i < w.len() implies ((#[trigger] w[i]) is Text ==> !ws(w[i]->Text_0)) by { if i > 0 { assert(w.drop_first()[i - 1] == w[i]); } } } }
            Sym::Child(n, c) => { assert(reads1(xs[0], w[0])); reads_clean(t, w.drop_first()); assert forall|i: int| 0 <= i < w.len() implies ((#[trigger] w[i]) is Text ==> !ws(w[i]->Text_0)) by { if i > 0 { assert(w.drop_first()[i - 1] == w[i]); } } }
        }
    }
}
#[verifier::spinoff_prover] proof fn text_case(a: Lang, x: Seq<char>, r: Lang, xs: Seq<Sym>, w: Seq<Sym>, st: Stack) -> (w2: Seq<Sym>)
    requires td_rel(a, x, r), flat0(st), st[0].ch.len() == 0, xs.len() > 0, xs[0] == Sym::Text(x), joined(xs), reads(xs, w), a(before(w, st))
    ensures r(before(w2, st)), reads(xs.drop_first(), w2)
{
    let t = xs.drop_first();
    let w2 = if ws(x) { w } else { w.drop_first() };
    reads_clean(t, w2); let s = before(w2, st);
    if t.len() > 0 { assert(t[0] == xs[1]); }
    assert(s[0].ch =~= w2); assert(flat0(s));
    text_complete(a, x, r, s);
    before_push(xs[0], w2, st); if !ws(x) { assert(seq![xs[0]] + w2 =~= w); }
    w2
}
// what is required at the beginning is left at the end
#[verifier::spinoff_prover] proof fn doc_complete(ls: Seq<Lang>, xs: Seq<Sym>, w: Seq<Sym>, st: Stack) requires run(ls, evs(xs)), flat0(st), st[0].ch.len() == 0, joined(xs), reads(xs, w), ls[0](before(w, st)) ensures ls.last()(st) decreases xs
{
    before_push(Sym::Text(seq![]), seq![], st);
    if xs.len() == 0 { assert(ls.len() == 1); assert(w =~= seq![]); } else {
        run_parts(ls, xs); let k = ev1(xs[0]).len() as int; let t = xs.drop_first();
        assert(decreases_to!(xs => xs[0])); assert(decreases_to!(xs => xs.drop_first()));
        assert(ls.skip(k).last() == ls.last());
        let l = ls.take(k + 1);
        assert(l.last() == ls.skip(k)[0]); assert(l[0] == ls[0]);
        match xs[0] {
            Sym::Text(x) => {
                assert(step1(l[0], after_start(ev1(xs[0]), 0), ev1(xs[0])[0], l[1]));
                let w2 = text_case(l[0], x, l[1], xs, w, st);
                doc_complete(ls.skip(k), t, w2, st);
            }
            Sym::Child(n, c) => {
                let w2 = w.drop_first(); assert(seq![w[0]] + w2 =~= w); assert(reads1(xs[0], w[0])); assert(joined1(xs[0]));
                run_elem(l, n, c);
                child_start(l[0], n, c.attrs, l[1], w[0]->Child_1.ch, w2, st);
                assert(w[0] == Sym::Child(n, Cont { attrs: c.attrs, ch: w[0]->Child_1.ch }));
                elem_complete(l, xs[0], w[0], before(w2, st));
                doc_complete(ls.skip(k), t, w2, st);
            }
        }
    }
}
#[verifier::spinoff_prover] proof fn elem_complete(l: Seq<Lang>, x: Sym, y: Sym, s: Stack) requires reads1(x, y), joined1(x), run(l, ev1(x)), s.len() >= 1, l.len() >= 3, l[1](before(y->Child_1.ch, nothing() + s)) ensures l.last()(s) decreases x
{
    let n = x->Child_0; let c = x->Child_1; let u = y->Child_1.ch;
    run_elem(l, n, c); assert(decreases_to!(x => c)); assert(decreases_to!(c => c.ch));
    let m = l.subrange(1, l.len() - 1); let s2 = nothing() + s;
    assert(m.last() == l[l.len() - 2]); assert(m[0] == l[1]); assert(flat0(s2));
    before_push(x, seq![], s2);
    if c.ch.len() == 0 { assert(evs(c.ch) =~= seq![]); assert(m.len() == 1); from_end(l[l.len() - 2], true, l.last(), s, u); }
    else {
        if c.ch.len() == 1 && c.ch[0] is Text {
            let z = c.ch[0]->Text_0; let es = evs(c.ch); assert(c.ch.drop_first() =~= seq![]); assert(ev1(c.ch[0]) == seq![Ev::Text(z)]); assert(evs(c.ch.drop_first()) =~= seq![]); assert(es =~= seq![Ev::Text(z)]);
            assert(step1(m[0], after_start(es, 0), es[0], m[1]));
            assert(clean(s2[0].ch)); text_complete(m[0], z, m[1], s2); before_push(c.ch[0], seq![], s2);
            assert(seq![c.ch[0]] + Seq::<Sym>::empty() =~= c.ch);
            if u.len() == 0 { assert(u =~= seq![]); }
        } else { doc_complete(m, c.ch, u, s2); }
        from_end(l[l.len() - 2], false, l.last(), s, seq![]);
    }
}
// ---- the theorem (C01, C02, C03): run over a whole document, what is left has no further requirements exactly if the document is one that the schema describes
#[verifier::spinoff_prover] pub proof fn document(ls: Seq<Lang>, x: Sym)
    requires run(ls, evs(seq![x])), x is Child, joined1(x)
    ensures ls.last()(nothing()) ==> exists|y: Sym| #[trigger] lreads1(x, y) && ls[0](one(seq![], seq![y])),
        forall|y: Sym| #[trigger] reads1(x, y) && ls[0](one(seq![], seq![y])) ==> ls.last()(nothing())
{
    let xs = seq![x]; let st = nothing();
    assert(xs.drop_first() =~= seq![]);
    assert(evs(xs.drop_first()) =~= seq![]); assert(evs(xs) =~= ev1(x));
    assert forall|y: Sym| true implies #[trigger] before(seq![y], st) == one(seq![], seq![y]) by { assert(seq![y] + st[0].ch =~= seq![y]); assert(before(seq![y], st) =~= one(seq![], seq![y])); }
    if ls.last()(st) {
        let w = doc_sound(ls, xs, st);
        assert(lreads1(xs[0], w[0])); assert(lreads(xs.drop_first(), w.drop_first())); assert(w.drop_first().len() == 0); assert(w =~= seq![w[0]]);
    }
    assert forall|y: Sym| #[trigger] reads1(x, y) && ls[0](one(seq![], seq![y])) implies ls.last()(nothing()) by {
        assert(seq![y].drop_first() =~= seq![]); assert(reads(xs.drop_first(), seq![y].drop_first())); assert(reads1(xs[0], seq![y][0])); assert(reads(xs, seq![y]));
        assert(joined(xs.drop_first())); assert(joined1(xs[0])); assert(joined(xs));
        doc_complete(ls, xs, seq![y], st);
    }
}
proof fn run_push(ls: Seq<Lang>, es: Seq<Ev>, e: Ev, r: Lang) requires run(ls, es), step1(ls.last(), after_start(es, es.len() as int), e, r) ensures run(ls.push(r), es.push(e)), ls.push(r)[0] == ls[0] {
    let (l2, e2, k) = (ls.push(r), es.push(e), es.len() as int);
    assert forall|i: int| 0 <= i < e2.len() implies step1(#[trigger] l2[i], after_start(e2, i), e2[i], l2[i + 1]) by { if i < k { assert(step1(ls[i], after_start(es, i), es[i], ls[i + 1])); } }
}
proof fn dead_step(fresh: bool, e: Ev) ensures step1(l_none(), fresh, e, l_none()) { reveal(start_rel); reveal(td_rel); reveal(ed_rel); assert(td_rel(l_none(), seq![], l_none()) && ed_rel(l_none(), l_none())); }
// once nothing is left, the rest of the document does not matter
#[verifier::spinoff_prover] pub proof fn dead_run(ls: Seq<Lang>, es: Seq<Ev>, more: Seq<Ev>) -> (r: Seq<Lang>) requires run(ls, es), ls.last() == l_none() ensures run(r, es + more), r[0] == ls[0], r.last() == l_none() decreases more.len()
{
    if more.len() == 0 { assert(es + more =~= es); ls } else {
        let e2 = es.push(more[0]); let l2 = ls.push(l_none());
        dead_step(after_start(es, es.len() as int), more[0]); run_push(ls, es, more[0], l_none());
        assert(es + more =~= e2 + more.drop_first());
        dead_run(l2, e2, more.drop_first())
    }
}
#[verifier::spinoff_prover] pub proof fn refused(ls: Seq<Lang>, es: Seq<Ev>, x: Sym)
    requires run(ls, es), ls.last() == l_none(), x is Child, joined1(x), es.len() <= evs(seq![x]).len(), es == evs(seq![x]).take(es.len() as int)
    ensures forall|y: Sym| #[trigger] reads1(x, y) ==> !ls[0](one(seq![], seq![y]))
{
    let all = evs(seq![x]); let more = all.skip(es.len() as int);
    assert(es + more =~= all);
    let l2 = dead_run(ls, es, more);
    document(l2, x);
}
impl<'a> Validator<'a> {
    // the events that a token brings
    pub open spec fn text_ev(&self) -> Seq<Ev> { match text_of(self.pending_text) { Some(s) => seq![Ev::Text(s)], None => seq![] } }
    pub open spec fn brings(&self, t: Token<'a>) -> Seq<Ev> {
        let start = seq![Ev::Start(name_of(self.stack.elements@), atts_of(self.stack.elements@, defs_of(&self.entity_definitions)))];
        match t {
            Token::ElementStart {..} => self.text_ev(),
            Token::ElementEnd { end: ElementEnd::Open, .. } => start,
            Token::ElementEnd { end: ElementEnd::Empty, .. } => start.push(Ev::End),
            Token::ElementEnd { end: ElementEnd::Close(_, _), .. } => self.text_ev().push(Ev::End),
            _ => seq![],
        }
    }
    // errors that have nothing to do with the schema
    pub open spec fn malformed(&self, t: Token<'a>) -> bool {
        match t {
            Token::ElementEnd { end: ElementEnd::Open, .. } | Token::ElementEnd { end: ElementEnd::Empty, .. } => tag_bad(self.stack.elements@, defs_of(&self.entity_definitions)),
            Token::Text { text } => decoded(text@, false, defs_of(&self.entity_definitions)) is None,
            Token::EntityDeclaration { definition: EntityDefinition::ExternalId(_), .. } => true,
            _ => false,
        }
    }
    // ls and es are the history of the validator
    pub open spec fn history(&self, ls: Seq<Lang>, es: Seq<Ev>) -> bool { run(ls, es) && ls.last() == lang(self.current_step) && self.last_was_start_element == after_start(es, es.len() as int) }
    #[verifier::spinoff_prover] proof fn token_runs(&self, ls: Seq<Lang>, es: Seq<Ev>, t: Token<'a>, v: &Self, ok: bool) -> (r: Seq<Lang>)
        requires self.history(ls, es), self.token(t, v, ok)
        ensures r.len() > 0, r[0] == ls[0], ok ==> v.history(r, es + self.brings(t)),
            !ok ==> self.malformed(t) || run(r, es + self.brings(t)) && r.last() == l_none()
    {
        let b = self.brings(t);
        assert(es + Seq::<Ev>::empty() =~= es);
        match t {
            Token::ElementStart {..} => { let m = choose|m: Self| #[trigger] self.flushed(&m, ok) && (ok ==> v.same_but(&m, false, true, false, false)); self.flush_runs(ls, es, &m, ok) }
            Token::ElementEnd { end: ElementEnd::Open, .. } => {
                if ok || !self.malformed(t) { let l = if ok { lang(v.current_step) } else { l_none() }; run_push(ls, es, b[0], l); assert(es.push(b[0]) =~= es + b); ls.push(l) } else { ls }
            }
            Token::ElementEnd { end: ElementEnd::Empty, .. } => {
                let (n, at) = (name_of(self.stack.elements@), atts_of(self.stack.elements@, defs_of(&self.entity_definitions)));
                let l = if ok { lang(v.current_step) } else { l_none() };
                assert(es.push(b[0]).push(b[1]) =~= es + b);
                if ok || !self.malformed(t) && emptied(ls.last(), n, at, l) {
                    let (p, q) = choose|a: PatId, b: PatId| start_rel(ls.last(), n, at, #[trigger] lang(a)) && td_rel(lang(a), seq![], #[trigger] lang(b)) && ed_rel(lang(b), l);
                    run_push(ls, es, b[0], lang(p)); let e1 = es.push(b[0]); let l1 = ls.push(lang(p));
                    assert(after_start(e1, e1.len() as int));
                    run_push(l1, e1, b[1], l); l1.push(l)
                } else if !self.malformed(t) { run_push(ls, es, b[0], l_none()); dead_run(ls.push(l_none()), es.push(b[0]), seq![b[1]]) } else { ls }
            }
            Token::ElementEnd { end: ElementEnd::Close(_, _), .. } => {
                let (m, o) = choose|m: Self, o: bool| #[trigger] self.flushed(&m, o) && (if o { m.after_close(v, ok) && (ok ==> v.same_but(&m, true, true, false, false)) } else { !ok });
                let l1 = self.flush_runs(ls, es, &m, o); let e1 = es + self.text_ev();
                assert(e1.push(Ev::End) =~= es + b);
                if o {
                    let l = if ok { lang(v.current_step) } else { l_none() };
                    if m.last_was_start_element { let q = choose|q: PatId| td_rel(lang(m.current_step), seq![], #[trigger] lang(q)) && ed_rel(lang(q), l); assert(td_rel(l1.last(), seq![], lang(q))); }
                    assert(step1(l1.last(), after_start(e1, e1.len() as int), Ev::End, l));
                    run_push(l1, e1, Ev::End, l); l1.push(l)
                } else { assert(e1 + seq![Ev::End] =~= e1.push(Ev::End)); dead_run(l1, e1, seq![Ev::End]) }
            }
            _ => { assert(es + b =~= es); ls }
        }
    }
    #[verifier::spinoff_prover] proof fn flush_runs(&self, ls: Seq<Lang>, es: Seq<Ev>, m: &Self, ok: bool) -> (r: Seq<Lang>)
        requires self.history(ls, es), self.flushed(m, ok)
        ensures r.len() > 0, r[0] == ls[0], ok ==> m.history(r, es + self.text_ev()), !ok ==> run(r, es + self.text_ev()) && r.last() == l_none()
    {
        match text_of(self.pending_text) {
            None => { assert(es + self.text_ev() =~= es); ls }
            Some(s) => { let l = if ok { lang(m.current_step) } else { l_none() }; run_push(ls, es, Ev::Text(s), l); assert(es.push(Ev::Text(s)) =~= es + self.text_ev()); ls.push(l) }
        }
    }
}
