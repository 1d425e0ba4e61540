// ================================================================ C05, C18: what is referred to is defined, and no definition refers to itself outside an element
use std::collections::HashSet;
fn vx_contains(v: &Vec<usize>, x: &usize) -> (r: bool) ensures r == v@.contains(*x) {
    let mut k: usize = 0;
    while k < v.len() invariant k <= v@.len(), forall|j: int| 0 <= j < k ==> v@[j] != *x decreases v@.len() - k { if v[k] == *x { assert(v@[k as int] == *x); return true; } k = k + 1; }
    false
}
pub broadcast proof fn pop_push(s: Seq<usize>, x: usize) ensures #[trigger] s.push(x).drop_last() == s { assert(s.push(x).drop_last() =~= s); }
// patterns that p refers to; with deep, also from within elements
pub open spec fn has_ref_n(v: Vec<Pattern>, n: nat, x: usize, deep: bool) -> bool decreases v, n {
    n > 0 && n <= v@.len() && (has_ref_n(v, (n - 1) as nat, x, deep) || has_ref(v@[n - 1], x, deep))
}
proof fn has_ref_all(v: Vec<Pattern>, n: nat, x: usize, deep: bool) requires n <= v@.len()
    ensures has_ref_n(v, n, x, deep) <==> exists|i: int| 0 <= i < n && #[trigger] has_ref(v@[i], x, deep)
    decreases n
{ if n > 0 { has_ref_all(v, (n - 1) as nat, x, deep); if has_ref(v@[n - 1], x, deep) { assert(0 <= n - 1 < n && has_ref(v@[n - 1], x, deep)); } } }
pub open spec fn has_ref(p: Pattern, x: usize, deep: bool) -> bool decreases p, 0nat {
    match p {
        Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => has_ref_n(v, v@.len(), x, deep),
        Pattern::Mixed(q) | Pattern::Optional(q) | Pattern::ZeroOrMore(q) | Pattern::OneOrMore(q) | Pattern::Attribute(_, q) | Pattern::List(q) => has_ref(*q, x, deep),
        Pattern::Element(_, q) => deep && has_ref(*q, x, deep),
        Pattern::Ref(_, _, r) => r.0.ptr() == x,
        Pattern::DatatypeName { except, .. } => match except { Some(e) => has_ref(*e, x, deep), None => false },
        Pattern::Empty | Pattern::Text | Pattern::NotAllowed | Pattern::DatatypeValue { .. } => false,
    }
}
pub open spec fn defined(x: usize) -> bool { def_at(x) is Some }
pub open spec fn body(x: usize) -> Pattern { rpat(def_at(x).unwrap()) }
// a chain of references from p
pub open spec fn path(p: Pattern, s: Seq<usize>, deep: bool) -> bool {
    s.len() > 0 && has_ref(p, s[0], deep) && forall|i: int| 0 <= i < s.len() - 1 ==> defined(#[trigger] s[i]) && has_ref(body(s[i]), s[i + 1], deep)
}
// the definition refers to itself without passing through the body of an element
pub open spec fn on_cycle(x: usize) -> bool { defined(x) && exists|s: Seq<usize>| path(body(x), s, false) && s.last() == x }
pub open spec fn bad(x: usize) -> bool { !defined(x) || on_cycle(x) }
proof fn path_cons(p: Pattern, x: usize, s: Seq<usize>, deep: bool) requires has_ref(p, x, deep), defined(x), path(body(x), s, deep) ensures path(p, seq![x] + s, deep), (seq![x] + s).last() == s.last() {
    let t = seq![x] + s;
    assert forall|i: int| 0 <= i < t.len() - 1 implies defined(#[trigger] t[i]) && has_ref(body(t[i]), t[i + 1], deep) by { if i > 0 { assert(t[i] == s[i - 1]); assert(t[i + 1] == s[i]); } }
}
proof fn shallow_deep(p: Pattern, x: usize) requires has_ref(p, x, false) ensures has_ref(p, x, true) decreases p {
    match p {
        Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => { nary_ref(p, false); nary_ref(p, true); let i = choose|i: int| 0 <= i < v@.len() && #[trigger] has_ref(v@[i], x, false); assert(decreases_to!(v => v@[i])); shallow_deep(v@[i], x); assert(has_ref(nary(p).unwrap().1[i], x, true)); }
        Pattern::Mixed(q) | Pattern::Optional(q) | Pattern::ZeroOrMore(q) | Pattern::OneOrMore(q) | Pattern::Attribute(_, q) | Pattern::List(q) => { shallow_deep(*q, x); }
        Pattern::DatatypeName { except: Some(e), .. } => { shallow_deep(*e, x); }
        _ => {}
    }
}
proof fn path_deep(p: Pattern, s: Seq<usize>) requires path(p, s, false) ensures path(p, s, true) {
    shallow_deep(p, s[0]);
    assert forall|i: int| 0 <= i < s.len() - 1 implies defined(#[trigger] s[i]) && has_ref(body(s[i]), s[i + 1], true) by { shallow_deep(body(s[i]), s[i + 1]); }
}
// the definitions that have been gone through completely, in an order in which each comes after those it refers to
pub open spec fn ordered_by(f: Set<usize>, o: Seq<usize>) -> bool {
    &&& forall|x: usize| f.contains(x) <==> o.contains(x)
    &&& forall|i: int, y: usize| #![trigger has_ref(body(o[i]), y, false)] 0 <= i < o.len() && has_ref(body(o[i]), y, false) && defined(y) ==> exists|j: int| 0 <= j < i && o[j] == y
    &&& forall|i: int| 0 <= i < o.len() ==> defined(#[trigger] o[i])
}
pub open spec fn acyc(f: Set<usize>) -> bool { exists|o: Seq<usize>| ordered_by(f, o) }
pub open spec fn finished(done: Set<usize>, open: Seq<usize>) -> Set<usize> { done.filter(|x: usize| !open.contains(x)) }
proof fn acyc_path(o: Seq<usize>, f: Set<usize>, i: int, s: Seq<usize>) requires ordered_by(f, o), 0 <= i < o.len(), path(body(o[i]), s, false), defined(s.last())
    ensures exists|j: int| 0 <= j < i && o[j] == s.last()
    decreases s.len()
{
    if s.len() == 1 { assert(has_ref(body(o[i]), s[0], false)); }
    else {
        assert(defined(s[0]));
        let j = choose|j: int| 0 <= j < i && o[j] == s[0];
        let t = s.drop_first();
        assert(has_ref(body(s[0 as int]), s[0 as int + 1], false));
        assert forall|k: int| 0 <= k < t.len() - 1 implies defined(#[trigger] t[k]) && has_ref(body(t[k]), t[k + 1], false) by { assert(t[k] == s[k + 1]); assert(defined(s[k + 1]) && has_ref(body(s[k + 1]), s[k + 1 + 1], false)); }
        acyc_path(o, f, j, t);
    }
}
// ordered_by() with the occurrence of x in o chosen first: no cycles
broadcast proof fn acyc_no_cycle(f: Set<usize>, x: usize) requires #[trigger] acyc(f), #[trigger] f.contains(x) ensures !on_cycle(x) {
    let o = choose|o: Seq<usize>| ordered_by(f, o);
    assert(o.contains(x));
    let i = choose|i: int| 0 <= i < o.len() && o[i] == x;
    if on_cycle(x) {
        first_at(o, x, i);
        let k = choose|k: int| 0 <= k <= i && o[k] == x && forall|j: int| 0 <= j < k ==> o[j] != x;
        let s = choose|s: Seq<usize>| path(body(x), s, false) && s.last() == x;
        acyc_path(o, f, k, s);
    }
}
proof fn first_at(o: Seq<usize>, x: usize, i: int) requires 0 <= i < o.len(), o[i] == x ensures exists|k: int| 0 <= k <= i && o[k] == x && forall|j: int| 0 <= j < k ==> o[j] != x decreases i {
    if exists|j: int| 0 <= j < i && o[j] == x { let j = choose|j: int| 0 <= j < i && o[j] == x; first_at(o, x, j); }
    else { assert(0 <= i <= i && o[i] == x); }
}
proof fn acyc_push(f: Set<usize>, x: usize, g: Set<usize>) requires acyc(f), defined(x), forall|y: usize| has_ref(body(x), y, false) && defined(y) ==> f.contains(y), forall|y: usize| g.contains(y) <==> f.contains(y) || y == x
    ensures acyc(g)
{
    let o = choose|o: Seq<usize>| ordered_by(f, o);
    let p = o.push(x);
    assert forall|y: usize| g.contains(y) <==> p.contains(y) by { assert(f.contains(y) <==> o.contains(y)); if g.contains(y) { if y == x { assert(p[o.len() as int] == x); } else { let i = choose|i: int| 0 <= i < o.len() && o[i] == y; assert(p[i] == y); } } if p.contains(y) { let i = choose|i: int| 0 <= i < p.len() && p[i] == y; if i < o.len() { assert(o[i] == y); } else { assert(y == x); } } }
    assert forall|i: int, y: usize| #![trigger has_ref(body(p[i]), y, false)] 0 <= i < p.len() && has_ref(body(p[i]), y, false) && defined(y) implies exists|j: int| 0 <= j < i && p[j] == y by {
        if i < o.len() { assert(o[i] == p[i]); assert(has_ref(body(o[i]), y, false)); let j = choose|j: int| 0 <= j < i && o[j] == y; assert(p[j] == y); }
        else { assert(o.contains(y)); let j = choose|j: int| 0 <= j < o.len() && o[j] == y; assert(p[j] == y); }
    }
    assert forall|i: int| 0 <= i < p.len() implies defined(#[trigger] p[i]) by { if i < o.len() { assert(p[i] == o[i]); } }
    assert(ordered_by(g, p));
}
// the definitions being gone through: each refers to the next, and the last one to whatever patt refers to
pub open spec fn chain(open: Seq<usize>, patt: Pattern) -> bool {
    &&& forall|i: int| 0 <= i < open.len() ==> defined(#[trigger] open[i])
    &&& forall|i: int| 0 <= i < open.len() - 1 ==> has_ref(body(#[trigger] open[i]), open[i + 1], false)
    &&& open.len() > 0 ==> forall|x: usize| has_ref(patt, x, false) ==> has_ref(body(open.last()), x, false)
}
proof fn chain_cycle(open: Seq<usize>, patt: Pattern, k: int) requires chain(open, patt), 0 <= k < open.len(), has_ref(patt, open[k], false) ensures on_cycle(open[k]) {
    let s = open.skip(k + 1).push(open[k]);
    assert forall|i: int| 0 <= i < s.len() - 1 implies defined(#[trigger] s[i]) && has_ref(body(s[i]), s[i + 1], false) by { assert(s[i] == open[k + 1 + i]); assert(defined(open[k + 1 + i])); if i < s.len() - 2 { assert(s[i + 1] == open[k + 1 + i + 1]); } else { assert(s[i] == open.last()); } }
    if s.len() == 1 { assert(open[k] == open.last()); } else { assert(s[0] == open[k + 1]); assert(has_ref(body(open[k]), open[k + 1], false)); }
    assert(path(body(open[k]), s, false) && s.last() == open[k]);
}
pub open spec fn cyc_reach(p: Pattern) -> bool { exists|s: Seq<usize>| path(p, s, false) && on_cycle(#[trigger] s.last()) }
pub open spec fn bad_reach(p: Pattern) -> bool { exists|s: Seq<usize>| path(p, s, true) && bad(#[trigger] s.last()) }
pub open spec fn sub_ref(p: Pattern, q: Pattern, deep: bool) -> bool { forall|x: usize| #[trigger] has_ref(q, x, deep) ==> has_ref(p, x, deep) }
broadcast proof fn sub_cyc(p: Pattern, q: Pattern) requires #[trigger] sub_ref(p, q, false), #[trigger] cyc_reach(q) ensures cyc_reach(p) { let s = choose|s: Seq<usize>| path(q, s, false) && on_cycle(#[trigger] s.last()); assert(has_ref(q, s[0], false)); assert(path(p, s, false)); }
broadcast proof fn sub_bad(p: Pattern, q: Pattern) requires #[trigger] sub_ref(p, q, true), #[trigger] bad_reach(q) ensures bad_reach(p) { let s = choose|s: Seq<usize>| path(q, s, true) && bad(#[trigger] s.last()); assert(has_ref(q, s[0], true)); assert(path(p, s, true)); }
pub open spec fn good(x: usize, seen: Set<usize>) -> bool { defined(x) && !on_cycle(x) && forall|y: usize| has_ref(body(x), y, true) ==> seen.contains(y) }

pub broadcast proof fn ref_done(o: Seq<usize>, x: usize, d: Set<usize>)
    requires acyc(#[trigger] finished(d, o.push(x))), d.contains(x), !o.contains(x), defined(x), forall|y: usize| has_ref(body(x), y, false) && defined(y) ==> finished(d, o.push(x)).contains(y)
    ensures acyc(finished(d, o)), finished(d, o).contains(x)
{
    let (f, g) = (finished(d, o.push(x)), finished(d, o));
    assert forall|y: usize| g.contains(y) <==> f.contains(y) || y == x by {
        if o.push(x).contains(y) { let i = choose|i: int| 0 <= i < o.push(x).len() && o.push(x)[i] == y; if i < o.len() { assert(o[i] == y); } }
        if o.contains(y) { let i = choose|i: int| 0 <= i < o.len() && o[i] == y; assert(o.push(x)[i] == y); }
        assert(o.push(x)[o.len() as int] == x);
    }
    acyc_push(f, x, g);
}
pub proof fn empty_acyc() ensures acyc(finished(Set::empty(), seq![])) { assert(ordered_by(finished(Set::empty(), seq![]), seq![])); }
pub proof fn ref_start(o: Seq<usize>, x: usize, d: Set<usize>, p: Pattern)
    requires acyc(finished(d, o)), !d.contains(x), chain(o, p), has_ref(p, x, false), defined(x), forall|i: int| 0 <= i < o.len() ==> d.contains(#[trigger] o[i])
    ensures acyc(finished(d.insert(x), o.push(x))), chain(o.push(x), body(x)), forall|i: int| 0 <= i < o.push(x).len() ==> d.insert(x).contains(#[trigger] o.push(x)[i])
{
    let (f, g) = (finished(d.insert(x), o.push(x)), finished(d, o));
    assert(f =~= g) by {
        assert forall|y: usize| g.contains(y) <==> f.contains(y) by {
            if o.push(x).contains(y) { let i = choose|i: int| 0 <= i < o.push(x).len() && o.push(x)[i] == y; if i < o.len() { assert(o[i] == y); } }
            if o.contains(y) { let i = choose|i: int| 0 <= i < o.len() && o[i] == y; assert(o.push(x)[i] == y); }
            assert(o.push(x)[o.len() as int] == x);
        }
    }
    let t = o.push(x);
    assert forall|i: int| 0 <= i < t.len() - 1 implies has_ref(body(#[trigger] t[i]), t[i + 1], false) by { if i < t.len() - 2 { assert(t[i] == o[i] && t[i + 1] == o[i + 1]); } else { assert(t[i] == o.last()); } }
}
pub proof fn ref_cyc(p: Pattern, x: usize) requires has_ref(p, x, false), defined(x) ensures on_cycle(x) ==> cyc_reach(p), cyc_reach(body(x)) ==> cyc_reach(p) {
    if on_cycle(x) { let s = seq![x]; assert(path(p, s, false) && on_cycle(s.last())); }
    if cyc_reach(body(x)) { let s = choose|s: Seq<usize>| path(body(x), s, false) && on_cycle(#[trigger] s.last()); path_cons(p, x, s, false); assert(on_cycle((seq![x] + s).last())); }
}
pub proof fn ref_bad(p: Pattern, x: usize) requires has_ref(p, x, true) ensures bad(x) ==> bad_reach(p), defined(x) && bad_reach(body(x)) ==> bad_reach(p) {
    if bad(x) { let s = seq![x]; assert(path(p, s, true) && bad(s.last())); }
    if defined(x) && bad_reach(body(x)) { let s = choose|s: Seq<usize>| path(body(x), s, true) && bad(#[trigger] s.last()); path_cons(p, x, s, true); assert(bad((seq![x] + s).last())); }
}
pub proof fn cyc_bad(p: Pattern) requires cyc_reach(p) ensures bad_reach(p) { let s = choose|s: Seq<usize>| path(p, s, false) && on_cycle(#[trigger] s.last()); path_deep(p, s); assert(bad(s.last())); }
pub proof fn nary_ref(p: Pattern, deep: bool) requires nary(p) is Some
    ensures forall|x: usize| has_ref(p, x, deep) <==> exists|i: int| 0 <= i < nary(p).unwrap().1.len() && #[trigger] has_ref(nary(p).unwrap().1[i], x, deep)
{
    let w = nary(p).unwrap().1;
    assert forall|x: usize| has_ref(p, x, deep) <==> exists|i: int| 0 <= i < w.len() && #[trigger] has_ref(w[i], x, deep) by {
        match p { Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => {
            has_ref_all(v, v@.len(), x, deep);
        } _ => {} }
    }
}
pub open spec fn sub_refs(p: Pattern, deep: bool) -> bool {
    match p {
        Pattern::Choice(_) | Pattern::Interleave(_) | Pattern::Group(_) => forall|i: int| 0 <= i < nary(p).unwrap().1.len() ==> #[trigger] sub_ref(p, nary(p).unwrap().1[i], deep),
        Pattern::Mixed(q) | Pattern::Optional(q) | Pattern::ZeroOrMore(q) | Pattern::OneOrMore(q) | Pattern::Attribute(_, q) | Pattern::List(q) => sub_ref(p, *q, deep),
        Pattern::Element(_, q) => deep ==> sub_ref(p, *q, deep),
        Pattern::DatatypeName { except: Some(e), .. } => sub_ref(p, *e, deep),
        _ => true,
    }
}
pub open spec fn only_child(p: Pattern, deep: bool) -> Option<Pattern> {
    match p {
        Pattern::Mixed(q) | Pattern::Optional(q) | Pattern::ZeroOrMore(q) | Pattern::OneOrMore(q) | Pattern::Attribute(_, q) | Pattern::List(q) => Some(*q),
        Pattern::Element(_, q) => if deep { Some(*q) } else { None },
        Pattern::DatatypeName { except: Some(e), .. } => Some(*e),
        _ => None,
    }
}
pub proof fn subs(p: Pattern, deep: bool) ensures sub_refs(p, deep), only_child(p, deep) matches Some(q) ==> forall|x: usize| #[trigger] has_ref(p, x, deep) ==> has_ref(q, x, deep), nary(p) is Some ==> forall|x: usize| has_ref(p, x, deep) <==> exists|i: int| 0 <= i < nary(p).unwrap().1.len() && #[trigger] has_ref(nary(p).unwrap().1[i], x, deep) {
    if nary(p) is Some { nary_ref(p, deep); let w = nary(p).unwrap().1;
        assert forall|i: int| 0 <= i < w.len() implies #[trigger] sub_ref(p, w[i], deep) by { assert forall|x: usize| #[trigger] has_ref(w[i], x, deep) implies has_ref(p, x, deep) by { } } }
}
pub open spec fn covered(p: Pattern, n: int, deep: bool, s: Set<usize>) -> bool { forall|i: int, x: usize| 0 <= i < n && #[trigger] has_ref(nary(p).unwrap().1[i], x, deep) && (deep || defined(x)) ==> s.contains(x) }
impl Compiler {
//@fn l Compiler::check_ref_cycle ret=r params=open,done,patt props=C05,C18 loops=1
//@attr #[verifier::exec_allows_no_decreases_clause]
//@method contains => vx_contains
    requires chain(old($open)@, *$patt), acyc(finished(old($done)@, old($open)@)), forall|i: int| 0 <= i < old($open)@.len() ==> old($done)@.contains(#[trigger] old($open)@[i])
    ensures
        r is Ok ==> {
            &&& final($open)@ == old($open)@
            &&& old($done)@.subset_of(final($done)@)
            &&& acyc(finished(final($done)@, old($open)@))
            &&& forall|x: usize| has_ref(*$patt, x, false) && defined(x) ==> finished(final($done)@, old($open)@).contains(x)
        },
        r is Err ==> cyc_reach(*$patt)
//@pre
    proof { subs(*$patt, false); broadcast use {sub_cyc, ref_done, pop_push, vstd::std_specs::hash::group_hash_axioms}; }
    let ghost (o0, d0) = ($open@, $done@);
//@loop 0 for:it
    invariant
        nary(*$patt) is Some, it.seq().map(|i: int, x: &Pattern| *x) =~= nary(*$patt).unwrap().1, sub_refs(*$patt, false),
        $open@ == o0, chain(o0, *$patt), d0.subset_of($done@), acyc(finished($done@, o0)), forall|i: int| 0 <= i < o0.len() ==> $done@.contains(#[trigger] o0[i]),
        covered(*$patt, it.index@ as int, false, finished($done@, o0)),
//@loopbegin 0
    proof { broadcast use sub_cyc; let w = it.seq().map(|i: int, x: &Pattern| *x); assert(w[it.index@ as int] == *p); subs(*$patt, false); assert(sub_ref(*$patt, nary(*$patt).unwrap().1[it.index@ as int], false)); }
//@loopafter 0
    proof {
        assert forall|x: usize| has_ref(*$patt, x, false) && defined(x) implies finished($done@, o0).contains(x) by { subs(*$patt, false); }
    }
//@arm Pattern::Ref
        broadcast use {ref_done, pop_push, vstd::std_specs::hash::group_hash_axioms};
        let x = def.0.ptr();
        assert(has_ref(*$patt, x, false));
        if defined(x) {
            ref_cyc(*$patt, x);
            if o0.contains(x) { let k = choose|k: int| 0 <= k < o0.len() && o0[k] == x; chain_cycle(o0, *$patt, k); }
            else if !d0.contains(x) { ref_start(o0, x, d0, *$patt); } else { assert(d0.insert(x) =~= d0); }
        }
//@end
//@fn l Compiler::check ret=r params=_s,seen,patt props=C05,C18 loops=1
//@attr #[verifier::exec_allows_no_decreases_clause]
    ensures
        r is Ok ==> {
            &&& old($seen)@.subset_of(final($seen)@)
            &&& covers(*$patt, final($seen)@)
            &&& forall|x: usize| final($seen)@.contains(x) && !old($seen)@.contains(x) ==> good(x, final($seen)@)
        },
        r is Err ==> bad_reach(*$patt)
//@pre
    proof { subs(*$patt, true); broadcast use {sub_bad, acyc_no_cycle, vstd::std_specs::hash::group_hash_axioms}; }
    let ghost s0 = $seen@;
//@loop 0 for:it
    invariant
        nary(*$patt) is Some, it.seq().map(|i: int, x: &Pattern| *x) =~= nary(*$patt).unwrap().1, sub_refs(*$patt, true),
        s0.subset_of($seen@), covered(*$patt, it.index@ as int, true, $seen@), forall|x: usize| $seen@.contains(x) && !s0.contains(x) ==> good(x, $seen@)
//@loopbegin 0
    proof { broadcast use sub_bad; let w = it.seq().map(|i: int, x: &Pattern| *x); assert(w[it.index@ as int] == *p); subs(*$patt, true); assert(sub_ref(*$patt, nary(*$patt).unwrap().1[it.index@ as int], true)); }
//@loopafter 0
    proof {
        assert forall|x: usize| has_ref(*$patt, x, true) implies $seen@.contains(x) by { subs(*$patt, true); }
    }
//@arm Pattern::Ref
        broadcast use vstd::std_specs::hash::group_hash_axioms;
        let x = def.0.ptr();
        assert(has_ref(*$patt, x, true) && has_ref(*$patt, x, false));
        ref_bad(*$patt, x);
        if cyc_reach(*$patt) { cyc_bad(*$patt); }
        empty_acyc();
//@end
}
pub open spec fn covers(p: Pattern, s: Set<usize>) -> bool { forall|x: usize| has_ref(p, x, true) ==> s.contains(x) }
// nothing bad is reached if everything that is reached is good
pub proof fn all_good(p: Pattern, seen: Set<usize>) requires forall|x: usize| has_ref(p, x, true) ==> seen.contains(x), forall|x: usize| seen.contains(x) ==> good(x, seen) ensures !bad_reach(p) {
    if bad_reach(p) { let s = choose|s: Seq<usize>| path(p, s, true) && bad(#[trigger] s.last()); reach_seen(p, s, seen, s.len() - 1); assert(good(s.last(), seen)); }
}
proof fn reach_seen(p: Pattern, s: Seq<usize>, seen: Set<usize>, i: int) requires path(p, s, true), 0 <= i < s.len(), forall|x: usize| has_ref(p, x, true) ==> seen.contains(x), forall|x: usize| seen.contains(x) ==> good(x, seen) ensures seen.contains(s[i]) decreases i {
    if i > 0 { reach_seen(p, s, seen, i - 1); assert(good(s[i - 1], seen)); assert(has_ref(body(s[i - 1]), s[i - 1 + 1], true)); }
}
