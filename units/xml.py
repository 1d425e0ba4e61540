"""writes xml.vrs (the functions that fold a list of children have the same proof)"""
import os
d = os.path.dirname(os.path.abspath(__file__))
base = open(os.path.join(d, 'xml_base.vrs')).read()
i = base.rindex('}\nfn main() {}')
o = [base[:i]]
NAMES = 'name anyName nsName choice except element attribute group interleave optional zeroOrMore oneOrMore list mixed ref parentRef empty text value data notAllowed externalRef grammar start define div include param'.split()
ELNAMES = '// the element names are different strings\nproof fn el_names()\n    ensures ' + '\n        '.join(f'"{n}"@.len() == {len(n)}, ' + ', '.join(f'"{n}"@[{i}] == \'{c}\'' for i, c in enumerate(n) if i < 3) + ',' for n in NAMES) + '\n{ ' + ' '.join(f'reveal_strlit("{n}");' for n in NAMES) + ' }\n'
A = '//@attr #[verifier::exec_allows_no_decreases_clause]\n'
o.append(r'''
//@include ncspec.vrs
//@include ncxml.vrs
//@method to_string => vx_to_string ref
//@slices
// ================================================================ names (C16)
pub open spec fn lit_is(l: Literal, s: Seq<char>) -> bool { l.1@.len() == 1 && l.1@[0].body@ == s }
pub open spec fn first_colon(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == ':' { 0 } else { 1 + first_colon(s.drop_first()) } }
proof fn colon_at(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), s[k] == ':', forall|j: int| 0 <= j < k ==> s[j] != ':'
    ensures first_colon(s) == k
    decreases s.len()
{ if k > 0 { assert(s[0] != ':'); let t = s.drop_first(); assert(t[k - 1] == s[k]); assert forall|j: int| 0 <= j < k - 1 implies t[j] != ':' by { assert(t[j] == s[j + 1]); } colon_at(t, k - 1); } }
// a name as it is written: with a prefix that is bound, or in the namespace given
pub open spec fn qn_ok(n: int, s: Seq<char>) -> bool {
    if s.contains(':') { bound(n, s.take(first_colon(s))) is Some && ncname_(s.skip(first_colon(s) + 1)) } else { ncname_(s) }
}
pub open spec fn qn(n: int, s: Seq<char>, dflt: Seq<char>, x: NamespacedName) -> bool {
    if s.contains(':') { bound(n, s.take(first_colon(s))) is Some && lit_is(x.namespace_uri, bound(n, s.take(first_colon(s)))->0) && x.localname.1@ == s.skip(first_colon(s) + 1) }
    else { lit_is(x.namespace_uri, dflt) && x.localname.1@ == s }
}
// the text directly within an element
pub open spec fn tcat(s: Seq<int>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { tcat(s.drop_last()) + (match text_(s.last()) { Some(t) => t, None => Seq::empty() }) } }
pub open spec fn istext() -> spec_fn(int) -> bool { |c: int| is_text(c) }
pub open spec fn own_text(n: int) -> Seq<char> { tcat(nodes(n).filter(istext())) }
impl Literal {
//@fn t Literal::new ret=r params=span,body props=C16
    ensures lit_is(r, $body@)
//@end
}
// Iterator::filter, filter_map and collect::<String>, on a list of nodes
pub open spec fn scat(v: Seq<&str>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { scat(v.drop_last()) + v.last()@ } }
fn vx_filter<'a, 'input: 'a, F: Fn(&Node<'a, 'input>) -> bool>(v: Vec<Node<'a, 'input>>, f: F) -> (r: Vec<Node<'a, 'input>>)
    requires forall|x: &Node<'a, 'input>| f.requires((x,))
    ensures (forall|x: Node<'a, 'input>, b: bool| #[trigger] f.ensures((&x,), b) ==> b == is_text(x.id())) ==> ids(r@) == ids(v@).filter(istext())
{
    let mut r: Vec<Node<'a, 'input>> = Vec::new();
    let mut k = 0;
    let ghost g = istext();
    let ghost cond = forall|x: Node<'a, 'input>, b: bool| #[trigger] f.ensures((&x,), b) ==> b == is_text(x.id());
    assert(ids(v@).take(0).filter(g) =~= Seq::<int>::empty()) by { reveal(Seq::filter); }
    while k < v.len()
        invariant k <= v@.len(), forall|x: &Node<'a, 'input>| f.requires((x,)), g == istext(), cond == (forall|x: Node<'a, 'input>, b: bool| #[trigger] f.ensures((&x,), b) ==> b == is_text(x.id())),
            cond ==> ids(r@) =~= ids(v@).take(k as int).filter(g)
        decreases v@.len() - k
    {
        let x = v[k];
        let b = f(&x);
        proof { reveal(Seq::filter); let t = ids(v@).take(k + 1); assert(t.drop_last() =~= ids(v@).take(k as int)); assert(t.last() == x.id()); }
        if b { r.push(x); }
        k = k + 1;
    }
    assert(ids(v@).take(k as int) =~= ids(v@));
    r
}
fn vx_filter_map<'a, 'input: 'a, F: Fn(Node<'a, 'input>) -> Option<&'a str>>(v: Vec<Node<'a, 'input>>, f: F) -> (r: Vec<&'a str>)
    requires forall|x: Node<'a, 'input>| f.requires((x,))
    ensures (forall|x: Node<'a, 'input>, b: Option<&'a str>| #[trigger] f.ensures((x,), b) ==> txt(b) == text_(x.id())) ==> scat(r@) == tcat(ids(v@))
{
    let mut r: Vec<&'a str> = Vec::new();
    let mut k = 0;
    let ghost cond = forall|x: Node<'a, 'input>, b: Option<&'a str>| #[trigger] f.ensures((x,), b) ==> txt(b) == text_(x.id());
    while k < v.len()
        invariant k <= v@.len(), forall|x: Node<'a, 'input>| f.requires((x,)), cond == (forall|x: Node<'a, 'input>, b: Option<&'a str>| #[trigger] f.ensures((x,), b) ==> txt(b) == text_(x.id())),
            cond ==> scat(r@) =~= tcat(ids(v@).take(k as int))
        decreases v@.len() - k
    {
        let x = v[k];
        let b = f(x);
        proof { let t = ids(v@).take(k + 1); assert(t.drop_last() =~= ids(v@).take(k as int)); assert(t.last() == x.id()); }
        let ghost r0 = r@;
        match b { Some(y) => { r.push(y); proof { assert(r@.drop_last() =~= r0); } } None => {} }
        k = k + 1;
    }
    assert(ids(v@).take(k as int) =~= ids(v@));
    r
}
#[verifier::external_body]
fn vx_collect(v: Vec<&str>) -> (r: String) ensures r@ == scat(v@) { v.into_iter().collect() }
//@method filter => vx_filter
//@method filter_map => vx_filter_map
//@method collect => vx_collect
//@fn l text_content ret=r params=node props=C16,C17
    ensures r@ == own_text($node.id())
//@closure 0
    -> (b: bool) ensures b == is_text($1.id())
//@closure 1
    -> (b: Option<&str>) ensures txt(b) == text_($1.id())
//@end
''')
o.append(r'''
//@fn l get_ns_att ret=r params=start props=C16 loops=1
//@attr #[verifier::exec_allows_no_decreases_clause]
    ensures match r { Some(x) => near($start.id(), "ns"@) == Some(x.a()), None => near($start.id(), "ns"@) is None }
//@loop 0
        invariant match this { Some(n) => near(n.id(), "ns"@) == near($start.id(), "ns"@), None => near($start.id(), "ns"@) is None }
        ensures near($start.id(), "ns"@) is None
//@end
//@fn l get_dt_lib_att ret=r params=start props=C16 loops=1
//@attr #[verifier::exec_allows_no_decreases_clause]
    ensures match r { Some(x) => near($start.id(), "datatypeLibrary"@) == Some(x.a()), None => near($start.id(), "datatypeLibrary"@) is None }
//@loop 0
        invariant match this { Some(n) => near(n.id(), "datatypeLibrary"@) == near($start.id(), "datatypeLibrary"@), None => near($start.id(), "datatypeLibrary"@) is None }
        ensures near($start.id(), "datatypeLibrary"@) is None
//@end
//@fn l get_ns ret=r params=node props=C16
//@inline map=opt_map
    ensures match r { Some(l) => near($node.id(), "ns"@) is Some && lit_is(l, near($node.id(), "ns"@)->0.value), None => near($node.id(), "ns"@) is None }
//@end
//@fn l get_datatype_lib ret=r params=node props=C16
//@inline map=opt_map
    ensures match r { Some(l) => near($node.id(), "datatypeLibrary"@) is Some && lit_is(l, near($node.id(), "datatypeLibrary"@)->0.value), None => near($node.id(), "datatypeLibrary"@) is None }
//@end
proof fn cut_colon(s: Seq<char>, k: int, o: int)
    requires 0 <= k < s.len(), s[k] == ':', cut(s, k, o), forall|j: int| 0 <= j < k ==> s[j] != ':'
    ensures s.contains(':'), first_colon(s) == k, cut(s, 0, 0), cut(s, k + 1, o + 1), o + 1 <= blen(s), o + 1 + blen(s.skip(k + 1)) == blen(s), s.subrange(0, k) == s.take(k),
        forall|j: int| #[trigger] cut(s, j, o) ==> j == k, forall|j: int| #[trigger] cut(s, j, o + 1) ==> j == k + 1, blen(s.take(k)) == o
{
    colon_at(s, k);
    assert(s.take(k + 1) =~= s.take(k) + seq![':']);
    blen_cat(s.take(k), seq![':']);
    assert(seq![':'].drop_first() =~= Seq::<char>::empty());
    assert(blen(seq![':'].drop_first()) == 0);
    assert(blen(seq![':']) == 1);
    assert(s.take(0) =~= Seq::<char>::empty());
    assert(s =~= s.take(k + 1) + s.skip(k + 1)); blen_cat(s.take(k + 1), s.skip(k + 1));
    cut_only(s, k, o); cut_only(s, k + 1, o + 1);
    assert(s.subrange(0, k) =~= s.take(k));
}
proof fn blen_trim(s: Seq<char>) ensures blen(trim(s)) <= blen(s) { blen_ts(s); blen_te(trim_start(s)); }
proof fn trims() ensures forall|s: Seq<char>| blen(#[trigger] trim(s)) <= blen(s) { assert forall|s: Seq<char>| blen(#[trigger] trim(s)) <= blen(s) by { blen_trim(s); } }
proof fn no_lit() ensures ""@ == Seq::<char>::empty() { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
proof fn blen_ts(s: Seq<char>) ensures blen(trim_start(s)) <= blen(s) decreases s.len() { if s.len() > 0 && xws(s[0]) { blen_ts(s.drop_first()); } }
proof fn blen_te(s: Seq<char>) ensures blen(trim_end(s)) <= blen(s) decreases s.len() { if s.len() > 0 && xws(s.last()) { blen_te(s.drop_last()); assert(s =~= s.drop_last() + seq![s.last()]); blen_cat(s.drop_last(), seq![s.last()]); } }
//@fn l qname_att ret=r params=node,name,ns props=C16
//@inline ok_or_else map=opt_map
    ensures
        qn_ok($node.id(), trim($name.a().value)) ==> r is Ok,
        r matches Ok(x) ==> (x matches Name::NamespacedName(y) && qn($node.id(), trim($name.a().value), match $ns { Some(a) => a.a().value, None => Seq::empty() }, y))
//@pre
    proof {
        let s = trim($name.a().value);
        assert forall|k: int, o: int| 0 <= k < s.len() && #[trigger] cut(s, k, o) && s[k] == ':' && (forall|j: int| 0 <= j < k ==> s[j] != ':') implies s.contains(':') && first_colon(s) == k && cut(s, 0, 0) && cut(s, k + 1, o + 1) && o + 1 <= blen(s) && o + 1 + blen(s.skip(k + 1)) == blen(s) && s.subrange(0, k) == s.take(k) && (forall|j: int| #[trigger] cut(s, j, o) ==> j == k) && (forall|j: int| #[trigger] cut(s, j, o + 1) ==> j == k + 1) && (forall|j: int| #[trigger] cut(s, j, 0) ==> j == 0) by { cut_colon(s, k, o); cut_only(s, 0, 0); }
    }
//@aftercall trim_ws
    proof { str_len(val); }
//@end
''')

o.append(r'''
// ================================================================ the children of an element (C17)
pub open spec fn hh(n: int) -> nat { match up(n) { Some(p) => size(p), None => size(n) + 1 } }
// rk(s) consists of elements of s
proof fn rk_in(s: Seq<int>, i: int) requires 0 <= i < rk(s).len() ensures s.contains(rk(s)[i]), rng(rk(s)[i]) decreases s.len()
{
    let t = s.drop_first();
    if rng(s[0]) {
        assert(rk(s) =~= seq![s[0]] + rk(t));
        if i > 0 { rk_in(t, i - 1); let j = choose|j: int| 0 <= j < t.len() && t[j] == rk(t)[i - 1]; assert(s[j + 1] == rk(s)[i]); } else { assert(s.contains(s[0])); }
    } else { rk_in(t, i); let j = choose|j: int| 0 <= j < t.len() && t[j] == rk(t)[i]; assert(s[j + 1] == rk(s)[i]); }
}
pub proof fn kid_small(n: int, i: int) requires 0 <= i < rkids(n).len() ensures size(#[trigger] rkids(n)[i]) < size(n), el(rkids(n)[i]), rng(rkids(n)[i]), up(rkids(n)[i]) == Some(n) { rk_in(kids(n), i); }
pub broadcast proof fn kid_b(n: int, i: int) requires 0 <= i < rkids(n).len() ensures size(#[trigger] rkids(n)[i]) < size(n), el(rkids(n)[i]), rng(rkids(n)[i]), up(rkids(n)[i]) == Some(n) { kid_small(n, i); }
proof fn rk_skip(s: Seq<int>, i: int) requires 0 <= i < s.len() ensures rk(s.skip(i)) == (if rng(s[i]) { seq![s[i]] + rk(s.skip(i + 1)) } else { rk(s.skip(i + 1)) })
{ assert(s.skip(i)[0] == s[i]); assert(s.skip(i).drop_first() =~= s.skip(i + 1)); }
proof fn foll_up(c: int) requires up(c) is Some, el(c) ensures foll(c) == rk(kids(up(c)->0).skip(pos(c) + 1)), size(c) < size(up(c)->0), 0 <= pos(c) < kids(up(c)->0).len(), kids(up(c)->0)[pos(c)] == c { ax_place(c); }
//@fn l first_rng_child ret=r params=node props=C17,C16 loops=1
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    requires el($node.id())
    ensures match r { None => rkids($node.id()) == Seq::<int>::empty(), Some(c) => rng(c.id()) && el(c.id()) && up(c.id()) == Some($node.id()) && rkids($node.id()) == seq![c.id()] + foll(c.id()) }
//@pre
    proof { assert(kids($node.id()).skip(0) =~= kids($node.id())); }
    let ghost N = $node.id();
//@loop 0
        invariant el(N),
            match child { None => rkids(N) == Seq::<int>::empty(), Some(x) => el(x.id()) && up(x.id()) == Some(N) && rkids(N) == rk(kids(N).skip(pos(x.id()))) }
        ensures rkids(N) == Seq::<int>::empty()
//@loopbegin 0
        proof { foll_up(node.id()); rk_skip(kids(N), pos(node.id())); if pos(node.id()) + 1 >= kids(N).len() { assert(kids(N).skip(pos(node.id()) + 1) =~= Seq::<int>::empty()); } }
//@end
//@fn l next_rng_sibling ret=r params=node props=C17,C16 loops=1
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    requires el($node.id())
    ensures match r { None => foll($node.id()) == Seq::<int>::empty(), Some(c) => rng(c.id()) && el(c.id()) && up(c.id()) is Some && up(c.id()) == up($node.id()) && foll($node.id()) == seq![c.id()] + foll(c.id()) }
//@pre
    let ghost K = match up($node.id()) { Some(p) => kids(p), None => Seq::empty() };
    let ghost F = foll($node.id());
    let ghost U = up($node.id());
    proof {
        if U is Some { foll_up($node.id()); }
        if U is Some && pos($node.id()) + 1 >= K.len() { assert(K.skip(pos($node.id()) + 1) =~= Seq::<int>::empty()); } }
//@loop 0
        invariant U is Some ==> K == kids(U->0),
            match child { None => F == Seq::<int>::empty(), Some(x) => U is Some && el(x.id()) && up(x.id()) == U && F == rk(K.skip(pos(x.id()))) }
        ensures F == Seq::<int>::empty()
//@loopbegin 0
        proof { foll_up(node.id()); rk_skip(K, pos(node.id())); if pos(node.id()) + 1 >= K.len() { assert(K.skip(pos(node.id()) + 1) =~= Seq::<int>::empty()); } }
//@end
proof fn heads(n: int)
    ensures
        forall|i: int| 0 <= i < rkids(n).len() ==> size(#[trigger] rkids(n)[i]) < size(n),
        forall|c: int| rkids(n) == seq![c] + #[trigger] foll(c) ==> rkids(n)[0] == c && rkids(n).skip(1) == foll(c) && rkids(n).len() == 1 + foll(c).len() && size(c) < size(n),
        forall|k: int, c: int| 0 <= k < rkids(n).len() && #[trigger] rkids(n).skip(k) == seq![c] + #[trigger] foll(c) ==> size(c) < size(n),
        forall|c: int, d: int| #[trigger] foll(c) == seq![d] + #[trigger] foll(d) ==> foll(c)[0] == d && foll(c).len() == 1 + foll(d).len(),
        forall|k: int, c: int| 0 <= k <= rkids(n).len() && #[trigger] rkids(n).skip(k) == seq![c] + #[trigger] foll(c) ==> rkids(n).len() - k == 1 + foll(c).len(),
{
    assert forall|i: int| 0 <= i < rkids(n).len() implies size(#[trigger] rkids(n)[i]) < size(n) by { kid_small(n, i); }
    assert forall|k: int, c: int| 0 <= k < rkids(n).len() && #[trigger] rkids(n).skip(k) == seq![c] + #[trigger] foll(c) implies size(c) < size(n) by { assert(rkids(n).skip(k)[0] == rkids(n)[k]); kid_small(n, k); }
    assert forall|k: int, c: int| 0 <= k <= rkids(n).len() && #[trigger] rkids(n).skip(k) == seq![c] + #[trigger] foll(c) implies rkids(n).len() - k == 1 + foll(c).len() by { assert(rkids(n).skip(k).len() == rkids(n).len() - k); }
    assert forall|c: int| rkids(n) == seq![c] + #[trigger] foll(c) implies rkids(n)[0] == c && rkids(n).skip(1) == foll(c) && rkids(n).len() == 1 + foll(c).len() && size(c) < size(n) by { assert(rkids(n)[0] == c); kid_small(n, 0); assert(rkids(n).skip(1) =~= foll(c)); }
}
// the attributes an element has besides those of other namespaces, and 'ns' and 'datatypeLibrary'
pub open spec fn foreign(a: Att) -> bool { a.ns is Some && a.ns != Some(rng_ns()) }
pub open spec fn common(a: Att) -> bool { a.ns is None && (a.name == "ns"@ || a.name == "datatypeLibrary"@) }
pub open spec fn atts_only(n: int, w: spec_fn(Seq<char>) -> bool) -> bool { forall|i: int| #![trigger atts(n)[i]] 0 <= i < atts(n).len() ==> foreign(atts(n)[i]) || common(atts(n)[i]) || atts(n)[i].ns is None && w(atts(n)[i].name) }
pub open spec fn no_more() -> spec_fn(Seq<char>) -> bool { |s: Seq<char>| false }
pub open spec fn only(x: Seq<char>) -> spec_fn(Seq<char>) -> bool { |s: Seq<char>| s == x }
//@fn l no_attrs_except ret=r params=node,names props=C16
    ensures (forall|i: int| #![trigger atts($node.id())[i]] 0 <= i < atts($node.id()).len() ==> foreign(atts($node.id())[i]) || exists|k: int| 0 <= k < $names@.len() && #[trigger] $names@[k]@ == atts($node.id())[i].name) ==> r is Ok
//@closure 0
    -> (b: bool) ensures b == (($1.a().ns is None || $1.a().ns == Some(rng_ns())) && !exists|k: int| 0 <= k < $names@.len() && #[trigger] $names@[k]@ == $1.a().name)
//@end
//@fn l no_attrs ret=r params=node props=C16
    ensures atts_only($node.id(), no_more()) ==> r is Ok
//@closure 0
    -> (b: bool) ensures b == (!foreign($1.a()) && !common($1.a()))
//@end
//@fn l no_rng_element_children ret=r params=node props=C17
    requires el($node.id())
    ensures r is Ok <==> rkids($node.id()).len() == 0
//@end
//@fn l no_element_children ret=r params=node props=C17
    requires el($node.id())
    ensures r is Ok <==> kids($node.id()).len() == 0
//@end
''')

o.append(r'''
// a name as the content of <name>
pub open spec fn qne_ok(n: int) -> bool { trim(own_text(n)).len() > 0 && qn_ok(n, trim(own_text(n))) && (trim(own_text(n)).contains(':') ==> ncname_(trim(own_text(n)).take(first_colon(trim(own_text(n)))))) && kids(n).len() == 0 }
//@fn l qname_el ret=r params=name props=C16
//@inline ok_or_else map=opt_map
    requires el($name.id())
    ensures
        qne_ok($name.id()) ==> r is Ok,
        r is Ok ==> kids($name.id()).len() == 0,
        r matches Ok(x) ==> (x matches Name::NamespacedName(y) && qn($name.id(), trim(own_text($name.id())), val_or(near($name.id(), "ns"@)), y))
//@pre
    proof {
        let s = trim(own_text($name.id()));
        assert forall|k: int, o: int| 0 <= k < s.len() && #[trigger] cut(s, k, o) && s[k] == ':' && (forall|j: int| 0 <= j < k ==> s[j] != ':') implies s.contains(':') && first_colon(s) == k && cut(s, 0, 0) && cut(s, k + 1, o + 1) && o + 1 <= blen(s) && o + 1 + blen(s.skip(k + 1)) == blen(s) && s.subrange(0, k) == s.take(k) && blen(s.take(k)) == o && (forall|j: int| #[trigger] cut(s, j, o) ==> j == k) && (forall|j: int| #[trigger] cut(s, j, o + 1) ==> j == k + 1) && (forall|j: int| #[trigger] cut(s, j, 0) ==> j == 0) by { cut_colon(s, k, o); cut_only(s, 0, 0); }
        no_text_no_child($name.id());
        reveal_strlit(""); assert(""@ =~= Seq::<char>::empty());
    }
//@aftercall trim_ws
    proof { str_len(val); }
//@end
// an element without children has no text
proof fn no_text_no_child(n: int) ensures nodes(n).len() == 0 ==> own_text(n).len() == 0 && trim(own_text(n)).len() == 0 { if nodes(n).len() == 0 { reveal(Seq::filter); assert(nodes(n).filter(istext()) =~= Seq::<int>::empty()); } }
// ================================================================ name classes
ELNAMESpub open spec fn isel(n: int, name: Seq<char>) -> bool { el(n) && nm(n) == name && rng(n) }
pub open spec fn inside(x: InExcept) -> bool { x == InExcept::InsideExcept }
// the children of <anyName> and <nsName>: nothing, or one <except>
pub open spec fn nc_means(n: int, c: NameClass, x: InExcept) -> bool decreases size(n) + 1, 0nat {
    el(n) && rng(n) && (
    if nm(n) == "name"@ { kids(n).len() == 0 && (c matches NameClass::Name(Name::NamespacedName(y)) && qn(n, trim(own_text(n)), val_or(near(n, "ns"@)), y)) }
    else if nm(n) == "anyName"@ { !inside(x) && (c matches NameClass::AnyName(y) && ex_means(n, y.0)) }
    else if nm(n) == "nsName"@ { c matches NameClass::NsName(y) && (y.name matches NamespaceOrPrefix::NamespaceUri(l) && lit_is(l, val_or(near(n, "ns"@)))) && ex_means(n, y.except) }
    else if nm(n) == "choice"@ { nrow(rkids(n), c, x, size(n)) }
    else { false })
}
pub open spec fn ex_means(n: int, e: Option<Box<NameClass>>) -> bool decreases size(n), 1nat {
    match e {
        None => rkids(n).len() == 0,
        Some(b) => rkids(n).len() == 1 && isel(rkids(n)[0], "except"@) && size(rkids(n)[0]) < size(n) && nrow(rkids(rkids(n)[0]), *b, InExcept::InsideExcept, size(rkids(n)[0])),
    }
}
// the choice of several name classes
pub open spec fn nrow(v: Seq<int>, c: NameClass, x: InExcept, h: nat) -> bool decreases h, v.len() {
    if v.len() == 0 { false }
    else if v.len() == 1 { size(v[0]) < h && nc_means(v[0], c, x) }
    else { c matches NameClass::Alt(a) && exists|k: int| 0 < k < v.len() && nrow(#[trigger] v.take(k), *a.0, x, h) && nrow(v.skip(k), *a.1, x, h) }
}
// every name class in v is as it has to be
pub open spec fn nc_ok(n: int, x: InExcept) -> bool decreases size(n) + 1, 0nat {
    el(n) && rng(n) && (
    if nm(n) == "name"@ { qne_ok(n) }
    else if nm(n) == "anyName"@ { !inside(x) && ex_ok(n) }
    else if nm(n) == "nsName"@ { ex_ok(n) }
    else if nm(n) == "choice"@ { rkids(n).len() > 0 && nall(rkids(n), x, size(n)) }
    else { false })
}
pub open spec fn ex_ok(n: int) -> bool decreases size(n), 1nat {
    rkids(n).len() == 0 || rkids(n).len() == 1 && isel(rkids(n)[0], "except"@) && size(rkids(n)[0]) < size(n) && rkids(rkids(n)[0]).len() > 0 && nall(rkids(rkids(n)[0]), InExcept::InsideExcept, size(rkids(n)[0]))
}
pub open spec fn nall(v: Seq<int>, x: InExcept, h: nat) -> bool decreases h, 1nat { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> size(v[i]) < h && nc_ok(v[i], x) }
proof fn nrow_step(done: Seq<int>, a: NameClass, n: int, b: NameClass, x: InExcept, h: nat)
    requires nrow(done, a, x, h), nc_means(n, b, x), size(n) < h
    ensures forall|c: NameClass| (c matches NameClass::Alt(p) && *p.0 == a && *p.1 == b) ==> #[trigger] nrow(done + seq![n], c, x, h)
{
    let v = done + seq![n];
    assert(v.take(done.len() as int) =~= done);
    assert(v.skip(done.len() as int) =~= seq![n]);
    assert(nrow(seq![n], b, x, h));
    assert forall|c: NameClass| (c matches NameClass::Alt(p) && *p.0 == a && *p.1 == b) implies #[trigger] nrow(v, c, x, h) by { let p = c->Alt_0; let k = done.len() as int; assert(nrow(v.take(k), *p.0, x, h)); assert(nrow(v.skip(k), *p.1, x, h)); }
}
//@fn l name_class ret=r params=node,in_except props=C16,C17
//@attr #[verifier::exec_allows_no_decreases_clause]
//@inline map=res_map
    requires up($node.id()) is Some
    ensures nc_ok($node.id(), $in_except) ==> r is Ok, r matches Ok(c) ==> nc_means($node.id(), c, $in_except)
//@pre
    proof { el_names(); }
//@end
//@fn l any_name ret=r params=node props=C16,C17
//@attr #[verifier::exec_allows_no_decreases_clause]
//@inline map=opt_map
    requires el($node.id())
    ensures ex_ok($node.id()) ==> r is Ok, r matches Ok(c) ==> ex_means($node.id(), c.0)
//@pre
    proof { heads($node.id()); }
//@end
//@fn l ns_name ret=r params=node props=C16,C17
//@attr #[verifier::exec_allows_no_decreases_clause]
//@inline map=opt_map
    requires el($node.id())
    ensures ex_ok($node.id()) ==> r is Ok, r matches Ok(y) ==> (y.name matches NamespaceOrPrefix::NamespaceUri(l) && lit_is(l, val_or(near($node.id(), "ns"@)))) && ex_means($node.id(), y.except)
//@pre
    proof { heads($node.id()); }
//@end
''')
NFOLD = r'''
//@fn l {f} ret=r params={params} props=C16,C17 loops=1
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    requires el($node.id())
    ensures
        rkids($node.id()).len() > 0 && nall(rkids($node.id()), {x}, size($node.id())) ==> r is Ok,
        r matches Ok(c) ==> nrow(rkids($node.id()), c, {x}, size($node.id()))
//@pre
    let ghost N = $node.id();
    let ghost V = rkids(N);
    let ghost mut done: Seq<int> = seq![V[0]];
    proof {{ if V.len() > 0 {{ kid_small(N, 0); }} }}
//@loop 0
        invariant el(child.id()), up(child.id()) == Some(N), V == rkids(N), V == done + foll(child.id()), done.len() > 0, nrow(done, {p}, {x}, size(N))
        ensures foll(child.id()) == Seq::<int>::empty(), done == V
//@loopbegin 0
        proof {{ assert(V[done.len() as int] == node.id()); kid_small(N, done.len() as int); }}
        let ghost before = {p};
//@loopend 0
        proof {{ nrow_step(done, before, node.id(), this, {x}, size(N)); done = done + seq![node.id()]; }}
//@end
'''
o.append(NFOLD.format(f='except_nameclass', params='node', x='InExcept::InsideExcept', p='pat'))
o.append(NFOLD.format(f='name_class_choice', params='node,in_except', x='$in_except', p='name'))

o.append(r"""
// ================================================================ patterns
pub uninterp spec fn uri_parses(s: Seq<char>) -> bool;
pub uninterp spec fn uri_frag(s: Seq<char>) -> bool;
// an href, and the xml:base attributes in force where it stands
pub uninterp spec fn rebased(n: int, href: Seq<char>) -> Seq<char>;
// ---- trusted: fluent_uri, std::path, Option::transpose
pub struct VxUri { x: bool }
pub struct VxUriErr { x: bool }
impl VxUri { pub uninterp spec fn frag(&self) -> bool; #[verifier::external_body] pub fn fragment(&self) -> (r: Option<bool>) ensures r is Some == self.frag() { unimplemented!() } }
#[verifier::external_body]
fn vx_uri_parse(s: &str) -> (r: Result<VxUri, VxUriErr>) ensures r is Ok == uri_parses(s@), r matches Ok(u) ==> u.frag() == uri_frag(s@) { unimplemented!() }
//@fnren fluent_uri :: Uri :: parse => vx_uri_parse
#[verifier::external_body]
fn rebase_path(node: Node, href: &str) -> (r: Result<String>) ensures r matches Ok(s) && s@ == rebased(node.id(), href@) { unimplemented!() }
fn vx_transpose<T, E>(o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>) ensures match o { None => r == Ok::<Option<T>, E>(None), Some(Ok(v)) => r == Ok::<Option<T>, E>(Some(v)), Some(Err(e)) => r == Err::<Option<T>, E>(e) } { match o { None => Ok(None), Some(Ok(v)) => Ok(Some(v)), Some(Err(e)) => Err(e) } }
//@method transpose => vx_transpose

pub enum Op { Group, Interleave, Choice }
pub open spec fn pair(op: Op, p: Pattern, a: Pattern, b: Pattern) -> bool {
    match op { Op::Group => p matches Pattern::ListPair(x, y) && *x == a && *y == b, Op::Interleave => p matches Pattern::InterleavePair(x, y) && *x == a && *y == b, Op::Choice => p matches Pattern::ChoicePair(x, y) && *x == a && *y == b }
}
pub open spec fn lhs(p: Pattern) -> Pattern { match p { Pattern::ListPair(x, y) => *x, Pattern::InterleavePair(x, y) => *x, Pattern::ChoicePair(x, y) => *x, _ => p } }
pub open spec fn rhs(p: Pattern) -> Pattern { match p { Pattern::ListPair(x, y) => *y, Pattern::InterleavePair(x, y) => *y, Pattern::ChoicePair(x, y) => *y, _ => p } }
// the elements v, in this order, put together with op
pub open spec fn row(op: Op, v: Seq<int>, p: Pattern, h: nat) -> bool decreases h, 0nat, v.len() {
    if v.len() == 0 { false }
    else if v.len() == 1 { size(v[0]) < h && means(v[0], p) }
    else { pair(op, p, lhs(p), rhs(p)) && exists|k: int| 0 < k < v.len() && row(op, #[trigger] v.take(k), lhs(p), h) && row(op, v.skip(k), rhs(p), h) }
}
pub open spec fn group_of(n: int, p: Pattern) -> bool decreases size(n), 1nat, 0nat { row(Op::Group, rkids(n), p, size(n)) }
pub open spec fn dt_of(n: int, x: NamespacedName) -> bool { att(n, "type"@) is Some && lit_is(x.namespace_uri, val_or(near(n, "datatypeLibrary"@))) && x.localname.1@ == trim(val_or(att(n, "type"@))) }
pub open spec fn id_of(n: int, x: Identifier) -> bool { att(n, "name"@) is Some && x.1@ == trim(val_or(att(n, "name"@))) }
pub open spec fn href_of(n: int, l: Literal) -> bool { att(n, "href"@) is Some && lit_is(l, rebased(n, val_or(att(n, "href"@)))) }
// the number of <param> elements that v starts with
pub open spec fn np(v: Seq<int>) -> nat decreases v.len() { if v.len() > 0 && isel(v[0], "param"@) { 1 + np(v.drop_first()) } else { 0 } }
pub open spec fn param_of(n: int, q: Param) -> bool { q.1 is None && (q.2 matches IdentifierOrKeyword::Identifier(i) && id_of(n, i)) && lit_is(q.3, own_text(n)) }
pub open spec fn params_of(v: Seq<int>, q: Seq<Param>) -> bool { q.len() == np(v) && forall|i: int| #![trigger q[i]] 0 <= i < q.len() ==> param_of(v[i], q[i]) }
pub open spec fn element_of(n: int, y: ElementPattern) -> bool decreases size(n), 2nat, 0nat {
    match att(n, "name"@) {
        Some(a) => (y.name_class matches NameClass::Name(Name::NamespacedName(z)) && qn(n, trim(a.value), val_or(near(n, "ns"@)), z)) && group_of(n, *y.pattern),
        None => rkids(n).len() > 0 && nc_means(rkids(n)[0], y.name_class, InExcept::OutsideExcept) && row(Op::Group, rkids(n).skip(1), *y.pattern, size(n)),
    }
}
pub open spec fn one_or_text(v: Seq<int>, p: Pattern, h: nat) -> bool decreases h, 1nat, 0nat { if v.len() == 0 { p is Text } else { v.len() == 1 && size(v[0]) < h && means(v[0], p) } }
pub open spec fn attribute_of(n: int, y: AttributePattern) -> bool decreases size(n), 2nat, 0nat {
    match att(n, "name"@) {
        Some(a) => (y.name_class matches NameClass::Name(Name::NamespacedName(z)) && qn(n, trim(a.value), val_or(att(n, "ns"@)), z)) && one_or_text(rkids(n), *y.pattern, size(n)),
        None => rkids(n).len() > 0 && nc_means(rkids(n)[0], y.name_class, InExcept::OutsideExcept) && one_or_text(rkids(n).skip(1), *y.pattern, size(n)),
    }
}
pub open spec fn value_of(n: int, y: DatatypeValuePattern) -> bool {
    lit_is(y.1, own_text(n)) && match y.0 { None => att(n, "type"@) is None, Some(t) => t matches DatatypeName::NamespacedName(x) && dt_of(n, x) }
}
pub open spec fn data_of(n: int, y: DatatypeNamePattern) -> bool decreases size(n), 2nat, 0nat {
    (y.0 matches DatatypeName::NamespacedName(x) && dt_of(n, x)) && (y.1 matches Some(ps) && params_of(rkids(n), ps@)) && match y.2 {
        None => np(rkids(n)) == rkids(n).len(),
        Some(b) => { let e = rkids(n).last(); np(rkids(n)) + 1 == rkids(n).len() && isel(e, "except"@) && size(e) < size(n) && row(Op::Choice, rkids(e), *b, size(e)) }
    }
}
pub open spec fn means(n: int, p: Pattern) -> bool decreases size(n) + 1, 0nat, 0nat {
    el(n) && rng(n) && (
    if nm(n) == "element"@ { p matches Pattern::Element(y) && element_of(n, y) }
    else if nm(n) == "attribute"@ { p matches Pattern::Attribute(y) && attribute_of(n, y) }
    else if nm(n) == "group"@ { p matches Pattern::Group(y) && group_of(n, *y) }
    else if nm(n) == "interleave"@ { row(Op::Interleave, rkids(n), p, size(n)) }
    else if nm(n) == "choice"@ { row(Op::Choice, rkids(n), p, size(n)) }
    else if nm(n) == "optional"@ { p matches Pattern::Optional(y) && group_of(n, *y) }
    else if nm(n) == "zeroOrMore"@ { p matches Pattern::ZeroOrMore(y) && group_of(n, *y) }
    else if nm(n) == "oneOrMore"@ { p matches Pattern::OneOrMore(y) && group_of(n, *y) }
    else if nm(n) == "list"@ { p matches Pattern::List(y) && group_of(n, *y.0) }
    else if nm(n) == "mixed"@ { p matches Pattern::Mixed(y) && group_of(n, *y.0) }
    else if nm(n) == "ref"@ { p matches Pattern::Identifier(y) && id_of(n, y) }
    else if nm(n) == "parentRef"@ { p matches Pattern::Parent(y) && id_of(n, y) }
    else if nm(n) == "empty"@ { p is Empty }
    else if nm(n) == "text"@ { p is Text }
    else if nm(n) == "notAllowed"@ { p is NotAllowed }
    else if nm(n) == "value"@ { p matches Pattern::DatatypeValue(y) && value_of(n, y) }
    else if nm(n) == "data"@ { p matches Pattern::DatatypeName(y) && data_of(n, y) }
    else if nm(n) == "externalRef"@ { p matches Pattern::External(y) && href_of(n, y.0) && y.1 is None }
    else if nm(n) == "grammar"@ { p matches Pattern::Grammar(y) && contents(rkids(n), y.content@, size(n)) }
    else { false })
}
// ---- grammars
pub open spec fn contents(v: Seq<int>, c: Seq<GrammarContent>, h: nat) -> bool decreases h, 1nat, 0nat { c.len() == v.len() && forall|i: int| #![trigger v[i]] #![trigger c[i]] 0 <= i < v.len() ==> size(v[i]) < h && gcontent(v[i], c[i]) }
pub open spec fn gcontent(n: int, c: GrammarContent) -> bool decreases size(n) + 1, 0nat, 0nat {
    el(n) && rng(n) && (
    if nm(n) == "start"@ { c matches GrammarContent::Define(y) && start_of(n, y) }
    else if nm(n) == "define"@ { c matches GrammarContent::Define(y) && define_of(n, y) }
    else if nm(n) == "div"@ { c matches GrammarContent::Div(y) && contents(rkids(n), y@, size(n)) }
    else if nm(n) == "include"@ { c matches GrammarContent::Include(y) && href_of(n, y.0) && y.1 is None && (y.2 matches Some(z) && icontents(rkids(n), z@, size(n))) }
    else { false })
}
pub open spec fn icontents(v: Seq<int>, c: Seq<IncludeContent>, h: nat) -> bool decreases h, 1nat, 0nat { c.len() == v.len() && forall|i: int| #![trigger v[i]] #![trigger c[i]] 0 <= i < v.len() ==> size(v[i]) < h && icontent(v[i], c[i]) }
pub open spec fn icontent(n: int, c: IncludeContent) -> bool decreases size(n) + 1, 0nat, 0nat {
    el(n) && rng(n) && (
    if nm(n) == "start"@ { c matches IncludeContent::Define(y) && start_of(n, y) }
    else if nm(n) == "define"@ { c matches IncludeContent::Define(y) && define_of(n, y) }
    else if nm(n) == "div"@ { c matches IncludeContent::Div(y) && icontents(rkids(n), y@, size(n)) }
    else { false })
}
pub open spec fn combine_of(n: int, m: AssignMethod) -> bool { match att(n, "combine"@) { None => m is Assign, Some(a) => trim(a.value) == "choice"@ && m is Choice || trim(a.value) == "interleave"@ && m is Interleave } }
pub open spec fn start_of(n: int, y: Define) -> bool decreases size(n), 2nat, 0nat { y.1.1@ == "start"@ && combine_of(n, y.2) && rkids(n).len() == 1 && size(rkids(n)[0]) < size(n) && means(rkids(n)[0], y.3) }
pub open spec fn define_of(n: int, y: Define) -> bool decreases size(n), 2nat, 0nat { id_of(n, y.1) && combine_of(n, y.2) && group_of(n, y.3) }
// ---- what a correct schema looks like (the full syntax of RELAX NG): it is never refused
pub open spec fn std_ok(n: int) -> bool { att(n, "datatypeLibrary"@) matches Some(a) ==> a.value.len() == 0 || uri_parses(a.value) && !uri_frag(a.value) }
pub open spec fn id_ok(n: int, name: Seq<char>) -> bool { att(n, name) matches Some(a) && !a.value.contains(':') && ncname_(trim(a.value)) }
pub open spec fn combine_ok(n: int) -> bool { att(n, "combine"@) matches Some(a) ==> trim(a.value) == "choice"@ || trim(a.value) == "interleave"@ }
pub open spec fn pall(v: Seq<int>, h: nat) -> bool decreases h, 1nat, 0nat { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> size(v[i]) < h && pok(v[i]) }
pub open spec fn xmlns_free(n: int, a: Att) -> bool { a.value != "xmlns"@ && val_or(att(n, "ns"@)) != "http://www.w3.org/2000/xmlns"@ }
pub open spec fn param_ok(n: int) -> bool { id_ok(n, "name"@) && kids(n).len() == 0 }
pub open spec fn data_ok(n: int) -> bool decreases size(n), 3nat, 0nat {
    atts_only(n, only("type"@)) && (att(n, "type"@) matches Some(a) && ncname_(trim(a.value))) && (forall|i: int| #![trigger rkids(n)[i]] 0 <= i < np(rkids(n)) ==> param_ok(rkids(n)[i]))
    && (np(rkids(n)) == rkids(n).len() || { let e = rkids(n).last(); np(rkids(n)) + 1 == rkids(n).len() && isel(e, "except"@) && size(e) < size(n) && rkids(e).len() > 0 && pall(rkids(e), size(e)) })
}
pub open spec fn element_ok(n: int) -> bool decreases size(n), 3nat, 0nat {
    atts_only(n, only("name"@)) && match att(n, "name"@) { Some(a) => qn_ok(n, trim(a.value)) && rkids(n).len() > 0 && pall(rkids(n), size(n)), None => rkids(n).len() > 1 && nc_ok(rkids(n)[0], InExcept::OutsideExcept) && pall(rkids(n).skip(1), size(n)) }
}
pub open spec fn attribute_ok(n: int) -> bool decreases size(n), 3nat, 0nat {
    atts_only(n, only("name"@)) && match att(n, "name"@) { Some(a) => qn_ok(n, trim(a.value)) && xmlns_free(n, a) && rkids(n).len() <= 1 && pall(rkids(n), size(n)), None => 1 <= rkids(n).len() <= 2 && nc_ok(rkids(n)[0], InExcept::OutsideExcept) && pall(rkids(n).skip(1), size(n)) }
}
pub open spec fn pok(n: int) -> bool decreases size(n) + 1, 0nat, 0nat {
    el(n) && rng(n) && std_ok(n) && (
    if nm(n) == "element"@ { element_ok(n) }
    else if nm(n) == "attribute"@ { attribute_ok(n) }
    else if nm(n) == "group"@ || nm(n) == "interleave"@ || nm(n) == "choice"@ || nm(n) == "optional"@ || nm(n) == "zeroOrMore"@ || nm(n) == "oneOrMore"@ || nm(n) == "list"@ || nm(n) == "mixed"@ { atts_only(n, no_more()) && rkids(n).len() > 0 && pall(rkids(n), size(n)) }
    else if nm(n) == "ref"@ || nm(n) == "parentRef"@ { atts_only(n, only("name"@)) && id_ok(n, "name"@) && rkids(n).len() == 0 }
    else if nm(n) == "empty"@ || nm(n) == "text"@ || nm(n) == "notAllowed"@ { atts_only(n, no_more()) && rkids(n).len() == 0 }
    else if nm(n) == "value"@ { atts_only(n, only("type"@)) && kids(n).len() == 0 && (att(n, "type"@) matches Some(a) ==> ncname_(trim(a.value))) }
    else if nm(n) == "data"@ { data_ok(n) }
    else if nm(n) == "externalRef"@ { atts_only(n, only("href"@)) && att(n, "href"@) is Some && rkids(n).len() == 0 }
    else if nm(n) == "grammar"@ { atts_only(n, no_more()) && gall(rkids(n), size(n)) }
    else { false })
}
pub open spec fn gall(v: Seq<int>, h: nat) -> bool decreases h, 1nat, 0nat { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> size(v[i]) < h && gok(v[i]) }
pub open spec fn gok(n: int) -> bool decreases size(n) + 1, 0nat, 0nat {
    el(n) && rng(n) && std_ok(n) && (
    if nm(n) == "start"@ { start_ok(n) }
    else if nm(n) == "define"@ { define_ok(n) }
    else if nm(n) == "div"@ { atts_only(n, no_more()) && gall(rkids(n), size(n)) }
    else if nm(n) == "include"@ { atts_only(n, only("href"@)) && att(n, "href"@) is Some && iall(rkids(n), size(n)) }
    else { false })
}
pub open spec fn iall(v: Seq<int>, h: nat) -> bool decreases h, 1nat, 0nat { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> size(v[i]) < h && iok(v[i]) }
pub open spec fn iok(n: int) -> bool decreases size(n) + 1, 0nat, 0nat {
    el(n) && rng(n) && std_ok(n) && (
    if nm(n) == "start"@ { start_ok(n) }
    else if nm(n) == "define"@ { define_ok(n) }
    else if nm(n) == "div"@ { atts_only(n, no_more()) && iall(rkids(n), size(n)) }
    else { false })
}
pub open spec fn start_ok(n: int) -> bool decreases size(n), 3nat, 0nat { atts_only(n, only("combine"@)) && combine_ok(n) && rkids(n).len() == 1 && pall(rkids(n), size(n)) }
pub open spec fn define_ok(n: int) -> bool decreases size(n), 3nat, 0nat { combine_ok(n) && id_ok(n, "name"@) && rkids(n).len() > 0 && pall(rkids(n), size(n)) }

proof fn row_step(op: Op, done: Seq<int>, a: Pattern, n: int, b: Pattern, h: nat)
    requires row(op, done, a, h), means(n, b), size(n) < h
    ensures forall|c: Pattern| pair(op, c, a, b) ==> #[trigger] row(op, done + seq![n], c, h)
{
    let v = done + seq![n];
    assert(v.take(done.len() as int) =~= done);
    assert(v.skip(done.len() as int) =~= seq![n]);
    assert(row(op, seq![n], b, h));
    assert forall|c: Pattern| pair(op, c, a, b) implies #[trigger] row(op, v, c, h) by { let k = done.len() as int; assert(lhs(c) == a && rhs(c) == b); assert(row(op, v.take(k), lhs(c), h)); assert(row(op, v.skip(k), rhs(c), h)); }
}
//@fn l check_standard_attrs ret=r params=node props=C16
    ensures std_ok($node.id()) ==> r is Ok
//@end
//@fn l attr_ncname ret=r params=attr props=C16
    ensures r is Ok <==> !$attr.a().value.contains(':') && ncname_(trim($attr.a().value)), r matches Ok(i) ==> i.1@ == trim($attr.a().value)
//@pre
    proof { blen_trim($attr.a().value); }
//@end
""")

AL = '//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n'
o.append(r"""
//@fn l pattern ret=r params=node props=C17
//@attr #[verifier::exec_allows_no_decreases_clause]
//@inline map=res_map
    ensures pok($node.id()) ==> r is Ok, r matches Ok(p) ==> means($node.id(), p)
//@pre
    proof { el_names(); }
//@end
""")
# a fold over the children that follow the first one
def fold(f, cur, nxt, op, pat, first):
    if first: N, V, D = '$node.id()', 'rkids(N)', 'V[0]'
    else: N, V, D = 'up($node.id())->0', 'seq![$node.id()] + foll($node.id())', '$node.id()'
    whole = 'rkids($node.id())' if first else '(seq![$node.id()] + foll($node.id()))'
    size = 'size($node.id())' if first else 'size(up($node.id())->0)'
    o.append('//@fn l ' + f + ' ret=r params=node props=C17 loops=1\n' + AL + f"""
    requires el($node.id()){'' if first else ', up($node.id()) is Some'}
    ensures
        {whole}.len() > 0 && pall({whole}, {size}) ==> r is Ok,
        r matches Ok(p) ==> row(Op::{op}, {whole}, p, {size})
//@pre
    let ghost N = {N};
    let ghost V = {V};
    let ghost mut done: Seq<int> = seq![{D}];
    proof {{ assert(V.len() > 0 ==> V[0] == {D}); assert(done.len() == 1 && done[0] == {D}); {'if V.len() > 0 { kid_small(N, 0); }' if first else 'foll_up($node.id());'} }}
//@loop 0
        invariant el({cur}.id()), up({cur}.id()) == Some(N), V =~= done + foll({cur}.id()), done.len() > 0, row(Op::{op}, done, {pat}, size(N))
        ensures done == V
//@loopbegin 0
        proof {{ assert(foll({cur}.id()) == seq![{nxt}.id()] + foll({nxt}.id())); assert(V[done.len() as int] == {nxt}.id()); foll_up({nxt}.id()); }}
        let ghost before = {pat};
        let ghost now = {nxt}.id();
//@loopend 0
        proof {{ row_step(Op::{op}, done, before, now, this, size(N)); done = done + seq![now]; }}
//@end
""")
fold('single_pattern_or_group', 'node', 'next', 'Group', 'pat', False)
fold('single_pattern_or_choice', 'node', 'next', 'Choice', 'pat', False)
fold('interleave', 'child', 'next', 'Interleave', 'pat', True)
fold('choice', 'child', 'node', 'Choice', 'pat', True)
for f, c in (('group', 'p matches Pattern::Group(y) && group_of($node.id(), *y)'), ('optional', 'p matches Pattern::Optional(y) && group_of($node.id(), *y)'), ('zero_or_more', 'p matches Pattern::ZeroOrMore(y) && group_of($node.id(), *y)'), ('one_or_more', 'p matches Pattern::OneOrMore(y) && group_of($node.id(), *y)'), ('list', 'group_of($node.id(), *p.0)'), ('mixed', 'group_of($node.id(), *p.0)')):
    o.append('//@fn l ' + f + ' ret=r params=node props=C17\n' + A + f"""
    requires el($node.id())
    ensures rkids($node.id()).len() > 0 && pall(rkids($node.id()), size($node.id())) ==> r is Ok, r matches Ok(p) ==> ({c})
//@end
""")
for f in ('ref_patt', 'parent_ref'):
    o.append('//@fn l ' + f + r""" ret=r params=node props=C17
    requires el($node.id())
    ensures id_ok($node.id(), "name"@) && rkids($node.id()).len() == 0 ==> r is Ok, r matches Ok(y) ==> id_of($node.id(), y)
//@end
""")
for f, c in (('empty', 'Empty'), ('text', 'Text'), ('not_allowed', 'NotAllowed')):
    o.append('//@fn l ' + f + f""" ret=r params=node props=C17
    requires el($node.id())
    ensures atts_only($node.id(), no_more()) && rkids($node.id()).len() == 0 ==> r is Ok, r matches Ok(p) ==> p is {c}
//@end
""")
o.append(r"""
//@fn l element ret=r params=node props=C16,C17
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires el($node.id())
    ensures element_ok($node.id()) ==> r is Ok, r matches Ok(y) ==> element_of($node.id(), y)
//@pre
    proof { heads($node.id()); no_lit(); trims(); reveal_strlit("name"); reveal_strlit("ns"); reveal_strlit("datatypeLibrary"); }
//@end
//@fn l attribute ret=r params=node props=C16,C17
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires el($node.id())
    ensures attribute_ok($node.id()) ==> r is Ok, r matches Ok(y) ==> attribute_of($node.id(), y)
//@pre
    proof { heads($node.id()); no_lit(); trims(); reveal_strlit("name"); reveal_strlit("ns"); reveal_strlit("datatypeLibrary"); }
//@end
//@fn l value ret=r params=node props=C16,C17
//@inline map=opt_map
    requires el($node.id())
    ensures kids($node.id()).len() == 0 && (att($node.id(), "type"@) matches Some(a) ==> ncname_(trim(a.value))) ==> r is Ok, r matches Ok(y) ==> value_of($node.id(), y)
//@pre
    proof { no_lit(); trims(); }
//@end
//@fn l param ret=r params=node props=C17
    requires el($node.id())
    ensures param_ok($node.id()) ==> r is Ok, r matches Ok(q) ==> param_of($node.id(), q)
//@end
""")

o.append(r"""
proof fn np_skip(v: Seq<int>, k: int) requires 0 <= k <= v.len(), forall|i: int| 0 <= i < k ==> isel(#[trigger] v[i], "param"@) ensures np(v) == k + np(v.skip(k)) decreases k
{ if k > 0 { let t = v.drop_first(); assert forall|i: int| 0 <= i < k - 1 implies isel(#[trigger] t[i], "param"@) by { assert(t[i] == v[i + 1]); } np_skip(t, k - 1); assert(isel(v[0], "param"@)); assert(t.skip(k - 1) =~= v.skip(k)); } else { assert(v.skip(0) =~= v); } }
//@fn l params ret=r params=node props=C17 loops=1
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    requires el($node.id()), up($node.id()) is Some
    ensures
        ({ let v = seq![$node.id()] + foll($node.id()); (forall|i: int| #![trigger v[i]] 0 <= i < np(v) ==> param_ok(v[i])) ==> r is Ok }),
        r matches Ok(q) ==> { let v = seq![$node.id()] + foll($node.id()); params_of(v, q.0@) && match q.1 { None => np(v) == v.len(), Some(x) => np(v) < v.len() && x.id() == v[np(v) as int] && el(x.id()) && up(x.id()) == up($node.id()) && v.skip(np(v) as int) == seq![x.id()] + foll(x.id()) } }
//@pre
    let ghost N = up($node.id())->0;
    let ghost V = seq![$node.id()] + foll($node.id());
    proof { assert(V.skip(0) =~= V); }
//@loop 0
        invariant result@.len() <= V.len(), forall|i: int| 0 <= i < result@.len() ==> isel(#[trigger] V[i], "param"@), forall|i: int| #![trigger result@[i]] 0 <= i < result@.len() ==> param_of(V[i], result@[i]),
            match next { None => result@.len() == V.len(), Some(x) => el(x.id()) && up(x.id()) == Some(N) && V.skip(result@.len() as int) == seq![x.id()] + foll(x.id()) }
        ensures np(V) == result@.len()
//@loopbegin 0
        let ghost k = result@.len() as int;
        proof { assert(V.skip(k)[0] == node.id()); assert(V[k] == node.id()); np_skip(V, k); assert(V.skip(k).len() > 0); assert(V.skip(k).drop_first() =~= foll(node.id())); assert(V.skip(k + 1) =~= foll(node.id())); }
//@loopend 0
        proof { np_skip(V, k + 1); }
//@loopafter 0
        proof { np_skip(V, result@.len() as int); }
//@end
//@fn l data ret=r params=node props=C16,C17
//@attr #[verifier::exec_allows_no_decreases_clause]
//@inline map=opt_map
    requires el($node.id())
    ensures data_ok($node.id()) ==> r is Ok, r matches Ok(y) ==> data_of($node.id(), y)
//@closure 0
    -> (b: bool) ensures b ==> !foreign($1.a()) && !common($1.a()) && !($1.a().ns is None && $1.a().name == "type"@)
//@pre
    proof { no_lit(); trims(); heads($node.id()); }
//@end
//@fn l external_ref ret=r params=node props=C17
    ensures att($node.id(), "href"@) is Some ==> r is Ok, r matches Ok(y) ==> href_of($node.id(), y.0) && y.1 is None
//@end
//@fn l start ret=r params=node props=C17
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires el($node.id())
    ensures start_ok($node.id()) ==> r is Ok, r matches Ok(y) ==> start_of($node.id(), y)
//@closure 0
    -> (b: bool) ensures b ==> !foreign($1.a()) && !common($1.a()) && !($1.a().ns is None && $1.a().name == "combine"@)
//@pre
    proof { heads($node.id()); reveal_strlit("choice"); reveal_strlit("interleave"); reveal_strlit("combine"); }
//@end
//@fn l define ret=r params=node props=C17
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires el($node.id())
    ensures define_ok($node.id()) ==> r is Ok, r matches Ok(y) ==> define_of($node.id(), y)
//@pre
    proof { reveal_strlit("choice"); reveal_strlit("interleave"); }
//@end
//@fn l grammar_content ret=r params=node props=C17
//@attr #[verifier::exec_allows_no_decreases_clause]
//@inline map=res_map
    ensures gok($node.id()) ==> r is Ok, r matches Ok(c) ==> gcontent($node.id(), c)
//@pre
    proof { el_names(); }
//@end
//@fn l include_content ret=r params=node props=C17
//@attr #[verifier::exec_allows_no_decreases_clause]
//@inline map=res_map
    ensures iok($node.id()) ==> r is Ok, r matches Ok(c) ==> icontent($node.id(), c)
//@pre
    proof { el_names(); }
//@end
""")
for f, ok, okc, c, rel in (('grammar', 'gall', '', 'r matches Ok(y) ==> contents(rkids($node.id()), y.content@, size($node.id()))', 'gcontent'),
        ('div_grammar_content', 'gall', '', 'r matches Ok(y) ==> (y matches GrammarContent::Div(z) && contents(rkids($node.id()), z@, size($node.id())))', 'gcontent'),
        ('include', 'iall', ' && att($node.id(), "href"@) is Some', 'r matches Ok(y) ==> href_of($node.id(), y.0) && y.1 is None && (y.2 matches Some(z) && icontents(rkids($node.id()), z@, size($node.id())))', 'icontent'),
        ('div_include_content', 'iall', '', 'r matches Ok(y) ==> (y matches IncludeContent::Div(z) && icontents(rkids($node.id()), z@, size($node.id())))', 'icontent')):
    o.append('//@fn l ' + f + ' ret=r params=node props=C17 loops=1\n' + AL + f"""
    requires el($node.id())
    ensures {ok}(rkids($node.id()), size($node.id())){okc} ==> r is Ok, {c}
//@pre
    let ghost N = $node.id();
    let ghost V = rkids(N);
    proof {{ assert(V.skip(0) =~= V); }}
//@loop 0
        invariant content@.len() <= V.len(), forall|i: int| #![trigger V[i]] #![trigger content@[i]] 0 <= i < content@.len() ==> size(V[i]) < size(N) && {rel}(V[i], content@[i]),
            match next {{ None => content@.len() == V.len(), Some(x) => el(x.id()) && up(x.id()) == Some(N) && V.skip(content@.len() as int) == seq![x.id()] + foll(x.id()) }}
        ensures content@.len() == V.len()
//@loopbegin 0
        let ghost k = content@.len() as int;
        proof {{ assert(V.skip(k)[0] == child.id()); assert(V[k] == child.id()); kid_small(N, k); assert(V.skip(k).len() == V.len() - k); assert(V.skip(k).drop_first() =~= foll(child.id())); assert(V.skip(k + 1) =~= foll(child.id())); }}
//@end
""")
o.append(r"""
//@fn l pattern_or_grammar ret=r params=root props=C16,C17
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires el($root.id())
    ensures pok($root.id()) ==> r is Ok, r matches Ok(y) ==> match y { PatternOrGrammar::Pattern(p) => means($root.id(), p), PatternOrGrammar::Grammar(g) => rng($root.id()) && nm($root.id()) == "grammar"@ && contents(rkids($root.id()), g.content@, size($root.id())) }
//@pre
    proof { el_names(); }
//@end
""")
open(os.path.join(d, 'xml.vrs'), 'w').write(''.join(o).replace('ELNAMES', ELNAMES) + base[i:])
