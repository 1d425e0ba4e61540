//@type v Ns
//@type v UnresolvedAttr
//@type v ElementState
//@type v ElementStack

// ================================================================ C06: names are resolved by the declarations in scope
// the first declaration of the prefix in a start tag
pub open spec fn decl_of(ns: Seq<Ns>, p: Seq<char>) -> Option<Seq<char>> decreases ns.len() {
    if ns.len() == 0 { None } else if ns[0].prefix@ == p { Some(ns[0].namespace_uri@) } else { decl_of(ns.drop_first(), p) }
}
// the innermost open element that declares it decides
pub open spec fn in_scope(st: Seq<ElementState>, p: Seq<char>) -> Option<Seq<char>> decreases st.len() {
    if st.len() == 0 { None } else {
        match decl_of(st.last().namespaces@, p) { Some(u) => Some(u), None => in_scope(st.drop_last(), p) }
    }
}
pub open spec fn xml_uri() -> Seq<char> { "http://www.w3.org/XML/1998/namespace"@ }
pub open spec fn prefix_uri(st: Seq<ElementState>, p: Seq<char>) -> Option<Seq<char>> { if p == "xml"@ { Some(xml_uri()) } else { in_scope(st, p) } }
pub open spec fn txt(s: Option<StrSpan<'_>>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
proof fn decl_first(ns: Seq<Ns>, p: Seq<char>, i: int)
    requires 0 <= i < ns.len(), ns[i].prefix@ == p, forall|j: int| 0 <= j < i ==> (#[trigger] ns[j]).prefix@ != p
    ensures decl_of(ns, p) == Some(ns[i].namespace_uri@)
    decreases ns.len()
{ if i > 0 { assert(ns.drop_first()[i - 1] == ns[i]); assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] ns.drop_first()[j]).prefix@ != p by { assert(ns[j + 1].prefix@ != p); } decl_first(ns.drop_first(), p, i - 1); } }
proof fn decl_none(ns: Seq<Ns>, p: Seq<char>)
    requires forall|j: int| 0 <= j < ns.len() ==> (#[trigger] ns[j]).prefix@ != p
    ensures decl_of(ns, p) is None
    decreases ns.len()
{ if ns.len() > 0 { assert forall|j: int| 0 <= j < ns.len() - 1 implies (#[trigger] ns.drop_first()[j]).prefix@ != p by { assert(ns[j + 1].prefix@ != p); } decl_none(ns.drop_first(), p); } }
proof fn scope_hit(st: Seq<ElementState>, p: Seq<char>, i: int)
    requires 0 <= i < st.len(), decl_of(st[i].namespaces@, p) is Some, forall|j: int| i < j < st.len() ==> decl_of((#[trigger] st[j]).namespaces@, p) is None
    ensures in_scope(st, p) == decl_of(st[i].namespaces@, p)
    decreases st.len()
{ if i < st.len() - 1 { assert(decl_of(st[st.len() - 1].namespaces@, p) is None); let t = st.drop_last(); assert forall|j: int| i < j < t.len() implies decl_of((#[trigger] t[j]).namespaces@, p) is None by { assert(t[j] == st[j]); } scope_hit(t, p, i); } }
proof fn scope_none(st: Seq<ElementState>, p: Seq<char>)
    requires forall|j: int| 0 <= j < st.len() ==> decl_of((#[trigger] st[j]).namespaces@, p) is None
    ensures in_scope(st, p) is None
    decreases st.len()
{ if st.len() > 0 { let t = st.drop_last(); assert forall|j: int| 0 <= j < t.len() implies decl_of((#[trigger] t[j]).namespaces@, p) is None by { assert(t[j] == st[j]); } scope_none(t, p); } }

pub open spec fn pushed(a: Seq<ElementState<'_>>, b: Seq<ElementState<'_>>, prefix: StrSpan<'_>, local: StrSpan<'_>) -> bool {
    b.len() == a.len() + 1 && b.drop_last() == a && b.last().prefix == prefix && b.last().local == local && b.last().namespaces@.len() == 0 && b.last().attributes@.len() == 0
}
pub open spec fn attr_added(a: Seq<ElementState<'_>>, b: Seq<ElementState<'_>>, prefix: StrSpan<'_>, local: StrSpan<'_>, value: StrSpan<'_>, span: StrSpan<'_>) -> bool {
    let (x, y) = (a.last(), b.last());
    &&& b.len() == a.len() && b.drop_last() == a.drop_last() && y.prefix == x.prefix && y.local == x.local
    // xmlns and xmlns:p are declarations and nothing else; all other attributes are attributes and nothing else
    &&& if prefix@ == "xmlns"@ || prefix@.len() == 0 && local@ == "xmlns"@ {
            y.attributes@ == x.attributes@ && y.namespaces@.len() == x.namespaces@.len() + 1 && y.namespaces@.drop_last() == x.namespaces@
            && y.namespaces@.last().namespace_uri == value
            && (if prefix@.len() == 0 { y.namespaces@.last().prefix@.len() == 0 } else { y.namespaces@.last().prefix == local })
        } else {
            y.namespaces@ == x.namespaces@ && y.attributes@.len() == x.attributes@.len() + 1 && y.attributes@.drop_last() == x.attributes@
            && y.attributes@.last() == (UnresolvedAttr { prefix, local, value, span })
        }
}
//@method iter => vx_iter ref
//@method rev => vx_rev
//@method find_map => vx_find_map
//@method find => vx_find
//@inline ok_or
//@exprmap & prefix => prefix.as_str()
impl<'a> ElementState<'a> {
//@fn v ElementState::lookup_namespace_uri ret=r params=_s,prefix props=C06
//@inline map=opt_map
    ensures txt(r) == decl_of(self.namespaces@, $prefix@)
//@closure 0
    -> (b: bool) ensures b == ($1.prefix@ == prefix@)
//@pre
    proof {
        let nss = self.namespaces@;
        if forall|j: int| 0 <= j < nss.len() ==> (#[trigger] nss[j]).prefix@ != prefix@ { decl_none(nss, prefix@); }
        assert forall|i: int| 0 <= i < nss.len() && (#[trigger] nss[i]).prefix@ == prefix@ && (forall|j: int| 0 <= j < i ==> (#[trigger] nss[j]).prefix@ != prefix@) implies decl_of(nss, prefix@) == Some(nss[i].namespace_uri@) by { decl_first(nss, prefix@, i); }
    }
//@end
}
impl<'a> ElementStack<'a> {
//@fn v ElementStack::lookup_namespace_uri ret=r params=_s,prefix props=C06
    ensures txt(r) == prefix_uri(self.elements@, $prefix@)
//@closure 0
    -> (r: Option<StrSpan<'a>>) ensures txt(r) == decl_of($1.namespaces@, prefix@)
//@pre
    proof {
        let st = self.elements@;
        if forall|j: int| 0 <= j < st.len() ==> decl_of((#[trigger] st[j]).namespaces@, prefix@) is None { scope_none(st, prefix@); }
        assert forall|i: int| 0 <= i < st.len() && decl_of((#[trigger] st[i]).namespaces@, prefix@) is Some && (forall|j: int| i < j < st.len() ==> decl_of((#[trigger] st[j]).namespaces@, prefix@) is None) implies in_scope(st, prefix@) == decl_of(st[i].namespaces@, prefix@) by { scope_hit(st, prefix@, i); }
    }
//@end
//@fn v ElementStack::try_lookup_namespace_uri ret=r params=_s,prefix props=C06
    ensures
        $prefix@.len() == 0 ==> (r matches Ok(u) && txt(u) == prefix_uri(self.elements@, $prefix@)),
        $prefix@.len() != 0 ==> match prefix_uri(self.elements@, $prefix@) { Some(x) => r matches Ok(u) && txt(u) == Some(x), None => r is Err },
//@pre
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); if prefix@.len() == 0 { assert(prefix@ =~= Seq::<char>::empty()); } }
//@end
//@fn v ElementStack::push params=_s,prefix,local,_span props=C06
    ensures pushed(old(self).elements@, final(self).elements@, $prefix, $local)
//@post
    proof { assert(self.elements@.drop_last() =~= old(self).elements@); }
//@end
//@fn v ElementStack::pop params=_s props=C06
    ensures old(self).elements@.len() > 0 ==> final(self).elements@ == old(self).elements@.drop_last()
//@end
//@fn v ElementStack::add_attr params=_s,prefix,local,value,span props=C06
    requires old(self).elements@.len() > 0
    ensures attr_added(old(self).elements@, final(self).elements@, $prefix, $local, $value, $span)
//@pre
    proof { reveal_strlit(""); reveal_strlit("xmlns"); assert(""@ =~= Seq::<char>::empty()); if $prefix@.len() == 0 { assert($prefix@ =~= Seq::<char>::empty()); } }
//@post
    proof {
        let (a, b) = (old(self).elements@, self.elements@);
        assert(b.drop_last() =~= a.drop_last());
        assert(b.last().namespaces@.drop_last() =~= a.last().namespaces@ || b.last().namespaces@ == a.last().namespaces@);
        assert(b.last().attributes@.drop_last() =~= a.last().attributes@ || b.last().attributes@ == a.last().attributes@);
    }
//@end
//@fn v ElementStack::current_element ret=r params=_s props=C06
    requires self.elements@.len() > 0
    ensures ({
        let e = self.elements@.last();
        &&& r matches Ok(q) ==> q.local_name == e.local && txt(q.namespace_uri) == prefix_uri(self.elements@, e.prefix@)
        &&& r is Err <==> e.prefix@.len() > 0 && prefix_uri(self.elements@, e.prefix@) is None
    })
//@end
}
pub open spec fn attr_ns(st: Seq<ElementState>, a: UnresolvedAttr) -> Option<Seq<char>> { if a.prefix@.len() == 0 { None } else { prefix_uri(st, a.prefix@) } }
pub open spec fn attr_bad(st: Seq<ElementState>, a: UnresolvedAttr) -> bool { a.prefix@.len() > 0 && prefix_uri(st, a.prefix@) is None }
impl<'a> ElementStack<'a> {
//@fn v ElementStack::current_attributes ret=r params=_s props=C06
//@method map => vx_map
//@method collect => vx_collect_result
    requires self.elements@.len() > 0
    ensures ({
        let at = self.elements@.last().attributes@;
        &&& r is Err <==> exists|i: int| 0 <= i < at.len() && attr_bad(self.elements@, #[trigger] at[i])
        &&& r matches Ok(v) ==> v@.len() == at.len() && forall|i: int| 0 <= i < at.len() ==> {
                let w = #[trigger] v@[i];
                w.name.local_name == at[i].local && w.value == at[i].value && txt(w.name.namespace_uri) == attr_ns(self.elements@, at[i])
            }
    })
//@closure 0
    -> (w: Result<Attr<'a>, ValidatorError<'a>>) ensures
        w is Err <==> attr_bad(self.elements@, *unresolved),
        w matches Ok(x) ==> x.name.local_name == unresolved.local && x.value == unresolved.value && txt(x.name.namespace_uri) == attr_ns(self.elements@, *unresolved)
//@pre
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert forall|s: Seq<char>| #[trigger] s.len() == 0 implies s == Seq::<char>::empty() by { assert(s =~= Seq::<char>::empty()); } }
//@end
}
// ================================================================ C07: references are replaced by what they denote
//@include strpos.vrs
// ---- numbers
pub open spec fn digit(c: char, b: nat) -> Option<nat> {
    if '0' <= c && c <= '9' { Some((c as nat - '0' as nat) as nat) }
    else if b == 16 && 'a' <= c && c <= 'f' { Some((c as nat - 'a' as nat + 10) as nat) }
    else if b == 16 && 'A' <= c && c <= 'F' { Some((c as nat - 'A' as nat + 10) as nat) }
    else { None }
}
// one or more digits, and what they denote
pub open spec fn number(s: Seq<char>, b: nat) -> Option<nat> decreases s.len() {
    if s.len() == 0 { None } else {
        match digit(s.last(), b) {
            None => None,
            Some(d) => if s.len() == 1 { Some(d) } else { match number(s.drop_last(), b) { Some(n) => Some(n * b + d), None => None } },
        }
    }
}
// std's u32::from_str_radix and str::parse::<u32>: an optional plus sign, and digits whose value fits
pub open spec fn unsign(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '+' { s.drop_first() } else { s } }
pub open spec fn std_u32(s: Seq<char>, b: nat) -> Option<u32> { match number(unsign(s), b) { Some(n) => if n <= u32::MAX { Some(n as u32) } else { None }, None => None } }
pub struct VxParseError { x: u64 }
#[verifier::external_body]
fn vx_from_str_radix(s: &str, b: u32) -> (r: Result<u32, VxParseError>) requires b == 16 ensures r is Ok <==> std_u32(s@, b as nat) is Some, r matches Ok(v) ==> std_u32(s@, b as nat) == Some(v) { unimplemented!() }
#[verifier::external_body]
fn vx_parse_u32(s: &str) -> (r: Result<u32, VxParseError>) ensures r is Ok <==> std_u32(s@, 10) is Some, r matches Ok(v) ==> std_u32(s@, 10) == Some(v) { unimplemented!() }
pub open spec fn scalar(n: nat) -> bool { n < 0xd800 || 0xe000 <= n && n <= 0x10ffff }
#[verifier::external_body]
fn vx_from_u32(n: u32) -> (r: Option<char>) ensures r is Some <==> scalar(n as nat), r matches Some(c) ==> code(c) == n && c as u32 == n { char::from_u32(n) }
#[verifier::external_body]
fn vx_is_hex(c: &char) -> (r: bool) ensures r == (digit(*c, 16) is Some) { c.is_ascii_hexdigit() }

// ---- the specification (XML 4.1, 4.4, 4.6): what a reference denotes, given its name
pub open spec fn char_ref(s: Seq<char>) -> Option<char> {
    let n = if s.len() > 0 && s[0] == 'x' { number(s.drop_first(), 16) } else { number(s, 10) };
    match n { Some(n) => if scalar(n) { Some(chr(n)) } else { None }, None => None }
}
pub open spec fn code(c: char) -> nat { c as nat }
pub open spec fn chr(n: nat) -> char { choose|c: char| #[trigger] code(c) == n }
proof fn chr_is(c: char, n: u32) requires c as u32 == n ensures chr(n as nat) == c { let d = chr(n as nat); assert(code(c) == n as nat); assert(code(d) == n as nat); assert(d as u32 == c as u32); }
pub open spec fn ref_text(name: Seq<char>, defs: Map<Seq<char>, Seq<char>>) -> Option<Seq<char>> {
    if name.len() > 0 && name[0] == '#' { match char_ref(name.drop_first()) { Some(c) => Some(seq![c]), None => None } }
    else if defs.contains_key(name) { Some(defs[name]) }
    else { None }
}
// first occurrence, or the length
pub open spec fn find(s: Seq<char>, c: char) -> nat decreases s.len() { if s.len() == 0 || s[0] == c { 0 } else { 1 + find(s.drop_first(), c) } }
pub open spec fn cat(a: Seq<char>, b: Option<Seq<char>>) -> Option<Seq<char>> { match b { Some(b) => Some(a + b), None => None } }
// the text with every reference replaced; None where one is malformed, unclosed or undefined
pub open spec fn decoded(s: Seq<char>, in_ref: bool, defs: Map<Seq<char>, Seq<char>>) -> Option<Seq<char>> decreases s.len(), (if in_ref { 0nat } else { 1nat }) {
    if in_ref {
        let i = find(s, ';') as int;
        if i >= s.len() { None } else { match ref_text(s.take(i), defs) { None => None, Some(t) => cat(t, decoded(s.skip(i + 1), false, defs)) } }
    } else {
        let i = find(s, '&') as int;
        if i >= s.len() { Some(s) } else { cat(s.take(i), decoded(s.skip(i + 1), true, defs)) }
    }
}
proof fn find_at(s: Seq<char>, c: char, i: int)
    requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> #[trigger] s[j] != c, i < s.len() ==> s[i] == c
    ensures find(s, c) == i
    decreases s.len()
{ if i > 0 { let t = s.drop_first(); assert forall|j: int| 0 <= j < i - 1 implies #[trigger] t[j] != c by { assert(s[j + 1] != c); } if i < s.len() { assert(t[i - 1] == s[i]); } find_at(t, c, i - 1); } }

//@type v Txt
//@type v parse_entities/Entities

// one call of next: what is returned, and what is left
pub open spec fn step<'a>(s: Seq<char>, in_ref: bool, r: Option<Result<Txt<'a>, ValidatorError<'a>>>, s2: Seq<char>, in2: bool) -> bool {
    if in_ref {
        let i = find(s, ';') as int;
        if i >= s.len() { r matches Some(Err(_)) } else {
            let name = s.take(i);
            &&& s2 == s.skip(i + 1) && !in2
            &&& if name.len() > 0 && name[0] == '#' {
                    match char_ref(name.drop_first()) { Some(c) => r matches Some(Ok(Txt::Char(_, d))) && c == d, None => r matches Some(Err(_)) }
                } else { r matches Some(Ok(Txt::Entity(p, t))) && t@ == name && p + blen(t@) <= usize::MAX }
        }
    } else if s.len() == 0 { r is None && s2 == s && !in2 }
    else {
        let i = find(s, '&') as int;
        if i >= s.len() { r matches Some(Ok(Txt::Text(_, t))) && t@ == s && s2.len() == 0 && !in2 }
        else { r matches Some(Ok(Txt::Text(_, t))) && t@ == s.take(i) && s2 == s.skip(i + 1) && in2 }
    }
}
proof fn number_tail(s: Seq<char>, b: nat) ensures number(s, b) is Some ==> s.len() > 0 && digit(s[0], b) is Some decreases s.len() { if s.len() > 1 { number_tail(s.drop_last(), b); } }
//@fn v parse_entities/numeric_entity ret=r params=pos,text props=C07
//@slices val
//@method is_empty => vx_is_empty
//@method strip_prefix => vx_strip_prefix
//@method starts_with => vx_starts_with
//@method is_ascii_hexdigit => vx_is_hex ref
//@method parse => vx_parse_u32
//@fnren u32 :: from_str_radix => vx_from_str_radix
//@fnren std :: char :: from_u32 => vx_from_u32
//@inline map_err ok_or
    requires $pos <= isize::MAX
    ensures match char_ref($text@) { Some(c) => r matches Ok(Txt::Char(_, d)) && c == d, None => r is Err }
//@pre
    proof { number_tail($text@, 10); number_tail($text@.drop_first(), 16); assert forall|c: char| #[trigger] chr(code(c)) == c by { chr_is(c, c as u32); } }
//@closure 0
    -> (b: bool) ensures b == (digit($1, 16) is Some)
//@end
impl<'a> Entities<'a> {
    pub open spec fn wf(&self) -> bool {
        &&& exists|k: int| cut(self.text@, k, self.offset as int)
        &&& self.pos + blen(self.text@) <= isize::MAX
        &&& self.in_entity ==> self.offset > 0
    }
    pub open spec fn at(&self) -> int { choose|k: int| cut(self.text@, k, self.offset as int) }
    // what has not been looked at yet
    pub open spec fn rest(&self) -> Seq<char> { self.text@.skip(self.at()) }
//@slices val
//@method char_indices => vx_char_indices
//@method len => vx_len
//@method is_empty => vx_is_empty
//@method strip_prefix => vx_strip_prefix
//@method starts_with => vx_starts_with
//@method is_ascii_hexdigit => vx_is_hex ref
//@method parse => vx_parse_u32
//@fnren u32 :: from_str_radix => vx_from_str_radix
//@fnren std :: char :: from_u32 => vx_from_u32
//@inline map_err ok_or
//@typemap Option<Self::Item> => Option<Result<Txt<'a>, ValidatorError<'a>>>
//@fn v parse_entities/Entities::next ret=r params=_s props=C07 loops=1
    requires old(self).wf()
    ensures final(self).wf(), final(self).text == old(self).text, final(self).pos == old(self).pos,
        step(old(self).rest(), old(self).in_entity, r, final(self).rest(), final(self).in_entity)
//@pre
    let ghost R = self.rest();
    let ghost K = self.at();
    proof { cut_le(self.text@, K, self.offset as int); }
//@loop 0 for:it
        invariant *self == *old(self), self.wf(), R == self.rest(), K == self.at(), cut(self.text@, K, self.offset as int), it.seq().len() == R.len(), self.offset <= isize::MAX, self.pos + blen(self.text@) <= isize::MAX, self.offset <= blen(self.text@),
            R.len() > 0 || self.in_entity,
            forall|k: int| 0 <= k < R.len() ==> (#[trigger] it.seq()[k]).1 == R[k] && cut(R, k, it.seq()[k].0 as int),
            forall|j: int| 0 <= j < it.index@ ==> #[trigger] R[j] != (if self.in_entity { ';' } else { '&' }),
//@loopbegin 0
    proof {
        let k = it.index@ as int;
        assert(it.seq()[k] == (i, c));
        assert(cut(R, k, i as int));
        if c == ';' || c == '&' {
            assert(blen(seq![c]) == 1) by { assert(seq![c].drop_first() =~= Seq::<char>::empty()); assert(blen(Seq::<char>::empty()) == 0); assert(clen(c) == 1); }
            assert(R.skip(k).take(1) =~= seq![c]);
            assert(cut(R.skip(k), 1, 1));
            cut_step(R, k, i as int, 1, 1);
            cut_step(self.text@, K, self.offset as int, k, i as int);
            cut_step(self.text@, K, self.offset as int, k + 1, i as int + 1);
            cut_le(self.text@, K + k, self.offset + i as int);
            cut_le(self.text@, K + k + 1, self.offset + i + 1);
            cut_only(self.text@, K + k + 1, self.offset + i + 1); cut_only(self.text@, K + k, self.offset + i); cut_only(self.text@, K, self.offset as int);
            assert(self.text@.subrange(K, K + k) =~= R.take(k));
            if c == (if self.in_entity { ';' } else { '&' }) { find_at(R, c, k); }
        }
    }
//@loopafter 0
    proof { find_at(R, if self.in_entity { ';' } else { '&' }, R.len() as int); 
        assert(self.text@.take(self.text@.len() as int) =~= self.text@);
        assert(cut(self.text@, self.text@.len() as int, blen(self.text@) as int));
        cut_only(self.text@, self.text@.len() as int, blen(self.text@) as int); cut_only(self.text@, K, self.offset as int);
        assert(self.text@.skip(self.text@.len() as int) =~= Seq::<char>::empty());
        assert(self.wf());
        assert(forall|e: Entities<'a>| e.text == self.text && e.pos == self.pos && e.offset == blen(self.text@) && !e.in_entity ==> #[trigger] e.wf());
    }
//@end
}

//@fn v parse_entities ret=r params=pos,text props=C07
//@typemap impl Iterator<Item = Result<Txt<'_>, ValidatorError<'_>>> => Entities<'_>
    requires $pos + blen($text@) <= isize::MAX
    ensures r.wf(), r.rest() == $text@, !r.in_entity
//@pre
    proof {
        assert($text@.take(0) =~= Seq::<char>::empty());
        assert(cut($text@, 0, 0)); cut_only($text@, 0, 0);
        assert($text@.skip(0) =~= $text@);
        assert(forall|e: Entities<'_>| e.text == $text && e.pos == $pos && e.offset == 0 && !e.in_entity ==> #[trigger] e.wf());
    }
//@end
// ---- std's Cow<str>, String and HashMap<String, String>
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> Cow<'a> { pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { match self { Cow::Borrowed(s) => s, Cow::Owned(s) => s.as_str() } } pub open spec fn view(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } } }
#[verifier::external_body]
fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body]
fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
pub uninterp spec fn defs_of(m: &HashMap<String, String>) -> Map<Seq<char>, Seq<char>>;
#[verifier::external_body]
fn vx_get<'m>(m: &'m HashMap<String, String>, k: &str) -> (r: Option<&'m String>)
    ensures r is Some <==> defs_of(m).contains_key(k@), r matches Some(v) ==> v@ == defs_of(m)[k@]
{ m.get(k) }
proof fn find_none(s: Seq<char>, c: char) requires !s.contains(c) ensures find(s, c) == s.len() {
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] != c by { assert(s.contains(s[j])); }
    find_at(s, c, s.len() as int);
}
proof fn find_le(s: Seq<char>, c: char) ensures find(s, c) <= s.len() decreases s.len() { if s.len() > 0 { find_le(s.drop_first(), c); } }
//@fn v decode_entities ret=r params=entity_definitions,text props=C07 loops=1
//@typemap Cow<'a, str> => Cow<'a>
//@method contains => vx_contains
//@method push_str => vx_push_str mut
//@method push => vx_push mut
//@method get => vx_get
//@method len => vx_len
    requires $text.start_() + blen($text@) <= isize::MAX
    ensures match decoded($text@, false, defs_of($entity_definitions)) { Some(t) => r matches Ok(c) && c@ == t, None => r is Err }
//@pre
    let ghost D = defs_of($entity_definitions);
    proof { if !$text@.contains('&') { find_none($text@, '&'); } }
//@loop 0 fornext
        invariant vx_it0.wf(), D == defs_of($entity_definitions),
            decoded($text@, false, D) == cat(buffer@, decoded(vx_it0.rest(), vx_it0.in_entity, D)),
        ensures
            decoded($text@, false, D) == Some(buffer@),
        decreases 2 * vx_it0.rest().len() + (if vx_it0.in_entity { 1nat } else { 0nat })
//@end

