//@include common.vrs
//@include strpos.vrs
pub mod tree {
use super::*;
pub struct Att { pub ns: Option<Seq<char>>, pub name: Seq<char>, pub value: Seq<char> }
pub uninterp spec fn el(n: int) -> bool;
pub uninterp spec fn ns(n: int) -> Option<Seq<char>>;
pub uninterp spec fn nm(n: int) -> Seq<char>;
// its element children, its parent element, its place among the parent's element children
pub uninterp spec fn kids(n: int) -> Seq<int>;
pub uninterp spec fn up(n: int) -> Option<int>;
pub uninterp spec fn pos(n: int) -> int;
pub uninterp spec fn size(n: int) -> nat;
pub uninterp spec fn depth(n: int) -> nat;
pub uninterp spec fn atts(n: int) -> Seq<Att>;
// the namespace bindings in scope
pub uninterp spec fn binds(n: int) -> Seq<(Option<Seq<char>>, Seq<char>)>;
// all children; and the text of a text node
pub uninterp spec fn nodes(n: int) -> Seq<int>;
pub uninterp spec fn is_text(n: int) -> bool;
pub uninterp spec fn text_(n: int) -> Option<Seq<char>>;
pub broadcast axiom fn ax_kid(n: int, i: int)
    requires 0 <= i < kids(n).len()
    ensures up(#[trigger] kids(n)[i]) == Some(n), pos(kids(n)[i]) == i, size(kids(n)[i]) < size(n), el(kids(n)[i]);
pub broadcast axiom fn ax_depth(n: int)
    requires #[trigger] up(n) is Some
    ensures depth(up(n)->0) < depth(n);
pub axiom fn ax_place(n: int)
    requires up(n) is Some, el(n)
    ensures 0 <= pos(n) < kids(up(n)->0).len(), kids(up(n)->0)[pos(n)] == n, size(n) < size(up(n)->0);
}
pub mod xmlu {
use super::*;
use super::tree::*;
//@file l relaxng-syntax/src/xml.rs
//@file t relaxng-syntax/src/types.rs
use std::ops::Range;
pub struct VxOpaque { x: u64 }
//@include syntax_types.vrs
use types::*;
pub mod iex {
    use super::*;
//@type l InExcept derive=PartialEq,Clone,Copy
// trusted: what #[derive(PartialEq)] makes
pub broadcast axiom fn ax_ie_obeys() ensures #[trigger] <InExcept as PartialEqSpec<InExcept>>::obeys_eq_spec();
pub broadcast axiom fn ax_ie_eq(a: InExcept, b: InExcept) ensures #[trigger] a.eq_spec(&b) == (a == b);
}
use iex::*;
pub type Result<T, E = Error> = std::result::Result<T, E>;
//@type l Error
//@const l NS

// ================================================================ the document: mirror of roxmltree (a dependency)
broadcast use {ax_ie_obeys, ax_ie_eq, ax_kid, ax_depth, ax::ax_string_str_obeys, ax::ax_string_str_eq, ax::ax_string_rstr_obeys, ax::ax_string_rstr_eq, ax::ax_string_obeys, ax::ax_string_eq, ax::ax_str_string_obeys, ax::ax_str_string_eq, ax::ax_str_ext};
pub open spec fn txt(s: Option<&str>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }

#[derive(Copy, Clone)]
pub struct Node<'a, 'input: 'a> { x: &'a str, y: &'input str }
#[derive(Copy, Clone)]
pub struct Attribute<'a, 'input: 'a> { x: &'a str, y: &'input str }
#[derive(Copy, Clone)]
pub struct VxName<'a> { x: &'a str }
#[derive(Copy, Clone)]
pub struct Namespace<'a> { x: &'a str }
pub open spec fn ids(v: Seq<Node>) -> Seq<int> { v.map_values(|n: Node| n.id()) }
impl<'a> VxName<'a> {
    pub uninterp spec fn ns_(&self) -> Option<Seq<char>>;
    pub uninterp spec fn nm_(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn namespace(&self) -> (r: Option<&'a str>) ensures txt(r) == self.ns_() { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> (r: &'a str) ensures r@ == self.nm_() { unimplemented!() }
}
impl<'a> Namespace<'a> {
    pub uninterp spec fn bind(&self) -> (Option<Seq<char>>, Seq<char>);
    #[verifier::external_body]
    pub fn name(&self) -> (r: Option<&'a str>) ensures txt(r) == self.bind().0 { unimplemented!() }
    #[verifier::external_body]
    pub fn uri(&self) -> (r: &'a str) ensures r@ == self.bind().1 { unimplemented!() }
}
impl<'a, 'input: 'a> Attribute<'a, 'input> {
    pub uninterp spec fn a(&self) -> Att;
    #[verifier::external_body]
    pub fn namespace(&self) -> (r: Option<&'a str>) ensures txt(r) == self.a().ns { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> (r: &'input str) ensures r@ == self.a().name { unimplemented!() }
    #[verifier::external_body]
    pub fn value(&self) -> (r: &'a str) ensures r@ == self.a().value , blen(r@) <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn range(&self) -> (r: Range<usize>) ensures r.start <= r.end < isize::MAX { unimplemented!() }
    // the value as it is written in the document: no shorter than the value
    #[verifier::external_body]
    pub fn range_value(&self) -> (r: Range<usize>) ensures r.start <= r.end < isize::MAX { unimplemented!() }
}
impl<'a, 'input: 'a> Node<'a, 'input> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn is_element(&self) -> (r: bool) ensures r == el(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_text(&self) -> (r: bool) ensures r == is_text(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn text(&self) -> (r: Option<&'a str>) ensures txt(r) == text_(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn tag_name(&self) -> (r: VxName<'a>) ensures r.ns_() == ns(self.id()), r.nm_() == nm(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn first_element_child(&self) -> (r: Option<Self>) requires el(self.id()) ensures match r { Some(c) => kids(self.id()).len() > 0 && c.id() == kids(self.id())[0], None => kids(self.id()).len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn next_sibling_element(&self) -> (r: Option<Self>)
        requires el(self.id())
        ensures match up(self.id()) {
            None => r is None,
            Some(p) => match r { Some(c) => pos(self.id()) + 1 < kids(p).len() && c.id() == kids(p)[pos(self.id()) + 1], None => pos(self.id()) + 1 >= kids(p).len() },
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parent_element(&self) -> (r: Option<Self>) ensures match r { Some(p) => up(self.id()) == Some(p.id()), None => up(self.id()) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn first_child(&self) -> (r: Option<Self>) ensures match r { Some(c) => nodes(self.id()).len() > 0 && c.id() == nodes(self.id())[0], None => nodes(self.id()).len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn children(&self) -> (r: Vec<Node<'a, 'input>>) ensures ids(r@) == nodes(self.id()), r@.len() == nodes(self.id()).len(), forall|i: int| #![trigger r@[i]] #![trigger nodes(self.id())[i]] 0 <= i < r@.len() ==> r@[i].id() == nodes(self.id())[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn attributes(&self) -> (r: Vec<Attribute<'a, 'input>>) ensures r@.len() == atts(self.id()).len(), forall|i: int| #![trigger r@[i]] #![trigger atts(self.id())[i]] 0 <= i < r@.len() ==> r@[i].a() == atts(self.id())[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn namespaces(&self) -> (r: Vec<Namespace<'a>>) ensures r@.len() == binds(self.id()).len(), forall|i: int| #![trigger r@[i]] #![trigger binds(self.id())[i]] 0 <= i < r@.len() ==> r@[i].bind() == binds(self.id())[i] { unimplemented!() }
    // a document is shorter than the address space
    #[verifier::external_body]
    pub fn range(&self) -> (r: Range<usize>) ensures r.start <= r.end < isize::MAX - 64 { unimplemented!() }
}
// ---- iterator adaptors by value
fn vx_vfind<T: Copy, F: Fn(&T) -> bool>(v: Vec<T>, f: F) -> (r: Option<T>)
    requires forall|x: &T| f.requires((x,))
    ensures
        r is None ==> forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> f.ensures((&v@[i],), false),
        r matches Some(x) ==> exists|i: int| #![trigger v@[i]] 0 <= i < v@.len() && x == v@[i] && f.ensures((&v@[i],), true) && forall|j: int| #![trigger v@[j]] 0 <= j < i ==> f.ensures((&v@[j],), false)
{
    let mut k = 0;
    while k < v.len()
        invariant k <= v@.len(), forall|x: &T| f.requires((x,)), forall|j: int| #![trigger v@[j]] 0 <= j < k ==> f.ensures((&v@[j],), false)
        decreases v@.len() - k
    {
        let x = v[k];
        if f(&x) { assert(f.ensures((&v@[k as int],), true)); return Some(x); }
        k = k + 1;
    }
    None
}
// str::find with a character; Iterator::find on a list
pub trait VxFind<P>: Sized { type R; spec fn freq(self, p: P) -> bool; spec fn fens(self, p: P, r: Self::R) -> bool; fn vx(self, p: P) -> (r: Self::R) requires self.freq(p) ensures self.fens(p, r); }
impl<'x> VxFind<char> for &'x str {
    type R = Option<usize>;
    open spec fn freq(self, p: char) -> bool { true }
    open spec fn fens(self, p: char, r: Option<usize>) -> bool {
        match r { None => !self@.contains(p), Some(o) => exists|k: int| #![trigger self@[k]] 0 <= k < self@.len() && self@[k] == p && cut(self@, k, o as int) && (forall|j: int| 0 <= j < k ==> self@[j] != p) && o < isize::MAX }
    }
    #[verifier::external_body]
    fn vx(self, p: char) -> (r: Option<usize>) { self.find(p) }
}
impl<T: Copy, F: Fn(&T) -> bool> VxFind<F> for Vec<T> {
    type R = Option<T>;
    open spec fn freq(self, f: F) -> bool { forall|x: &T| f.requires((x,)) }
    open spec fn fens(self, f: F, r: Option<T>) -> bool {
        &&& r is None ==> forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((&self@[i],), false)
        &&& r matches Some(x) ==> exists|i: int| #![trigger self@[i]] 0 <= i < self@.len() && x == self@[i] && f.ensures((&self@[i],), true) && forall|j: int| #![trigger self@[j]] 0 <= j < i ==> f.ensures((&self@[j],), false)
    }
    fn vx(self, f: F) -> (r: Option<T>) { vx_vfind(self, f) }
}
fn vx_find2<T: VxFind<P>, P>(t: T, p: P) -> (r: T::R) requires t.freq(p) ensures t.fens(p, r) { t.vx(p) }
//@method find => vx_find2
// str::contains with a character; <[T]>::contains
pub trait VxHas<P> { spec fn has(&self, p: P) -> bool; fn vx_has(&self, p: P) -> (r: bool) ensures r == self.has(p); }
impl VxHas<char> for str { open spec fn has(&self, p: char) -> bool { self@.contains(p) } #[verifier::external_body] fn vx_has(&self, p: char) -> (r: bool) { self.contains(p) } }
impl<'x, 'y> VxHas<&'x &'y str> for [&'y str] {
    open spec fn has(&self, p: &'x &'y str) -> bool { exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i]@ == (**p)@ }
    #[verifier::external_body]
    fn vx_has(&self, p: &'x &'y str) -> (r: bool) { self.contains(p) }
}
fn vx_contains2<T: VxHas<P> + ?Sized, P>(t: &T, p: P) -> (r: bool) ensures r == t.has(p) { t.vx_has(p) }
//@method contains => vx_contains2

// ================================================================ the specification
pub open spec fn rng_ns() -> Seq<char> { "http://relaxng.org/ns/structure/1.0"@ }
pub open spec fn rng(n: int) -> bool { ns(n) == Some(rng_ns()) }
// the elements of the schema namespace: all others are ignored (4.1)
pub open spec fn rk(s: Seq<int>) -> Seq<int> decreases s.len() { if s.len() == 0 { s } else if rng(s[0]) { seq![s[0]] + rk(s.drop_first()) } else { rk(s.drop_first()) } }
pub open spec fn rkids(n: int) -> Seq<int> { rk(kids(n)) }
// those that follow n
pub open spec fn foll(n: int) -> Seq<int> { match up(n) { Some(p) => rk(kids(p).skip(pos(n) + 1)), None => Seq::empty() } }
// the attribute without a namespace of that name (3: the attributes of RELAX NG elements have none)
pub open spec fn first_att(s: Seq<Att>, name: Seq<char>) -> Option<Att> decreases s.len() { if s.len() == 0 { None } else if s[0].ns is None && s[0].name == name { Some(s[0]) } else { first_att(s.drop_first(), name) } }
pub open spec fn att(n: int, name: Seq<char>) -> Option<Att> { first_att(atts(n), name) }
// the attribute of the nearest element that has it (4.3, 4.8)
pub open spec fn near(n: int, name: Seq<char>) -> Option<Att> decreases depth(n) { match att(n, name) { Some(a) => Some(a), None => match up(n) { Some(p) => if depth(p) < depth(n) { near(p, name) } else { None }, None => None } } }
pub open spec fn val_or(a: Option<Att>) -> Seq<char> { match a { Some(x) => x.value, None => Seq::empty() } }
pub open spec fn first_bind(s: Seq<(Option<Seq<char>>, Seq<char>)>, p: Option<Seq<char>>) -> Option<Seq<char>> decreases s.len() { if s.len() == 0 { None } else if s[0].0 == p { Some(s[0].1) } else { first_bind(s.drop_first(), p) } }
pub open spec fn bound(n: int, p: Seq<char>) -> Option<Seq<char>> { if p == "xml"@ { Some("http://www.w3.org/XML/1998/namespace"@) } else { first_bind(binds(n), Some(p)) } }

proof fn att_first(s: Seq<Att>, p: Seq<char>, i: int)
    requires 0 <= i < s.len(), s[i].ns is None && s[i].name == p, forall|j: int| 0 <= j < i ==> !((#[trigger] s[j]).ns is None && s[j].name == p)
    ensures first_att(s, p) == Some(s[i])
    decreases s.len()
{ if i > 0 { let t = s.drop_first(); assert(t[i - 1] == s[i]); assert forall|j: int| 0 <= j < i - 1 implies !((#[trigger] t[j]).ns is None && t[j].name == p) by { assert(t[j] == s[j + 1]); } att_first(t, p, i - 1); } }
proof fn att_none(s: Seq<Att>, p: Seq<char>)
    requires forall|j: int| 0 <= j < s.len() ==> !((#[trigger] s[j]).ns is None && s[j].name == p)
    ensures first_att(s, p) is None
    decreases s.len()
{ if s.len() > 0 { let t = s.drop_first(); assert forall|j: int| 0 <= j < t.len() implies !((#[trigger] t[j]).ns is None && t[j].name == p) by { assert(t[j] == s[j + 1]); } att_none(t, p); } }
proof fn bind_first(s: Seq<(Option<Seq<char>>, Seq<char>)>, p: Option<Seq<char>>, i: int)
    requires 0 <= i < s.len(), s[i].0 == p, forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).0 != p
    ensures first_bind(s, p) == Some(s[i].1)
    decreases s.len()
{ if i > 0 { let t = s.drop_first(); assert(t[i - 1] == s[i]); assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] t[j]).0 != p by { assert(t[j] == s[j + 1]); } bind_first(t, p, i - 1); } }
proof fn bind_none(s: Seq<(Option<Seq<char>>, Seq<char>)>, p: Option<Seq<char>>)
    requires forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0 != p
    ensures first_bind(s, p) is None
    decreases s.len()
{ if s.len() > 0 { let t = s.drop_first(); assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).0 != p by { assert(t[j] == s[j + 1]); } bind_none(t, p); } }

//@fn l is_rng ret=r params=ns props=C16,C17
    ensures r == (txt($ns) == Some(rng_ns()))
//@end
//@fn l is_rng_node ret=r params=node props=C16,C17
    ensures r == rng($node.id())
//@end
//@fn l is_rng_att ret=r params=a props=C16
    ensures r == ($a.a().ns is None || $a.a().ns == Some(rng_ns()))
//@end
//@fn l is_common_att ret=r params=a props=C16
    ensures r == ($a.a().ns is None && ($a.a().name == "ns"@ || $a.a().name == "datatypeLibrary"@))
//@pre
    proof { reveal_strlit("ns"); reveal_strlit("datatypeLibrary"); }
//@end
//@fn l is_el ret=r params=node,name props=C17
    ensures r == (el($node.id()) && nm($node.id()) == $name@ && rng($node.id()))
//@end
//@fn l rng_attribute ret=r params=node,name props=C16
    ensures match r { Some(x) => att($node.id(), $name@) == Some(x.a()), None => att($node.id(), $name@) is None }
//@closure 0
    -> (b: bool) ensures b == ($1.a().ns is None && $1.a().name == $name@)
//@pre
    proof {
        let s = atts($node.id());
        if forall|j: int| 0 <= j < s.len() ==> !((#[trigger] s[j]).ns is None && s[j].name == $name@) { att_none(s, $name@); }
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).ns is None && s[i].name == $name@ && (forall|j: int| 0 <= j < i ==> !((#[trigger] s[j]).ns is None && s[j].name == $name@)) implies first_att(s, $name@) == Some(s[i]) by { att_first(s, $name@, i); }
    }
//@end
//@fn l lookup_namespace_def ret=r params=node,prefix props=C16
    requires $prefix is Some
    ensures txt(r) == bound($node.id(), $prefix->0@)
//@inline map=opt_map
//@closure 0
    -> (b: bool) ensures b == ($1.bind().0 == txt($prefix))
//@pre
    proof {
        let s = binds($node.id()); let p = txt($prefix);
        if forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0 != p { bind_none(s, p); }
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == p && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).0 != p) implies first_bind(s, p) == Some(s[i].1) by { bind_first(s, p, i); }
    }
//@end
}
fn main() {}
}
