//@include common.vrs
//@file v relaxng-validator/src/lib.rs
//@file m relaxng-model/src/model.rs
//@strip model
// mirror of xmlparser::StrSpan (a dependency): only its text is used here
#[derive(Copy, Clone)]
pub struct StrSpan<'a> { text: &'a str, start: usize }
impl<'a> StrSpan<'a> {
    pub closed spec fn view(&self) -> Seq<char> { self.text@ }
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == self@ { self.text }
}
//@type m NameClass
//@type v QualifiedName derive=Copy,Clone

// ---- the specification: RELAX NG 4.16, 9.2
pub open spec fn ns_of(q: QualifiedName) -> Seq<char> { match q.namespace_uri { Some(u) => u@, None => Seq::empty() } }
pub open spec fn matches(nc: NameClass, ns: Seq<char>, local: Seq<char>) -> bool decreases nc {
    match nc {
        NameClass::Named { namespace_uri, name } => namespace_uri@ == ns && name@ == local,
        NameClass::NsName { namespace_uri, except } => namespace_uri@ == ns && match except { Some(e) => !matches(*e, ns, local), None => true },
        NameClass::AnyName { except } => match except { Some(e) => !matches(*e, ns, local), None => true },
        NameClass::Alt { a, b } => matches(*a, ns, local) || matches(*b, ns, local),
    }
}

//@fn v is_ns_match ret=r params=uri,target props=C04
    ensures r == ($uri@ == match $target { Some(t) => t@, None => Seq::<char>::empty() })
//@pre
    proof { if $uri@.len() == 0 { assert($uri@ =~= Seq::<char>::empty()); } }
//@end
//@fn v contains ret=r params=nc,name props=C04
    ensures r == matches(*$nc, ns_of($name), $name.local_name@)
    decreases *$nc
//@pre
    proof { broadcast use empty_seq; }
//@end
pub broadcast proof fn empty_seq(s: Seq<char>) requires #[trigger] s.len() == 0 ensures s == Seq::<char>::empty() { assert(s =~= Seq::<char>::empty()); }

// ---- consequences stated by the property
proof fn except_removes_exactly(e: Box<NameClass>, ns: Seq<char>, l: Seq<char>)
    ensures matches(NameClass::AnyName { except: Some(e) }, ns, l) == !matches(*e, ns, l)
{ }
}
fn main() {}
