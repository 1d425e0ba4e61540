//@file l relaxng-model/src/lib.rs splitor=set_default_namespace,declare_namespace,declare_datatype
//@file m relaxng-model/src/model.rs
//@file t relaxng-syntax/src/types.rs
//@typemap Rc<RefCell<Option<model::DefineRule>>> => VxCell
//@typemap Rc<RefCell<Option<DefineRule>>> => VxCell
//@typemap io::Error => VxOpaque
//@typemap nom::error::ErrorKind => VxOpaque
//@typemap relaxng_syntax::xml::Error => VxOpaque
//@typemap datatype::Errors => datatype::Errors
//@typemap PathBuf => VxPath
//@typemap Span => Range<usize>
//@typemap std::rc::Rc<std::cell::RefCell<std::option::Option<model::DefineRule>>> => VxCell
use std::ops::Range;
// ---- mirrors of dependencies: only what is said here is known of them
pub mod codemap {
    use vstd::prelude::*;
    #[derive(Copy, Clone)]
    pub struct Span { pub x: u64 }
}
pub mod datatype {
    use vstd::prelude::*;
    #[verifier::external_body] pub struct Datatypes { x: u64 }
    #[verifier::external_body] pub struct DatatypeValues { x: u64 }
    #[verifier::external_body] pub struct Errors { x: u64 }
    #[verifier::external_body] pub struct Compiler { x: u64 }
    // the strings that the datatypes accept (decided by C13, C14, C15)
    pub uninterp spec fn dt_has(d: Datatypes, s: Seq<char>) -> bool;
    pub uninterp spec fn dtv_has(d: DatatypeValues, s: Seq<char>) -> bool;
}
pub struct VxOpaque { x: u64 }
#[verifier::external_body] pub struct VxPath { x: u64 }
//@type l RelaxError
// the cell that holds a definition (Rc<RefCell<Option<DefineRule>>>)
#[verifier::external_body] pub struct VxCell { x: u64 }
impl VxCell { pub uninterp spec fn ptr(&self) -> usize; }
impl VxCell {
    // what the cell holds once the schema has been compiled
    #[verifier::external_body] pub fn borrow(&self) -> (r: &Option<DefineRule>) ensures *r == def_at(self.ptr()) { unimplemented!() }
    #[verifier::external_body] pub fn as_ptr(&self) -> (r: usize) ensures r == self.ptr() { unimplemented!() }
}
pub uninterp spec fn def_at(ptr: usize) -> Option<DefineRule>;
// the language of the definition in a cell once the schema has been compiled
pub uninterp spec fn rlang(ptr: usize) -> Lang;
pub mod model {
    pub type Span = Range<usize>;
    use super::*;
//@type m NameClass
//@type m Pattern
//@type m DefineRule
//@type m CombineRule
    pub struct PatRef(pub VxCell);
}
pub use model::{Pattern, DefineRule, CombineRule};
impl DefineRule {
//@fn m DefineRule::pattern ret=r params=_s props=C09
    ensures *r == rpat(*self)
//@end
//@fn m DefineRule::span ret=r params=_s
    ensures *r == rspan(*self)
//@end
}
pub open spec fn rpat(r: DefineRule) -> Pattern { match r { DefineRule::AssignCombine(_, _, p) => p, DefineRule::CombineOnly(_, _, p) => p } }
pub open spec fn rspan(r: DefineRule) -> codemap::Span { match r { DefineRule::AssignCombine(s, _, _) => s, DefineRule::CombineOnly(s, _, _) => s } }
// membership in a name class (C04)
pub open spec fn nc_in(nc: model::NameClass, n: Name) -> bool decreases nc {
    match nc {
        model::NameClass::Named { namespace_uri, name } => namespace_uri@ == n.ns && name@ == n.local,
        model::NameClass::NsName { namespace_uri, except } => namespace_uri@ == n.ns && match except { Some(e) => !nc_in(*e, n), None => true },
        model::NameClass::AnyName { except } => match except { Some(e) => !nc_in(*e, n), None => true },
        model::NameClass::Alt { a, b } => nc_in(*a, n) || nc_in(*b, n),
    }
}
pub open spec fn nc_pred(nc: model::NameClass) -> NamePred { |n: Name| nc_in(nc, n) }
pub open spec fn value_pred(d: datatype::DatatypeValues) -> TextPred { |s: Seq<char>| datatype::dtv_has(d, s) }
pub open spec fn data_pred(d: datatype::Datatypes, e: Option<Lang>) -> TextPred {
    |s: Seq<char>| datatype::dt_has(d, s) && match e { Some(l) => !val_in(l, s), None => true }
}
// ---- what a pattern of the model means (RELAX NG section 9)
pub open spec fn mlang(p: Pattern) -> Lang decreases p, 0nat {
    match p {
        Pattern::Choice(v) => fold(Op::Choice, mlangs_n(v, v@.len())),
        Pattern::Interleave(v) => fold(Op::Interleave, mlangs_n(v, v@.len())),
        Pattern::Group(v) => fold(Op::Group, mlangs_n(v, v@.len())),
        Pattern::Mixed(q) => l_mixed(mlang(*q)),
        Pattern::Empty => l_eps(),
        Pattern::Text => l_text(),
        Pattern::NotAllowed => l_none(),
        Pattern::Optional(q) => l_opt(mlang(*q)),
        Pattern::ZeroOrMore(q) => l_zom(mlang(*q)),
        Pattern::OneOrMore(q) => l_plus(mlang(*q)),
        Pattern::Attribute(nc, q) => l_att(nc_pred(nc), mlang(*q)),
        Pattern::Element(nc, q) => l_elem(nc_pred(nc), mlang(*q)),
        Pattern::Ref(_, _, r) => l_single(rlang(r.0.ptr())),
        Pattern::DatatypeValue { datatype } => l_data(value_pred(datatype)),
        Pattern::DatatypeName { datatype, except } => l_data(data_pred(datatype, match except { Some(e) => Some(mlang(*e)), None => None })),
        Pattern::List(q) => l_list(mlang(*q)),
    }
}
pub open spec fn mlangs_n(v: Vec<Pattern>, n: nat) -> Seq<Lang> decreases v, n {
    if n == 0 || n > v@.len() { seq![] } else { mlangs_n(v, (n - 1) as nat).push(mlang(v@[n - 1])) }
}
pub proof fn mlangs_all(v: Vec<Pattern>, n: nat) requires n <= v@.len() ensures mlangs_n(v, n) =~= mlangs(v@.take(n as int)) decreases n {
    if n > 0 { mlangs_all(v, (n - 1) as nat); }
}
pub open spec fn mlangs(v: Seq<Pattern>) -> Seq<Lang> { Seq::new(v.len(), |i: int| mlang(v[i])) }
pub broadcast proof fn mlang_flat(p: Pattern) ensures #[trigger] flat(mlang(p)) decreases p {
    match p {
        Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => {
            let s = mlangs(v@); mlangs_all(v, v@.len()); assert(v@.take(v@.len() as int) =~= v@);
            assert forall|i: int| 0 <= i < s.len() implies flat(#[trigger] s[i]) by { assert(decreases_to!(v => v@[i])); mlang_flat(v@[i]); }
            fold_flat(Op::Choice, s); fold_flat(Op::Interleave, s); fold_flat(Op::Group, s);
        }
        Pattern::Mixed(q) | Pattern::Optional(q) | Pattern::ZeroOrMore(q) | Pattern::OneOrMore(q) => { mlang_flat(*q); plus_flat(mlang(*q)); }
        _ => { }
    }
}
pub broadcast proof fn mlangs_flat(v: Seq<Pattern>) ensures #[trigger] flats(mlangs(v)) {
    assert forall|i: int| 0 <= i < v.len() implies flat(#[trigger] mlangs(v)[i]) by { mlang_flat(v[i]); }
}
// n-ary patterns are the fold of their members
pub open spec fn nary(p: Pattern) -> Option<(Op, Seq<Pattern>)> { match p { Pattern::Choice(v) => Some((Op::Choice, v@)), Pattern::Interleave(v) => Some((Op::Interleave, v@)), Pattern::Group(v) => Some((Op::Group, v@)), _ => None } }
pub proof fn nary_lang(p: Pattern) requires nary(p) is Some ensures mlang(p) == fold(nary(p).unwrap().0, mlangs(nary(p).unwrap().1)) {
    match p { Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => { mlangs_all(v, v@.len()); assert(v@.take(v@.len() as int) =~= v@); } _ => {} }
}
pub broadcast proof fn two_lang(p: Pattern) requires nary(p) is Some, nary(p).unwrap().1.len() == 2
    ensures #[trigger] mlang(p) == l_op(nary(p).unwrap().0, mlang(nary(p).unwrap().1[0]), mlang(nary(p).unwrap().1[1])) {
    nary_lang(p); let v = nary(p).unwrap().1; mlang_flat(v[0]); mlang_flat(v[1]);
    assert(mlangs(v) =~= seq![mlang(v[0]), mlang(v[1])]);
    fold_two(nary(p).unwrap().0, mlang(v[0]), mlang(v[1]));
}
// appending a member, or the members of a pattern of the same kind, at the end
pub proof fn push_lang(o: Op, v: Seq<Pattern>, p: Pattern) ensures fold(o, mlangs(v.push(p))) == l_op(o, fold(o, mlangs(v)), mlang(p)) {
    mlangs_flat(v); mlang_flat(p);
    assert(mlangs(v.push(p)) =~= mlangs(v) + seq![mlang(p)]);
    fold_add(o, mlangs(v), seq![mlang(p)]); fold_one(o, mlang(p));
}
pub proof fn append_lang(o: Op, v: Seq<Pattern>, u: Seq<Pattern>) ensures fold(o, mlangs(v + u)) == l_op(o, fold(o, mlangs(v)), fold(o, mlangs(u))) {
    mlangs_flat(v); mlangs_flat(u);
    assert(mlangs(v + u) =~= mlangs(v) + mlangs(u));
    fold_add(o, mlangs(v), mlangs(u));
}
