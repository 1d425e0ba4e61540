// ================================================================ C10, C11, C12, C18: contexts
// ---- mirrors: only what is said here is known of them
impl codemap::Span { #[verifier::external_body] pub fn subspan(&self, a: u64, b: u64) -> codemap::Span { unimplemented!() } }
pub struct VxFile { pub span: codemap::Span, x: u64 }
impl VxFile {
    pub uninterp spec fn nm(&self) -> Seq<char>;
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.nm() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: VxFile) ensures r == *self { unimplemented!() }
}
pub type Str = Seq<char>;
pub type Decls = Map<Str, Str>;
#[verifier::external_body] pub struct VxMap { x: u64 }
pub enum Entry<'a> { Occupied(VxOccupied<'a>), Vacant(VxVacant<'a>) }
#[verifier::external_body] pub struct VxOccupied<'a> { x: &'a u64 }
#[verifier::external_body] pub struct VxVacant<'a> { x: &'a u64 }
impl<'a> VxOccupied<'a> {
    pub uninterp spec fn k(&self) -> Str;
    pub uninterp spec fn v(&self) -> Str;
    #[verifier::external_body] pub fn get(&self) -> (r: &String) ensures r@ == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn key(&self) -> (r: &String) ensures r@ == self.k() { unimplemented!() }
}
impl<'a> VxVacant<'a> {
    pub uninterp spec fn put(&self) -> Option<Str>;
    #[verifier::external_body] pub fn insert(self, v: String) ensures self.put() == Some(v@) { unimplemented!() }
}
impl VxMap {
    pub uninterp spec fn view(&self) -> Decls;
    #[verifier::external_body] pub fn new() -> (r: VxMap) ensures r@ == Map::<Str, Str>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&String>) ensures match r { Some(s) => self@.contains_key(k@) && s@ == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: String) -> (r: Option<String>) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body] pub fn entry(&mut self, k: String) -> (r: Entry<'_>)
        ensures match r {
            Entry::Occupied(e) => old(self)@.contains_key(k@) && e.k() == k@ && e.v() == old(self)@[k@] && final(self)@ == old(self)@,
            Entry::Vacant(e) => !old(self)@.contains_key(k@) && final(self)@ == (match e.put() { Some(v) => old(self)@.insert(k@, v), None => old(self)@ }),
        } { unimplemented!() }
}
// the definitions of a grammar: a name, once it is entered, has its cell for good
#[verifier::external_body] pub struct VxTable { x: u64 }
#[verifier::external_body] pub struct VxTableRef { x: u64 }
pub uninterp spec fn cell_of(tab: int, k: Str) -> usize;
impl VxTable {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn new() -> VxTable { unimplemented!() }
    #[verifier::external_body] pub fn borrow(&self) -> (r: VxTableRef) ensures r.id() == self.id() { unimplemented!() }
    #[verifier::external_body] pub fn borrow_mut(&self) -> (r: VxTableRef) ensures r.id() == self.id() { unimplemented!() }
}
impl VxTableRef {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn has(&self, k: Str) -> bool;
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self.has(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&VxCell>) ensures match r { Some(c) => self.has(k@) && entered(self.id(), k@) && c.ptr() == cell_of(self.id(), k@), None => !self.has(k@) && lacked(self.id(), k@) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_get_clone(&self, k: &str) -> (r: Option<VxCell>) ensures match r { Some(c) => self.has(k@) && entered(self.id(), k@) && c.ptr() == cell_of(self.id(), k@), None => !self.has(k@) && lacked(self.id(), k@) } { unimplemented!() }
    // entering a name decides which cell is the definition's
    #[verifier::external_body] pub fn insert(&mut self, k: String, c: VxCell) requires !old(self).has(k@) ensures c.ptr() == cell_of(old(self).id(), k@), final(self).id() == old(self).id() { unimplemented!() }
}
pub uninterp spec fn entered(tab: int, k: Str) -> bool;                                      // the name is in the table in the end
// what happened in the course of compiling (facts that, once true, stay true)
pub uninterp spec fn lacked(tab: int, k: Str) -> bool;                                       // the name was looked up, and not there
pub uninterp spec fn made(ptr: usize, c: Option<DefineRule>) -> bool;                        // a cell was created with this content
pub uninterp spec fn step(ptr: usize, o: Option<DefineRule>, n: Option<DefineRule>) -> bool; // its content was changed from o to n
pub uninterp spec fn gave(ptr: usize, c: Option<DefineRule>) -> bool;                        // its content was looked at
pub open spec fn crule_ok(c: Option<DefineRule>) -> bool { c matches Some(x) ==> rule_ok(x) }
impl VxCell {
    #[verifier::external_body] pub fn new(c: Option<DefineRule>) -> (r: VxCell) requires crule_ok(c) ensures made(r.ptr(), c) { unimplemented!() }
    #[verifier::external_body] pub fn borrow_mut(&self) -> (r: &mut Option<DefineRule>) ensures crule_ok(*r), gave(self.ptr(), *r), step(self.ptr(), *r, *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_is_none(&self) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: VxCell) ensures r.ptr() == self.ptr() { unimplemented!() }
}
// the overrides of an include; ov_set: the names of its override block
#[verifier::external_body] pub struct VxOverrides { x: u64 }
#[verifier::external_body] pub struct VxOverridesRef { x: u64 }
pub uninterp spec fn ov_set(ov: int) -> Set<Str>;
pub uninterp spec fn ov_ready(ov: int) -> bool;                                  // the override block has been gone through
pub uninterp spec fn ov_step(ov: int, k: Str, o: (codemap::Span, bool), n: (codemap::Span, bool)) -> bool;
pub uninterp spec fn ov_made(ov: int, k: Str, c: (codemap::Span, bool)) -> bool;
pub uninterp spec fn ov_last(ov: int, k: Str) -> bool;                           // what the flag is in the end
impl VxOverrides {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn new() -> VxOverrides { unimplemented!() }
    #[verifier::external_body] pub fn borrow_mut(&self) -> (r: VxOverridesRef) ensures r.id() == self.id(), ov_ready(self.id()) ==> r.names() == ov_set(self.id()) { unimplemented!() }
    // the entries, in some order, once everything is compiled
    #[verifier::external_body] pub fn vx_entries(&self) -> (r: Vec<(String, (&codemap::Span, bool))>) ensures entries_of(self.id(), r@) { unimplemented!() }
}
pub open spec fn entries_of(ov: int, r: Seq<(String, (&codemap::Span, bool))>) -> bool {
    (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).1.1 == ov_last(ov, r[i].0@))
    && (ov_ready(ov) ==> forall|k: Str| #[trigger] ov_set(ov).contains(k) <==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0@ == k)
}
impl VxOverridesRef {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn names(&self) -> Set<Str>;
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self.names().contains(k@), r ==> ctx::flagged(self.id(), k@, false) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut (codemap::Span, bool)>) ensures match r { Some(x) => ov_step(old(self).id(), k@, *x, *final(x)), None => !old(self).names().contains(k@) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: (codemap::Span, bool)) requires ov_set(old(self).id()).contains(k@), !v.1 ensures ov_made(old(self).id(), k@, v) { unimplemented!() }
}
// (what quantifiers are instantiated with)
pub open spec fn tag(l: Lang) -> bool { true }
pub open spec fn tagt(t: int) -> bool { true }
//@typemap Arc<codemap::File> => VxFile
//@typemap RefCell<HashMap<String, Rc<RefCell<Option<model::DefineRule>>>>> => VxTable
//@typemap RefCell<HashMap<String, (codemap::Span, bool)>> => VxOverrides
//@typemap HashMap<String, String> => VxMap
pub mod ctx {
use super::*;
use vstd::prelude::*;
use std::rc::Rc;
pub type Path = VxPath;
use super::model::NameClass;
use super::types::{DatatypeName, IdentifierOrKeyword, Name, NamespaceUriLiteral, NamespacedName, NcName, QName, Schema};
//@type l Context
//@type l ElemAttr derive=Copy,Clone,PartialEq

impl types::Identifier { #[verifier::external_body] pub fn clone(&self) -> (r: types::Identifier) ensures r == *self { unimplemented!() } }
broadcast use {ax::ax_string_str_obeys, ax::ax_string_str_eq, ax::ax_string_rstr_obeys, ax::ax_string_rstr_eq, ax::ax_string_obeys, ax::ax_string_eq, ax::ax_str_string_obeys, ax::ax_str_string_eq, ax::ax_str_ext, ax::ax_str_obeys, ax::ax_str_eq, ea::ax_ea_obeys, ea::ax_ea_eq};
// PartialEq is derived
pub mod ea { use super::*; use vstd::prelude::*;
pub broadcast axiom fn ax_ea_obeys() ensures #[trigger] <ElemAttr as vstd::std_specs::cmp::PartialEqSpec<ElemAttr>>::obeys_eq_spec();
pub broadcast axiom fn ax_ea_eq(a: ElemAttr, b: ElemAttr) ensures #[trigger] <ElemAttr as vstd::std_specs::cmp::PartialEqSpec<ElemAttr>>::eq_spec(&a, &b) == (a == b);
}
pub open spec fn xml_decls() -> Decls { Map::<Str, Str>::empty().insert("xml"@, "http://www.w3.org/XML/1998/namespace"@) }
pub open spec fn xsd_decls() -> Decls { Map::<Str, Str>::empty().insert("xsd"@, "http://www.w3.org/2001/XMLSchema-datatypes"@) }
// ---- what a context stands for
// the declarations in scope: those of the file that the text is in
pub open spec fn dns(c: Context) -> Str decreases c {
    match c {
        Context::Root { default_namespace, .. } => default_namespace@,
        Context::Include { default_namespace, .. } => default_namespace@,
        Context::IncludeOverrides { parent } => match *parent { Context::Include { parent: p, .. } => dns(*p), _ => arbitrary() },
        Context::Grammar { parent, .. } => dns(*parent), Context::Define { parent, .. } => dns(*parent), Context::Element { parent } => dns(*parent), Context::Attribute { parent, .. } => dns(*parent),
    }
}
pub open spec fn nss(c: Context) -> Decls decreases c {
    match c {
        Context::Root { namespaces, .. } => namespaces@,
        Context::Include { namespaces, .. } => namespaces@,
        Context::IncludeOverrides { parent } => match *parent { Context::Include { parent: p, .. } => nss(*p), _ => arbitrary() },
        Context::Grammar { parent, .. } => nss(*parent), Context::Define { parent, .. } => nss(*parent), Context::Element { parent } => nss(*parent), Context::Attribute { parent, .. } => nss(*parent),
    }
}
pub open spec fn file_of(c: Context) -> VxFile decreases c {
    match c {
        Context::Root { file, .. } => file,
        Context::Include { file, .. } => file,
        Context::IncludeOverrides { parent } => match *parent { Context::Include { parent: p, .. } => file_of(*p), _ => arbitrary() },
        Context::Grammar { parent, .. } => file_of(*parent), Context::Define { parent, .. } => file_of(*parent), Context::Element { parent } => file_of(*parent), Context::Attribute { parent, .. } => file_of(*parent),
    }
}
pub open spec fn dts(c: Context) -> Decls decreases c {
    match c {
        Context::Root { datatypes, .. } => datatypes@,
        Context::Include { datatypes, .. } => datatypes@,
        Context::IncludeOverrides { parent } => match *parent { Context::Include { parent: p, .. } => dts(*p), _ => arbitrary() },
        Context::Grammar { parent, .. } => dts(*parent), Context::Define { parent, .. } => dts(*parent), Context::Element { parent } => dts(*parent), Context::Attribute { parent, .. } => dts(*parent),
    }
}
// the table of the grammar that the text belongs to, and of the grammar around that one
pub open spec fn tab_of(c: Context) -> int decreases c {
    match c {
        Context::Root { refs, .. } => refs.id(), Context::Grammar { refs, .. } => refs.id(),
        Context::Include { parent, .. } => tab_of(*parent), Context::IncludeOverrides { parent } => tab_of(*parent),
        Context::Define { parent, .. } => tab_of(*parent), Context::Element { parent } => tab_of(*parent), Context::Attribute { parent, .. } => tab_of(*parent),
    }
}
pub open spec fn ptab_of(c: Context) -> Option<int> decreases c {
    match c {
        Context::Root { .. } => None, Context::Grammar { parent, .. } => Some(tab_of(*parent)),
        Context::Include { parent, .. } => ptab_of(*parent), Context::IncludeOverrides { parent } => ptab_of(*parent),
        Context::Define { parent, .. } => ptab_of(*parent), Context::Element { parent } => ptab_of(*parent), Context::Attribute { parent, .. } => ptab_of(*parent),
    }
}
// is the text within an attribute (of the same grammar)
pub open spec fn att_of(c: Context) -> bool decreases c {
    match c {
        Context::Root { .. } => false, Context::Grammar { .. } => false, Context::Attribute { .. } => true,
        Context::Include { parent, .. } => att_of(*parent), Context::IncludeOverrides { parent } => att_of(*parent),
        Context::Define { parent, .. } => att_of(*parent), Context::Element { parent } => att_of(*parent),
    }
}
// the name of the definition that the text belongs to, unless it is within an element
pub open spec fn self_of(c: Context) -> Option<Str> decreases c {
    match c { Context::Define { id, .. } => Some(id.1@), Context::Attribute { parent, .. } => self_of(*parent), _ => None }
}
// the files that include this one, directly or not
pub open spec fn within(c: Context, n: Str) -> bool decreases c {
    match c {
        Context::Root { .. } => false,
        Context::Include { parent, file, .. } => file.nm() == n || within(*parent, n),
        Context::IncludeOverrides { parent } => within(*parent, n), Context::Grammar { parent, .. } => within(*parent, n),
        Context::Define { parent, .. } => within(*parent, n), Context::Element { parent } => within(*parent, n), Context::Attribute { parent, .. } => within(*parent, n),
    }
}
// the includes that stand between a definition and the table of its grammar, innermost first
pub open spec fn route(c: Context) -> Seq<int> decreases c {
    match c {
        Context::Include { parent, overrides, .. } => seq![overrides.id()] + route(*parent),
        Context::IncludeOverrides { parent } => match *parent { Context::Include { parent: p, .. } => route(*p), _ => arbitrary() },
        _ => seq![],
    }
}
pub open spec fn own_of(c: Context) -> Option<int> { match c { Context::IncludeOverrides { parent } => match *parent { Context::Include { overrides, .. } => Some(overrides.id()), _ => None }, _ => None } }
pub open spec fn ctx_ok(c: Context) -> bool decreases c {
    match c {
        Context::Root { .. } => true,
        Context::IncludeOverrides { parent } => (*parent) is Include && ctx_ok(*parent),
        Context::Include { parent, .. } => ctx_ok(*parent), Context::Grammar { parent, .. } => ctx_ok(*parent),
        Context::Define { parent, .. } => ctx_ok(*parent), Context::Element { parent } => ctx_ok(*parent), Context::Attribute { parent, .. } => ctx_ok(*parent),
    }
}
// contexts in which definitions may stand
pub open spec fn can_hold(c: Context) -> bool decreases c {
    match c { Context::Root { .. } => true, Context::Grammar { .. } => true, Context::Include { parent, .. } => can_hold(*parent), _ => false }
}
pub open spec fn can_define(c: Context) -> bool {
    can_hold(c) || match c { Context::IncludeOverrides { parent } => match *parent { Context::Include { parent: p, .. } => can_hold(*p), _ => false }, _ => false }
}
pub open spec fn top(c: Context) -> bool { c is Root || c is Include }
pub ghost struct Env { pub dns: Str, pub ns: Decls, pub dt: Decls, pub odt: Decls, pub tab: int, pub ptab: Option<int>, pub att: bool, pub sid: Option<Str>, pub route: Seq<int>, pub own: Option<int>, pub file: VxFile }
pub open spec fn env_of(c: Context) -> Env {
    Env { dns: dns(c), ns: nss(c), dt: dts(c), odt: own_dt(c), tab: tab_of(c), ptab: ptab_of(c), att: att_of(c), sid: self_of(c), route: route(c), own: own_of(c), file: file_of(c) }
}
// ---- what became of a definition
pub open spec fn joined(ptr: usize, d: Def) -> bool {
    ||| exists|c: DefineRule| #[trigger] made(ptr, Some(c)) && def_of(c) == d
    ||| exists|o: Option<DefineRule>, n: DefineRule| #[trigger] step(ptr, o, Some(n)) && match o { None => def_of(n) == d, Some(x) => combine(def_of(x), d) == Some(def_of(n)) }
}
pub open spec fn flagged(ov: int, k: Str, b: bool) -> bool {
    if b { exists|o: (codemap::Span, bool), n: (codemap::Span, bool)| #[trigger] ov_step(ov, k, o, n) && n.1 } else { exists|c: (codemap::Span, bool)| #[trigger] ov_made(ov, k, c) && !c.1 }
}
pub open spec fn sent(route: Seq<int>, tab: int, k: Str, d: Def) -> bool decreases route.len() {
    if route.len() == 0 { joined(cell_of(tab, k), d) }
    else if ov_set(route[0]).contains(k) { flagged(route[0], k, true) }    // replaced by the override
    else { sent(route.drop_first(), tab, k, d) }
}
pub open spec fn put(e: Env, k: Str, d: Def) -> bool { sent(e.route, e.tab, k, d) && (e.own matches Some(ov) ==> flagged(ov, k, false)) }
pub open spec fn ready(route: Seq<int>) -> bool { forall|i: int| 0 <= i < route.len() ==> ov_ready(#[trigger] route[i]) }
// why a definition was refused: it cannot be combined with what was there
pub open spec fn refused(ptr: usize, d: Def) -> bool { exists|c: DefineRule| #[trigger] gave(ptr, Some(c)) && combine(def_of(c), d) is None }

impl<'a> Context<'a> {
//@fn l Context::new ret=r params=file props=C11,C12
//@fnren HashMap :: new => VxMap::new
//@exprmap RefCell :: new ( HashMap :: new ( ) ) => VxTable::new()
    ensures r is Root, env_of(r).ns =~= xml_decls(), env_of(r).dt =~= xsd_decls(), env_of(r).dns == ""@, file_of(r) == $file
//@end
//@fn l Context::check_include ret=r params=_s,span,this_file props=C18
    ensures r is Ok <==> !within(*$_s, $this_file.nm()), r matches Err(e) ==> e is RecursiveInclude
    decreases $_s
//@end
//@fn l Context::new_include ret=r params=_s,span,file props=C11,C12,C18
//@fnren HashMap :: new => VxMap::new
//@exprmap RefCell :: new ( HashMap :: new ( ) ) => VxOverrides::new()
    requires ctx_ok(*$_s)
    ensures
        r is Ok <==> !within(*$_s, $file.nm()), r matches Err(e) ==> e is RecursiveInclude,
        r matches Ok(c) ==> c matches Context::Include { parent, file: f, overrides, namespaces, default_namespace, datatypes } && *parent == *$_s && f == $file && tagt(overrides.id()) && namespaces@ =~= xml_decls() && default_namespace@ == dns(*$_s) && datatypes@ =~= xsd_decls()
//@end
//@fn l Context::new_inc_overrides ret=r params=_s props=C12
    requires *$_s is Include
    ensures r matches Context::IncludeOverrides { parent } && *parent == *$_s
//@end
//@fn l Context::new_grammar ret=r params=_s props=C12
//@exprmap RefCell :: new ( HashMap :: new ( ) ) => VxTable::new()
    ensures r matches Context::Grammar { parent, refs } && *parent == *$_s && tagt(refs.id())
//@end
//@fn l Context::new_define ret=r params=_s,id props=C05,C12
    ensures r matches Context::Define { parent, id: i } && *parent == *$_s && i == *$id
//@end
//@fn l Context::new_element ret=r params=_s,element_span props=C18
    requires ctx_ok(*$_s)
    ensures r is Ok <==> !att_of(*$_s), r matches Ok(c) ==> c matches Context::Element { parent } && *parent == *$_s, r matches Err(e) ==> e is ElementAsChildOfAttribute
//@end
//@fn l Context::new_attribute ret=r params=_s,span props=C18
    ensures r matches Context::Attribute { parent, span: s } && *parent == *$_s
//@end
//@fn l Context::file ret=r params=_s props=C11,C12
    requires ctx_ok(*$_s)
    ensures r == file_of(*$_s)
    decreases $_s
//@pre
    proof { reveal_with_fuel(ctx_ok, 3); }
//@end
//@fn l Context::including_context ret=r params=_s props=C11
    requires *$_s is Include
    ensures *$_s matches Context::Include { parent, .. } && *r == *parent
//@end
//@fn l Context::convert_span ret=r params=_s,span props=C18
    requires ctx_ok(*$_s)
//@end
//@fn l Context::default_namespace_uri ret=r params=_s props=C11
//@fullslice as_str
    requires ctx_ok(*$_s)
    ensures r@ == dns(*$_s)
    decreases $_s
//@pre
    proof { reveal_with_fuel(ctx_ok, 3); }
//@end
//@fn l Context::set_default_namespace params=_s,uri props=C11
    requires top(*old($_s))
    ensures
        *old($_s) is Root ==> *final($_s) is Root, *old($_s) matches Context::Include { parent, overrides, .. } ==> (*final($_s) matches Context::Include { parent: q, overrides: o, .. } && *q == *parent && o == overrides),
        env_of(*final($_s)) == (Env { dns: $uri@, ..env_of(*old($_s)) }),
//@end
//@fn l Context::declare_namespace ret=r params=_s,prefix,uri props=C11
    requires top(*old($_s))
    ensures
        r is Ok, *old($_s) is Root ==> *final($_s) is Root, *old($_s) matches Context::Include { parent, overrides, .. } ==> (*final($_s) matches Context::Include { parent: q, overrides: o, .. } && *q == *parent && o == overrides),
        env_of(*final($_s)) == (Env { ns: declared(nss(*old($_s)), $prefix@, $uri@), ..env_of(*old($_s)) }),
//@end
//@fn l Context::namespace_uri_for_prefix_str ret=r params=_s,prefix props=C11
//@fullslice as_str
//@inline map=opt_map
    requires ctx_ok(*$_s)
    ensures match r { Some(u) => nss(*$_s).contains_key($prefix@) && u@ == nss(*$_s)[$prefix@], None => !nss(*$_s).contains_key($prefix@) }
    decreases $_s
//@pre
    proof { reveal_with_fuel(ctx_ok, 3); }
//@end
//@fn l Context::namespace_uri_for_prefix ret=r params=_s,prefix props=C11,C18
    requires ctx_ok(*$_s)
    ensures match r { Ok(u) => nss(*$_s).contains_key($prefix.1@) && u@ == nss(*$_s)[$prefix.1@], Err(e) => !nss(*$_s).contains_key($prefix.1@) && (e matches RelaxError::UndefinedNamespacePrefix { prefix: p, .. } && p@ == $prefix.1@) }
//@end
//@fn l Context::declare_datatype ret=r params=_s,prefix,uri props=C11,C18
    requires top(*old($_s))
    ensures
        *old($_s) is Root ==> *final($_s) is Root, *old($_s) matches Context::Include { parent, overrides, .. } ==> (*final($_s) matches Context::Include { parent: q, overrides: o, .. } && *q == *parent && o == overrides),
        r is Ok <==> (own_dt(*old($_s)).contains_key($prefix@) ==> own_dt(*old($_s))[$prefix@] == $uri@),
        r is Ok ==> env_of(*final($_s)) == (Env { dt: dts(*old($_s)).insert($prefix@, $uri@), odt: own_dt(*old($_s)).insert($prefix@, $uri@), ..env_of(*old($_s)) }),
        r matches Err(e) ==> e is DatatypePrefixAlreadyDefined,
//@post
    proof { if r is Ok { assert(env_of(*$_s).dt =~= dts(*old($_s)).insert($prefix@, $uri@)); assert(env_of(*$_s).odt =~= own_dt(*old($_s)).insert($prefix@, $uri@)); } }
//@end
//@fn l Context::datatype_uri_for_prefix ret=r params=_s,prefix props=C11
//@fullslice as_str
//@inline map=opt_map
    requires ctx_ok(*$_s)
    ensures match r { Some(u) => dts(*$_s).contains_key($prefix@) && u@ == dts(*$_s)[$prefix@], None => !dts(*$_s).contains_key($prefix@) }
    decreases $_s
//@pre
    proof { reveal_with_fuel(ctx_ok, 3); }
//@end
//@fn l Context::try_datatype_uri_for_prefix ret=r params=_s,prefix props=C11,C18
//@inline ok_or_else
    requires ctx_ok(*$_s)
    ensures match r { Ok(u) => dts(*$_s).contains_key($prefix.1@) && u@ == dts(*$_s)[$prefix.1@], Err(e) => !dts(*$_s).contains_key($prefix.1@) && (e matches RelaxError::UndefinedDatatypePrefix { prefix: p, .. } && p@ == $prefix.1@) }
//@end
//@fn l Context::define ret=r params=_s,id,rule props=C09,C12,C18
//@exprmap Rc :: new ( RefCell :: new ( Some ( rule ) ) ) => VxCell::new(Some(rule))
//@fnren Compiler :: < FsFiles > :: merge => Compiler::merge
    requires can_define(*$_s), rule_ok($rule), ready(route(*$_s)), own_of(*$_s) matches Some(ov) ==> ov_set(ov).contains($id@)
    ensures
        r is Ok ==> put(env_of(*$_s), $id@, def_of($rule)),
        r is Err ==> refused(cell_of(tab_of(*$_s), $id@), def_of($rule)),
    decreases $_s
//@pre
    proof { reveal_with_fuel(can_hold, 3); reveal_with_fuel(route, 3); reveal_with_fuel(sent, 2); reveal_with_fuel(tab_of, 3);
        if let Context::Include { parent, .. } = *$_s { let t = route(*$_s);
            assert(t.drop_first() =~= route(*parent)); assert(ov_ready(t[0]));
            assert forall|i: int| 0 <= i < t.drop_first().len() implies ov_ready(#[trigger] t.drop_first()[i]) by { assert(t[i + 1] == t.drop_first()[i]); } } }
//@end
//@fn l Context::get_ref ret=r params=_s,ref_id props=C12
//@exprmap refs . borrow ( ) . get ( ref_id ) . map ( Clone :: clone ) => refs.borrow().vx_get_clone(ref_id)
    requires *$_s is Root || *$_s is Grammar
    ensures match r { Some(c) => c.ptr() == cell_of(tab_of(*$_s), $ref_id@) && entered(tab_of(*$_s), $ref_id@), None => lacked(tab_of(*$_s), $ref_id@) }
    decreases $_s
//@end
    // the definitions of the grammar, in some order, once all of it is compiled
    #[verifier::external_body] fn ref_iter(&self) -> (r: Vec<(String, VxCell)>)
        requires *self is Root || *self is Grammar
        ensures refs_of(tab_of(*self), r@) { unimplemented!() }
//@fn l Context::check_ref_recursion ret=r params=_s,ref_id props=C05,C18
    requires ctx_ok(*$_s)
    ensures r is Ok <==> self_of(*$_s) != Some($ref_id.1@), r matches Err(e) ==> e is RecursiveReference
    decreases $_s
//@end
//@fn l Context::acquire_ref_impl ret=r params=_s,ref_id props=C05,C12
//@exprmap Rc :: new ( RefCell :: new ( None ) ) => VxCell::new(None)
    ensures r matches Ok(p) && p.0.ptr() == cell_of(tab_of(*$_s), $ref_id.1@)
    decreases $_s
//@end
//@fn l Context::acquire_ref ret=r params=_s,ref_id props=C05,C12,C18
    requires ctx_ok(*$_s)
    ensures match r { Ok(p) => self_of(*$_s) != Some($ref_id.1@) && p.0.ptr() == cell_of(tab_of(*$_s), $ref_id.1@), Err(e) => self_of(*$_s) == Some($ref_id.1@) && e is RecursiveReference }
//@end
//@fn l Context::acquire_parent_ref_impl ret=r params=_s,id props=C12
    ensures match r { Some(Ok(p)) => ptab_of(*$_s) matches Some(t) && p.0.ptr() == cell_of(t, $id.1@), Some(Err(_)) => false, None => ptab_of(*$_s) is None }
    decreases $_s
//@end
//@fn l Context::acquire_parent_ref ret=r params=_s,id props=C12,C18
//@inline unwrap_or_else=opt_unwrap_or_else
    requires ctx_ok(*$_s)
    ensures match r { Ok(p) => ptab_of(*$_s) matches Some(t) && p.0.ptr() == cell_of(t, $id.1@), Err(e) => ptab_of(*$_s) is None && e is NoParentAvailable }
//@end
//@fn l Context::parent_attribute ret=r params=_s props=C18
    ensures r is Some <==> att_of(*$_s)
    decreases $_s
//@end
}
pub open spec fn declared(m: Decls, p: Str, u: Str) -> Decls { if m.contains_key(p) { m } else { m.insert(p, u) } }
pub open spec fn own_dt(c: Context) -> Decls { match c { Context::Root { datatypes, .. } => datatypes@, Context::Include { datatypes, .. } => datatypes@, _ => Map::<Str, Str>::empty() } }
pub open spec fn refs_of(tab: int, r: Seq<(String, VxCell)>) -> bool {
    (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).1.ptr() == cell_of(tab, r[i].0@))
    && forall|k: Str| #[trigger] entered(tab, k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0@ == k
}
