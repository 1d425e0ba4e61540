// ================================================================ the store of patterns
//@typemap HashMap<Pat, PatId> => VxMemo
//@typemap HashMap<*const Option<relaxng_model::model::DefineRule>, PatId> => VxRefs
//@typemap RefCell<Inner> => Inner
#[verifier::external_body] pub struct VxMemo { x: u64 }
impl VxMemo {
    pub uninterp spec fn view(&self) -> Map<Pat, PatId>;
    #[verifier::external_body] pub fn get(&self, k: &Pat) -> (r: Option<&PatId>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Pat, v: PatId) -> (r: Option<PatId>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
#[verifier::external_body] pub struct VxRefs { x: u64 }
impl VxRefs {
    pub uninterp spec fn view(&self) -> Map<usize, PatId>;
    #[verifier::external_body] pub fn get(&self, k: &usize) -> (r: Option<&PatId>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: usize, v: PatId) -> (r: Option<PatId>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
impl Clone for Pat { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@type v Inner
//@type v Schema
pub assume_specification<'a, T> [std::option::Option::<&T>::copied] (o: Option<&'a T>) -> (r: Option<T>) where T: Copy ensures r == (match o { Some(x) => Some(*x), None => None });
#[verifier::external_body] fn vx_limit() -> ! { panic!() }
// ---- what the slots stand for: each is pushed once, and changed at most once (a placeholder, to what it stands for).
// The functions lang, isflat, aft2, root and fin of a slot are those of what it holds in the end, but that a placeholder
// has the language of its definition from the start.
pub open spec fn first_facts(id: PatId, p: Pat) -> bool {
    &&& lang(id) == patlang(p) && isflat(id) == p_isflat(p)
    &&& p matches Pat::Placeholder(ptr, _) ==> root(id) == rroot(ptr)
    &&& !(p is Placeholder) ==> last_facts(id, p) && root(id) == p_root(p)
}
pub open spec fn last_facts(id: PatId, p: Pat) -> bool { aft2(id) == p_aft2(p) && forall|d: nat| #[trigger] fin(id, d) == p_fin(p, d) }
pub uninterp spec fn pushed(id: PatId, p: Pat) -> bool;
pub axiom fn first(id: PatId, p: Pat) ensures pushed(id, p) && first_facts(id, p);                  // used where the slot is created
pub axiom fn last(id: PatId, p: Pat) requires !(p is Placeholder) ensures last_facts(id, p);        // used where a placeholder is replaced
pub open spec fn slot_ok(id: PatId, p: Pat) -> bool {
    &&& lang(id) == patlang(p) && isflat(id) == p_isflat(p) && flag_ok(p) && wf_pat(p)
    &&& !(p is Placeholder) ==> last_facts(id, p) && (root(id) ==> p_root(p))
}
pub open spec fn ref_ok(ptr: usize, id: PatId) -> bool { lang(id) == l_single(rlang(ptr)) && isflat(id) && (rroot(ptr) ==> root(id)) }
pub open spec fn slots_ok(s: Seq<Pat>) -> bool { forall|id: PatId| (id.0 as int) < s.len() ==> slot_ok(id, #[trigger] s[id.0 as int]) }
pub open spec fn memo_ok(m: Map<Pat, PatId>, n: nat) -> bool { forall|p: Pat| #[trigger] m.contains_key(p) ==> (m[p].0 as int) < n && first_facts(m[p], p) }
pub open spec fn refs_ok(m: Map<usize, PatId>) -> bool { forall|q: usize| #[trigger] m.contains_key(q) ==> ref_ok(q, m[q]) }
pub open spec fn grew(s: Seq<Pat>, t: Seq<Pat>) -> bool { s.len() <= t.len() && forall|i: int| 0 <= i < s.len() && !(s[i] is Placeholder) ==> #[trigger] t[i] == s[i] }
impl Schema {
    pub open spec fn at(&self, id: PatId) -> Pat { self.inner.patterns@[id.0 as int] }
    pub open spec fn has(&self, id: PatId) -> bool { (id.0 as int) < self.inner.patterns@.len() }
    pub open spec fn inv(&self) -> bool {
        &&& self.inner.patterns@.len() <= 0x10000
        &&& slots_ok(self.inner.patterns@)
        &&& memo_ok(self.inner.memo@, self.inner.patterns@.len())
        &&& refs_ok(self.inner.refs@)
    }
    // slots stay, and what is not a placeholder is never changed
    pub open spec fn grows(&self, o: &Schema) -> bool {
        grew(self.inner.patterns@, o.inner.patterns@)
    }
//@macro panic => vx_limit()
//@exprmap self . inner . borrow_mut ( ) => &mut self.inner
//@exprmap self . inner . borrow ( ) . patterns => self.inner.patterns
//@fn v Schema::push ret=r params=_s,p props=C01,C02,C03,C05,C08
//@sig fn push(&mut self, p: Pat) -> (r: PatId)
    requires old(self).inv(), flag_ok(p), wf_pat(p)
    ensures final(self).inv(), old(self).grows(final(self)), final(self).has(r), final(self).inner.refs == old(self).inner.refs,
        lang(r) == patlang(p), isflat(r) == p_isflat(p), p matches Pat::Placeholder(q, _) ==> root(r) == rroot(q),
        !(p is Placeholder) ==> aft2(r) == p_aft2(p) && (p_root(p) ==> root(r)) && forall|d: nat| #[trigger] fin(r, d) == p_fin(p, d)
//@beforecall insert 0
    proof { first(id, p); }
//@end
//@fn v Schema::patt ret=r params=_s,id props=C01,C02,C03,C05,C08
    requires self.inv(), self.has(id)
    ensures r == self.at(id), slot_ok(id, r)
//@end
//@fn v Schema::get_ref ret=r params=_s,p props=C01,C02,C03,C05,C08
//@sig fn get_ref(&mut self, p: usize) -> (r: Option<PatId>)
    requires old(self).inv()
    ensures final(self).inv(), old(self).grows(final(self)), r matches Some(id) ==> ref_ok($p, id)
//@end
//@fn v Schema::set_ref params=_s,p,id props=C01,C02,C03,C05,C08
//@sig fn set_ref(&mut self, p: usize, id: PatId)
    requires old(self).inv(), ref_ok($p, $id)
    ensures final(self).inv(), old(self).grows(final(self)), final(self).inner.patterns == old(self).inner.patterns
//@end
//@fn v Schema::ref_placeholder ret=r params=_s,p,nullable props=C01,C02,C03,C05,C08
//@sig fn ref_placeholder(&mut self, p: usize, nullable: bool) -> (r: PatId)
    requires old(self).inv(), flag_ok(Pat::Placeholder($p, $nullable))
    ensures final(self).inv(), old(self).grows(final(self)), final(self).has(r), lang(r) == l_single(rlang($p)), isflat(r), root(r) == rroot($p)
//@end
//@fn v Schema::resolve_ref params=_s,placeholder_id,id,name props=C01,C02,C03,C05,C08
//@sig fn resolve_ref(&mut self, placeholder_id: PatId, id: PatId, name: &str)
    requires old(self).inv(), $placeholder_id == $id || old(self).has($id) && !(old(self).at($id) is Placeholder), old(self).has($placeholder_id),
        lang($id) == lang($placeholder_id), isflat($id), isflat($placeholder_id), root($placeholder_id) ==> root($id)
    ensures final(self).inv(), old(self).grows(final(self))
//@aftercall patt
    proof { if !($let is Placeholder) { last($placeholder_id, $let); } }
//@end
}
