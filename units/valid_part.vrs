//@typemap *const Option<relaxng_model::model::DefineRule> => usize
//@typemap & mut Schema => &Schema
//@closure-ref apply_after f
//@exprmap & mut self . schema => &self.schema
//@include pat_sem.vrs
pub open spec fn ns_of(q: QualifiedName) -> Seq<char> { match q.namespace_uri { Some(u) => u@, None => Seq::empty() } }
pub open spec fn qname(q: QualifiedName) -> Name { Name { ns: ns_of(q), local: q.local_name@ } }
//@exprmap Rc :: as_ref ( & r . 0 ) => (&r.0)
// ---- the store of patterns: contracts (their bodies are decided by the unit store)
#[verifier::external_body] pub struct Schema { x: u64 }
impl Schema {
    #[verifier::external_body] fn default() -> Schema { unimplemented!() }
    // every placeholder has been resolved
    pub uninterp spec fn sealed(&self) -> bool;
    #[verifier::external_body]
    fn push(&self, p: Pat) -> (r: PatId)
        requires flag_ok(p), wf_pat(p)
        ensures lang(r) == patlang(p), isflat(r) == p_isflat(p), p matches Pat::Placeholder(q, _) ==> root(r) == rroot(q),
            !(p is Placeholder) ==> aft2(r) == p_aft2(p) && (p_root(p) ==> root(r)) && forall|d: nat| #[trigger] fin(r, d) == p_fin(p, d)
    { unimplemented!() }
    #[verifier::external_body]
    fn patt(&self, id: PatId) -> (r: Pat)
        ensures patlang(r) == lang(id), !(r is Placeholder) ==> p_aft2(r) == aft2(id) && (root(id) ==> p_root(r)) && forall|d: nat| #[trigger] fin(id, d) == p_fin(r, d), p_isflat(r) == isflat(id), flag_ok(r), wf_pat(r), self.sealed() ==> !(r is Placeholder), !(r is Placeholder) ==> seen(id)
    { unimplemented!() }
    // a definition that was compiled before, or is being compiled
    #[verifier::external_body]
    fn get_ref(&self, p: usize) -> (r: Option<PatId>) ensures r matches Some(id) ==> lang(id) == l_single(rlang(p)) && isflat(id) && (rroot(p) ==> root(id)) { unimplemented!() }
    #[verifier::external_body]
    fn set_ref(&self, p: usize, id: PatId) requires lang(id) == l_single(rlang(p)), isflat(id), rroot(p) ==> root(id) { unimplemented!() }
    #[verifier::external_body]
    fn ref_placeholder(&self, p: usize, nullable: bool) -> (r: PatId)
        requires flag_ok(Pat::Placeholder(p, nullable))
        ensures lang(r) == l_single(rlang(p)), isflat(r), root(r) == rroot(p)
    { unimplemented!() }
    #[verifier::external_body]
    fn resolve_ref(&self, placeholder_id: PatId, id: PatId, name: &String)
        requires seen(id) || placeholder_id == id, lang(id) == lang(placeholder_id), isflat(id), isflat(placeholder_id), root(placeholder_id) ==> root(id)
    { unimplemented!() }
}
// derived clones
impl Clone for NameClass { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for datatype::Datatypes { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for datatype::DatatypeValues { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Pat {
//@fn v Pat::is_nullable ret=r params=_s props=C01,C03,C05
    ensures flag_ok(*self) ==> r == nullable(patlang(*self))
//@pre
    proof { broadcast use {nul_none, nul_eps, nul_text, nul_aft, nul_att, nul_elem, nul_data, nul_list}; }
//@end
}
impl Schema {
//@fn v Schema::choice ret=r params=_s,left,right props=C01,C08
    requires ne(lang($left)), ne(lang($right))
    ensures lang(r) == l_union(lang($left), lang($right)), isflat(r) == (isflat($left) && isflat($right)), aft2(r) == (aft2($left) && aft2($right)), root($left) && root($right) ==> root(r), self.sealed() ==> forall|d: nat| #![trigger fin($left, d)] #![trigger fin(r, d)] fin($left, d) && fin($right, d) ==> fin(r, d)
//@pre
    proof { broadcast use {nul_union, ax_union_none_l, ax_union_none_r, ax_union_idem}; }
//@end
//@fn v Schema::interleave ret=r params=_s,left,right props=C01,C08
    requires sflat($left), sflat($right)
    ensures lang(r) == l_inter(lang($left), lang($right)), isflat(r)
//@pre
    proof { broadcast use {nul_inter, ax_inter_none_l, ax_inter_none_r, ax_inter_eps_l, ax_inter_eps_r}; }
//@end
//@fn v Schema::group ret=r params=_s,left,right props=C01,C08
    requires sflat($left), sflat($right)
    ensures lang(r) == l_cat(lang($left), lang($right)), isflat(r)
//@pre
    proof { broadcast use {nul_cat, ax_cat_none_l, ax_cat_none_r, ax_cat_eps_l, ax_cat_eps_r}; }
//@end
//@fn v Schema::after ret=r params=_s,p1,p2 props=C01
    requires sflat($p1), ne(lang($p2))
    ensures lang(r) == l_aft(lang($p1), lang($p2)), sflat($p2) ==> aft2(r), forall|d: nat| #[trigger] fin($p2, d) ==> fin(r, d + 1), forall|d: nat| d > 0 && fin($p2, (d - 1) as nat) ==> #[trigger] fin(r, d)
//@pre
    proof { broadcast use {ax_aft_none_l, ax_aft_none_r}; }
//@end
//@fn v Schema::mixed ret=r params=_s,p props=C08
    requires sflat($p)
    ensures lang(r) == l_mixed(lang($p)), isflat(r)
//@end
//@fn v Schema::empty ret=r params=_s props=C01
    ensures lang(r) == l_eps(), isflat(r), fin(r, 0)
//@end
//@fn v Schema::text ret=r params=_s props=C03
    ensures lang(r) == l_text(), isflat(r)
//@end
//@fn v Schema::not_allowed ret=r params=_s props=C01
    ensures lang(r) == l_none(), aft2(r), isflat(r), root(r), forall|d: nat| #[trigger] fin(r, d)
//@end
//@fn v Schema::one_or_more ret=r params=_s,p props=C01,C08
    requires sflat($p), att_alone(lang($p))
    ensures lang(r) == l_plus(lang($p)), isflat(r)
//@pre
    proof { broadcast use nul_plus; }
//@end
//@fn v Schema::attribute ret=r params=_s,name,p props=C02
    requires sflat($p)
    ensures lang(r) == l_att(nc_pred($name), lang($p)), isflat(r)
//@end
//@fn v Schema::element ret=r params=_s,name,p props=C01
    requires sflat($p)
    ensures lang(r) == l_elem(nc_pred($name), lang($p)), isflat(r), root(r)
//@end
//@fn v Schema::datatype_value ret=r params=_s,dt props=C03
    ensures lang(r) == l_data(value_pred($dt)), isflat(r)
//@end
//@fn v Schema::datatype_name ret=r params=_s,dt,except props=C03
    requires $except matches Some(e) ==> sflat(e)
    ensures lang(r) == l_data(data_pred($dt, match $except { Some(e) => Some(lang(e)), None => None })), isflat(r)
//@end
//@fn v Schema::list ret=r params=_s,p props=C03
    requires sflat($p)
    ensures lang(r) == l_list(lang($p)), isflat(r)
//@end
}

// ---- trusted: the datatypes decide what dt_has and dtv_has stand for (C13, C14, C15)
impl datatype::Datatypes { #[verifier::external_body] pub fn is_valid(&self, s: &str) -> (r: bool) ensures r == datatype::dt_has(*self, s@) { unimplemented!() } }
impl datatype::DatatypeValues { #[verifier::external_body] pub fn is_valid(&self, s: &str) -> (r: bool) ensures r == datatype::dtv_has(*self, s@) { unimplemented!() } }
//@fn v is_ns_match ret=r params=uri,target props=C04
    ensures r == ($uri@ == match $target { Some(t) => t@, None => Seq::<char>::empty() })
//@pre
    proof { if $uri@.len() == 0 { assert($uri@ =~= Seq::<char>::empty()); } }
//@end
//@fn v contains ret=r params=nc,name props=C04,C01,C02
    ensures r == nc_in(*$nc, qname($name))
    decreases *$nc
//@pre
    proof { broadcast use empty_seq; }
//@end
// ---- trusted: xml-rs on white space (XML 1.0 production S)
pub mod xml { pub mod common {
    use vstd::prelude::*;
    #[verifier::external_body] pub fn is_whitespace_str(s: &str) -> (r: bool) ensures r == crate::ws(s@) { unimplemented!() }
} }
// ---- trusted: std on characters: array contains, str::chars, str::split with a predicate
#[verifier::external_body] fn vx_in(a: &[char; 4], c: &char) -> (r: bool) ensures r == a@.contains(*c) { a.contains(c) }
#[verifier::external_body] fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
fn vx_all_chars<F: Fn(char) -> bool>(v: Vec<char>, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,))
    ensures r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((#[trigger] v@[i],), true), !r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((#[trigger] v@[i],), false)
{
    let mut k = 0;
    while k < v.len()
        invariant k <= v@.len(), forall|c: char| f.requires((c,)), forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] v@[j],), true)
        decreases v@.len() - k
    { if !f(v[k]) { assert(f.ensures((v@[k as int],), false)); return false; } k = k + 1; }
    true
}
pub open spec fn cutp(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<char>::empty()] } else {
        let t = cutp(s.drop_first(), p);
        if p(s[0]) { seq![Seq::<char>::empty()] + t } else if t.len() == 0 { t } else { t.update(0, seq![s[0]] + t[0]) }
    }
}
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body]
fn vx_split<'x, F: Fn(char) -> bool>(s: &'x str, f: F) -> (r: Vec<&'x str>)
    requires forall|c: char| f.requires((c,))
    ensures forall|p: spec_fn(char) -> bool| (forall|c: char, b: bool| f.ensures((c,), b) ==> b == p(c)) ==> views(r@) == #[trigger] cutp(s@, p)
{ s.split(|c| f(c)).collect() }
pub open spec fn keep<'x>(v: Seq<&'x str>, p: spec_fn(Seq<char>) -> bool) -> Seq<&'x str> decreases v.len() {
    if v.len() == 0 { seq![] } else { let t = keep(v.drop_last(), p); if p(v.last()@) { t.push(v.last()) } else { t } }
}
fn vx_filter_str<'x, F: Fn(&&'x str) -> bool>(v: Vec<&'x str>, f: F) -> (r: Vec<&'x str>)
    requires forall|x: &&'x str| f.requires((x,))
    ensures forall|p: spec_fn(Seq<char>) -> bool| (forall|x: &&'x str, b: bool| f.ensures((x,), b) ==> b == p((*x)@)) ==> r@ == #[trigger] keep(v@, p)
{
    let mut r: Vec<&'x str> = Vec::new();
    let mut k = 0;
    while k < v.len()
        invariant k <= v@.len(), forall|x: &&'x str| f.requires((x,)),
            forall|p: spec_fn(Seq<char>) -> bool| (forall|x: &&'x str, b: bool| f.ensures((x,), b) ==> b == p((*x)@)) ==> r@ == #[trigger] keep(v@.take(k as int), p)
        decreases v@.len() - k
    {
        proof { let t = v@.take(k as int + 1); assert(t.drop_last() =~= v@.take(k as int)); assert(t.last() == v@[k as int]);
            assert forall|p: spec_fn(Seq<char>) -> bool| true implies #[trigger] keep(t, p) == (if p(v@[k as int]@) { keep(v@.take(k as int), p).push(v@[k as int]) } else { keep(v@.take(k as int), p) }) by {} }
        if f(&v[k]) { assert(f.ensures((&v@[k as int],), true)); r.push(v[k]); } else { assert(f.ensures((&v@[k as int],), false)); }
        k = k + 1;
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    r
}
// the pieces that are not empty are the words
pub open spec fn full(v: Seq<Seq<char>>) -> Seq<Sym> decreases v.len() { if v.len() == 0 { seq![] } else if v[0].len() > 0 { seq![Sym::Text(v[0])] + full(v.drop_first()) } else { full(v.drop_first()) } }
proof fn full_push(v: Seq<Seq<char>>, x: Seq<char>) ensures full(v.push(x)) == (if x.len() > 0 { full(v).push(Sym::Text(x)) } else { full(v) }) decreases v.len() {
    let w = v.push(x);
    if v.len() == 0 { assert(w.drop_first() =~= seq![]); reveal_with_fuel(full, 2); assert(full(w) =~= if x.len() > 0 { full(v).push(Sym::Text(x)) } else { full(v) }); }
    else { full_push(v.drop_first(), x); assert(w.drop_first() =~= v.drop_first().push(x)); assert(w[0] == v[0]); assert(full(w) =~= if x.len() > 0 { full(v).push(Sym::Text(x)) } else { full(v) }); }
}
proof fn kept(v: Seq<&str>, p: spec_fn(Seq<char>) -> bool)
    requires forall|x: Seq<char>| #[trigger] p(x) == (x.len() > 0)
    ensures keep(v, p).len() == full(views(v)).len(), forall|i: int| 0 <= i < keep(v, p).len() ==> Sym::Text((#[trigger] keep(v, p)[i])@) == full(views(v))[i]
    decreases v.len()
{
    if v.len() > 0 { kept(v.drop_last(), p); full_push(views(v.drop_last()), v.last()@); assert(views(v) =~= views(v.drop_last()).push(v.last()@)); }
}
proof fn cut_words(s: Seq<char>, p: spec_fn(char) -> bool)
    requires forall|c: char| #[trigger] p(c) == xml_ws(c)
    ensures ({ let t = cutp(s, p); let k = word_end(s) as int; t.len() >= 1 && k <= s.len() && t[0] == s.take(k) && full(t.drop_first()) == words(s.skip(k)) && full(t) == words(s) })
    decreases s.len()
{
    let t = cutp(s, p); let k = word_end(s) as int;
    if s.len() == 0 { assert(t.drop_first() =~= seq![]); assert(s.take(0) =~= seq![]); assert(s.skip(0) =~= s); }
    else {
        let r = s.drop_first(); cut_words(r, p); let u = cutp(r, p);
        assert(p(s[0]) == xml_ws(s[0]));
        if xml_ws(s[0]) { assert(t.drop_first() =~= u); assert(s.take(0) =~= seq![]); assert(s.skip(0) =~= s); }
        else {
            assert(t.drop_first() =~= u.drop_first());
            assert(s.take(k) =~= seq![s[0]] + r.take(k - 1));
            assert(s.skip(k) =~= r.skip(k - 1));
            assert(full(t) =~= seq![Sym::Text(s.take(k))] + words(s.skip(k)));
        }
    }
}
//@fn v is_whitespace_char ret=r params=c props=C03,C15
    ensures r == xml_ws($c)
//@method contains => vx_in ref
//@pre
    proof { let a = ['\x20', '\x09', '\x0d', '\x0a']@; assert(a[0] == ' ' && a[1] == '\t' && a[2] == '\r' && a[3] == '\n'); if xml_ws($c) { assert(a.contains($c)); } }
//@end
//@fn v list_tokens ret=r params=s props=C03
//@sig fn list_tokens<'x>(s: &'x str) -> (r: Vec<&'x str>)
    ensures r@.len() == words($s@).len(), forall|i: int| 0 <= i < r@.len() ==> Sym::Text((#[trigger] r@[i])@) == words($s@)[i]
//@method split => vx_split
//@method filter => vx_filter_str
//@closure 0
    -> (b: bool) ensures b == ($1@.len() > 0)
//@pre
    proof { let p = |c: char| xml_ws(c); let q = |x: Seq<char>| x.len() > 0; cut_words($s@, p); 
        assert forall|v: Seq<&str>| #[trigger] views(v) == cutp($s@, p) implies keep(v, q).len() == words($s@).len() && forall|i: int| 0 <= i < keep(v, q).len() ==> Sym::Text((#[trigger] keep(v, q)[i])@) == words($s@)[i] by { kept(v, q); } }
//@end
//@fn v is_whitespace_str ret=r params=s props=C03
    ensures r == ws($s@)
//@method chars => vx_chars
//@method all => vx_all_chars
//@end
// once nothing is left no continuation brings it back
proof fn wres_dead(a: Lang, t: Seq<Sym>, k: int) requires 0 <= k <= t.len(), clean(t), wres(a, t.take(k), l_none()) ensures wres(a, t, l_none()) {
    reveal(wres);
    assert forall|w: Seq<Sym>| clean(w) implies (#[trigger] m0(l_none(), w) <==> m0(a, t + w)) by {
        let v = t.skip(k) + w;
        assert forall|i: int| 0 <= i < v.len() implies ((#[trigger] v[i]) is Text ==> !ws(v[i]->Text_0)) by { if i < t.len() - k { assert(v[i] == t[k + i]); } else { assert(v[i] == w[i - (t.len() - k)]); } }
        assert(t.take(k) + v =~= t + w);
        assert(m0(l_none(), v) <==> m0(a, t.take(k) + v));
    }
}
// what the function given to apply_after() does
pub open spec fn closure_pre<F: Fn(PatId, &Schema) -> PatId>(f: &F) -> bool {
    &&& forall|x: PatId, s: &Schema| s.sealed() && sflat(x) ==> #[trigger] f.requires((x, s))
    &&& forall|x: PatId, s: &Schema, r: PatId| s.sealed() && sflat(x) && #[trigger] f.ensures((x, s), r) ==> ne(lang(r))
}
pub open spec fn closure_is<F: Fn(PatId, &Schema) -> PatId>(f: &F, k: Ctx) -> bool {
    &&& k is CatL || k is InterL || k is InterR || k is AftL
    &&& forall|x: PatId, s: &Schema, r: PatId| s.sealed() && sflat(x) && #[trigger] f.ensures((x, s), r) ==> lang(r) == plug(k, lang(x)) && (!(k is AftL) ==> sflat(r))
}
pub open spec fn closure_fin<F: Fn(PatId, &Schema) -> PatId>(f: &F, e: nat) -> bool { forall|x: PatId, s: &Schema, q: PatId| s.sealed() && sflat(x) && #[trigger] f.ensures((x, s), q) ==> fin(q, e) }
proof fn lift_all(p: Pat) requires wf_pat(p), p_aft2(p)
    ensures forall|k: Ctx| match p {
        Pat::Choice(a, b, _) => #[trigger] l_lift(k, patlang(p)) == l_union(l_lift(k, lang(a)), l_lift(k, lang(b))),
        Pat::After(a, b) => l_lift(k, patlang(p)) == l_aft(lang(a), plug(k, lang(b))),
        _ => l_lift(k, patlang(p)) == l_none(),
    }
{
    assert forall|k: Ctx| match p {
        Pat::Choice(a, b, _) => #[trigger] l_lift(k, patlang(p)) == l_union(l_lift(k, lang(a)), l_lift(k, lang(b))),
        Pat::After(a, b) => l_lift(k, patlang(p)) == l_aft(lang(a), plug(k, lang(b))),
        _ => l_lift(k, patlang(p)) == l_none(),
    } by {
        match p {
            Pat::Choice(a, b, _) => { lift_union(k, lang(a), lang(b)); }
            Pat::After(a, b) => { lift_aft(k, lang(a), lang(b)); }
            _ => { lift_none(k); }
        }
    }
}
broadcast proof fn b_sd_none(a: Lang, n: Name) requires no_child(a) ensures #[trigger] sd_rel(a, n, l_none()) { sd_none(a, n); }
broadcast proof fn plus_flat_b(a: Lang) ensures #[trigger] flat(l_plus(a)) { plus_flat(a); }
broadcast proof fn cat_flat(a: Lang, b: Lang) ensures #[trigger] flat(l_cat(a, b)) { }
broadcast proof fn inter_flat(a: Lang, b: Lang) ensures #[trigger] flat(l_inter(a, b)) { }
broadcast proof fn lift_len2_b(k: Ctx, r: Lang) requires k is CatL || k is InterL || k is InterR ensures len2(#[trigger] l_lift(k, r)) { lift_len2(k, r); }
broadcast proof fn aft_len2(a: Lang, b: Lang) requires flat(b) ensures len2(#[trigger] l_aft(a, b)) { }
broadcast proof fn union_len2(a: Lang, b: Lang) requires len2(a), len2(b) ensures len2(#[trigger] l_union(a, b)) { }
pub open spec fn attv(a: Attr, v: Seq<char>) -> AttrV { AttrV { name: qname(a.name), value: v } }
pub open spec fn att_ok(p: PatId, x: AttrV, r: PatId) -> bool { ad_rel(lang(p), x, lang(r)) && ne(lang(r)) && (sflat(p) ==> sflat(r)) && fins(p, r) }
pub open spec fn memo_ok(m: Map<PatId, PatId>, x: AttrV) -> bool { forall|p: PatId| m.contains_key(p) ==> att_ok(p, x, #[trigger] m[p]) }
// trusted: std's HashMap, for keys that are pattern numbers
#[verifier::external_body] pub struct VxMemo { x: u64 }
impl VxMemo {
    pub uninterp spec fn view(&self) -> Map<PatId, PatId>;
    #[verifier::external_body] fn new() -> (r: Self) ensures r@ == Map::<PatId, PatId>::empty() { unimplemented!() }
    #[verifier::external_body] fn get(&self, k: &PatId) -> (r: Option<&PatId>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: PatId, v: PatId) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
pub open spec fn list_of(p: Pat) -> PatId { p->List_0 }
// ================================================================ schemas
// patterns that obey the restrictions of RELAX NG section 7 that matter here
pub open spec fn legal(p: Pattern) -> bool decreases p, 0nat {
    match p {
        Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => v@.len() > 0 && legal_n(v, v@.len()),
        Pattern::Mixed(q) | Pattern::Optional(q) | Pattern::Attribute(_, q) | Pattern::Element(_, q) | Pattern::List(q) => legal(*q),
        // 7.1.2: no group or interleave of an attribute under oneOrMore
        Pattern::ZeroOrMore(q) | Pattern::OneOrMore(q) => legal(*q) && att_alone(mlang(*q)),
        Pattern::Ref(_, _, r) => def_at(r.0.ptr()) is Some,
        Pattern::DatatypeName { except, .. } => match except { Some(e) => legal(*e), None => true },
        _ => true,
    }
}
// rlang() is what the definitions mean
pub open spec fn closed_schema() -> bool { forall|x: usize| (#[trigger] def_at(x)) is Some ==> legal(rpat(def_at(x).unwrap())) && rlang(x) == mlang(rpat(def_at(x).unwrap())) && rroot(x) == mroot(rpat(def_at(x).unwrap())) }
pub open spec fn mroot(p: Pattern) -> bool decreases p, 0nat { match p { Pattern::Choice(v) => mroot_n(v, v@.len()), Pattern::Element(..) | Pattern::NotAllowed => true, Pattern::Ref(_, _, r) => rroot(r.0.ptr()), _ => false } }
pub open spec fn mroot_n(v: Vec<Pattern>, n: nat) -> bool decreases v, n { n == 0 || n > v@.len() || (mroot_n(v, (n - 1) as nat) && mroot(v@[n - 1])) }
proof fn mroot_nth(v: Vec<Pattern>, n: nat) requires n <= v@.len(), mroot_n(v, n) ensures forall|i: int| 0 <= i < n ==> mroot(#[trigger] v@[i]) decreases n { if n > 0 { mroot_nth(v, (n - 1) as nat); } }
proof fn mroot_parts(p: Pattern) ensures mroot(p) && p is Choice ==> forall|i: int| 0 <= i < nary_seq(p).len() ==> mroot(#[trigger] nary_seq(p)[i]) { match p { Pattern::Choice(v) => { if mroot(p) { mroot_nth(v, v@.len()); } } _ => {} } }
pub open spec fn legal_n(v: Vec<Pattern>, n: nat) -> bool decreases v, n { n == 0 || n > v@.len() || (legal_n(v, (n - 1) as nat) && legal(v@[n - 1])) }
proof fn legal_nth(v: Vec<Pattern>, n: nat) requires n <= v@.len(), legal_n(v, n) ensures forall|i: int| 0 <= i < n ==> legal(#[trigger] v@[i]) decreases n { if n > 0 { legal_nth(v, (n - 1) as nat); } }
proof fn legal_parts(p: Pattern) requires legal(p) ensures nary(p) is Some ==> nary(p).unwrap().1.len() > 0 && forall|i: int| 0 <= i < nary(p).unwrap().1.len() ==> legal(#[trigger] nary(p).unwrap().1[i]) {
    match p { Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => { legal_nth(v, v@.len()); } _ => {} }
}
pub open spec fn all_null(s: Seq<Lang>) -> bool { forall|i: int| 0 <= i < s.len() ==> nullable(#[trigger] s[i]) }
pub open spec fn any_null(s: Seq<Lang>) -> bool { exists|i: int| 0 <= i < s.len() && nullable(#[trigger] s[i]) }
proof fn fold_null(o: Op, s: Seq<Lang>) ensures nullable(fold(o, s)) == (if o is Choice { any_null(s) } else { all_null(s) }) decreases s.len() {
    reveal_with_fuel(fold, 1);
    broadcast use {nul_union, nul_cat, nul_inter, nul_none, nul_eps};
    if s.len() > 0 {
        let t = s.drop_first();
        fold_null(o, t);
        if any_null(t) { let i = choose|i: int| 0 <= i < t.len() && nullable(#[trigger] t[i]); assert(nullable(s[i + 1])); }
        if any_null(s) { let i = choose|i: int| 0 <= i < s.len() && nullable(#[trigger] s[i]); if i > 0 { assert(nullable(t[i - 1])); } }
        if all_null(s) { assert forall|i: int| 0 <= i < t.len() implies nullable(#[trigger] t[i]) by { assert(nullable(s[i + 1])); } }
        if nullable(s[0]) && all_null(t) { assert forall|i: int| 0 <= i < s.len() implies nullable(#[trigger] s[i]) by { if i > 0 { assert(nullable(t[i - 1])); } } }
        if nullable(s[0]) { assert(any_null(s)); }
    }
}
// nullability, pattern by pattern
pub open spec fn some_null(v: Seq<Pattern>) -> bool { exists|i: int| 0 <= i < v.len() && nullable(mlang(#[trigger] v[i])) }
pub open spec fn each_null(v: Seq<Pattern>) -> bool { forall|i: int| 0 <= i < v.len() ==> nullable(mlang(#[trigger] v[i])) }
pub open spec fn null_says(p: Pattern) -> bool {
    match p {
        Pattern::Choice(v) => some_null(v@),
        Pattern::Interleave(v) => each_null(v@),
        Pattern::Group(v) => each_null(v@),
        Pattern::Mixed(q) => nullable(mlang(*q)),
        Pattern::OneOrMore(q) => nullable(mlang(*q)),
        Pattern::Empty | Pattern::Text | Pattern::Optional(_) | Pattern::ZeroOrMore(_) => true,
        Pattern::Ref(_, _, r) => nullable(rlang(r.0.ptr())),
        _ => false,
    }
}
proof fn null_of(p: Pattern) requires p matches Pattern::Ref(_, _, r) ==> l_single(rlang(r.0.ptr())) == rlang(r.0.ptr()) ensures nullable(mlang(p)) == null_says(p)
{
    broadcast use {nul_union, nul_cat, nul_inter, nul_none, nul_eps, nul_text, nul_plus, nul_att, nul_elem, nul_data, nul_list};
    match p {
        Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => {
            nary_lang(p); let o = nary(p).unwrap().0; let s = mlangs(v@);
            assert(nary(p).unwrap().1 == v@); assert(mlang(p) == fold(o, s));
            fold_null(o, s);
            if any_null(s) { let i = choose|i: int| 0 <= i < s.len() && nullable(#[trigger] s[i]); assert(nullable(mlang(v@[i]))); }
            if some_null(v@) { let i = choose|i: int| 0 <= i < v@.len() && nullable(mlang(#[trigger] v@[i])); assert(nullable(s[i])); }
            if each_null(v@) { assert forall|i: int| 0 <= i < s.len() implies nullable(#[trigger] s[i]) by { assert(nullable(mlang(v@[i]))); } }
            if all_null(s) { assert forall|i: int| 0 <= i < v@.len() implies nullable(mlang(#[trigger] v@[i])) by { assert(nullable(s[i])); } }
        }
        Pattern::Mixed(q) => { mlang_flat(*q); assert(nullable(mlang(p)) == nullable(mlang(*q))); }
        Pattern::OneOrMore(q) => { mlang_flat(*q); assert(nullable(mlang(p)) == nullable(mlang(*q))); }
        Pattern::Optional(q) => { assert(nullable(mlang(p))); }
        Pattern::ZeroOrMore(q) => { assert(nullable(mlang(p))); }
        Pattern::Empty => { assert(nullable(mlang(p))); }
        Pattern::Text => { assert(nullable(mlang(p))); }
        Pattern::Ref(_, _, r) => { assert(nullable(mlang(p)) == nullable(rlang(r.0.ptr()))); }
        Pattern::List(_) => { assert(!nullable(mlang(p))); }
        Pattern::Attribute(..) => { assert(!nullable(mlang(p))); }
        Pattern::Element(..) => { assert(!nullable(mlang(p))); }
        Pattern::NotAllowed => { assert(!nullable(mlang(p))); }
        Pattern::DatatypeName{..} => { assert(!nullable(mlang(p))); }
        Pattern::DatatypeValue{..} => { assert(!nullable(mlang(p))); }
    }
}
// the definitions of a schema are patterns, so they have nothing to do with elements further out
proof fn ref_single(p: Pattern) requires closed_schema(), legal(p), p is Ref
    ensures ({ let x = p->Ref_2.0.ptr(); l_single(rlang(x)) == rlang(x) && flat(rlang(x)) && rlang(x) == mlang(rpat(def_at(x).unwrap())) && legal(rpat(def_at(x).unwrap())) && nullable(l_single(rlang(x))) == nullable(rlang(x)) })
{
    let x = p->Ref_2.0.ptr(); mlang_flat(rpat(def_at(x).unwrap()));
    single_of_flat(rlang(x));
}
proof fn single_of_flat(a: Lang) requires flat(a) ensures l_single(a) == a { let b = l_single(a); assert forall|st: Stack| #[trigger] a(st) == b(st) by { } assert(a =~= b); }
proof fn nary_index(p: Pattern) ensures nary(p) is Some ==> forall|i: int| 0 <= i < nary_seq(p).len() ==> #[trigger] nary_seq(p)[i] == nary(p).unwrap().1[i] { }
pub open spec fn nary_seq(p: Pattern) -> Seq<Pattern> { match nary(p) { Some(x) => x.1, None => seq![] } }
proof fn nary_start(p: Pattern)
    ensures nary(p) is Some && nary_seq(p).len() > 0 ==> mlang(p) == fold(nary(p).unwrap().0, mlangs(nary_seq(p))) && fold(nary(p).unwrap().0, mlangs(nary_seq(p).skip(nary_seq(p).len() - 1))) == mlang(nary_seq(p).last())
{
    if nary(p) is Some && nary_seq(p).len() > 0 {
        nary_lang(p); let v = nary_seq(p); let k = v.len() - 1;
        assert(mlangs(v.skip(k)) =~= seq![mlang(v.last())]);
        mlang_flat(v.last()); fold_one(nary(p).unwrap().0, mlang(v.last()));
    }
}
proof fn fold_prev(o: Op, v: Seq<Pattern>, k: int) requires 0 <= k < v.len() - 1
    ensures fold(o, mlangs(v.skip(k))) == l_op(o, mlang(v[k]), fold(o, mlangs(v.skip(k + 1)))), flat(fold(o, mlangs(v.skip(k + 1)))), flat(fold(o, mlangs(v.skip(k))))
{
    let a = mlangs(v.skip(k));
    reveal_with_fuel(fold, 1);
    assert(a.drop_first() =~= mlangs(v.skip(k + 1))); assert(a[0] == mlang(v[k]));
    mlangs_flat(v.skip(k + 1)); fold_flat(o, mlangs(v.skip(k + 1)));
    mlangs_flat(v.skip(k)); fold_flat(o, a);
}
fn vx_next<'x, T>(v: &mut Vec<&'x T>) -> (r: Option<&'x T>)
    ensures match r { Some(x) => old(v)@.len() > 0 && x == old(v)@[0] && final(v)@ == old(v)@.drop_first(), None => old(v)@.len() == 0 && final(v)@ == old(v)@ }
{ if v.len() == 0 { None } else { Some(v.remove(0)) } }
impl<'a> Validator<'a> {
//@fn v Validator::is_nullable ret=r params=p props=C01,C05
//@attr #[verifier::exec_allows_no_decreases_clause]
//@method iter => vx_iter ref
//@method any => vx_any
//@method all => vx_all
//@inline is_some_and
    requires closed_schema(), legal(*$p)
    ensures r == nullable(mlang(*$p))
//@pre
    proof { legal_parts(*$p); if *$p is Ref { ref_single(*$p); } null_of(*$p); }
//@closure 0
    -> (r: bool) requires legal(*$1) ensures r == nullable(mlang(*$1))
//@closure 1
    -> (r: bool) requires legal(*$1) ensures r == nullable(mlang(*$1))
//@end
//@fn v Validator::compile ret=r params=s,p props=C01,C05,C08 loops=3
//@attr #[verifier::exec_allows_no_decreases_clause]
//@method iter => vx_iter ref
//@method rev => vx_rev
//@method next => vx_next mut
//@inline map=opt_map
    requires closed_schema(), legal(*$p)
    ensures lang(r) == mlang(*$p), sflat(r), mroot(*$p) ==> root(r)
//@pre
    proof { mroot_parts(*$p); legal_parts(*$p); broadcast use {mlang_flat, plus_flat_b}; nary_start(*$p); if *$p is Ref { ref_single(*$p); } }
    let ghost vs = nary_seq(*$p); let ghost n = vs.len() as int; let ghost mr = mroot(*$p);
//@loop 0 for:it
    invariant closed_schema(), n == vs.len(), it.seq().len() == n - 1, forall|i: int| 0 <= i < n ==> legal(#[trigger] vs[i]), forall|i: int| 0 <= i < n - 1 ==> *#[trigger] it.seq()[i] == vs[n - 2 - i],
        sflat(right), lang(right) == fold(Op::Choice, mlangs(vs.skip(n - 1 - it.index@))), mr ==> root(right) && forall|i: int| 0 <= i < n ==> mroot(#[trigger] vs[i])
//@loopbegin 0
    proof { assert(*left == vs[n - 2 - it.index@]); broadcast use mlang_flat; fold_prev(Op::Choice, vs, n - 2 - it.index@); }
//@loopafter 0
    proof { assert(vs.skip(0) =~= vs); }
//@loop 1 for:it
    invariant closed_schema(), n == vs.len(), it.seq().len() == n - 1, forall|i: int| 0 <= i < n ==> legal(#[trigger] vs[i]), forall|i: int| 0 <= i < n - 1 ==> *#[trigger] it.seq()[i] == vs[n - 2 - i],
        sflat(right), lang(right) == fold(Op::Interleave, mlangs(vs.skip(n - 1 - it.index@)))
//@loopbegin 1
    proof { assert(*left == vs[n - 2 - it.index@]); broadcast use mlang_flat; fold_prev(Op::Interleave, vs, n - 2 - it.index@); }
//@loopafter 1
    proof { assert(vs.skip(0) =~= vs); }
//@loop 2 for:it
    invariant closed_schema(), n == vs.len(), it.seq().len() == n - 1, forall|i: int| 0 <= i < n ==> legal(#[trigger] vs[i]), forall|i: int| 0 <= i < n - 1 ==> *#[trigger] it.seq()[i] == vs[n - 2 - i],
        sflat(right), lang(right) == fold(Op::Group, mlangs(vs.skip(n - 1 - it.index@)))
//@loopbegin 2
    proof { assert(*left == vs[n - 2 - it.index@]); broadcast use mlang_flat; fold_prev(Op::Group, vs, n - 2 - it.index@); }
//@loopafter 2
    proof { assert(vs.skip(0) =~= vs); }
//@end
//@fn v Validator::text_deriv ret=r params=current,schema,text props=C01,C03 loops=1
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires $schema.sealed(), flag_ok($current), wf_pat($current), !($current is Placeholder)
    ensures td_rel(patlang($current), $text@, lang(r)), sflat_pat($current) ==> sflat(r), ne(lang(r)), p_fins($current, r)
//@pre
    proof { broadcast use {td_union, td_inter, td_cat, td_cat_null, td_aft, td_plus, td_eps_ws, td_eps, td_none, td_text, td_elem_ws, td_elem, td_att, td_data_in, td_data_out, td_value, b_flat_ne, union_flat}; }
    let ghost cur = $current;
//@arm Pat::List
    wres_nil(lang(p)); assert(words($text@).take(0) =~= seq![]);
//@loop 0 for:it
    invariant
        cur == $current, cur is List, $schema.sealed(), sflat(p), it.seq().len() == words($text@).len(), forall|i: int| 0 <= i < it.seq().len() ==> Sym::Text((#[trigger] it.seq()[i])@) == words($text@)[i],
        wres(lang(list_of(cur)), words($text@).take(it.index@ as int), lang(p))
//@loopbegin 0
    let ghost q = p; let ghost k = it.index@ as int;
    proof { words_props($text@); assert(Sym::Text(it.seq()[k]@) == words($text@)[k]);
        let (l, ww) = (lang(list_of(cur)), words($text@));
        assert(ww.take(k + 1) =~= ww.take(k).push(Sym::Text(item@)));
        assert forall|d: PatId| td_rel(lang(q), item@, #[trigger] lang(d)) implies wres(l, ww.take(k + 1), lang(d)) && (lang(d) == l_none() ==> td_rel(l_list(l), $text@, l_none())) by {
            wres_step(l, ww.take(k), lang(q), item@, lang(d));
            if lang(d) == l_none() { wres_dead(l, ww, k + 1); td_list(l, $text@, l_none()); }
        }
    }
//@loopafter 0
    proof { assert(words($text@).take(words($text@).len() as int) =~= words($text@)); td_list(lang(list_of(cur)), $text@, lang(p)); }
//@end
//@fn v Validator::apply_after ret=r params=pat,schema,f props=C01
//@generics <F: Fn(PatId, &Schema) -> PatId>
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires $schema.sealed(), wf_pat($pat), p_aft2($pat), closure_pre($f)
    ensures ne(lang(r)), forall|e: nat| e > 0 && closure_fin($f, (e - 1) as nat) ==> #[trigger] fin(r, e), forall|k: Ctx| #![trigger l_lift(k, patlang($pat))] closure_is($f, k) ==> lang(r) == l_lift(k, patlang($pat)) && (!(k is AftL) ==> aft2(r))
//@pre
    proof { lift_all($pat); }
//@end
//@fn v Validator::start_tag_open_deriv ret=r params=current,schema,name props=C01
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires $schema.sealed(), flag_ok($current), wf_pat($current), !($current is Placeholder)
    ensures sd_rel(patlang($current), qname($name), lang(r)), ne(lang(r)), sflat_pat($current) ==> aft2(r) && len2(lang(r)), p_root($current) ==> fin(r, 1), forall|d: nat| #[trigger] p_fin($current, d) && d > 0 ==> fin(r, d + 1)
//@closure 0
    -> (r: PatId) requires $2.sealed(), sflat($1) ensures lang(r) == plug(Ctx::CatL(l_star(lang(pid))), lang($1)), ne(lang(r)), sflat(r)
//@closure 1
    -> (r: PatId) requires $2.sealed(), sflat($1) ensures lang(r) == plug(Ctx::InterL(lang(pid2)), lang($1)), ne(lang(r)), sflat(r)
//@closure 2
    -> (r: PatId) requires $2.sealed(), sflat($1) ensures lang(r) == plug(Ctx::InterR(lang(pid1)), lang($1)), ne(lang(r)), sflat(r)
//@closure 3
    -> (r: PatId) requires $2.sealed(), sflat($1) ensures lang(r) == plug(Ctx::CatL(lang(pid2)), lang($1)), ne(lang(r)), sflat(r)
//@closure 4
    -> (r: PatId) requires $2.sealed(), sflat($1) ensures lang(r) == plug(Ctx::AftL(lang(pid2)), lang($1)), ne(lang(r)), forall|d: nat| #[trigger] fin(pid2, d) ==> fin(r, d + 1)
//@pre
    proof { broadcast use {sd_union, sd_inter, sd_cat, sd_cat_null, sd_plus, sd_aft, sd_elem_in, sd_elem_out, b_sd_none, nc_eps, nc_text, nc_none, nc_att, nc_data, nc_list, b_flat_ne, union_flat, plus_flat_b, cat_flat, inter_flat, lift_len2_b, aft_len2, union_len2}; }
//@end
//@fn v Validator::value_match ret=r params=pat,schema,val props=C02
    requires $schema.sealed(), flag_ok($pat), wf_pat($pat), !($pat is Placeholder)
    ensures r == val_in(patlang($pat), $val@)
//@pre
    proof { broadcast use td_value; }
//@end
//@fn v Validator::att_deriv ret=r params=memo,pat,schema,att,value props=C02
//@typemap HashMap<PatId, PatId> => VxMemo
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires $schema.sealed(), memo_ok(old($memo)@, attv($att, $value@)), ne(lang($pat))
    ensures memo_ok(final($memo)@, attv($att, $value@)), att_ok($pat, attv($att, $value@), r)
//@pre
    proof { broadcast use {ad_union, ad_inter, ad_cat, ad_plus, ad_aft, ad_none, ad_att_in, ad_att_out, na_eps, na_text, na_none, na_elem, na_data, na_list, b_flat_ne, union_flat, plus_flat_b, cat_flat, inter_flat}; }
//@end
//@fn v Validator::start_tag_close_deriv ret=r params=pid,schema props=C02
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires $schema.sealed(), ne(lang($pid))
    ensures cl_rel(lang($pid), lang(r)), sflat($pid) ==> sflat(r), ne(lang(r)), fins($pid, r)
//@pre
    proof { broadcast use {cl_union, cl_cat, cl_inter, cl_aft, cl_att, cl_same, b_flat_ne, union_flat}; }
//@end
//@fn v Validator::end_tag_deriv ret=r params=pat,schema props=C01
//@attr #[verifier::exec_allows_no_decreases_clause]
    requires $schema.sealed(), flag_ok($pat), wf_pat($pat)
    ensures ed_rel(patlang($pat), lang(r)), ne(lang(r)), forall|d: nat| #[trigger] p_fin($pat, d) && d > 0 ==> fin(r, (d - 1) as nat)
//@pre
    proof { broadcast use {ed_union, ed_flat, ed_aft, ed_aft_null, b_flat_ne, pat_flat}; }
//@end
}
broadcast proof fn union_flat(a: Lang, b: Lang) requires #[trigger] flat(l_union(a, b)) ensures flat(a), flat(b) { let l = l_union(a, b); assert forall|st: Stack| #[trigger] a(st) implies st.len() == 1 by { assert(l(st)); } assert forall|st: Stack| #[trigger] b(st) implies st.len() == 1 by { assert(l(st)); } }
broadcast proof fn pat_flat(p: Pat) requires wf_pat(p), !(p is Choice), !(p is After) ensures flat(#[trigger] patlang(p)) { match p { Pat::OneOrMore(a, _) => { plus_flat(lang(a)); } _ => {} } }
