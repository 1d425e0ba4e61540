// ================================================================ names, datatypes and text of a schema
impl VxShow for types::IdentifierOrKeyword { open spec fn shown(&self) -> Seq<char> { match *self { types::IdentifierOrKeyword::Identifier(i) => i.1@, types::IdentifierOrKeyword::Keyword(k) => k.1@ } } }
pub open spec fn lit_n(v: Seq<types::LiteralSegment>, n: nat) -> Str decreases n { if n == 0 { ""@ } else { lit_n(v, (n - 1) as nat) + v[n - 1].body@ } }
pub open spec fn lit(l: types::Literal) -> Str { lit_n(l.1@, l.1@.len()) }
impl types::IdentifierOrKeyword {
//@fn t IdentifierOrKeyword::span params=_s props=C18
//@end
}
impl types::Literal {
//@fn t Literal::as_string_value ret=r params=_s props=C11
    ensures r@ == lit(*$_s)
//@loop 0 for:it
    invariant it.seq().map(|i: int, x: &types::LiteralSegment| *x) =~= $_s.1@, val@ == lit_n($_s.1@, it.index@ as nat)
//@pre
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@loopbegin 0
    proof { let w = it.seq().map(|i: int, x: &types::LiteralSegment| *x); assert(w[it.index@ as int] == *s); }
//@end
}
impl model::NameClass {
//@fn m NameClass::named ret=r params=a,b props=C11
    ensures r == (model::NameClass::Named { namespace_uri: $a, name: $b })
//@end
//@fn m NameClass::ns_name ret=r params=a,except props=C11
//@exprmap except . map ( Box :: new ) => vx_boxed(except)
    ensures r matches model::NameClass::NsName { namespace_uri: u, except: e } && u == $a && match (e, $except) { (Some(x), Some(y)) => *x == y, (None, None) => true, _ => false }
//@end
//@fn m NameClass::any_name ret=r params=except props=C11
//@exprmap except . map ( Box :: new ) => vx_boxed(except)
    ensures r matches model::NameClass::AnyName { except: e } && match (e, $except) { (Some(x), Some(y)) => *x == y, (None, None) => true, _ => false }
//@end
//@fn m NameClass::alt ret=r params=a,b props=C11
    ensures r matches model::NameClass::Alt { a: x, b: y } && *x == $a && *y == $b
//@end
}
fn vx_boxed<T>(x: Option<T>) -> (r: Option<Box<T>>) ensures match (r, x) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false } { match x { Some(y) => Some(Box::new(y)), None => None } }
// what a name class of a schema means where it stands; el: of an element (or of an attribute)
pub open spec fn t_in(e: Env, el: bool, nc: types::NameClass, n: SName) -> bool decreases nc {
    match nc {
        types::NameClass::Name(Name::Identifier(i)) => n.ns == (if el { e.dns } else { ""@ }) && n.local == i.shown(),
        types::NameClass::Name(Name::CName(c)) => n.ns == e.ns[c.0.1@] && n.local == c.1.1@,
        types::NameClass::Name(Name::NamespacedName(c)) => n.ns == lit(c.namespace_uri) && n.local == c.localname.1@,
        types::NameClass::NsName(types::NsName { name, except }) =>
            n.ns == (match name { types::NamespaceOrPrefix::NamespaceUri(u) => lit(u), types::NamespaceOrPrefix::Prefix(p) => e.ns[p.1@] }) && match except { Some(x) => !t_in(e, el, *x, n), None => true },
        types::NameClass::AnyName(types::AnyName(except)) => match except { Some(x) => !t_in(e, el, *x, n), None => true },
        types::NameClass::Alt(types::AltName(a, b)) => t_in(e, el, *a, n) || t_in(e, el, *b, n),
        types::NameClass::Paren(types::ParenName(a)) => t_in(e, el, *a, n),
    }
}
// its prefixes are declared
pub open spec fn t_ok(e: Env, nc: types::NameClass) -> bool decreases nc {
    match nc {
        types::NameClass::Name(Name::CName(c)) => e.ns.contains_key(c.0.1@),
        types::NameClass::Name(_) => true,
        types::NameClass::NsName(types::NsName { name, except }) => (match name { types::NamespaceOrPrefix::Prefix(p) => e.ns.contains_key(p.1@), _ => true }) && match except { Some(x) => t_ok(e, *x), None => true },
        types::NameClass::AnyName(types::AnyName(except)) => match except { Some(x) => t_ok(e, *x), None => true },
        types::NameClass::Alt(types::AltName(a, b)) => t_ok(e, *a) && t_ok(e, *b),
        types::NameClass::Paren(types::ParenName(a)) => t_ok(e, *a),
    }
}
pub open spec fn t_pred(e: Env, el: bool, nc: types::NameClass) -> NamePred { |n: SName| t_in(e, el, nc, n) }
pub open spec fn same_class(e: Env, el: bool, nc: types::NameClass, m: model::NameClass) -> bool { forall|n: SName| #[trigger] nc_in(m, n) == t_in(e, el, nc, n) }
pub proof fn same_pred(e: Env, el: bool, nc: types::NameClass, m: model::NameClass) requires same_class(e, el, nc, m) ensures nc_pred(m) == t_pred(e, el, nc) {
    assert forall|n: SName| #[trigger] nc_pred(m)(n) == t_pred(e, el, nc)(n) by { assert(nc_in(m, n) == t_in(e, el, nc, n)); }
    assert(nc_pred(m) =~= t_pred(e, el, nc));
}
pub open spec fn class_opt(e: Env, el: bool, a: Option<Box<types::NameClass>>, b: Option<Box<model::NameClass>>) -> bool { match (a, b) { (Some(x), Some(y)) => same_class(e, el, *x, *y), (None, None) => true, _ => false } }
pub open spec fn class_parts(e: Env, el: bool, nc: types::NameClass, m: model::NameClass) -> bool {
    match (nc, m) {
        (types::NameClass::Alt(types::AltName(a, b)), model::NameClass::Alt { a: x, b: y }) => same_class(e, el, *a, *x) && same_class(e, el, *b, *y),
        (types::NameClass::NsName(types::NsName { name, except }), model::NameClass::NsName { namespace_uri, except: x }) =>
            class_opt(e, el, except, x) && namespace_uri@ == (match name { types::NamespaceOrPrefix::NamespaceUri(u) => lit(u), types::NamespaceOrPrefix::Prefix(p) => e.ns[p.1@] }),
        (types::NameClass::AnyName(types::AnyName(except)), model::NameClass::AnyName { except: x }) => class_opt(e, el, except, x),
        (types::NameClass::Paren(types::ParenName(a)), _) => same_class(e, el, *a, m),
        _ => false,
    }
}
pub proof fn class_step(e: Env, el: bool, nc: types::NameClass, m: model::NameClass) ensures class_parts(e, el, nc, m) ==> same_class(e, el, nc, m) {
    if class_parts(e, el, nc, m) {
        assert forall|n: SName| #[trigger] nc_in(m, n) == t_in(e, el, nc, n) by {
            match (nc, m) {
                (types::NameClass::Alt(types::AltName(a, b)), model::NameClass::Alt { a: x, b: y }) => { assert(nc_in(*x, n) == t_in(e, el, *a, n)); assert(nc_in(*y, n) == t_in(e, el, *b, n)); }
                (types::NameClass::NsName(types::NsName { except: Some(a), .. }), model::NameClass::NsName { except: Some(x), .. }) => { assert(nc_in(*x, n) == t_in(e, el, *a, n)); }
                (types::NameClass::AnyName(types::AnyName(Some(a))), model::NameClass::AnyName { except: Some(x) }) => { assert(nc_in(*x, n) == t_in(e, el, *a, n)); }
                (types::NameClass::Paren(types::ParenName(a)), _) => { assert(nc_in(m, n) == t_in(e, el, *a, n)); }
                _ => {}
            }
        }
    }
}
// the datatypes that a name selects
pub ghost enum DtKey { Str, Token, Lib(Str, Str) }
pub open spec fn dt_key(e: Env, d: DatatypeName) -> DtKey { match d { DatatypeName::String => DtKey::Str, DatatypeName::Token => DtKey::Token, DatatypeName::CName(q) => DtKey::Lib(e.dt[q.0.1@], q.1.1@), DatatypeName::NamespacedName(q) => DtKey::Lib(lit(q.namespace_uri), q.localname.1@) } }
pub open spec fn dt_ok(e: Env, d: DatatypeName) -> bool { d matches DatatypeName::CName(q) ==> e.dt.contains_key(q.0.1@) }
pub open spec fn key0(d: DatatypeName) -> DtKey { match d { DatatypeName::String => DtKey::Str, DatatypeName::Token => DtKey::Token, DatatypeName::CName(q) => DtKey::Lib(q.0.1@, q.1.1@), DatatypeName::NamespacedName(q) => DtKey::Lib(lit(q.namespace_uri), q.localname.1@) } }
pub uninterp spec fn dtv_is(d: datatype::DatatypeValues, k: DtKey, v: Str) -> bool;
pub uninterp spec fn dt_is(d: datatype::Datatypes, k: DtKey, ps: Seq<types::Param>) -> bool;
pub uninterp spec fn dtv_bad(k: DtKey, v: Str) -> bool;
pub uninterp spec fn dt_bad(k: DtKey, ps: Seq<types::Param>) -> bool;
impl datatype::Compiler {
    #[verifier::external_body] pub fn datatype_value(&self, ctx: &Context, name: &DatatypeName, value: &str) -> (r: Result<datatype::DatatypeValues, datatype::Errors>)
        ensures match r { Ok(d) => dtv_is(d, key0(*name), value@), Err(_) => dtv_bad(key0(*name), value@) } { unimplemented!() }
    #[verifier::external_body] pub fn datatype_name(&self, ctx: &Context, name: &DatatypeName, params: &[types::Param]) -> (r: Result<datatype::Datatypes, datatype::Errors>)
        ensures match r { Ok(d) => dt_is(d, key0(*name), params@), Err(_) => dt_bad(key0(*name), params@) } { unimplemented!() }
}
// ================================================================ what a schema means
pub open spec fn e_el(e: Env) -> Env { Env { sid: None, odt: Map::<Str, Str>::empty(), route: seq![], own: None, ..e } }
pub open spec fn e_att(e: Env) -> Env { Env { att: true, odt: Map::<Str, Str>::empty(), route: seq![], own: None, ..e } }
pub open spec fn e_def(e: Env, id: Str) -> Env { Env { sid: Some(id), odt: Map::<Str, Str>::empty(), route: seq![], own: None, ..e } }
pub open spec fn e_gram(e: Env, t: int) -> Env { Env { tab: t, ptab: Some(e.tab), att: false, sid: None, odt: Map::<Str, Str>::empty(), route: seq![], own: None, ..e } }
// within an included or external file, before its declarations
pub open spec fn e_inc(e: Env, f: VxFile, ov: int) -> Env { Env { ns: xml_decls(), dt: xsd_decls(), odt: xsd_decls(), sid: None, route: seq![ov] + e.route, own: None, file: f, ..e } }
// within the override block of an include
pub open spec fn e_ovr(e: Env, ov: int) -> Env { Env { odt: Map::<Str, Str>::empty(), sid: None, own: Some(ov), ..e } }
pub open spec fn start_is(t: int, l: Lang) -> bool { exists|o: DefineRule| #[trigger] step(cell_of(t, "start"@), Some(o), None) && l == mlang(rpat(o)) }
pub open spec fn new_def(m: types::AssignMethod, l: Lang) -> Def { match m { types::AssignMethod::Assign => Def { plain: true, rule: None, lang: l }, types::AssignMethod::Choice => Def { plain: false, rule: Some(Op::Choice), lang: l }, types::AssignMethod::Interleave => Def { plain: false, rule: Some(Op::Interleave), lang: l } } }
pub open spec fn shows(e: Env, p: types::Pattern, l: Lang) -> bool { den(e, p, l) && tag(l) }
// a pattern, where it stands, denotes this language
pub open spec fn den(e: Env, p: types::Pattern, l: Lang) -> bool decreases p, 0nat {
    match p {
        types::Pattern::Element(x) => t_ok(e, x.name_class) && !e.att && exists|k: Lang| #[trigger] tag(k) && den(e_el(e), *x.pattern, k) && l == l_elem(t_pred(e, true, x.name_class), k),
        types::Pattern::Attribute(x) => t_ok(e, x.name_class) && exists|k: Lang| #[trigger] tag(k) && den(e_att(e), *x.pattern, k) && l == l_att(t_pred(e, false, x.name_class), k),
        types::Pattern::List(x) => exists|k: Lang| #[trigger] tag(k) && den(e, *x.0, k) && l == l_list(k),
        types::Pattern::Mixed(x) => exists|k: Lang| #[trigger] tag(k) && den(e, *x.0, k) && l == l_mixed(k),
        types::Pattern::Identifier(i) => e.sid != Some(i.1@) && l == l_single(rlang(cell_of(e.tab, i.1@))),
        types::Pattern::Parent(i) => e.ptab matches Some(t) && l == l_single(rlang(cell_of(t, i.1@))),
        types::Pattern::Empty => l == l_eps(),
        types::Pattern::Text => l == l_text(),
        types::Pattern::NotAllowed => l == l_none(),
        types::Pattern::External(x) => ext_den(e, x, l),
        types::Pattern::Grammar(g) => exists|t: int| #[trigger] tagt(t) && contents(e_gram(e, t), g.content, g.content@.len()) && start_is(t, l),
        types::Pattern::Group(x) => den(e, *x, l),
        types::Pattern::ListPair(a, b) => exists|k: Lang, m: Lang| #[trigger] tag(k) && #[trigger] tag(m) && den(e, *a, k) && den(e, *b, m) && l == l_cat(k, m),
        types::Pattern::InterleavePair(a, b) => exists|k: Lang, m: Lang| #[trigger] tag(k) && #[trigger] tag(m) && den(e, *a, k) && den(e, *b, m) && l == l_inter(k, m),
        types::Pattern::ChoicePair(a, b) => exists|k: Lang, m: Lang| #[trigger] tag(k) && #[trigger] tag(m) && den(e, *a, k) && den(e, *b, m) && l == l_union(k, m),
        types::Pattern::Optional(x) => exists|k: Lang| #[trigger] tag(k) && den(e, *x, k) && l == l_opt(k),
        types::Pattern::ZeroOrMore(x) => exists|k: Lang| #[trigger] tag(k) && den(e, *x, k) && l == l_zom(k),
        types::Pattern::OneOrMore(x) => exists|k: Lang| #[trigger] tag(k) && den(e, *x, k) && l == l_plus(k),
        types::Pattern::DatatypeValue(x) => exists|d: datatype::DatatypeValues| #[trigger] val_of(e, x, d) && l == l_data(value_pred(d)),
        types::Pattern::DatatypeName(x) => exists|d: datatype::Datatypes| #[trigger] data_of(e, x, d) && match x.2 { None => l == l_data(data_pred(d, None)), Some(y) => exists|k: Lang| #[trigger] tag(k) && den(e, *y, k) && l == l_data(data_pred(d, Some(k))) },
    }
}
pub open spec fn val_of(e: Env, x: types::DatatypeValuePattern, d: datatype::DatatypeValues) -> bool { let n = match x.0 { Some(n) => n, None => DatatypeName::Token }; dt_ok(e, n) && dtv_is(d, dt_key(e, n), lit(x.1)) }
pub open spec fn data_of(e: Env, x: types::DatatypeNamePattern, d: datatype::Datatypes) -> bool { dt_ok(e, x.0) && dt_is(d, dt_key(e, x.0), match x.1 { Some(v) => v@, None => Seq::<types::Param>::empty() }) }
pub open spec fn contents(e: Env, v: Vec<types::GrammarContent>, n: nat) -> bool decreases v, n {
    n == 0 || (n <= v@.len() && contents(e, v, (n - 1) as nat) && item(e, v@[n - 1]))
}
pub open spec fn item(e: Env, g: types::GrammarContent) -> bool decreases g, 0nat {
    match g {
        types::GrammarContent::Define(d) => exists|l: Lang| #[trigger] tag(l) && den(e_def(e, d.1.1@), d.3, l) && put(e, d.1.1@, new_def(d.2, l)),
        types::GrammarContent::Div(v) => contents(e, v, v@.len()),
        types::GrammarContent::Include(i) => inc_den(e, i),
        types::GrammarContent::Annotation(_) => true,
    }
}
pub open spec fn def_item(e: Env, d: types::Define) -> bool { exists|l: Lang| #[trigger] tag(l) && den(e_def(e, d.1.1@), d.3, l) && put(e, d.1.1@, new_def(d.2, l)) }
pub open spec fn slice_contents(e: Env, v: Seq<types::GrammarContent>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> item(e, #[trigger] v[i]) }
pub proof fn slice_is(e: Env, v: Vec<types::GrammarContent>, n: nat) requires slice_contents(e, v@, n), n <= v@.len() ensures contents(e, v, n) decreases n { if n > 0 { slice_is(e, v, (n - 1) as nat); assert(item(e, v@[n - 1])); } }
// ---- the declarations at the head of a file
// h: the namespace that the file inherits
pub open spec fn dec_uri(h: Str, u: NamespaceUriLiteral) -> Str { match u { NamespaceUriLiteral::Inherit => h, NamespaceUriLiteral::Uri(l) => lit(l) } }
pub open spec fn dec_env(e: Env, h: Str, d: types::Decl) -> Env {
    match d {
        types::Decl::DefaultNamespace(x) => { let u = dec_uri(h, x.uri); let f = Env { dns: u, ..e }; match x.prefix { Some(p) => Env { ns: declared(f.ns, p@, u), ..f }, None => f } },
        types::Decl::Namespace(x) => Env { ns: declared(e.ns, x.prefix@, dec_uri(h, x.uri)), ..e },
        types::Decl::Datatypes(x) => Env { dt: e.dt.insert(x.prefix@, lit(x.uri)), odt: e.odt.insert(x.prefix@, lit(x.uri)), ..e },
    }
}
pub open spec fn dec_ok(e: Env, d: types::Decl) -> bool { d matches types::Decl::Datatypes(x) ==> (e.odt.contains_key(x.prefix@) ==> e.odt[x.prefix@] == lit(x.uri)) }
pub open spec fn decs_env(e: Env, v: Seq<types::Decl>, n: nat) -> Env decreases n { if n == 0 || n > v.len() { e } else { dec_env(decs_env(e, v, (n - 1) as nat), e.dns, v[n - 1]) } }
pub open spec fn decs_n(e: Env, v: Seq<types::Decl>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> dec_ok(decs_env(e, v, i as nat), #[trigger] v[i]) }
pub open spec fn decs_ok(e: Env, v: Seq<types::Decl>) -> bool { decs_n(e, v, v.len()) }
// ---- a file: on its own, and as included
pub open spec fn file_env(e: Env, s: Schema) -> Env { decs_env(e, s.decls@, s.decls@.len()) }
pub open spec fn as_grammar(e: Env, s: Schema) -> bool {
    match s.pattern_or_grammar {
        types::PatternOrGrammar::Pattern(types::Pattern::Grammar(g)) => contents(e, g.content, g.content@.len()),
        types::PatternOrGrammar::Pattern(_) => false,
        types::PatternOrGrammar::Grammar(g) => contents(e, g.content, g.content@.len()),
    }
}
pub open spec fn as_schema(e: Env, s: Schema) -> bool {
    match s.pattern_or_grammar {
        types::PatternOrGrammar::Pattern(p) => exists|l: Lang| #[trigger] tag(l) && den(e, p, l) && put(e, "start"@, new_def(types::AssignMethod::Assign, l)),
        types::PatternOrGrammar::Grammar(g) => contents(e, g.content, g.content@.len()),
    }
}
pub uninterp spec fn holds(path: Str, text: Str) -> bool;                 // what was read from the file
pub uninterp spec fn parsed(f: VxFile, s: Schema) -> bool;                // what the parser makes of it
pub open spec fn loaded(path: Str, f: VxFile, s: Schema) -> bool { f.nm() == path && holds(path, f.text()) && parsed(f, s) }
pub uninterp spec fn path_of(from: Str, rel: Str) -> Str;
// what an externalRef means, and what an include does, when it is the one that was read
pub uninterp spec fn ext_den(e: Env, x: types::ExternalPattern, l: Lang) -> bool;
pub uninterp spec fn inc_den(e: Env, i: types::Include) -> bool;
pub open spec fn ext_body(e: Env, x: types::ExternalPattern, l: Lang, f: VxFile, s: Schema, ov: int) -> bool {
    let b = inherits(e, e_inc(e, f, ov), x.1); let g = file_env(b, s);
    &&& loaded(path_of(e.file.nm(), lit(x.0)), f, s) && decs_ok(b, s.decls@) && can_inherit(e, x.1)
    &&& match s.pattern_or_grammar {
        types::PatternOrGrammar::Pattern(p) => den(g, p, l),
        types::PatternOrGrammar::Grammar(y) => exists|t: int| #[trigger] tagt(t) && contents(e_gram(g, t), y.content, y.content@.len()) && start_is(t, l),
    }
}
pub axiom fn ext_intro(e: Env, x: types::ExternalPattern, l: Lang, f: VxFile, s: Schema, ov: int) requires ext_body(e, x, l, f, s, ov) ensures ext_den(e, x, l);
// the names that an override block, or an item of it, defines
pub open spec fn ov_names(v: Vec<types::IncludeContent>, n: nat) -> Set<Str> decreases v, n {
    if n == 0 || n > v@.len() { Set::empty() } else { ov_names(v, (n - 1) as nat).union(ov_inames(v@[n - 1])) }
}
pub open spec fn ov_inames(c: types::IncludeContent) -> Set<Str> decreases c, 0nat {
    match c { types::IncludeContent::Define(d) => Set::empty().insert(d.1.1@), types::IncludeContent::Div(v) => ov_names(v, v@.len()), types::IncludeContent::Annotation(_) => Set::empty() }
}
pub open spec fn inc_names(i: types::Include) -> Set<Str> { match i.2 { Some(v) => ov_names(v, v@.len()), None => Set::empty() } }
pub open spec fn ov_item(e: Env, c: types::IncludeContent) -> bool decreases c, 0nat { match c { types::IncludeContent::Define(d) => def_item(e, d), types::IncludeContent::Div(v) => ov_items(e, v, v@.len()), types::IncludeContent::Annotation(_) => true } }
pub open spec fn ov_items(e: Env, v: Vec<types::IncludeContent>, n: nat) -> bool decreases v, n { n == 0 || (n <= v@.len() && ov_items(e, v, (n - 1) as nat) && ov_item(e, v@[n - 1])) }
pub open spec fn can_inherit(e: Env, h: Option<types::Inherit>) -> bool { h matches Some(x) ==> e.ns.contains_key(x.0.shown()) }
pub open spec fn inherits(e: Env, g: Env, h: Option<types::Inherit>) -> Env { match h { Some(x) => Env { dns: e.ns[x.0.shown()], ..g }, None => g } }
pub open spec fn inc_body(e: Env, i: types::Include, f: VxFile, s: Schema, ov: int) -> bool {
    let g = inherits(e, e_inc(e, f, ov), i.1);
    &&& loaded(path_of(e.file.nm(), lit(i.0)), f, s) && decs_ok(g, s.decls@)
    &&& can_inherit(e, i.1)
    &&& ov_set(ov) == inc_names(i)
    &&& i.2 matches Some(v) ==> ov_items(e_ovr(e, ov), v, v@.len())
    &&& as_grammar(file_env(g, s), s)
    &&& forall|k: Str| #[trigger] inc_names(i).contains(k) ==> ov_last(ov, k)      // each override replaced something
}
pub axiom fn inc_intro(e: Env, i: types::Include, f: VxFile, s: Schema, ov: int) requires inc_body(e, i, f, s, ov) ensures inc_den(e, i);

impl VxPath {
    pub uninterp spec fn p(&self) -> Str;
    #[verifier::external_body] pub fn vx_lossy(&self) -> (r: String) ensures r@ == self.p() { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: VxPath) ensures r.p() == self.p() { unimplemented!() }
}
impl VxLoaded {
    #[verifier::external_body] pub fn get(&self, k: &VxPath) -> (r: Option<&(VxFile, Rc<Schema>)>) ensures r matches Some(x) ==> loaded(k.p(), x.0, *x.1) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: VxPath, v: (VxFile, Rc<Schema>)) -> (r: Option<(VxFile, Rc<Schema>)>) requires loaded(k.p(), v.0, *v.1) { unimplemented!() }
}
impl VxCodeMap { #[verifier::external_body] pub fn add_file(&mut self, name: String, text: String) -> (r: VxFile) ensures r.nm() == name@, r.text() == text@ { unimplemented!() } }
impl VxFs { #[verifier::external_body] pub fn load(&self, name: &VxPath) -> (r: Result<String, RelaxError>) ensures r matches Ok(t) ==> holds(name.p(), t@) { unimplemented!() } }
impl VxSyntax { #[verifier::external_body] pub fn parse(&self, f: &VxFile) -> (r: Result<Schema, RelaxError>) ensures r matches Ok(s) ==> parsed(*f, s) { unimplemented!() } }
#[verifier::external_body] fn vx_path(from: &VxFile, rel: String) -> (r: VxPath) ensures r.p() == path_of(from.nm(), rel@) { unimplemented!() }
// prophecy: the overrides of the context just made for an include are those of its override block (what is entered is checked against it)
pub axiom fn ov_naming(c: Context, names: Set<Str>) ensures c matches Context::Include { overrides, .. } ==> ov_set(overrides.id()) == names;
// once all of its override block has been entered
pub axiom fn ov_sealed(c: Context) requires c matches Context::Include { overrides, .. } && forall|k: Str| #[trigger] ov_set(overrides.id()).contains(k) ==> flagged(overrides.id(), k, false) ensures c matches Context::Include { overrides, .. } ==> ov_ready(overrides.id());
pub open spec fn ov_slice(e: Env, v: Seq<types::IncludeContent>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> ov_item(e, #[trigger] v[i]) }
pub open spec fn ov_named(e: Env, v: Seq<types::IncludeContent>) -> bool { forall|i: int, k: Str| 0 <= i < v.len() && #[trigger] ov_inames(v[i]).contains(k) ==> (e.own matches Some(ov) && ov_set(ov).contains(k)) }
pub proof fn ov_is(e: Env, v: Vec<types::IncludeContent>, n: nat) requires ov_slice(e, v@, n), n <= v@.len() ensures ov_items(e, v, n) decreases n { if n > 0 { ov_is(e, v, (n - 1) as nat); assert(ov_item(e, v@[n - 1])); } }
pub proof fn ov_has(v: Vec<types::IncludeContent>, n: nat, i: int, k: Str) requires 0 <= i < n <= v@.len(), ov_inames(v@[i]).contains(k) ensures ov_names(v, n).contains(k) decreases n { if i < n - 1 { ov_has(v, (n - 1) as nat, i, k); } }
// the parts of a block whose names are the include's
pub proof fn ov_all(e: Env, v: Vec<types::IncludeContent>) requires e.own matches Some(ov) && forall|k: Str| #[trigger] ov_names(v, v@.len()).contains(k) ==> ov_set(ov).contains(k) ensures ov_named(e, v@) {
    assert forall|i: int, k: Str| 0 <= i < v@.len() && #[trigger] ov_inames(v@[i]).contains(k) implies (e.own matches Some(ov) && ov_set(ov).contains(k)) by { ov_has(v, v@.len(), i, k); }
}
// every name of the block belongs to a definition of the block, which was entered
pub proof fn ov_flags(e: Env, v: Vec<types::IncludeContent>, n: nat, k: Str) requires ov_items(e, v, n), ov_names(v, n).contains(k) ensures e.own matches Some(ov) ==> flagged(ov, k, false) decreases v, n {
    if 0 < n <= v@.len() { if ov_names(v, (n - 1) as nat).contains(k) { ov_flags(e, v, (n - 1) as nat, k); } else { assert(ov_item(e, v@[n - 1]) && ov_inames(v@[n - 1]).contains(k)); match v@[n - 1] { types::IncludeContent::Define(d) => { assert(def_item(e, d)); } types::IncludeContent::Div(w) => { ov_flags(e, w, w@.len(), k); } _ => {} } } }
}
pub proof fn one_lang(p: Pattern) requires nary(p) is Some, nary(p).unwrap().1.len() == 1 ensures mlang(p) == mlang(nary(p).unwrap().1[0]) {
    let v = nary(p).unwrap().1; nary_lang(p); assert(mlangs(v) =~= seq![mlang(v[0])]); mlang_flat(v[0]); fold_one(nary(p).unwrap().0, mlang(v[0]));
}
pub open spec fn kept(a: Context, b: Context) -> bool {
    match a { Context::Root { .. } => b is Root, Context::Include { parent, overrides, .. } => (b matches Context::Include { parent: q, overrides: o, .. } && *q == *parent && o == overrides), _ => a == b }
}

pub open spec fn two_den(e: Env, o: Op, a: types::Pattern, b: types::Pattern, l: Lang) -> bool { exists|k: Lang, m: Lang| #[trigger] tag(k) && #[trigger] tag(m) && den(e, a, k) && den(e, b, m) && l == l_op(o, k, m) }
// a pair of patterns written as one list of what they consist of
pub open spec fn parts(o: Op, p: Pattern) -> Seq<Pattern> { match nary(p) { Some(x) => if x.0 == o { x.1 } else { seq![p] }, None => seq![p] } }
pub proof fn parts_lang(o: Op, p: Pattern) ensures fold(o, mlangs(parts(o, p))) == mlang(p) {
    if nary(p) is Some && nary(p).unwrap().0 == o { nary_lang(p); } else { assert(mlangs(seq![p]) =~= seq![mlang(p)]); mlang_flat(p); fold_one(o, mlang(p)); }
}
pub proof fn pair_lang(e: Env, o: Op, a: types::Pattern, b: types::Pattern, r: Pattern)
    ensures forall|x: Pattern, y: Pattern| #![trigger den(e, a, mlang(x)), den(e, b, mlang(y))] den(e, a, mlang(x)) && den(e, b, mlang(y)) && nary(r) is Some && nary(r).unwrap().0 == o && nary(r).unwrap().1 =~= parts(o, x) + parts(o, y) ==> two_den(e, o, a, b, mlang(r))
{
    assert forall|x: Pattern, y: Pattern| #![trigger den(e, a, mlang(x)), den(e, b, mlang(y))] den(e, a, mlang(x)) && den(e, b, mlang(y)) && nary(r) is Some && nary(r).unwrap().0 == o && nary(r).unwrap().1 =~= parts(o, x) + parts(o, y) implies two_den(e, o, a, b, mlang(r)) by {
        assert(tag(mlang(x)) && tag(mlang(y))); nary_lang(r); append_lang(o, parts(o, x), parts(o, y)); parts_lang(o, x); parts_lang(o, y);
    }
}
// ---- a schema that was compiled
pub open spec fn root_env(f: VxFile, t: int) -> Env { Env { dns: ""@, ns: xml_decls(), dt: xsd_decls(), odt: xsd_decls(), tab: t, ptab: None, att: false, sid: None, route: seq![], own: None, file: f } }
pub open spec fn whole(f: VxFile, s: Schema, t: int) -> bool { decs_ok(root_env(f, t), s.decls@) && as_schema(file_env(root_env(f, t), s), s) }
// start: where the definition of the start of the schema at path is; everything that is referred to from the whole grammar is defined, and nothing reached refers to itself outside an element
pub open spec fn compiled(path: Str, start: usize) -> bool {
    exists|f: VxFile, s: Schema, t: int| #![trigger parsed(f, s), tagt(t)] loaded(path, f, s) && tagt(t) && whole(f, s, t) && start == cell_of(t, "start"@) && defined(start) && (forall|k: Str| #[trigger] entered(t, k) ==> defined(cell_of(t, k))) && !bad_reach(body(start))
}
