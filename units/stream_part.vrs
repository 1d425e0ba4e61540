// ================================================================ the token loop: how the derivatives are strung together
//@type v Validator
pub open spec fn name_of(st: Seq<ElementState>) -> Name { Name { ns: match prefix_uri(st, st.last().prefix@) { Some(u) => u, None => seq![] }, local: st.last().local@ } }
pub open spec fn name_bad(st: Seq<ElementState>) -> bool { st.last().prefix@.len() > 0 && prefix_uri(st, st.last().prefix@) is None }
pub open spec fn att_of(st: Seq<ElementState>, a: UnresolvedAttr, defs: Map<Seq<char>, Seq<char>>) -> AttrV {
    AttrV { name: Name { ns: match attr_ns(st, a) { Some(u) => u, None => seq![] }, local: a.local@ }, value: decoded(a.value@, false, defs).unwrap_or(seq![]) }
}
pub open spec fn att_bad(st: Seq<ElementState>, a: UnresolvedAttr, defs: Map<Seq<char>, Seq<char>>) -> bool { attr_bad(st, a) || decoded(a.value@, false, defs) is None }
// the attributes of the innermost element, in document order, with their values decoded
pub open spec fn atts_of(st: Seq<ElementState>, defs: Map<Seq<char>, Seq<char>>) -> Seq<AttrV> { Seq::new(st.last().attributes@.len(), |i: int| att_of(st, st.last().attributes@[i], defs)) }
pub open spec fn tag_bad(st: Seq<ElementState>, defs: Map<Seq<char>, Seq<char>>) -> bool {
    name_bad(st) || exists|i: int| 0 <= i < st.last().attributes@.len() && att_bad(st, #[trigger] st.last().attributes@[i], defs)
}
// r is what is left of l after the start tag of an element
#[verifier::opaque]
pub open spec fn start_rel(l: Lang, n: Name, at: Seq<AttrV>, r: Lang) -> bool {
    forall|ch: Seq<Sym>, st: Stack| flat0(st) ==> (#[trigger] r(one(seq![], ch) + st) <==> l(push_ch(st, Sym::Child(n, Cont { attrs: at, ch }))))
}
// r is what is left of l after the name of a start tag and the attributes at
#[verifier::opaque]
pub open spec fn st_rel(l: Lang, n: Name, at: Seq<AttrV>, r: Lang) -> bool {
    forall|c: Cont, st: Stack| flat0(st) ==> ((#[trigger] r(seq![c] + st)) <==> l(push_ch(st, Sym::Child(n, Cont { attrs: at + c.attrs, ch: c.ch }))))
}
proof fn st_nil(l: Lang, n: Name, r: Lang) requires sd_rel(l, n, r) ensures st_rel(l, n, seq![], r) {
    reveal(sd_rel); reveal(st_rel);
    assert forall|c: Cont, st: Stack| flat0(st) implies ((#[trigger] r(seq![c] + st)) <==> l(push_ch(st, Sym::Child(n, Cont { attrs: seq![] + c.attrs, ch: c.ch })))) by { assert(Seq::<AttrV>::empty() + c.attrs =~= c.attrs); }
}
proof fn st_step(l: Lang, n: Name, at: Seq<AttrV>, b: Lang, x: AttrV, r: Lang) requires st_rel(l, n, at, b), ad_rel(b, x, r) ensures st_rel(l, n, at.push(x), r) {
    reveal(ad_rel); reveal(st_rel);
    assert forall|c: Cont, st: Stack| flat0(st) implies ((#[trigger] r(seq![c] + st)) <==> l(push_ch(st, Sym::Child(n, Cont { attrs: at.push(x) + c.attrs, ch: c.ch })))) by {
        let s = seq![c] + st; let d = Cont { attrs: seq![x] + c.attrs, ch: c.ch };
        assert(r(s) <==> b(push_att(s, x))); assert(push_att(s, x) =~= seq![d] + st); assert(b(seq![d] + st) <==> l(push_ch(st, Sym::Child(n, Cont { attrs: at + d.attrs, ch: d.ch }))));
        assert(at + (seq![x] + c.attrs) =~= at.push(x) + c.attrs);
    }
}
// nothing left stays nothing
proof fn st_dead(l: Lang, n: Name, at: Seq<AttrV>, k: int) requires 0 <= k <= at.len(), st_rel(l, n, at.take(k), l_none()) ensures start_rel(l, n, at, l_none()) {
    reveal(st_rel); reveal(start_rel);
    assert forall|ch: Seq<Sym>, st: Stack| flat0(st) implies (#[trigger] l_none()(one(seq![], ch) + st) <==> l(push_ch(st, Sym::Child(n, Cont { attrs: at, ch })))) by {
        let c = Cont { attrs: at.skip(k), ch }; assert(!l_none()(seq![c] + st)); assert(at.take(k) + c.attrs =~= at);
    }
}
proof fn st_close(l: Lang, n: Name, at: Seq<AttrV>, b: Lang, r: Lang) requires st_rel(l, n, at, b), cl_rel(b, r) ensures start_rel(l, n, at, r) {
    reveal(st_rel); reveal(cl_rel); reveal(start_rel);
    assert forall|ch: Seq<Sym>, st: Stack| flat0(st) implies (#[trigger] r(one(seq![], ch) + st) <==> l(push_ch(st, Sym::Child(n, Cont { attrs: at, ch })))) by {
        let s = one(seq![], ch) + st; let c = Cont { attrs: seq![], ch };
        assert(flat0(s)); assert(s =~= seq![c] + st); assert(r(s) <==> b(s)); assert(at + c.attrs =~= at);
    }
}
// the same, for whatever language the code has at hand
pub open spec fn upto(st: Seq<ElementState>, defs: Map<Seq<char>, Seq<char>>, l: Lang, k: int, r: Lang) -> bool { st_rel(l, name_of(st), atts_of(st, defs).take(k), r) }
broadcast proof fn b_st_nil(l: Lang, n: Name, r: Lang) requires #[trigger] sd_rel(l, n, r) ensures st_rel(l, n, seq![], r), r == l_none() ==> forall|at: Seq<AttrV>| #[trigger] start_rel(l, n, at, l_none())
{ st_nil(l, n, r); if r == l_none() { assert forall|at: Seq<AttrV>| #[trigger] start_rel(l, n, at, l_none()) by { assert(at.take(0) =~= seq![]); st_dead(l, n, at, 0); } } }
broadcast proof fn b_st_close(l: Lang, n: Name, at: Seq<AttrV>, b: Lang, r: Lang) requires #[trigger] st_rel(l, n, at, b), #[trigger] cl_rel(b, r) ensures start_rel(l, n, at, r) { st_close(l, n, at, b, r); }
// ---- trusted: a span is a slice of the document
pub broadcast axiom fn ax_span(s: StrSpan<'_>) ensures #[trigger] s.start_() + blen(s@) <= isize::MAX;
impl<'a> Validator<'a> {
//@fn v Validator::close_element_start ret=r params=stack,entity_definitions,schema,evt,pat props=C01,C02,C06,C07 loops=1
//@attr #[verifier::loop_isolation(false)]
//@exprmap HashMap :: new ( ) => VxMemo::new()
//@exprmap & value => value.as_str()
//@exprmap & att . value => att.value.as_str()
    requires $stack.elements@.len() > 0, $schema.sealed(), flag_ok($pat), wf_pat($pat), !($pat is Placeholder)
    ensures ({
        let (st, defs) = ($stack.elements@, defs_of($entity_definitions));
        &&& r matches Ok(p) ==> !tag_bad(st, defs) && ne(lang(p)) && start_rel(patlang($pat), name_of(st), atts_of(st, defs), lang(p)) && (p_root($pat) ==> fin(p, 1)) && (forall|d: nat| #[trigger] p_fin($pat, d) && d > 0 ==> fin(p, d + 1))
        &&& r is Err ==> tag_bad(st, defs) || start_rel(patlang($pat), name_of(st), atts_of(st, defs), l_none())
    })
//@pre
    let ghost (st, D, L) = ($stack.elements@, defs_of($entity_definitions), patlang($pat));
    let ghost at = atts_of(st, D); let ghost n = name_of(st);
    proof { broadcast use {b_st_nil, b_st_close, ax_span}; assert(at.take(0) =~= seq![]); }
//@loop 0 for:it
        invariant $schema.sealed(), ne(lang(pat)), st == $stack.elements@, D == defs_of($entity_definitions), at == atts_of(st, D), n == name_of(st), st.len() > 0,
            it.seq().len() == at.len(), !name_bad(st),
            forall|i: int| 0 <= i < at.len() ==> { let (w, u) = (#[trigger] it.seq()[i], st.last().attributes@[i]); w.name.local_name == u.local && w.value == u.value && txt(w.name.namespace_uri) == attr_ns(st, u) },
            forall|i: int| 0 <= i < at.len() ==> !attr_bad(st, #[trigger] st.last().attributes@[i]),
            forall|i: int| 0 <= i < it.index@ ==> !att_bad(st, #[trigger] st.last().attributes@[i], D),
            st_rel(L, n, at.take(it.index@ as int), lang(pat)), fins(next_pat, pat),
//@loopbegin 0
    let ghost k = it.index@ as int; let ghost b = lang(pat);
    proof {
        broadcast use ax_span;
        assert(it.seq()[k] == att);
        assert(at.take(k + 1) =~= at.take(k).push(at[k]));
        assert(att_bad(st, st.last().attributes@[k], D) == (decoded(att.value@, false, D) is None));
        assert(at[k] == att_of(st, st.last().attributes@[k], D));
        if decoded(att.value@, false, D) is Some { assert(attv(att, decoded(att.value@, false, D).unwrap()) == at[k]); }
        assert forall|d: PatId| #[trigger] ad_rel(b, at[k], lang(d)) implies st_rel(L, n, at.take(k + 1), lang(d)) && (lang(d) == l_none() ==> start_rel(L, n, at, l_none())) by {
            st_step(L, n, at.take(k), b, at[k], lang(d)); if lang(d) == l_none() { st_dead(L, n, at, k + 1); }
        }
    }
//@loopafter 0
    proof { assert(at.take(at.len() as int) =~= at); if st_rel(L, n, at, l_none()) { st_dead(L, n, at, at.len() as int); } }
//@end
}
// ---- the characters between two tags
pub open spec fn text_of(p: Option<(Token<'_>, String)>) -> Option<Seq<char>> { match p { Some(x) => Some(x.1@), None => None } }
pub open spec fn more_text(p: Option<Seq<char>>, t: Seq<char>) -> Option<Seq<char>> { match p { Some(s) => Some(s + t), None => Some(t) } }
// trusted: std's Option and HashMap
#[verifier::external_body]
fn vx_or_insert<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> (r: &mut T)
    requires f.requires(())
    ensures match *old(o) { Some(x) => *r == x, None => f.ensures((), *r) }, *final(o) == Some(*final(r))
{ o.get_or_insert_with(f) }
#[verifier::external_body]
fn vx_entry_or<F: FnOnce() -> String>(m: &mut HashMap<String, String>, k: String, f: F)
    requires f.requires(())
    ensures if defs_of(old(m)).contains_key(k@) { defs_of(final(m)) == defs_of(old(m)) } else { exists|v: String| #[trigger] f.ensures((), v) && defs_of(final(m)) == defs_of(old(m)).insert(k@, v@) }
{ m.entry(k).or_insert_with(f); }
#[verifier::external_body]
fn vx_no_defs() -> (r: HashMap<String, String>) ensures defs_of(&r) == Map::<Seq<char>, Seq<char>>::empty() { HashMap::default() }
#[verifier::external_body]
fn vx_define(m: &mut HashMap<String, String>, k: String, v: String) ensures defs_of(final(m)) == defs_of(old(m)).insert(k@, v@) { m.insert(k, v); }
fn vx_no_elements<'a>() -> (r: ElementStack<'a>) ensures r.elements@.len() == 0 { ElementStack { elements: Vec::new() } }
impl<'a> Validator<'a> {
    // every placeholder is resolved, and the pattern is one that the store made
    pub open spec fn wf(&self) -> bool { self.schema.sealed() && ne(lang(self.current_step)) }
    pub open spec fn same_but(&self, v: &Self, cur: bool, st: bool, text: bool, defs: bool) -> bool {
        &&& self.schema == v.schema
        &&& cur || self.current_step == v.current_step && self.last_was_start_element == v.last_was_start_element
        &&& st || self.stack == v.stack
        &&& text || self.pending_text == v.pending_text
        &&& defs || self.entity_definitions == v.entity_definitions
    }
    // what happens to the characters between two tags: they are matched as one text
    pub open spec fn flushed(&self, v: &Self, ok: bool) -> bool {
        &&& v.same_but(self, true, false, true, false) && v.tokenizer == self.tokenizer && v.pending_text is None
        &&& match text_of(self.pending_text) {
                None => ok && v.current_step == self.current_step && v.last_was_start_element == self.last_was_start_element,
                Some(s) => if ok { td_rel(lang(self.current_step), s, lang(v.current_step)) && !v.last_was_start_element && fins(self.current_step, v.current_step) } else { td_rel(lang(self.current_step), s, l_none()) },
            }
    }
//@method get_or_insert_with => vx_or_insert mut
//@method push_str => vx_push_str mut
//@fn v Validator::push_text params=_s,evt,text props=C01,C03,C07
    ensures final(self).same_but(old(self), false, false, true, false), final(self).tokenizer == old(self).tokenizer, text_of(final(self).pending_text) == more_text(text_of(old(self).pending_text), $text@)
//@closure 0
    -> (r: (Token<'a>, String)) ensures r.1@ == Seq::<char>::empty()
//@post
    proof { assert(Seq::<char>::empty() + $text@ =~= $text@); }
//@end
//@exprmap & text => text.as_str()
//@fn v Validator::flush_text ret=r params=_s props=C01,C03
    requires old(self).wf()
    ensures final(self).wf(), old(self).flushed(final(self), r is Ok)
//@end
    pub open spec fn after_tag_open(&self, v: &Self, ok: bool, empty: bool) -> bool {
        let (st, defs, l) = (self.stack.elements@, defs_of(&self.entity_definitions), lang(self.current_step));
        if !ok { tag_bad(st, defs) || start_rel(l, name_of(st), atts_of(st, defs), l_none()) || empty && emptied(l, name_of(st), atts_of(st, defs), l_none()) }
        else {
            &&& root(self.current_step) ==> if empty { nullable(lang(v.current_step)) } else { fin(v.current_step, 1) }
            &&& forall|d: nat| #[trigger] fin(self.current_step, d) && d > 0 ==> fin(v.current_step, if empty { d } else { d + 1 })
            &&& !tag_bad(st, defs) && v.last_was_start_element == !empty
            &&& if empty { v.stack.elements@ == st.drop_last() && emptied(l, name_of(st), atts_of(st, defs), lang(v.current_step)) }
                else { v.stack == self.stack && start_rel(l, name_of(st), atts_of(st, defs), lang(v.current_step)) }
        }
    }
    pub open spec fn after_close(&self, v: &Self, ok: bool) -> bool {
        let r = if ok { lang(v.current_step) } else { l_none() };
        &&& ok ==> v.stack.elements@ == self.stack.elements@.drop_last() && !v.last_was_start_element
            && forall|d: nat| #[trigger] fin(self.current_step, d) && d > 0 ==> if d == 1 { nullable(lang(v.current_step)) } else { fin(v.current_step, (d - 1) as nat) }
        &&& if self.last_was_start_element { exists|b: PatId| td_rel(lang(self.current_step), seq![], #[trigger] lang(b)) && ed_rel(lang(b), r) } else { ed_rel(lang(self.current_step), r) }
    }
    // what one token does
    pub open spec fn token(&self, t: Token<'a>, v: &Self, ok: bool) -> bool {
        let defs = defs_of(&self.entity_definitions);
        &&& v.tokenizer == self.tokenizer
        &&& match t {
            Token::Declaration {..} | Token::ProcessingInstruction {..} | Token::Comment {..} | Token::DtdStart {..} | Token::EmptyDtd {..} | Token::DtdEnd {..} => ok && v.same_but(self, false, false, false, false),
            // the first declaration of an entity is binding; external entities are refused
            Token::EntityDeclaration { name, definition, .. } => match definition {
                EntityDefinition::EntityValue(val) => ok && v.same_but(self, false, false, false, true) && defs_of(&v.entity_definitions) == (if defs.contains_key(name@) { defs } else { defs.insert(name@, val@) }),
                EntityDefinition::ExternalId(_) => !ok,
            },
            // characters are gathered until the next tag; references are replaced, except in a CDATA section
            Token::Cdata { text, .. } => ok && v.same_but(self, false, false, true, false) && text_of(v.pending_text) == more_text(text_of(self.pending_text), text@),
            Token::Text { text } => match decoded(text@, false, defs) {
                Some(s) => ok && v.same_but(self, false, false, true, false) && text_of(v.pending_text) == more_text(text_of(self.pending_text), s),
                None => !ok,
            },
            // the start tag counts when it is complete
            Token::ElementStart { prefix, local, .. } => exists|m: Self| #[trigger] self.flushed(&m, ok) && (ok ==> v.same_but(&m, false, true, false, false) && pushed(m.stack.elements@, v.stack.elements@, prefix, local)),
            Token::Attribute { prefix, local, value, span } => ok && v.same_but(self, false, true, false, false) && attr_added(self.stack.elements@, v.stack.elements@, prefix, local, value, span),
            Token::ElementEnd { end: ElementEnd::Open, .. } => self.after_tag_open(v, ok, false) && (ok ==> v.same_but(self, true, true, false, false)),
            Token::ElementEnd { end: ElementEnd::Empty, .. } => self.after_tag_open(v, ok, true) && (ok ==> v.same_but(self, true, true, false, false)),
            Token::ElementEnd { end: ElementEnd::Close(_, _), .. } => exists|m: Self, o: bool| #[trigger] self.flushed(&m, o) && (if o { m.after_close(v, ok) && (ok ==> v.same_but(&m, true, true, false, false)) } else { !ok }),
        }
    }
//@exprmap & data => data.as_str()
//@method to_string => vx_to_string ref
//@chain entry.or_insert_with => vx_entry_or mut
//@fn v Validator::validate ret=r params=_s,evt props=C01,C02,C03,C06,C07
    requires old(self).wf(), $evt is Attribute || $evt is ElementEnd ==> old(self).stack.elements@.len() > 0
    ensures final(self).wf(), old(self).token($evt, final(self), r is Ok)
//@pre
    proof { broadcast use ax_span; reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@closure 0
    -> (r: String) ensures r@ == val@
//@end
    // as long as no error has been reported, the stack holds the open elements
    pub open spec fn in_step(&self) -> bool { self.stack.elements@.len() == self.tokenizer.open() }
//@fn v Validator::validate_next ret=r params=_s props=C01,C02,C03,C06,C07
    requires old(self).wf(), old(self).in_step()
    ensures final(self).wf(),
        r is None ==> final(self).same_but(old(self), false, false, false, false),
        r matches Some(Ok(_)) ==> final(self).in_step() && exists|m: Self, t: Token<'a>| m.same_but(old(self), false, false, false, false) && #[trigger] m.token(t, final(self), true),
        r matches Some(Err(e)) ==> e is Xml || exists|m: Self, t: Token<'a>| m.same_but(old(self), false, false, false, false) && #[trigger] m.token(t, final(self), false),
//@end
//@typemap Rc<RefCell<Option<model::DefineRule>>> => VxCell
//@exprmap Rc :: as_ref ( & model ) => (&model)
//@exprmap HashMap :: default ( ) => vx_no_defs()
//@exprmap ElementStack :: default ( ) => vx_no_elements()
//@method insert => vx_define mut
//@fn v Validator::new ret=r params=model,tokenizer props=C01,C07
    requires closed_schema(), def_at($model.ptr()) is Some, legal(rpat(def_at($model.ptr()).unwrap()))
    ensures lang(r.current_step) == mlang(rpat(def_at($model.ptr()).unwrap())), ne(lang(r.current_step)), mroot(rpat(def_at($model.ptr()).unwrap())) ==> root(r.current_step),
        r.tokenizer == $tokenizer, r.stack.elements@.len() == 0, r.pending_text is None, !r.last_was_start_element,
        // XML 4.6
        defs_of(&r.entity_definitions) == Map::<Seq<char>, Seq<char>>::empty().insert("lt"@, "<"@).insert("gt"@, ">"@).insert("amp"@, "&"@).insert("apos"@, "'"@).insert("quot"@, "\""@)
//@end
}
pub open spec fn emptied(l: Lang, n: Name, at: Seq<AttrV>, r: Lang) -> bool { exists|a: PatId, b: PatId| start_rel(l, n, at, #[trigger] lang(a)) && td_rel(lang(a), seq![], #[trigger] lang(b)) && ed_rel(lang(b), r) }
