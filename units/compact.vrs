//@include common.vrs
//@include nomc.vrs
//@file c relaxng-syntax/src/compact.rs
//@file t relaxng-syntax/src/types.rs
//@strip nom
//@ctor
use std::ops::{Range, RangeInclusive};
pub struct VxOpaque;
//@typemap Span => Range<usize>
//@include syntax_types.vrs
use types::{InitialAnnotation, AnnotationAttribute, AnnotationElement, AnnotationElementOrLiteral, Schema, Decl, NamespaceDeclaration, DefaultNamespaceDeclaration, DatatypesDeclaration, Pattern, ElementPattern, GrammarPattern, AttributePattern, ListPattern, MixedPattern, ExternalPattern, DatatypeValuePattern, DatatypeNamePattern, DatatypeName, NamespacedName, Param, PatternOrGrammar, GrammarContent, AssignMethod, Define, Include, Inherit, IncludeContent, IdentifierOrKeyword, NamespaceUriLiteral, Literal, LiteralSegment, Identifier, Keyword, NcName, NameClass, Name, NamespaceOrPrefix, NsName, AnyName, AltName, ParenName, QName};
//@typemap Span => Span<'_>
//@typemap LocatedSpan < & str > => Span<'_>
//@typemap IResult<Span, char> => IRes<'_, char>
//@typemap IResult<Span, NcName> => IRes<'_, NcName>
//@typemap IResult<Span, Span> => IRes<'_, Span<'_>>
//@typemap IResult<Span, Schema> => IRes<'_, Schema>
//@typemap IResult<Span, Decl> => IRes<'_, Decl>
//@typemap IResult<Span, NamespaceDeclaration> => IRes<'_, NamespaceDeclaration>
//@typemap IResult<Span, DefaultNamespaceDeclaration> => IRes<'_, DefaultNamespaceDeclaration>
//@typemap IResult<Span, DatatypesDeclaration> => IRes<'_, DatatypesDeclaration>
//@typemap IResult<Span, Pattern> => IRes<'_, Pattern>
//@typemap IResult<Span, ElementPattern> => IRes<'_, ElementPattern>
//@typemap IResult<Span, GrammarPattern> => IRes<'_, GrammarPattern>
//@typemap IResult<Span, AttributePattern> => IRes<'_, AttributePattern>
//@typemap IResult<Span, ListPattern> => IRes<'_, ListPattern>
//@typemap IResult<Span, MixedPattern> => IRes<'_, MixedPattern>
//@typemap IResult<Span, ExternalPattern> => IRes<'_, ExternalPattern>
//@typemap IResult<Span, DatatypeValuePattern> => IRes<'_, DatatypeValuePattern>
//@typemap IResult<Span, DatatypeNamePattern> => IRes<'_, DatatypeNamePattern>
//@typemap IResult<Span, DatatypeName> => IRes<'_, DatatypeName>
//@typemap IResult<Span, Param> => IRes<'_, Param>
//@typemap IResult<Span, GrammarContent> => IRes<'_, GrammarContent>
//@typemap IResult<Span, AssignMethod> => IRes<'_, AssignMethod>
//@typemap IResult<Span, Define> => IRes<'_, Define>
//@typemap IResult<Span, Include> => IRes<'_, Include>
//@typemap IResult<Span, Inherit> => IRes<'_, Inherit>
//@typemap IResult<Span, IncludeContent> => IRes<'_, IncludeContent>
//@typemap IResult<Span, IdentifierOrKeyword> => IRes<'_, IdentifierOrKeyword>
//@typemap IResult<Span, NamespaceUriLiteral> => IRes<'_, NamespaceUriLiteral>
//@typemap IResult<Span, Literal> => IRes<'_, Literal>
//@typemap IResult<Span, LiteralSegment> => IRes<'_, LiteralSegment>
//@typemap IResult<Span, Identifier> => IRes<'_, Identifier>
//@typemap IResult<Span, Keyword> => IRes<'_, Keyword>
//@typemap IResult<Span, NameClass> => IRes<'_, NameClass>
//@typemap IResult<Span, Name> => IRes<'_, Name>
//@typemap IResult<Span, NsName> => IRes<'_, NsName>
//@typemap IResult<Span, AnyName> => IRes<'_, AnyName>
//@typemap IResult<Span, ParenName> => IRes<'_, ParenName>
//@typemap IResult<Span, QName> => IRes<'_, QName>
//@typemap IResult<Span, Option<InitialAnnotation>> => IRes<'_, Option<InitialAnnotation>>
//@typemap IResult<Span, InitialAnnotation> => IRes<'_, InitialAnnotation>
//@typemap IResult<Span, Vec<AnnotationElement>> => IRes<'_, Vec<AnnotationElement>>
//@typemap IResult<Span, AnnotationElement> => IRes<'_, AnnotationElement>
//@typemap IResult<Span, AnnotationAttribute> => IRes<'_, AnnotationAttribute>
//@typemap IResult<Span, AnnotationElementOrLiteral> => IRes<'_, AnnotationElementOrLiteral>
//@typemap IResult<Span, Vec<GrammarContent>> => IRes<'_, Vec<GrammarContent>>
//@typemap IResult<Span, Vec<IncludeContent>> => IRes<'_, Vec<IncludeContent>>
//@typemap Result<Schema, nom::Err<Error<Span>>> => Result<Schema, NomErr>
//@method to_string => vx_to_string ref
//@method trim_start_matches => vx_trim_start_matches ref
//@exprmap end . location_offset () + end . fragment () . len () => vx_end(&end)
//@exprmap name . span () . start => vx_start(&name)
//@exprmap range . contains (& c . as_char ()) => vx_in(&range, c)
//@exprmap tag :: < _ , _ , (Span , ErrorKind) > (",") (i) => tag(",").parse(i)
//@exprmap tag :: < _ , _ , (Span , ErrorKind) > ("&") (i) => tag("&").parse(i)
//@exprmap tag :: < _ , _ , (Span , ErrorKind) > ("|") (i) => tag("|").parse(i)
//@exprmap tag :: < _ , _ , (Span , ErrorKind) > ("?") (i) => tag("?").parse(i)
//@exprmap tag :: < _ , _ , (Span , ErrorKind) > ("*") (i) => tag("*").parse(i)
//@exprmap tag :: < _ , _ , (Span , ErrorKind) > ("+") (i) => tag("+").parse(i)
#[verifier::external_body]
fn vx_in(r: &RangeInclusive<char>, c: char) -> (b: bool) ensures b == (r@.start <= c && c <= r@.end && !r@.exhausted) { r.contains(&c) }
fn satisfy<F: Fn(char) -> bool>(f: F) -> (r: Satisfy<F>) requires forall|c: char| f.requires((c,)) ensures r.f == f { Satisfy { f } }
pub struct Satisfy<F> { pub f: F }
impl<'a, F: Fn(char) -> bool> Parser<'a, char> for Satisfy<F> {
    open spec fn req(&self) -> bool { forall|c: char| self.f.requires((c,)) }
    open spec fn rel(&self, i: Span<'a>, r: IRes<'a, char>) -> bool {
        if i@.len() == 0 { r is Err } else { exists|b: bool| #[trigger] self.f.ensures((i@[0],), b) && one(i@, b, r) }
    }
    #[verifier::external_body]
    fn parse(&self, i: Span<'a>) -> (r: IRes<'a, char>) { unimplemented!() }
}
pub open spec fn no_bs(s: Str) -> Str decreases s.len() { if s.len() > 0 && s[0] == '\\' { no_bs(s.drop_first()) } else { s } }
#[verifier::external_body]
fn vx_trim_start_matches(s: &str, c: char) -> (r: &str) requires c == '\\' ensures r@ == no_bs(s@) { s.trim_start_matches(c) }

// ---- the specification: which text reads as which syntax tree
//@include ncspec.vrs
pub type Str = Seq<char>;
pub open spec fn run(s: Str) -> nat decreases s.len() { if s.len() > 0 && name_char(s[0]) { 1 + run(s.drop_first()) } else { 0 } }
// the name a text begins with, and what follows it
pub open spec fn wd(s: Str) -> Str { s.take(run(s) as int) }
pub open spec fn wr(s: Str) -> Str { s.skip(run(s) as int) }
pub open spec fn ncn(s: Str) -> bool { s.len() > 0 && start_char(s[0]) }
pub open spec fn is_kw(t: Str) -> bool { t == "attribute"@ || t == "default"@ || t == "datatypes"@ || t == "div"@ || t == "element"@ || t == "empty"@ || t == "external"@ || t == "grammar"@ || t == "include"@ || t == "inherit"@ || t == "list"@ || t == "mixed"@ || t == "namespace"@ || t == "notAllowed"@ || t == "parent"@ || t == "start"@ || t == "string"@ || t == "text"@ || t == "token"@ }
// white space and comments
pub open spec fn line(s: Str) -> Str decreases s.len() { if s.len() > 0 && s[0] != '\r' && s[0] != '\n' { line(s.drop_first()) } else { s } }
pub open spec fn skip(s: Str) -> Str decreases s.len() {
    if s.len() > 0 && ws(s[0]) { skip(s.drop_first()) } else if s.len() > 0 && s[0] == '#' { if line(s.drop_first()).len() < s.len() { skip(line(s.drop_first())) } else { s } } else { s }
}
// (a mark for the prover: what follows the text is read from behind the white space)
pub open spec fn next(s: Str) -> bool { true }
// a text comes next, after white space; what follows it
pub open spec fn tok(s: Str, k: Str) -> bool { pre(skip(s), k) }
pub open spec fn aft(s: Str, k: Str) -> Str { skip(s).skip(k.len() as int) }
// a keyword that ends here
pub open spec fn ends(s: Str) -> bool { !(s.len() > 0 && name_char(s[0])) }
pub open spec fn kwd(s: Str, k: Str) -> bool { pre(s, k) && ends(s.skip(k.len() as int)) }
pub open spec fn past(s: Str, k: &str) -> Str { s.skip(k@.len() as int) }
// identifiers: names that are not keywords, or escaped (an escaped keyword keeps the backslash)
pub open spec fn ident(s: Str, x: Str, t: Str) -> bool {
    if s.len() > 0 && s[0] == '\\' { ncn(s.drop_first()) && t == wr(s.drop_first()) && x == (if is_kw(wd(s.drop_first())) { seq!['\\'] + wd(s.drop_first()) } else { wd(s.drop_first()) }) }
    else { ncn(s) && !is_kw(wd(s)) && x == wd(s) && t == wr(s) }
}
// the text of an identifier or keyword
pub open spec fn idk(x: IdentifierOrKeyword) -> Str { match x { IdentifierOrKeyword::Identifier(i) => i.1@, IdentifierOrKeyword::Keyword(k) => k.1@ } }
pub open spec fn ident_kw(s: Str, x: Str, t: Str) -> bool {
    if s.len() > 0 && s[0] == '\\' { ncn(s.drop_first()) && t == wr(s.drop_first()) && x == wd(s.drop_first()) } else { ncn(s) && x == wd(s) && t == wr(s) }
}
// literals
pub open spec fn q3(s: Str, q: Str, b: Str, t: Str) -> bool { s == q + b + q + t && forall|k: int| 0 <= k < b.len() ==> !#[trigger] occurs(b + q + t, q, k) }
pub open spec fn q1(s: Str, q: char, b: Str, t: Str) -> bool { s == seq![q] + b + seq![q] + t && !b.contains(q) && !b.contains('\n') }
pub open spec fn segment(s: Str, b: Str, t: Str) -> bool { q3(s, seq!['"', '"', '"'], b, t) || q3(s, seq!['\'', '\'', '\''], b, t) || q1(s, '"', b, t) || q1(s, '\'', b, t) }
pub open spec fn segments(s: Str, v: Seq<LiteralSegment>, n: nat, t: Str) -> bool decreases n {
    if n == 0 || n > v.len() { false } else if n == 1 { segment(s, v[0].body@, t) }
    else { exists|m: Str| segments(s, v, (n - 1) as nat, m) && #[trigger] tok(m, "~"@) && segment(skip(aft(m, "~"@)), v[n - 1].body@, t) }
}
pub open spec fn literal_(s: Str, x: Literal, t: Str) -> bool { segments(s, x.1@, x.1@.len(), t) }
// declarations
pub open spec fn uri_(s: Str, x: NamespaceUriLiteral, t: Str) -> bool { match x { NamespaceUriLiteral::Inherit => pre(s, "inherit"@) && t == past(s, "inherit"), NamespaceUriLiteral::Uri(l) => literal_(s, l, t) } }
// a word, white space, a name, = and a literal
pub open spec fn decl_ns(s: Str, x: NamespaceDeclaration, t: Str) -> bool { pre(s, "namespace"@) && ends(past(s, "namespace")) && ns_eq(skip(past(s, "namespace")), x.prefix@, x.uri, t) }
pub open spec fn ns_eq(s: Str, p: Str, u: NamespaceUriLiteral, t: Str) -> bool { exists|b: Str| #[trigger] ident_kw(s, p, b) && tok(b, "="@) && uri_(skip(aft(b, "="@)), u, t) }
pub open spec fn decl_default(s: Str, x: DefaultNamespaceDeclaration, t: Str) -> bool {
    let a = skip(past(s, "default"));
    let b = past(a, "namespace");
    pre(s, "default"@) && ends(past(s, "default")) && pre(a, "namespace"@) && match x.prefix {
        None => tok(b, "="@) && uri_(skip(aft(b, "="@)), x.uri, t),
        Some(p) => ends(b) && ns_eq(skip(b), p@, x.uri, t),
    }
}
pub open spec fn decl_types(s: Str, x: DatatypesDeclaration, t: Str) -> bool { pre(s, "datatypes"@) && ends(past(s, "datatypes")) && lit_eq(skip(past(s, "datatypes")), x.prefix@, x.uri, t) }
pub open spec fn lit_eq(s: Str, p: Str, u: Literal, t: Str) -> bool { exists|b: Str| #[trigger] ident_kw(s, p, b) && tok(b, "="@) && literal_(skip(aft(b, "="@)), u, t) }
pub open spec fn decl_(s: Str, x: Decl, t: Str) -> bool { match x { Decl::Namespace(n) => decl_ns(s, n, t), Decl::DefaultNamespace(n) => decl_default(s, n, t), Decl::Datatypes(n) => decl_types(s, n, t) } }
pub open spec fn decls_(s: Str, v: Seq<Decl>, n: nat, t: Str) -> bool decreases n {
    if n == 0 || n > v.len() { n == 0 && t == s } else if n == 1 { decl_(s, v[0], t) }
    else { exists|m: Str| decls_(s, v, (n - 1) as nat, m) && #[trigger] next(m) && decl_(skip(m), v[n - 1], t) }
}
pub open spec fn inherit_(s: Str, x: Inherit, t: Str) -> bool { pre(s, "inherit"@) && tok(past(s, "inherit"), "="@) && ident_kw(skip(aft(past(s, "inherit"), "="@)), idk(x.0), t) }
pub open spec fn opt_inherit(s: Str, x: Option<Inherit>, t: Str) -> bool { match x { None => t == s, Some(i) => next(s) && inherit_(skip(s), i, t) } }
// names
pub open spec fn cname_(s: Str, x: QName, t: Str) -> bool {
    ncn(s) && x.0.1@ == wd(s) && pre(wr(s), ":"@) && ncn(past(wr(s), ":")) && x.1.1@ == wd(past(wr(s), ":")) && t == wr(past(wr(s), ":"))
}
pub open spec fn name_(s: Str, x: Name, t: Str) -> bool { match x { Name::CName(q) => cname_(s, q, t), Name::Identifier(i) => ident_kw(s, idk(i), t), Name::NamespacedName(_) => false } }
pub open spec fn dtname(s: Str, x: DatatypeName, t: Str) -> bool {
    match x { DatatypeName::String => kwd(s, "string"@) && t == past(s, "string"), DatatypeName::Token => kwd(s, "token"@) && t == past(s, "token"), DatatypeName::CName(q) => cname_(s, q, t), DatatypeName::NamespacedName(_) => false }
}
// annotations
pub open spec fn name_lit(s: Str, n: Name, l: Literal, t: Str) -> bool { exists|b: Str| #[trigger] name_(s, n, b) && tok(b, "="@) && literal_(skip(aft(b, "="@)), l, t) }
pub open spec fn a_attr(s: Str, x: AnnotationAttribute, t: Str) -> bool { name_lit(s, x.name, x.value, t) }
pub open spec fn a_attrs(s: Str, v: Seq<AnnotationAttribute>, n: nat, t: Str) -> bool decreases n {
    if n == 0 || n > v.len() { n == 0 && t == s } else if n == 1 { a_attr(s, v[0], t) }
    else { exists|m: Str| a_attrs(s, v, (n - 1) as nat, m) && #[trigger] next(m) && a_attr(skip(m), v[n - 1], t) }
}
pub open spec fn a_elem(s: Str, x: AnnotationElement, t: Str) -> bool decreases x, 0nat { a_parts(s, x.name, x.annotation_attributes@, x.annotation_elements_or_literals, t) }
pub open spec fn a_parts(s: Str, n: Name, v: Seq<AnnotationAttribute>, w: Vec<AnnotationElementOrLiteral>, t: Str) -> bool decreases w, 3nat { exists|b: Str| #[trigger] name_(s, n, b) && tok(b, "["@) && a_body(skip(aft(b, "["@)), v, w, t) }
pub open spec fn a_body(s: Str, v: Seq<AnnotationAttribute>, w: Vec<AnnotationElementOrLiteral>, t: Str) -> bool decreases w, 2nat { exists|b: Str| #[trigger] a_attrs(s, v, v.len(), b) && a_close(skip(b), w, t) }
pub open spec fn a_close(s: Str, w: Vec<AnnotationElementOrLiteral>, t: Str) -> bool decreases w, 1nat { exists|b: Str| a_items(s, w, w@.len(), b) && #[trigger] tok(b, "]"@) && t == aft(b, "]"@) }
pub open spec fn a_items(s: Str, w: Vec<AnnotationElementOrLiteral>, n: nat, t: Str) -> bool decreases w, 0nat, n {
    if n == 0 || n > w@.len() { n == 0 && t == s } else if n == 1 { a_item(s, w@[0], t) }
    else { exists|m: Str| a_items(s, w, (n - 1) as nat, m) && #[trigger] next(m) && a_item(skip(m), w@[n - 1], t) }
}
pub open spec fn a_item(s: Str, x: AnnotationElementOrLiteral, t: Str) -> bool decreases x, 0nat { match x { AnnotationElementOrLiteral::Element(e) => a_elem(s, e, t), AnnotationElementOrLiteral::Literal(l) => literal_(s, l, t) } }
// the ones before a pattern or a definition
pub open spec fn a_elems(s: Str, v: Seq<AnnotationElement>, n: nat, t: Str) -> bool decreases n {
    if n == 0 || n > v.len() { n == 0 && t == s } else if n == 1 { a_elem(s, v[0], t) }
    else { exists|m: Str| a_elems(s, v, (n - 1) as nat, m) && #[trigger] next(m) && a_elem(skip(m), v[n - 1], t) }
}
pub open spec fn a_init(s: Str, v: Seq<AnnotationAttribute>, w: Seq<AnnotationElement>, t: Str) -> bool { exists|b: Str| #[trigger] a_attrs(s, v, v.len(), b) && a_end(skip(b), w, t) }
pub open spec fn a_end(s: Str, w: Seq<AnnotationElement>, t: Str) -> bool { exists|b: Str| #[trigger] a_elems(s, w, w.len(), b) && tok(b, "]"@) && t == aft(b, "]"@) }
pub open spec fn init_ann(s: Str, x: InitialAnnotation, t: Str) -> bool { pre(s, "["@) && a_init(skip(past(s, "[")), x.attribute_annotations@, x.element_annotations@, t) }
#[verifier::opaque]
pub open spec fn some_ann(s: Str, t: Str) -> bool { exists|x: InitialAnnotation, b: Str| #[trigger] init_ann(s, x, b) && t == skip(b) }
pub open spec fn ann(s: Str, t: Str) -> bool { t == s || some_ann(s, t) }
// the ones behind it
pub open spec fn foll1(s: Str, x: AnnotationElement, t: Str) -> bool { tok(s, ">>"@) && a_elem(skip(aft(s, ">>"@)), x, t) }
pub open spec fn folls(s: Str, v: Seq<AnnotationElement>, n: nat, t: Str) -> bool decreases n {
    if n == 0 || n > v.len() { n == 0 && t == s } else if n == 1 { foll1(s, v[0], t) }
    else { exists|m: Str| folls(s, v, (n - 1) as nat, m) && #[trigger] next(m) && foll1(skip(m), v[n - 1], t) }
}
#[verifier::opaque]
pub open spec fn foll(s: Str, t: Str) -> bool { exists|v: Seq<AnnotationElement>| #[trigger] folls(s, v, v.len(), t) }
// name classes
pub open spec fn nc_(s: Str, x: NameClass, t: Str) -> bool decreases x, 2nat {
    match x { NameClass::Alt(a) => exists|b: Str| nc1(s, *a.0, b) && #[trigger] tok(b, "|"@) && nc_(skip(aft(b, "|"@)), *a.1, t), _ => nc1(s, x, t) }
}
// one that is not a choice, with its annotations
pub open spec fn nc1(s: Str, x: NameClass, t: Str) -> bool decreases x, 1nat { exists|a: Str, b: Str| #[trigger] ann(s, a) && nc0(a, x, b) && #[trigger] foll(b, t) }
pub open spec fn nc0(s: Str, x: NameClass, t: Str) -> bool decreases x, 0nat {
    match x {
        NameClass::Name(n) => name_(s, n, t),
        NameClass::NsName(n) => nsn(s, n, t),
        NameClass::AnyName(n) => anyn(s, n, t),
        NameClass::Paren(p) => parn(s, p, t),
        NameClass::Alt(_) => false,
    }
}
pub open spec fn nsn(s: Str, n: NsName, t: Str) -> bool decreases n, 0nat {
    ncn(s) && (n.name matches NamespaceOrPrefix::Prefix(p) && p.1@ == wd(s)) && pre(wr(s), ":*"@) && match n.except { None => t == past(wr(s), ":*"), Some(e) => tok(past(wr(s), ":*"), "-"@) && nc_(skip(aft(past(wr(s), ":*"), "-"@)), *e, t) }
}
pub open spec fn anyn(s: Str, n: AnyName, t: Str) -> bool decreases n, 0nat { pre(s, "*"@) && match n.0 { None => t == past(s, "*"), Some(e) => tok(past(s, "*"), "-"@) && nc_(skip(aft(past(s, "*"), "-"@)), *e, t) } }
pub open spec fn parn(s: Str, n: ParenName, t: Str) -> bool decreases n, 0nat { pre(s, "("@) && nc_close(skip(past(s, "(")), *n.0, t) }
pub open spec fn nc_close(s: Str, x: NameClass, t: Str) -> bool decreases x, 3nat { exists|b: Str| nc_(s, x, b) && #[trigger] tok(b, ")"@) && t == aft(b, ")"@) }
// patterns
pub open spec fn param_(s: Str, x: Param, t: Str) -> bool { exists|a: Str| #[trigger] ann(s, a) && lit_eq(skip(a), idk(x.2), x.3, t) }
pub open spec fn params_(s: Str, v: Seq<Param>, n: nat, t: Str) -> bool decreases n {
    if n == 0 || n > v.len() { n == 0 && t == s } else if n == 1 { param_(s, v[0], t) }
    else { exists|m: Str| params_(s, v, (n - 1) as nat, m) && #[trigger] next(m) && param_(skip(m), v[n - 1], t) }
}
pub open spec fn is_pair(x: Pattern) -> bool { x is ListPair || x is InterleavePair || x is ChoicePair }
// what follows a pattern is no operator
pub open spec fn stop(s: Str) -> bool { skip(s).len() > 0 ==> skip(s)[0] != ',' && skip(s)[0] != '&' && skip(s)[0] != '|' && skip(s)[0] != '?' && skip(s)[0] != '*' && skip(s)[0] != '+' }
// the operators that follow a pattern apply to the pattern they follow; a connector has all of the rest on its right
pub open spec fn pat(s: Str, x: Pattern, t: Str) -> bool decreases x, 2nat {
    match x {
        Pattern::ListPair(l, r) => exists|b: Str| !is_pair(*l) && pat(s, *l, b) && #[trigger] tok(b, ","@) && pat(skip(aft(b, ","@)), *r, t),
        Pattern::InterleavePair(l, r) => exists|b: Str| !is_pair(*l) && pat(s, *l, b) && #[trigger] tok(b, "&"@) && pat(skip(aft(b, "&"@)), *r, t),
        Pattern::ChoicePair(l, r) => exists|b: Str| !is_pair(*l) && pat(s, *l, b) && #[trigger] tok(b, "|"@) && pat(skip(aft(b, "|"@)), *r, t),
        Pattern::Optional(p) => exists|b: Str| !is_pair(*p) && pat(s, *p, b) && #[trigger] tok(b, "?"@) && t == aft(b, "?"@),
        Pattern::ZeroOrMore(p) => exists|b: Str| !is_pair(*p) && pat(s, *p, b) && #[trigger] tok(b, "*"@) && t == aft(b, "*"@),
        Pattern::OneOrMore(p) => exists|b: Str| !is_pair(*p) && pat(s, *p, b) && #[trigger] tok(b, "+"@) && t == aft(b, "+"@),
        _ => exists|a: Str, b: Str| #[trigger] ann(s, a) && prim(a, x, b) && #[trigger] foll(b, t),
    }
}
pub open spec fn block(s: Str, x: Pattern, t: Str) -> bool decreases x, 3nat { tok(s, "{"@) && exists|b: Str| pat(skip(aft(s, "{"@)), x, b) && #[trigger] tok(b, "}"@) && t == aft(b, "}"@) }
pub open spec fn p_elem(s: Str, x: ElementPattern, t: Str) -> bool decreases x, 0nat { pre(s, "element"@) && ends(past(s, "element")) && el_body(skip(past(s, "element")), x.name_class, *x.pattern, t) }
pub open spec fn p_attr(s: Str, x: AttributePattern, t: Str) -> bool decreases x, 0nat { pre(s, "attribute"@) && ends(past(s, "attribute")) && el_body(skip(past(s, "attribute")), x.name_class, *x.pattern, t) }
pub open spec fn el_body(s: Str, n: NameClass, x: Pattern, t: Str) -> bool decreases x, 4nat { exists|a: Str| #[trigger] nc_(s, n, a) && block(a, x, t) }
pub open spec fn p_list(s: Str, x: ListPattern, t: Str) -> bool decreases x, 0nat { pre(s, "list"@) && block(past(s, "list"), *x.0, t) }
pub open spec fn p_mixed(s: Str, x: MixedPattern, t: Str) -> bool decreases x, 0nat { pre(s, "mixed"@) && block(past(s, "mixed"), *x.0, t) }
pub open spec fn p_value(s: Str, x: DatatypeValuePattern, t: Str) -> bool { match x.0 { None => literal_(skip(s), x.1, t), Some(n) => exists|a: Str| #[trigger] dtname(s, n, a) && literal_(skip(a), x.1, t) } }

pub open spec fn p_data(s: Str, x: DatatypeNamePattern, t: Str) -> bool decreases x, 0nat { d_name(s, x.0, x.1, x.2, t) }
pub open spec fn d_name(s: Str, n: DatatypeName, v: Option<Vec<Param>>, e: Option<Box<Pattern>>, t: Str) -> bool decreases e, 2nat { exists|a: Str| #[trigger] dtname(s, n, a) && match v { None => d_except(a, e, t), Some(w) => tok(a, "{"@) && d_params(skip(aft(a, "{"@)), w@, e, t) } }
pub open spec fn d_params(s: Str, w: Seq<Param>, e: Option<Box<Pattern>>, t: Str) -> bool decreases e, 1nat { exists|b: Str| #[trigger] params_(s, w, w.len(), b) && tok(b, "}"@) && d_except(aft(b, "}"@), e, t) }
pub open spec fn d_except(s: Str, e: Option<Box<Pattern>>, t: Str) -> bool decreases e, 0nat { match e { None => t == s, Some(p) => tok(s, "-"@) && pat(skip(aft(s, "-"@)), *p, t) } }
pub open spec fn p_ext(s: Str, x: ExternalPattern, t: Str) -> bool { pre(s, "external"@) && ends(past(s, "external")) && uri_inherit(skip(past(s, "external")), x.0, x.1, t) }
pub open spec fn uri_inherit(s: Str, u: Literal, h: Option<Inherit>, t: Str) -> bool { exists|a: Str| #[trigger] literal_(s, u, a) && opt_inherit(a, h, t) }
pub open spec fn p_gram(s: Str, x: GrammarPattern, t: Str) -> bool decreases x, 0nat { pre(s, "grammar"@) && p_body(past(s, "grammar"), x.content, t) }
pub open spec fn p_body(s: Str, v: Vec<GrammarContent>, t: Str) -> bool decreases v, 1nat { tok(s, "{"@) && exists|b: Str| gcs(skip(aft(s, "{"@)), v, v@.len(), b) && #[trigger] tok(b, "}"@) && t == aft(b, "}"@) }
pub open spec fn prim(s: Str, x: Pattern, t: Str) -> bool decreases x, 1nat {
    match x {
        Pattern::Element(e) => p_elem(s, e, t),
        Pattern::Attribute(e) => p_attr(s, e, t),
        Pattern::List(e) => p_list(s, e, t),
        Pattern::Mixed(e) => p_mixed(s, e, t),
        Pattern::Identifier(i) => ident(s, i.1@, t),
        Pattern::Parent(i) => pre(s, "parent"@) && ends(past(s, "parent")) && ident(skip(past(s, "parent")), i.1@, t),
        Pattern::Empty => kwd(s, "empty"@) && t == past(s, "empty"),
        Pattern::Text => kwd(s, "text"@) && t == past(s, "text"),
        Pattern::NotAllowed => kwd(s, "notAllowed"@) && t == past(s, "notAllowed"),
        Pattern::External(e) => p_ext(s, e, t),
        Pattern::Grammar(g) => p_gram(s, g, t),
        Pattern::Group(p) => pre(s, "("@) && p_close(skip(past(s, "(")), *p, t),
        Pattern::DatatypeValue(v) => p_value(s, v, t),
        Pattern::DatatypeName(v) => p_data(s, v, t),
        _ => false,
    }
}
pub open spec fn p_close(s: Str, x: Pattern, t: Str) -> bool decreases x, 3nat { exists|b: Str| pat(s, x, b) && #[trigger] tok(b, ")"@) && t == aft(b, ")"@) }
// the contents of grammars
pub open spec fn sym(m: AssignMethod) -> Str { match m { AssignMethod::Assign => "="@, AssignMethod::Choice => "|="@, AssignMethod::Interleave => "&="@ } }
pub open spec fn def_name(s: Str, n: Str, t: Str) -> bool { if n == "start"@ { pre(s, "start"@) && t == past(s, "start") } else { ident(s, n, t) } }
pub open spec fn def_at(s: Str, n: Str, m: AssignMethod, x: Pattern, t: Str) -> bool decreases x, 3nat { exists|b: Str| #[trigger] def_name(s, n, b) && tok(b, sym(m)) && pat(skip(aft(b, sym(m))), x, t) }
pub open spec fn define_(s: Str, x: Define, t: Str) -> bool decreases x, 0nat { def_at(s, x.1.1@, x.2, x.3, t) }
pub open spec fn gc(s: Str, x: GrammarContent, t: Str) -> bool decreases x, 1nat { exists|a: Str| #[trigger] ann(s, a) && gc0(a, x, t) }
pub open spec fn gc0(a: Str, x: GrammarContent, t: Str) -> bool decreases x, 0nat {
    match x {
        GrammarContent::Define(x) => define_(a, x, t),
        GrammarContent::Div(v) => pre(a, "div"@) && p_body(past(a, "div"), v, t),
        GrammarContent::Include(i) => include_(a, i, t),
        GrammarContent::Annotation(e) => a_elem(a, e, t),
    }
}
pub open spec fn gcs(s: Str, v: Vec<GrammarContent>, n: nat, t: Str) -> bool decreases v, 0nat, n {
    if n == 0 || n > v@.len() { n == 0 && t == s } else if n == 1 { gc(s, v@[0], t) }
    else { exists|m: Str| gcs(s, v, (n - 1) as nat, m) && #[trigger] next(m) && gc(skip(m), v@[n - 1], t) }
}
pub open spec fn include_(s: Str, x: Include, t: Str) -> bool decreases x, 0nat { pre(s, "include"@) && ends(past(s, "include")) && match x.2 { None => uri_inherit(skip(past(s, "include")), x.0, x.1, t), Some(v) => i_over(skip(past(s, "include")), x.0, x.1, v, t) } }
pub open spec fn i_over(s: Str, u: Literal, h: Option<Inherit>, v: Vec<IncludeContent>, t: Str) -> bool decreases v, 2nat { exists|b: Str| #[trigger] uri_inherit(s, u, h, b) && i_body(b, v, t) }
pub open spec fn i_body(s: Str, v: Vec<IncludeContent>, t: Str) -> bool decreases v, 1nat { tok(s, "{"@) && exists|b: Str| ics(skip(aft(s, "{"@)), v, v@.len(), b) && #[trigger] tok(b, "}"@) && t == aft(b, "}"@) }
pub open spec fn ic(s: Str, x: IncludeContent, t: Str) -> bool decreases x, 1nat { exists|a: Str| #[trigger] ann(s, a) && ic0(a, x, t) }
pub open spec fn ic0(a: Str, x: IncludeContent, t: Str) -> bool decreases x, 0nat {
    match x {
        IncludeContent::Define(x) => define_(a, x, t),
        IncludeContent::Div(v) => pre(a, "div"@) && i_body(past(a, "div"), v, t),
        IncludeContent::Annotation(e) => a_elem(a, e, t),
    }
}
pub open spec fn ics(s: Str, v: Vec<IncludeContent>, n: nat, t: Str) -> bool decreases v, 0nat, n {
    if n == 0 || n > v@.len() { n == 0 && t == s } else if n == 1 { ic(s, v@[0], t) }
    else { exists|m: Str| ics(s, v, (n - 1) as nat, m) && #[trigger] next(m) && ic(skip(m), v@[n - 1], t) }
}
// a schema
pub open spec fn top(s: Str, x: Schema, t: Str) -> bool {
    exists|a: Str| #[trigger] decls_(s, x.decls@, x.decls@.len(), a) && match x.pattern_or_grammar {
        PatternOrGrammar::Grammar(g) => g.content@.len() > 0 && gcs(skip(a), g.content, g.content@.len(), t),
        PatternOrGrammar::Pattern(p) => pat(skip(a), p, t),
    }
}
pub open spec fn schema_(s: Str, x: Schema) -> bool { exists|b: Str| #[trigger] top(skip(s), x, b) && skip(b).len() == 0 }

proof fn lem_run(s: Str)
    ensures run(s) <= s.len(), forall|k: int| 0 <= k < run(s) ==> name_char(#[trigger] s[k]), run(s) < s.len() ==> !name_char(s[run(s) as int])
    decreases s.len()
{
    if s.len() > 0 && name_char(s[0]) {
        let t = s.drop_first();
        lem_run(t);
        assert forall|k: int| 0 <= k < run(s) implies name_char(#[trigger] s[k]) by { if k > 0 { assert(t[k - 1] == s[k]); } }
        if run(s) < s.len() { assert(t[run(t) as int] == s[run(s) as int]); }
    }
}
// ---- functions that call each other: the contract that is verified of the real one below
pub open spec fn c_pattern(i: Span<'_>, r: IRes<'_, Pattern>) -> bool { r matches Ok((j, x)) ==> pat(i@, x, j@) && stop(j@) }
pub open spec fn c_name_class(i: Span<'_>, r: IRes<'_, NameClass>) -> bool { r matches Ok((j, x)) ==> nc_(i@, x, j@) }
pub open spec fn c_grammar_content(i: Span<'_>, r: IRes<'_, GrammarContent>) -> bool { r matches Ok((j, x)) ==> gc(i@, x, j@) }
pub open spec fn c_include_content(i: Span<'_>, r: IRes<'_, IncludeContent>) -> bool { r matches Ok((j, x)) ==> ic(i@, x, j@) }
pub open spec fn c_annotation_element(i: Span<'_>, r: IRes<'_, AnnotationElement>) -> bool { r matches Ok((j, x)) ==> a_elem(i@, x, j@) }
#[verifier::external_body]
fn pattern<'a>(i: Span<'a>) -> (r: IRes<'a, Pattern>) ensures c_pattern(i, r) { unimplemented!() }
#[verifier::external_body]
fn name_class<'a>(i: Span<'a>) -> (r: IRes<'a, NameClass>) ensures c_name_class(i, r) { unimplemented!() }
#[verifier::external_body]
fn grammar_content<'a>(i: Span<'a>) -> (r: IRes<'a, GrammarContent>) ensures c_grammar_content(i, r) { unimplemented!() }
#[verifier::external_body]
fn include_content<'a>(i: Span<'a>) -> (r: IRes<'a, IncludeContent>) ensures c_include_content(i, r) { unimplemented!() }

#[verifier::external_body]
fn annotation_element<'a>(i: Span<'a>) -> (r: IRes<'a, AnnotationElement>) ensures c_annotation_element(i, r) { unimplemented!() }
// (positions are not specified)
#[verifier::external_body]
fn vx_end(s: &Span<'_>) -> usize { unimplemented!() }
#[verifier::external_body]
fn vx_start(n: &Name) -> usize { unimplemented!() }

//@fn c char_in params=range props=C10,C18
//@sig fn char_in(range: RangeInclusive<char>) -> (r: impl for<'a> Parser<'a, char>)
    requires !$range@.exhausted
    ensures r.req(), forall|i: Span<'_>, o: IRes<'_, char>| #[trigger] r.rel(i, o) ==> one(i@, $range@.start <= i@[0] && i@[0] <= $range@.end, o)
//@closure 0
    -> (b: bool) ensures b == ($range@.start <= $1 && $1 <= $range@.end)
//@end
//@fn c nc_name_start_char ret=r params=input props=C10,C18
    ensures one($input@, start_char($input@[0]), r)
//@end
//@fn c nc_name_char ret=r params=input props=C10,C18
    ensures one($input@, name_char($input@[0]), r)
//@end
//@fn c span ret=r params=start,end props=C10,C18
    ensures r.start == $start.offset(), r.end == $end.offset()
//@end
proof fn lem_many<'a, P: Parser<'a, char>>(p: P, i: Span<'a>, out: Str, j: Span<'a>)
    requires many_rel(p, i, out, j), forall|i: Span<'a>, o: IRes<'a, char>| #[trigger] p.rel(i, o) ==> one(i@, name_char(i@[0]), o)
    ensures j@ == i@.skip(run(i@) as int)
    decreases out.len()
{
    if out.len() == 0 { assert(j@ =~= i@.skip(0)); }
    else {
        let m = choose|m: Span<'a>| #[trigger] p.rel(i, Ok((m, out[0]))) && m@.len() != i@.len() && many_rel(p, m, out.drop_first(), j);
        lem_many(p, m, out.drop_first(), j);
        lem_run(i@.drop_first());
        assert(j@ =~= i@.skip(run(i@) as int));
    }
}
//@fn c nc_name ret=r params=input props=C10,C11,C12,C18
    ensures match r {
        Ok((j, n)) => ncn($input@) && n.1@ == wd($input@) && j@ == wr($input@),
        Err(NomErr::Error) => !ncn($input@),
        _ => true,
    }
//@closure 0
    -> (n: NcName) ensures n.1@ == $1.1@
//@pre
    proof {
        assert forall|p: Span<'_>, o: Str, j: Span<'_>| #[trigger] many_rel(nc_name_char, p, o, j) implies j@ == p@.skip(run(p@) as int) && run(p@) <= p@.len() by { lem_many(nc_name_char, p, o, j); lem_run(p@); }
    }
//@end

// ---- white space
proof fn lem_spaces(s: Str) ensures skip(spaces(s)) == skip(s), spaces(s).len() <= s.len(), s.len() > 0 && ws(s[0]) ==> spaces(s).len() < s.len() decreases s.len() { if s.len() > 0 && ws(s[0]) { lem_spaces(s.drop_first()); } }
proof fn lem_line(s: Str) ensures line(s).len() <= s.len() decreases s.len() { if s.len() > 0 && s[0] != '\r' && s[0] != '\n' { lem_line(s.drop_first()); } }
proof fn lem_line_cat(s: Str, x: Str, j: Str)
    requires s == x + j, forall|k: int| 0 <= k < x.len() ==> #[trigger] x[k] != '\r' && x[k] != '\n', j.len() > 0 ==> j[0] == '\r' || j[0] == '\n'
    ensures line(s) == j
    decreases x.len()
{
    if x.len() > 0 {
        assert(s[0] == x[0]);
        assert(s.drop_first() =~= x.drop_first() + j);
        assert forall|k: int| 0 <= k < x.drop_first().len() implies #[trigger] x.drop_first()[k] != '\r' && x.drop_first()[k] != '\n' by { assert(x.drop_first()[k] == x[k + 1]); }
        lem_line_cat(s.drop_first(), x.drop_first(), j);
    } else { assert(s =~= j); }
}
proof fn lem_skip_len(s: Str) ensures skip(s).len() <= s.len() decreases s.len() {
    if s.len() > 0 && ws(s[0]) { lem_skip_len(s.drop_first()); } else if s.len() > 0 && s[0] == '#' { lem_line(s.drop_first()); if line(s.drop_first()).len() < s.len() { lem_skip_len(line(s.drop_first())); } }
}
// what one round of the loop reads: white space, or a comment
pub open spec fn blank(i: Str, j: Str) -> bool { j.len() < i.len() && ((ws(i[0]) && j == spaces(i)) || (i[0] == '#' && j == line(i.drop_first()))) }
proof fn lem_blanks<'a, P: Parser<'a, Span<'a>>>(p: P, i: Span<'a>, out: Seq<Span<'a>>, j: Span<'a>)
    requires many_rel(p, i, out, j),
        forall|i: Span<'a>, j: Span<'a>, x: Span<'a>| #[trigger] p.rel(i, Ok((j, x))) ==> blank(i@, j@),
        forall|i: Span<'a>| #[trigger] failed(p, i) ==> !(i@.len() > 0 && (ws(i@[0]) || i@[0] == '#')),
    ensures j@ == skip(i@), out.len() > 0 ==> j@.len() < i@.len()
    decreases out.len()
{
    if out.len() > 0 {
        let m = choose|m: Span<'a>| #[trigger] p.rel(i, Ok((m, out[0]))) && m@.len() != i@.len() && many_rel(p, m, out.drop_first(), j);
        lem_blanks(p, m, out.drop_first(), j);
        lem_spaces(i@); lem_line(i@.drop_first());
        if ws(i@[0]) { assert(skip(i@) == skip(m@)); } else { assert(skip(i@) == skip(m@)); }
        lem_skip_len(m@);
    }
}
// texts of one character
proof fn lem_pre1(c: char, k: Str) requires k.len() == 1, k[0] == c ensures forall|s: Str| #[trigger] pre(s, k) <==> s.len() > 0 && s[0] == c
{
    assert forall|s: Str| #[trigger] pre(s, k) <==> s.len() > 0 && s[0] == c by { if s.len() > 0 { assert(s.take(1)[0] == s[0]); if s[0] == c { assert(s.take(1) =~= k); } } }
}
//@fn c comment ret=r params=input props=C10,C18
    ensures match r { Ok((j, x)) => $input@.len() > 0 && $input@[0] == '#' && j@ == line($input@.drop_first()) && j@.len() < $input@.len(), Err(NomErr::Error) => !($input@.len() > 0 && $input@[0] == '#'), _ => true }
//@pre
    proof {
        reveal_strlit("#"); lem_pre1('#', "#"@);
        reveal_strlit("\r\n");
        assert forall|c: char| #[trigger] "\r\n"@.contains(c) <==> (c == '\r' || c == '\n') by { if c == '\r' { assert("\r\n"@[0] == c); } if c == '\n' { assert("\r\n"@[1] == c); } }
        lem_line($input@.drop_first());
        assert($input@.len() > 0 ==> $input@.skip(1) =~= $input@.drop_first());
        assert forall|x: Str, j: Str| $input@.drop_first() == #[trigger] (x + j) && (forall|k: int| 0 <= k < x.len() ==> !"\r\n"@.contains(#[trigger] x[k])) && (j.len() > 0 ==> "\r\n"@.contains(j[0])) implies line($input@.drop_first()) == j by {
            assert forall|k: int| 0 <= k < x.len() implies #[trigger] x[k] != '\r' && x[k] != '\n' by { assert(!"\r\n"@.contains(x[k])); }
            lem_line_cat($input@.drop_first(), x, j);
        }
    }
//@end
//@fn c space_comment0 ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> j@ == skip($input@) && next($input@)
//@pre
    proof {
        let p = Alt { t: (multispace1, comment) };
        assert forall|i: Span<'_>, j: Span<'_>, x: Span<'_>| #[trigger] p.rel(i, Ok((j, x))) implies blank(i@, j@) by { lem_spaces(i@); }
        assert forall|i: Span<'_>| #[trigger] failed(p, i) implies !(i@.len() > 0 && (ws(i@[0]) || i@[0] == '#')) by { assert(failed(multispace1, i)); assert(failed(comment, i)); }
        assert forall|i: Span<'_>, o: Seq<Span<'_>>, j: Span<'_>| #[trigger] many_rel(p, i, o, j) implies j@ == skip(i@) && (o.len() > 0 ==> j@.len() < i@.len()) by { lem_blanks(p, i, o, j); }
    }
//@end
//@fn c space_comment1 ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> j@ == skip($input@) && next($input@) && ends($input@)
//@pre
    proof {
        let p = Alt { t: (multispace1, comment) };
        assert forall|i: Span<'_>, j: Span<'_>, x: Span<'_>| #[trigger] p.rel(i, Ok((j, x))) implies blank(i@, j@) by { lem_spaces(i@); }
        assert forall|i: Span<'_>| #[trigger] failed(p, i) implies !(i@.len() > 0 && (ws(i@[0]) || i@[0] == '#')) by { assert(failed(multispace1, i)); assert(failed(comment, i)); }
        assert forall|i: Span<'_>, o: Seq<Span<'_>>, j: Span<'_>| #[trigger] many_rel(p, i, o, j) implies j@ == skip(i@) && (o.len() > 0 ==> j@.len() < i@.len()) by { lem_blanks(p, i, o, j); }
        if skip($input@) != $input@ { assert($input@.len() > 0 && (ws($input@[0]) || $input@[0] == '#')); }
    }
//@end

// ---- words
proof fn lem_runs(s: Str, k: Str)
    requires pre(s, k), k.len() > 0, forall|i: int| 0 <= i < k.len() ==> name_char(#[trigger] k[i])
    ensures run(s) >= k.len(), ends(s.skip(k.len() as int)) ==> run(s) == k.len()
    decreases k.len()
{
    assert(s[0] == s.take(k.len() as int)[0]);
    let t = s.drop_first();
    if k.len() > 1 {
        assert(t.take(k.len() - 1) =~= k.drop_first()) by { assert forall|i: int| 0 <= i < k.len() - 1 implies t[i] == k.drop_first()[i] by { assert(s.take(k.len() as int)[i + 1] == k[i + 1]); } }
        assert forall|i: int| 0 <= i < k.drop_first().len() implies name_char(#[trigger] k.drop_first()[i]) by { assert(k.drop_first()[i] == k[i + 1]); }
        lem_runs(t, k.drop_first());
        assert(t.skip(k.len() - 1) =~= s.skip(k.len() as int));
    } else { assert(t =~= s.skip(1)); }
}
// keywords are names, and none is the beginning of another
proof fn lem_kw_chars(k: Str) requires is_kw(k) ensures k.len() >= 3, forall|i: int| 0 <= i < k.len() ==> #[trigger] name_char(k[i]), start_char(k[0])
{
    reveal_strlit("attribute"); reveal_strlit("default"); reveal_strlit("datatypes"); reveal_strlit("div"); reveal_strlit("element"); reveal_strlit("empty"); reveal_strlit("external"); reveal_strlit("grammar"); reveal_strlit("include"); reveal_strlit("inherit"); reveal_strlit("list"); reveal_strlit("mixed"); reveal_strlit("namespace"); reveal_strlit("notAllowed"); reveal_strlit("parent"); reveal_strlit("start"); reveal_strlit("string"); reveal_strlit("text"); reveal_strlit("token");
}
#[verifier::spinoff_prover]
proof fn lem_kw_code(k: Str, j: Str) requires is_kw(k), is_kw(j), k[0] == j[0], k[1] == j[1], k[2] == j[2] ensures k == j
{
    reveal_strlit("attribute"); reveal_strlit("default"); reveal_strlit("datatypes"); reveal_strlit("div"); reveal_strlit("element"); reveal_strlit("empty"); reveal_strlit("external"); reveal_strlit("grammar"); reveal_strlit("include"); reveal_strlit("inherit"); reveal_strlit("list"); reveal_strlit("mixed"); reveal_strlit("namespace"); reveal_strlit("notAllowed"); reveal_strlit("parent"); reveal_strlit("start"); reveal_strlit("string"); reveal_strlit("text"); reveal_strlit("token");
}
proof fn lem_kw_pre(k: Str, j: Str) requires is_kw(k), is_kw(j), pre(k, j) ensures k == j {
    lem_kw_chars(k); lem_kw_chars(j);
    assert(k.take(j.len() as int)[0] == k[0] && k.take(j.len() as int)[1] == k[1] && k.take(j.len() as int)[2] == k[2]);
    lem_kw_code(k, j);
}
proof fn lem_kw(s: Str, k: Str) requires is_kw(k), pre(s, k)
    ensures ncn(s), ends(s.skip(k.len() as int)) ==> wd(s) == k && wr(s) == s.skip(k.len() as int), is_kw(wd(s)) ==> wd(s) == k && wr(s) == s.skip(k.len() as int) && ends(s.skip(k.len() as int))
{
    lem_kw_chars(k); lem_runs(s, k); lem_run(s);
    assert(s[0] == s.take(k.len() as int)[0]);
    if is_kw(wd(s)) { assert(wd(s).take(k.len() as int) =~= s.take(k.len() as int)); lem_kw_pre(wd(s), k); }
}
proof fn lem_kw_all(s: Str) ensures forall|k: Str| #[trigger] pre(s, k) && is_kw(k) ==> ncn(s) && (ends(s.skip(k.len() as int)) ==> wd(s) == k && wr(s) == s.skip(k.len() as int)) && (is_kw(wd(s)) ==> wd(s) == k && ends(s.skip(k.len() as int))),
    is_kw(wd(s)) ==> pre(s, wd(s))
{
    assert forall|k: Str| #[trigger] pre(s, k) && is_kw(k) implies ncn(s) && (ends(s.skip(k.len() as int)) ==> wd(s) == k && wr(s) == s.skip(k.len() as int)) && (is_kw(wd(s)) ==> wd(s) == k && ends(s.skip(k.len() as int))) by { lem_kw(s, k); }
    lem_run(s);
}
//@fn c keyword ret=r params=input props=C10,C18
    ensures match r { Ok((j, k)) => ncn($input@) && is_kw(wd($input@)) && k.1@ == wd($input@) && j@ == wr($input@), Err(NomErr::Error) => !is_kw(wd($input@)), _ => true }
//@closure 0
    -> (k: Keyword) ensures k.1@ == $1.0@
//@pre
    proof { lem_kw_all($input@); }
//@end

//@fn c identifier ret=r params=input props=C10,C11,C12,C18
    ensures match r { Ok((j, x)) => ident($input@, x.1@, j@), Err(NomErr::Error) => ncn($input@) ==> is_kw(wd($input@)), _ => true }
//@closure 0
    -> (r: (Span<'_>, Identifier)) ensures r.0 == $1.0, r.1.1@ == $1.1@
//@pre
    proof {
        reveal_strlit("\\"); lem_pre1('\\', "\\"@);
        let t = $input@.drop_first();
        lem_run(t); lem_run($input@);
        if $input@.len() > 0 {
            assert($input@.skip(1) =~= t);
            assert($input@.len() - wr(t).len() == 1 + run(t));
            assert($input@.take((1 + run(t)) as int) =~= seq![$input@[0]] + wd(t));
            assert($input@.len() - wr($input@).len() == run($input@));
        }
    }
//@end
//@fn c identifier_or_keyword ret=r params=input props=C10,C11,C12,C18
    ensures r matches Ok((j, x)) ==> ident_kw($input@, idk(x), j@)
//@closure 0
    -> (r: IdentifierOrKeyword) ensures idk(r) == no_bs($1.1@)
//@pre
    proof {
        let t = $input@.drop_first();
        lem_run(t); lem_run($input@);
        assert(ncn(t) ==> wd(t)[0] == t[0] && no_bs(wd(t)) == wd(t));
        assert(ncn($input@) ==> wd($input@)[0] == $input@[0] && no_bs(wd($input@)) == wd($input@));
        let y = seq!['\\'] + wd(t);
        assert(y.drop_first() =~= wd(t));
        assert(ncn(t) ==> no_bs(y) == wd(t));
    }
//@end
// ---- literals and declarations
proof fn lem_q3(s: Str, m: Str, b: Str, n: Str, t: Str, q: Str)
    requires pre(s, q), m == s.skip(q.len() as int), m == b + n, pre(n, q), t == n.skip(q.len() as int), forall|k: int| 0 <= k < b.len() ==> !#[trigger] occurs(m, q, k)
    ensures q3(s, q, b, t)
{
    assert(n =~= q + t) by { assert(n =~= n.take(q.len() as int) + n.skip(q.len() as int)); }
    assert(s =~= s.take(q.len() as int) + m);
    assert(s =~= q + b + q + t);
    assert(b + q + t =~= m);
}
proof fn lem_q1(s: Str, m: Str, b: Str, n: Str, t: Str, q: char, qs: Str)
    requires qs.len() == 1, qs[0] == q, pre(s, qs), m == s.skip(1), m == b + n, pre(n, qs), t == n.skip(1), !b.contains(q), !b.contains('\n')
    ensures q1(s, q, b, t)
{
    assert(qs =~= seq![q]);
    assert(n =~= qs + t) by { assert(n =~= n.take(1) + n.skip(1)); }
    assert(s =~= s.take(1) + m);
    assert(s =~= seq![q] + b + seq![q] + t);
}
//@fn c literal_segment ret=r params=input props=C10,C11,C12,C18
    ensures r matches Ok((j, x)) ==> segment($input@, x.body@, j@)
//@pre
    proof {
        reveal_strlit("\"\"\""); reveal_strlit("'''"); reveal_strlit("\""); reveal_strlit("'"); reveal_strlit("\"\n"); reveal_strlit("'\n");
        assert("\"\"\""@ =~= seq!['"', '"', '"']); assert("'''"@ =~= seq!['\'', '\'', '\'']);
        assert("\"\n"@[0] == '"' && "\"\n"@[1] == '\n' && "'\n"@[0] == '\'' && "'\n"@[1] == '\n');
        assert("\"\n"@.contains('"') && "\"\n"@.contains('\n') && "'\n"@.contains('\'') && "'\n"@.contains('\n'));
        let s = $input@;
        assert forall|q: Str, b: Str, n: Str| (q == "\"\"\""@ || q == "'''"@) && pre(s, q) && s.skip(q.len() as int) == #[trigger] (b + n) && #[trigger] pre(n, q) && (forall|k: int| 0 <= k < b.len() ==> !#[trigger] occurs(s.skip(q.len() as int), q, k)) implies q3(s, q, b, n.skip(q.len() as int)) by { lem_q3(s, s.skip(q.len() as int), b, n, n.skip(q.len() as int), q); }
        // what recognize(opt(is_not(..))) gives is all of it
        assert forall|b: Str, n: Str| (#[trigger] (b + n)).take((b + n).len() - n.len()) == b by { assert((b + n).take(b.len() as int) =~= b); }
        assert forall|m: Str| #[trigger] m.take(0) == Seq::<char>::empty() by { assert(m.take(0) =~= Seq::<char>::empty()); }
        assert(Seq::<char>::empty() + s.skip(1) =~= s.skip(1));
        assert forall|b: Str, n: Str| #[trigger] (b + n) == s.skip(1) && pre(s, "\""@) && pre(n, "\""@) && (forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] != '"' && b[k] != '\n') implies q1(s, '"', b, n.skip(1)) by { lem_q1(s, s.skip(1), b, n, n.skip(1), '"', "\""@); }
        assert forall|b: Str, n: Str| #[trigger] (b + n) == s.skip(1) && pre(s, "'"@) && pre(n, "'"@) && (forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] != '\'' && b[k] != '\n') implies q1(s, '\'', b, n.skip(1)) by { lem_q1(s, s.skip(1), b, n, n.skip(1), '\'', "'"@); }
    }
//@end
// a list with separators, for each kind of item
proof fn lem_segments<'a, S, P: Parser<'a, LiteralSegment>, Q: Parser<'a, S>>(q: Q, p: P, i: Span<'a>, v: Seq<LiteralSegment>, n: nat, j: Span<'a>)
    requires sep_rel(q, p, i, v, n, j), n > 0,
        forall|i: Span<'a>, j: Span<'a>, x: LiteralSegment| #[trigger] p.rel(i, Ok((j, x))) ==> segment(i@, x.body@, j@),
        forall|i: Span<'a>, j: Span<'a>, x: S| #[trigger] q.rel(i, Ok((j, x))) ==> tok(i@, "~"@) && j@ == skip(aft(i@, "~"@)),
    ensures segments(i@, v, n, j@)
    decreases n
{
    if n > 1 {
        let (m1, m2, y) = choose|m1: Span<'a>, m2: Span<'a>, y: S| sep_rel(q, p, i, v, (n - 1) as nat, m1) && #[trigger] q.rel(m1, Ok((m2, y))) && #[trigger] p.rel(m2, Ok((j, v[n - 1])));
        lem_segments(q, p, i, v, (n - 1) as nat, m1);
    }
}
//@fn c literal ret=r params=input props=C10,C11,C12,C18
    ensures r matches Ok((j, x)) ==> literal_($input@, x, j@)
//@closure 0
    -> (r: Literal) ensures r.1 == $1.1
//@pre
    proof {
        let q = (space_comment0, Tag { t: "~" }, space_comment0);
        assert forall|i: Span<'_>, v: Seq<LiteralSegment>, n: nat, j: Span<'_>| #[trigger] sep_rel(q, literal_segment, i, v, n, j) && n > 0 implies segments(i@, v, n, j@) by { lem_segments(q, literal_segment, i, v, n, j); }
    }
//@end
//@fn c any_uri_literal ret=r params=input props=C10,C11,C12,C18
    ensures r matches Ok((j, x)) ==> literal_($input@, x, j@)
//@end
//@fn c datatype_value ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> literal_($input@, x, j@)
//@end
//@fn c namespace_uri_literal ret=r params=input props=C10,C11,C18
    ensures r matches Ok((j, x)) ==> uri_($input@, x, j@)
//@closure 0
    -> (r: NamespaceUriLiteral) ensures r is Inherit
//@end
impl VxShow for IdentifierOrKeyword { open spec fn shown(&self) -> Seq<char> { idk(*self) } }
//@fn c decl_namespace ret=r params=input props=C10,C11,C18
    ensures r matches Ok((j, x)) ==> decl_ns($input@, x, j@)
//@end
//@fn c decl_default_namespace ret=r params=input props=C10,C11,C18
    ensures r matches Ok((j, x)) ==> decl_default($input@, x, j@)
//@closure 0
    -> (r: String) ensures r@ == idk($1)
//@end
//@fn c decl_datatypes ret=r params=input props=C10,C11,C18
    ensures r matches Ok((j, x)) ==> decl_types($input@, x, j@)
//@end
//@fn c decl ret=r params=input props=C10,C11,C18
    ensures r matches Ok((j, x)) ==> decl_($input@, x, j@)
//@end
//@fn c inherit ret=r params=input props=C10,C11,C18
    ensures r matches Ok((j, x)) ==> inherit_($input@, x, j@)
//@closure 0
    -> (r: Inherit) ensures r.0 == $1.4
//@end
//@fn c cname ret=r params=input props=C10,C11,C18
    ensures r matches Ok((j, x)) ==> cname_($input@, x, j@)
//@closure 0
    -> (r: QName) ensures r.0 == $1.0, r.1 == $1.2
//@end
//@fn c name ret=r params=input props=C10,C11,C18
    ensures r matches Ok((j, x)) ==> name_($input@, x, j@)
//@end
//@fn c datatype_name ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> dtname($input@, x, j@)
//@closure 0
    -> (r: DatatypeName) ensures r is String
//@closure 1
    -> (r: DatatypeName) ensures r is Token
//@end
//@fn c param ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> param_($input@, x, j@)
//@closure 0
    -> (r: Param) ensures r.2 == $1.3, r.3 == $1.7
//@end
// ---- annotations
proof fn lem_a_attrs<'a, S, P: Parser<'a, AnnotationAttribute>, Q: Parser<'a, S>>(q: Q, p: P, i: Span<'a>, v: Seq<AnnotationAttribute>, n: nat, j: Span<'a>)
    requires sep_rel(q, p, i, v, n, j),
        forall|i: Span<'a>, j: Span<'a>, x: AnnotationAttribute| #[trigger] p.rel(i, Ok((j, x))) ==> a_attr(i@, x, j@),
        forall|i: Span<'a>, j: Span<'a>, x: S| #[trigger] q.rel(i, Ok((j, x))) ==> next(i@) && j@ == skip(i@),
    ensures a_attrs(i@, v, n, j@)
    decreases n
{
    if n > 1 {
        let (m1, m2, y) = choose|m1: Span<'a>, m2: Span<'a>, y: S| sep_rel(q, p, i, v, (n - 1) as nat, m1) && #[trigger] q.rel(m1, Ok((m2, y))) && #[trigger] p.rel(m2, Ok((j, v[n - 1])));
        lem_a_attrs(q, p, i, v, (n - 1) as nat, m1);
    }
}
proof fn lem_a_elems<'a, S, P: Parser<'a, AnnotationElement>, Q: Parser<'a, S>>(q: Q, p: P, i: Span<'a>, v: Seq<AnnotationElement>, n: nat, j: Span<'a>)
    requires sep_rel(q, p, i, v, n, j),
        forall|i: Span<'a>, j: Span<'a>, x: AnnotationElement| #[trigger] p.rel(i, Ok((j, x))) ==> a_elem(i@, x, j@),
        forall|i: Span<'a>, j: Span<'a>, x: S| #[trigger] q.rel(i, Ok((j, x))) ==> next(i@) && j@ == skip(i@),
    ensures a_elems(i@, v, n, j@)
    decreases n
{
    if n > 1 {
        let (m1, m2, y) = choose|m1: Span<'a>, m2: Span<'a>, y: S| sep_rel(q, p, i, v, (n - 1) as nat, m1) && #[trigger] q.rel(m1, Ok((m2, y))) && #[trigger] p.rel(m2, Ok((j, v[n - 1])));
        lem_a_elems(q, p, i, v, (n - 1) as nat, m1);
    }
}
proof fn lem_folls<'a, S, P: Parser<'a, AnnotationElement>, Q: Parser<'a, S>>(q: Q, p: P, i: Span<'a>, v: Seq<AnnotationElement>, n: nat, j: Span<'a>)
    requires sep_rel(q, p, i, v, n, j),
        forall|i: Span<'a>, j: Span<'a>, x: AnnotationElement| #[trigger] p.rel(i, Ok((j, x))) ==> foll1(i@, x, j@),
        forall|i: Span<'a>, j: Span<'a>, x: S| #[trigger] q.rel(i, Ok((j, x))) ==> next(i@) && j@ == skip(i@),
    ensures folls(i@, v, n, j@)
    decreases n
{
    if n > 1 {
        let (m1, m2, y) = choose|m1: Span<'a>, m2: Span<'a>, y: S| sep_rel(q, p, i, v, (n - 1) as nat, m1) && #[trigger] q.rel(m1, Ok((m2, y))) && #[trigger] p.rel(m2, Ok((j, v[n - 1])));
        lem_folls(q, p, i, v, (n - 1) as nat, m1);
    }
}
proof fn lem_a_items<'a, S, P: Parser<'a, AnnotationElementOrLiteral>, Q: Parser<'a, S>>(q: Q, p: P, i: Span<'a>, v: Vec<AnnotationElementOrLiteral>, n: nat, j: Span<'a>)
    requires sep_rel(q, p, i, v@, n, j),
        forall|i: Span<'a>, j: Span<'a>, x: AnnotationElementOrLiteral| #[trigger] p.rel(i, Ok((j, x))) ==> a_item(i@, x, j@),
        forall|i: Span<'a>, j: Span<'a>, x: S| #[trigger] q.rel(i, Ok((j, x))) ==> next(i@) && j@ == skip(i@),
    ensures a_items(i@, v, n, j@)
    decreases n
{
    if n > 1 {
        let (m1, m2, y) = choose|m1: Span<'a>, m2: Span<'a>, y: S| sep_rel(q, p, i, v@, (n - 1) as nat, m1) && #[trigger] q.rel(m1, Ok((m2, y))) && #[trigger] p.rel(m2, Ok((j, v@[n - 1])));
        lem_a_items(q, p, i, v, (n - 1) as nat, m1);
    }
}
//@fn c annotation_attribute ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> a_attr($input@, x, j@)
//@closure 0
    -> (r: AnnotationAttribute) ensures r.name == $1.0, r.value == $1.4
//@end
//@fn c annotation_element_or_literal ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> a_item($input@, x, j@)
//@pre
    proof { reveal_with_fuel(a_item, 2); }
//@end
//@fn c annotation_element as=vx_annotation_element ret=r params=input props=C10,C18
    ensures c_annotation_element($input, r)
//@closure 0
    -> (r: AnnotationElement) ensures r.name == $1.0, r.annotation_attributes == $1.4, r.annotation_elements_or_literals == $1.6
//@pre
    proof {
        assert forall|i: Span<'_>, v: Seq<AnnotationAttribute>, j: Span<'_>| #[trigger] sep_rel(space_comment1, annotation_attribute, i, v, v.len(), j) implies a_attrs(i@, v, v.len(), j@) by { lem_a_attrs(space_comment1, annotation_attribute, i, v, v.len(), j); }
        assert forall|i: Span<'_>, v: Vec<AnnotationElementOrLiteral>, j: Span<'_>| #[trigger] sep_rel(space_comment1, annotation_element_or_literal, i, v@, v@.len(), j) implies a_items(i@, v, v@.len(), j@) by { lem_a_items(space_comment1, annotation_element_or_literal, i, v, v@.len(), j); }
        assert forall|s: Str, w: Vec<AnnotationElementOrLiteral>, b: Str| #[trigger] a_items(s, w, w@.len(), b) && pre(skip(b), "]"@) implies a_close(s, w, aft(b, "]"@)) by { assert(tok(b, "]"@)); }
        reveal_with_fuel(a_elem, 4);
    }
//@end
//@fn c annotation_element_not_keyword ret=r params=input props=C10,C18
    ensures c_annotation_element($input, r)
//@end
//@fn c follow_annotation ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> foll1($input@, x, j@)
//@end
//@fn c follow_annotation_list ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> foll($input@, j@)
//@pre
    proof {
        assert forall|i: Span<'_>, v: Seq<AnnotationElement>, j: Span<'_>| #[trigger] sep_rel(space_comment0, follow_annotation, i, v, v.len(), j) implies folls(i@, v, v.len(), j@) by { lem_folls(space_comment0, follow_annotation, i, v, v.len(), j); }
        reveal(foll);
    }
//@end
//@fn c initial_annotation ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> init_ann($input@, x, j@)
//@closure 0
    -> (r: InitialAnnotation) ensures r.attribute_annotations == $1.2, r.element_annotations == $1.4
//@pre
    proof {
        assert forall|i: Span<'_>, v: Seq<AnnotationAttribute>, j: Span<'_>| #[trigger] sep_rel(space_comment1, annotation_attribute, i, v, v.len(), j) implies a_attrs(i@, v, v.len(), j@) by { lem_a_attrs(space_comment1, annotation_attribute, i, v, v.len(), j); }
        assert forall|i: Span<'_>, v: Seq<AnnotationElement>, j: Span<'_>| #[trigger] sep_rel(space_comment1, annotation_element, i, v, v.len(), j) implies a_elems(i@, v, v.len(), j@) by { lem_a_elems(space_comment1, annotation_element, i, v, v.len(), j); }
    }
//@end
//@fn c maybe_initial_annotation ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> ann($input@, j@)
//@pre
    proof { reveal(some_ann); }
//@closure 0
    -> (r: InitialAnnotation) ensures r == $1.0
//@end
// ---- name classes
//@fn c ns_name_nc ret=r params=input props=C10,C11,C18
    ensures r matches Ok((j, x)) ==> nsn($input@, x, j@)
//@closure 0
    -> (r: NsName) ensures r.name == NamespaceOrPrefix::Prefix($1.0), match $1.2 { None => r.except is None, Some(e) => r.except matches Some(b) && *b == e.3 }
//@closure 1
    -> (r: Box<NameClass>) ensures *r == $1.3
//@end
//@fn c any_name_nc ret=r params=input props=C10,C11,C18
    ensures r matches Ok((j, x)) ==> anyn($input@, x, j@)
//@closure 0
    -> (r: AnyName) ensures match $1.1 { None => r.0 is None, Some(e) => r.0 matches Some(b) && *b == e.3 }
//@closure 1
    -> (r: Box<NameClass>) ensures *r == $1.3
//@end
//@fn c alt_nc ret=r params=input props=C10,C11,C18
    ensures r matches Ok((j, x)) ==> tok($input@, "|"@) && nc_(skip(aft($input@, "|"@)), x, j@)
//@closure 0
    -> (r: NameClass) ensures r == $1.3
//@end
//@fn c paren_nc ret=r params=input props=C10,C11,C18
    ensures r matches Ok((j, x)) ==> parn($input@, x, j@)
//@pre
    proof { assert forall|s: Str, x: NameClass, b: Str| #[trigger] nc_(s, x, b) && pre(skip(b), ")"@) implies nc_close(s, x, aft(b, ")"@)) by { assert(tok(b, ")"@)); } }
//@closure 0
    -> (r: ParenName) ensures *r.0 == $1.2
//@end
//@fn c name_class as=vx_name_class ret=r params=input props=C10,C11,C18
    ensures c_name_class($input, r)
//@pre
    proof {
        let i = $input@;
        assert forall|a: Str, n: NsName, b: Str, t: Str| #[trigger] ann(i, a) && #[trigger] nsn(a, n, b) && #[trigger] foll(b, t) implies nc1(i, NameClass::NsName(n), t) by { assert(nc0(a, NameClass::NsName(n), b)); }
        assert forall|a: Str, n: Name, b: Str, t: Str| #[trigger] ann(i, a) && #[trigger] name_(a, n, b) && #[trigger] foll(b, t) implies nc1(i, NameClass::Name(n), t) by { assert(nc0(a, NameClass::Name(n), b)); }
        assert forall|a: Str, n: AnyName, b: Str, t: Str| #[trigger] ann(i, a) && #[trigger] anyn(a, n, b) && #[trigger] foll(b, t) implies nc1(i, NameClass::AnyName(n), t) by { assert(nc0(a, NameClass::AnyName(n), b)); }
        assert forall|a: Str, n: ParenName, b: Str, t: Str| #[trigger] ann(i, a) && #[trigger] parn(a, n, b) && #[trigger] foll(b, t) implies nc1(i, NameClass::Paren(n), t) by { assert(nc0(a, NameClass::Paren(n), b)); }
    }
//@end
// ---- patterns
//@fn c element_pattern ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> p_elem($input@, x, j@)
//@closure 0
    -> (r: ElementPattern) ensures r.name_class == $1.2, *r.pattern == $1.6
//@pre
    proof { reveal_with_fuel(p_elem, 4); assert forall|u: Str, x: Pattern, b: Str| #[trigger] pat(u, x, b) && pre(skip(b), "}"@) implies tok(b, "}"@) by { } }
//@end
//@fn c attribute_pattern ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> p_attr($input@, x, j@)
//@closure 0
    -> (r: AttributePattern) ensures r.name_class == $1.2, *r.pattern == $1.6
//@pre
    proof { reveal_with_fuel(p_attr, 4); assert forall|u: Str, x: Pattern, b: Str| #[trigger] pat(u, x, b) && pre(skip(b), "}"@) implies tok(b, "}"@) by { } }
//@end
//@fn c list_pattern ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> p_list($input@, x, j@)
//@closure 0
    -> (r: ListPattern) ensures *r.0 == $1.4
//@pre
    proof { let a = past($input@, "list"); assert forall|u: Str, x: Pattern, b: Str| tok(a, "{"@) && u == skip(aft(a, "{"@)) && #[trigger] pat(u, x, b) && tok(b, "}"@) implies block(a, x, aft(b, "}"@)) by { } }
//@end
//@fn c mixed_pattern ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> p_mixed($input@, x, j@)
//@closure 0
    -> (r: MixedPattern) ensures *r.0 == $1.4
//@pre
    proof { let a = past($input@, "mixed"); assert forall|u: Str, x: Pattern, b: Str| tok(a, "{"@) && u == skip(aft(a, "{"@)) && #[trigger] pat(u, x, b) && tok(b, "}"@) implies block(a, x, aft(b, "}"@)) by { } }
//@end
//@fn c external_pattern ret=r params=input props=C12,C18
    ensures r matches Ok((j, x)) ==> p_ext($input@, x, j@)
//@closure 0
    -> (r: Inherit) ensures r == $1.1
//@closure 1
    -> (r: ExternalPattern) ensures r.0 == $1.2, r.1 == $1.3
//@end
// repetitions with white space between
proof fn lem_gcs<'a, S, P: Parser<'a, GrammarContent>, Q: Parser<'a, S>>(q: Q, p: P, i: Span<'a>, v: Vec<GrammarContent>, n: nat, j: Span<'a>)
    requires sep_rel(q, p, i, v@, n, j),
        forall|i: Span<'a>, j: Span<'a>, x: GrammarContent| #[trigger] p.rel(i, Ok((j, x))) ==> gc(i@, x, j@),
        forall|i: Span<'a>, j: Span<'a>, x: S| #[trigger] q.rel(i, Ok((j, x))) ==> next(i@) && j@ == skip(i@),
    ensures gcs(i@, v, n, j@)
    decreases n
{
    if n > 1 {
        let (m1, m2, y) = choose|m1: Span<'a>, m2: Span<'a>, y: S| sep_rel(q, p, i, v@, (n - 1) as nat, m1) && #[trigger] q.rel(m1, Ok((m2, y))) && #[trigger] p.rel(m2, Ok((j, v@[n - 1])));
        lem_gcs(q, p, i, v, (n - 1) as nat, m1);
    }
}
proof fn lem_ics<'a, S, P: Parser<'a, IncludeContent>, Q: Parser<'a, S>>(q: Q, p: P, i: Span<'a>, v: Vec<IncludeContent>, n: nat, j: Span<'a>)
    requires sep_rel(q, p, i, v@, n, j),
        forall|i: Span<'a>, j: Span<'a>, x: IncludeContent| #[trigger] p.rel(i, Ok((j, x))) ==> ic(i@, x, j@),
        forall|i: Span<'a>, j: Span<'a>, x: S| #[trigger] q.rel(i, Ok((j, x))) ==> next(i@) && j@ == skip(i@),
    ensures ics(i@, v, n, j@)
    decreases n
{
    if n > 1 {
        let (m1, m2, y) = choose|m1: Span<'a>, m2: Span<'a>, y: S| sep_rel(q, p, i, v@, (n - 1) as nat, m1) && #[trigger] q.rel(m1, Ok((m2, y))) && #[trigger] p.rel(m2, Ok((j, v@[n - 1])));
        lem_ics(q, p, i, v, (n - 1) as nat, m1);
    }
}
proof fn lem_params<'a, S, P: Parser<'a, Param>, Q: Parser<'a, S>>(q: Q, p: P, i: Span<'a>, v: Seq<Param>, n: nat, j: Span<'a>)
    requires sep_rel(q, p, i, v, n, j),
        forall|i: Span<'a>, j: Span<'a>, x: Param| #[trigger] p.rel(i, Ok((j, x))) ==> param_(i@, x, j@),
        forall|i: Span<'a>, j: Span<'a>, x: S| #[trigger] q.rel(i, Ok((j, x))) ==> next(i@) && j@ == skip(i@),
    ensures params_(i@, v, n, j@)
    decreases n
{
    if n > 1 {
        let (m1, m2, y) = choose|m1: Span<'a>, m2: Span<'a>, y: S| sep_rel(q, p, i, v, (n - 1) as nat, m1) && #[trigger] q.rel(m1, Ok((m2, y))) && #[trigger] p.rel(m2, Ok((j, v[n - 1])));
        lem_params(q, p, i, v, (n - 1) as nat, m1);
    }
}
proof fn lem_decls<'a, S, P: Parser<'a, Decl>, Q: Parser<'a, S>>(q: Q, p: P, i: Span<'a>, v: Seq<Decl>, n: nat, j: Span<'a>)
    requires sep_rel(q, p, i, v, n, j),
        forall|i: Span<'a>, j: Span<'a>, x: Decl| #[trigger] p.rel(i, Ok((j, x))) ==> decl_(i@, x, j@),
        forall|i: Span<'a>, j: Span<'a>, x: S| #[trigger] q.rel(i, Ok((j, x))) ==> next(i@) && j@ == skip(i@),
    ensures decls_(i@, v, n, j@)
    decreases n
{
    if n > 1 {
        let (m1, m2, y) = choose|m1: Span<'a>, m2: Span<'a>, y: S| sep_rel(q, p, i, v, (n - 1) as nat, m1) && #[trigger] q.rel(m1, Ok((m2, y))) && #[trigger] p.rel(m2, Ok((j, v[n - 1])));
        lem_decls(q, p, i, v, (n - 1) as nat, m1);
    }
}
//@fn c grammar_pattern ret=r params=input props=C09,C12,C18
    ensures r matches Ok((j, x)) ==> p_gram($input@, x, j@)
//@closure 0
    -> (r: GrammarPattern) ensures r.content == $1.4
//@pre
    proof {
        assert forall|i: Span<'_>, v: Vec<GrammarContent>, j: Span<'_>| #[trigger] sep_rel(space_comment1, grammar_content, i, v@, v@.len(), j) implies gcs(i@, v, v@.len(), j@) by { lem_gcs(space_comment1, grammar_content, i, v, v@.len(), j); }
        let a = past($input@, "grammar");
        assert forall|u: Str, v: Vec<GrammarContent>, b: Str| tok(a, "{"@) && u == skip(aft(a, "{"@)) && #[trigger] gcs(u, v, v@.len(), b) && tok(b, "}"@) implies p_body(a, v, aft(b, "}"@)) by { }
    }
//@end
//@fn c group_pattern ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> pre($input@, "("@) && p_close(skip(past($input@, "(")), x, j@)
//@closure 0
    -> (r: Pattern) ensures r == $1.2
//@pre
    proof { assert forall|s: Str, x: Pattern, b: Str| #[trigger] pat(s, x, b) && pre(skip(b), ")"@) implies p_close(s, x, aft(b, ")"@)) by { assert(tok(b, ")"@)); } }
//@end
//@fn c datatype_value_pattern ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> p_value($input@, x, j@)
//@closure 0
    -> (r: DatatypeValuePattern) ensures r.0 == $1.0, r.1 == $1.2
//@end
//@fn c except_pattern ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> pre($input@, "-"@) && pat(skip(past($input@, "-")), x, j@)
//@closure 0
    -> (r: Pattern) ensures r == $1.2
//@end
//@fn c datatype_param_pattern ret=r params=input props=C10,C18
    ensures r matches Ok((j, x)) ==> p_data($input@, x, j@)
//@closure 0
    -> (r: Vec<Param>) ensures r == $1.3
//@closure 1
    -> (r: Pattern) ensures r == $1.1
//@closure 2
    -> (r: DatatypeNamePattern) ensures r.0 == $1.0, r.1 == $1.1, match $1.2 { None => r.2 is None, Some(e) => r.2 matches Some(b) && *b == e }
//@pre
    proof {
        assert forall|i: Span<'_>, v: Seq<Param>, j: Span<'_>| #[trigger] sep_rel(space_comment1, param, i, v, v.len(), j) implies params_(i@, v, v.len(), j@) by { lem_params(space_comment1, param, i, v, v.len(), j); }
        reveal_with_fuel(p_data, 5);
    }
//@end
// ---- the contents of grammars
//@fn c assign_method ret=r params=input props=C09,C18
    ensures r matches Ok((j, x)) ==> pre($input@, sym(x)) && j@ == $input@.skip(sym(x).len() as int)
//@closure 0
    -> (r: AssignMethod) ensures r is Assign
//@closure 1
    -> (r: AssignMethod) ensures r is Choice
//@closure 2
    -> (r: AssignMethod) ensures r is Interleave
//@end
//@fn c start ret=r params=input props=C09,C18
    ensures r matches Ok((j, x)) ==> define_($input@, x, j@)
//@closure 0
    -> (r: Define) ensures r.1.1@ == "start"@, r.2 == $1.3, r.3 == $1.5
//@pre
    proof { reveal_with_fuel(define_, 3); assert(pre($input@, "start"@) ==> def_name($input@, "start"@, past($input@, "start"))); }
//@end
//@fn c define ret=r params=input props=C09,C18
    ensures r matches Ok((j, x)) ==> define_($input@, x, j@)
//@closure 0
    -> (r: Define) ensures r.1 == $1.1, r.2 == $1.3, r.3 == $1.5
//@pre
    proof { reveal_with_fuel(define_, 3); assert forall|n: Str, t: Str| #[trigger] ident($input@, n, t) implies def_name($input@, n, t) by { reveal_strlit("start"); assert(is_kw("start"@)); assert((seq!['\\'] + wd($input@.drop_first()))[0] == '\\'); } }
//@end
//@fn c div_grammar_content ret=r params=input props=C09,C12,C18
    ensures r matches Ok((j, x)) ==> pre($input@, "div"@) && p_body(past($input@, "div"), x, j@)
//@closure 0
    -> (r: Vec<GrammarContent>) ensures r == $1.4
//@pre
    proof {
        assert forall|i: Span<'_>, v: Vec<GrammarContent>, j: Span<'_>| #[trigger] sep_rel(space_comment1, grammar_content, i, v@, v@.len(), j) implies gcs(i@, v, v@.len(), j@) by { lem_gcs(space_comment1, grammar_content, i, v, v@.len(), j); }
        let a = past($input@, "div");
        assert forall|u: Str, v: Vec<GrammarContent>, b: Str| tok(a, "{"@) && u == skip(aft(a, "{"@)) && #[trigger] gcs(u, v, v@.len(), b) && tok(b, "}"@) implies p_body(a, v, aft(b, "}"@)) by { }
    }
//@end
//@fn c div_include_content ret=r params=input props=C12,C18
    ensures r matches Ok((j, x)) ==> pre($input@, "div"@) && i_body(past($input@, "div"), x, j@)
//@closure 0
    -> (r: Vec<IncludeContent>) ensures r == $1.4
//@pre
    proof {
        assert forall|i: Span<'_>, v: Vec<IncludeContent>, j: Span<'_>| #[trigger] sep_rel(space_comment1, include_content, i, v@, v@.len(), j) implies ics(i@, v, v@.len(), j@) by { lem_ics(space_comment1, include_content, i, v, v@.len(), j); }
        let a = past($input@, "div");
        assert forall|u: Str, v: Vec<IncludeContent>, b: Str| tok(a, "{"@) && u == skip(aft(a, "{"@)) && #[trigger] ics(u, v, v@.len(), b) && tok(b, "}"@) implies i_body(a, v, aft(b, "}"@)) by { }
    }
//@end
//@fn c include ret=r params=input props=C12,C18
    ensures r matches Ok((j, x)) ==> include_($input@, x, j@)
//@closure 0
    -> (r: Inherit) ensures r == $1.1
//@closure 1
    -> (r: Vec<IncludeContent>) ensures r == $1.3
//@closure 2
    -> (r: Include) ensures r.0 == $1.2, r.1 == $1.3, r.2 == $1.4
//@pre
    proof {
        assert forall|i: Span<'_>, v: Vec<IncludeContent>, j: Span<'_>| #[trigger] sep_rel(space_comment1, include_content, i, v@, v@.len(), j) implies ics(i@, v, v@.len(), j@) by { lem_ics(space_comment1, include_content, i, v, v@.len(), j); }
        reveal_with_fuel(include_, 4);
        let s = skip(past($input@, "include"));
        assert forall|u: Literal, a: Str| #[trigger] literal_(s, u, a) implies uri_inherit(s, u, None, a) && forall|h: Inherit, t: Str| next(a) && #[trigger] inherit_(skip(a), h, t) ==> uri_inherit(s, u, Some(h), t) by { }
        assert forall|u: Str, v: Vec<IncludeContent>, b: Str| #[trigger] ics(u, v, v@.len(), b) && pre(skip(b), "}"@) implies tok(b, "}"@) by { }
    }
//@end
//@fn c grammar_content as=vx_grammar_content ret=r params=input props=C09,C12,C18
    ensures c_grammar_content($input, r)
//@pre
    proof { reveal_with_fuel(gc, 2); }
//@end
//@fn c include_content as=vx_include_content ret=r params=input props=C12,C18
    ensures c_include_content($input, r)
//@pre
    proof { reveal_with_fuel(ic, 2); }
//@end
// ---- a schema
//@fn c top_level ret=r params=input props=C09,C10,C12,C18
    ensures r matches Ok((j, x)) ==> top($input@, x, j@)
//@closure 0
    -> (r: PatternOrGrammar) ensures r matches PatternOrGrammar::Grammar(g) && g.content == $1
//@closure 1
    -> (r: Schema) ensures r.decls == $1.0, r.pattern_or_grammar == $1.2
//@pre
    proof {
        assert forall|i: Span<'_>, v: Vec<GrammarContent>, j: Span<'_>| #[trigger] sep_rel(space_comment1, grammar_content, i, v@, v@.len(), j) implies gcs(i@, v, v@.len(), j@) by { lem_gcs(space_comment1, grammar_content, i, v, v@.len(), j); }
        assert forall|i: Span<'_>, v: Seq<Decl>, j: Span<'_>| #[trigger] sep_rel(space_comment1, decl, i, v, v.len(), j) implies decls_(i@, v, v.len(), j@) by { lem_decls(space_comment1, decl, i, v, v.len(), j); }
    }
//@end
//@fn c schema ret=r params=input props=C09,C10,C12,C18
    ensures r matches Ok(x) ==> schema_($input@, x)
//@closure 0
    -> (r: Schema) ensures r == $1.1.1
//@end
//@fn c pattern as=vx_pattern ret=r params=input props=C10,C18
    ensures c_pattern($input, r)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@closure 0
    -> (r: Pattern) ensures r == Pattern::Parent($1.2)
//@closure 1
    -> (r: Pattern) ensures r == Pattern::Empty
//@closure 2
    -> (r: Pattern) ensures r == Pattern::Text
//@closure 3
    -> (r: Pattern) ensures r == Pattern::NotAllowed
//@closure 4
    -> (r: Pattern) ensures r matches Pattern::Group(b) && *b == $1
//@pre
    let ghost s0 = $input@;
    proof {
        assert forall|a: Str| #[trigger] ann(s0, a) implies (forall|k: Str| #[trigger] pre(a, k) && is_kw(k) && (ncn(a) ==> is_kw(wd(a))) ==> ends(a.skip(k.len() as int))) by { lem_kw_all(a); }
        assert forall|a: Str, e: ElementPattern, b: Str, t: Str| #[trigger] ann(s0, a) && #[trigger] p_elem(a, e, b) && #[trigger] foll(b, t) implies pat(s0, Pattern::Element(e), t) by { assert(prim(a, Pattern::Element(e), b)); }
        assert forall|a: Str, e: AttributePattern, b: Str, t: Str| #[trigger] ann(s0, a) && #[trigger] p_attr(a, e, b) && #[trigger] foll(b, t) implies pat(s0, Pattern::Attribute(e), t) by { assert(prim(a, Pattern::Attribute(e), b)); }
        assert forall|a: Str, e: ListPattern, b: Str, t: Str| #[trigger] ann(s0, a) && #[trigger] p_list(a, e, b) && #[trigger] foll(b, t) implies pat(s0, Pattern::List(e), t) by { assert(prim(a, Pattern::List(e), b)); }
        assert forall|a: Str, e: MixedPattern, b: Str, t: Str| #[trigger] ann(s0, a) && #[trigger] p_mixed(a, e, b) && #[trigger] foll(b, t) implies pat(s0, Pattern::Mixed(e), t) by { assert(prim(a, Pattern::Mixed(e), b)); }
        assert forall|a: Str, e: DatatypeValuePattern, b: Str, t: Str| #[trigger] ann(s0, a) && #[trigger] p_value(a, e, b) && #[trigger] foll(b, t) implies pat(s0, Pattern::DatatypeValue(e), t) by { assert(prim(a, Pattern::DatatypeValue(e), b)); }
        assert forall|a: Str, e: DatatypeNamePattern, b: Str, t: Str| #[trigger] ann(s0, a) && #[trigger] p_data(a, e, b) && #[trigger] foll(b, t) implies pat(s0, Pattern::DatatypeName(e), t) by { assert(prim(a, Pattern::DatatypeName(e), b)); }
        assert forall|a: Str, e: ExternalPattern, b: Str, t: Str| #[trigger] ann(s0, a) && #[trigger] p_ext(a, e, b) && #[trigger] foll(b, t) implies pat(s0, Pattern::External(e), t) by { assert(prim(a, Pattern::External(e), b)); }
        assert forall|a: Str, e: GrammarPattern, b: Str, t: Str| #[trigger] ann(s0, a) && #[trigger] p_gram(a, e, b) && #[trigger] foll(b, t) implies pat(s0, Pattern::Grammar(e), t) by { assert(prim(a, Pattern::Grammar(e), b)); }
        assert forall|a: Str, e: Identifier, b: Str, t: Str| #[trigger] ann(s0, a) && #[trigger] ident(a, e.1@, b) && #[trigger] foll(b, t) implies pat(s0, Pattern::Identifier(e), t) by { assert(prim(a, Pattern::Identifier(e), b)); }
        assert forall|a: Str, u: Str, e: Identifier, b: Str, t: Str| #[trigger] ann(s0, a) && pre(a, "parent"@) && ends(past(a, "parent")) && u == skip(past(a, "parent")) && #[trigger] ident(u, e.1@, b) && #[trigger] foll(b, t) implies pat(s0, Pattern::Parent(e), t) by { assert(prim(a, Pattern::Parent(e), b)); }
        assert forall|a: Str, b: Str, t: Str| #[trigger] ann(s0, a) && kwd(a, "empty"@) && b == past(a, "empty") && #[trigger] foll(b, t) implies pat(s0, Pattern::Empty, t) by { assert(prim(a, Pattern::Empty, b)); }
        assert forall|a: Str, b: Str, t: Str| #[trigger] ann(s0, a) && kwd(a, "text"@) && b == past(a, "text") && #[trigger] foll(b, t) implies pat(s0, Pattern::Text, t) by { assert(prim(a, Pattern::Text, b)); }
        assert forall|a: Str, b: Str, t: Str| #[trigger] ann(s0, a) && kwd(a, "notAllowed"@) && b == past(a, "notAllowed") && #[trigger] foll(b, t) implies pat(s0, Pattern::NotAllowed, t) by { assert(prim(a, Pattern::NotAllowed, b)); }
        assert forall|a: Str, u: Str, x: Box<Pattern>, b: Str, t: Str| #[trigger] ann(s0, a) && pre(a, "("@) && u == skip(past(a, "(")) && #[trigger] p_close(u, *x, b) && #[trigger] foll(b, t) implies pat(s0, Pattern::Group(x), t) by { assert(prim(a, Pattern::Group(x), b)); }
    }
//@loop 0
    invariant_except_break pat(s0, result, input@), is_pair(result) ==> stop(input@)
    ensures pat(s0, result, input@), stop(input@)
//@loopbegin 0
    proof {
        reveal_strlit(","); lem_pre1(',', ","@);
        reveal_strlit("&"); lem_pre1('&', "&"@);
        reveal_strlit("|"); lem_pre1('|', "|"@);
        reveal_strlit("?"); lem_pre1('?', "?"@);
        reveal_strlit("*"); lem_pre1('*', "*"@);
        reveal_strlit("+"); lem_pre1('+', "+"@);
        assert(tok(input@, ","@) <==> pre(skip(input@), ","@));
        assert(tok(input@, "&"@) <==> pre(skip(input@), "&"@));
        assert(tok(input@, "|"@) <==> pre(skip(input@), "|"@));
        assert(tok(input@, "?"@) <==> pre(skip(input@), "?"@));
        assert(tok(input@, "*"@) <==> pre(skip(input@), "*"@));
        assert(tok(input@, "+"@) <==> pre(skip(input@), "+"@));
    }
//@end

}
fn main() {}
