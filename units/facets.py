"""writes facets.vrs (the per-type functions have the same contract, so its text is generated)"""
INT = [('Short','short','i16'),('UnsignedShort','unsigned_short','u16'),('Long','long','i64'),('Int','int','i32'),
       ('Integer','integer','bigint'),('PositiveInteger','positive_integer','biguint'),('UnsignedInt','unsigned_int','u32'),('UnsignedLong','unsigned_long','u64'),('Decimal','decimal','bigdecimal')]
RT = dict(i16='i16',u16='u16',i64='i64',i32='i32',u32='u32',u64='u64',bigint='BigInt',biguint='BigUint',bigdecimal='BigDecimal',usize='usize')
o = []
o.append(r'''//@include common.vrs
//@include iter.vrs
//@file x relaxng-model/src/datatype/xsd.rs
//@file t relaxng-syntax/src/types.rs
//@file d relaxng-model/src/datatype/relax.rs
//@strip types
//@strip relax
//@strip xsd
//@strip num_bigint
//@strip bigdecimal
//@strip regex
//@strip super::relax
//@typemap codemap :: Span => VxSpan
//@typemap types :: Span => Range<usize>
//@typemap Span => Range<usize>
//@typemap regex :: Error => RegexError
//@typemap std :: num :: ParseIntError => VxParseError
//@typemap num_bigint :: ParseBigIntError => VxParseError
//@typemap bigdecimal :: ParseBigDecimalError => VxParseError
//@typemap Option<InitialAnnotation> => Option<VxSpan>
//@fullslice as_str
//@method to_string => vx_to_string ref
//@inline is_some_and map=opt_map map_err unwrap_or=opt_unwrap_or
//@method trim_matches => vx_trim_matches
//@method is_ascii_whitespace => vx_is_ws ref
//@method skip_while => vx_skip_while
//@method push => vx_push mut
//@fnren i16 :: from_str => vx_from_str::<i16>
//@fnren u16 :: from_str => vx_from_str::<u16>
//@fnren i32 :: from_str => vx_from_str::<i32>
//@fnren u32 :: from_str => vx_from_str::<u32>
//@fnren i64 :: from_str => vx_from_str::<i64>
//@fnren u64 :: from_str => vx_from_str::<u64>
//@fnren num_bigint :: BigInt :: from_str => vx_from_str::<BigInt>
//@fnren num_bigint :: BigUint :: from_str => vx_from_str::<BigUint>
//@fnren bigdecimal :: BigDecimal :: from_str => vx_from_str::<BigDecimal>
//@exprmap num_bigint :: BigUint :: from (0u8) => vx_biguint_zero()
//@exprmap DURATION_RE . is_match (value) => vx_lexical("duration", value)
//@exprmap DATETIME_RE . is_match (value) => vx_lexical("dateTime", value)
//@exprmap LANG_RE . is_match (value) => vx_lexical("language", value)
//@exprmap chrono :: NaiveDate :: parse_from_str (value , "%Y-%m-%d") . is_ok () => vx_lexical("date", value)
//@exprmap value . parse :: < f64 > () . is_ok () => vx_lexical("double", value)
//@exprmap uriparse :: URIReference :: try_from (value) . is_ok () => vx_lexical("anyURI", value)
//@exprmap is_valid_ncname (value) => vx_lexical("NCName", value)
//@fnren is_valid_nmtoken => vx_nmtoken
//@method allows => LengthFacet::within ref
//@method chars => vx_chars
//@method count => vx_count
//@method parse => vx_parse ref
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use std::ops::Range;

// ---- mirrors of types of dependencies: only what is said here is known of them
#[derive(Copy, Clone)]
pub struct VxSpan { x: u64 }
pub struct VxParseError { x: u64 }
impl VxShow for VxParseError { uninterp spec fn shown(&self) -> Seq<char>; }
pub struct RegexError { x: u64 }
#[verifier::external_body]
pub struct Regex { x: u64 }
// what the regex crate does is taken as given: which texts are regular expressions, and what they find
pub uninterp spec fn regex_ok(p: Seq<char>) -> bool;
pub uninterp spec fn regex_finds(p: Seq<char>, v: Seq<char>) -> bool;
impl Regex {
    pub uninterp spec fn pat(self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: Result<Regex, RegexError>) ensures r is Ok <==> regex_ok(p@), r matches Ok(x) ==> x.pat() == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, v: &str) -> (r: bool) ensures r == regex_finds(self.pat(), v@) { unimplemented!() }
}
pub struct Context { x: u64 }
impl Context { #[verifier::external_body] pub fn convert_span(&self, s: &Range<usize>) -> VxSpan { unimplemented!() } }
// arbitrary-precision numbers: a total order is all that is assumed of them
#[verifier::external_body] pub struct BigInt { x: u64 }
#[verifier::external_body] pub struct BigUint { x: u64 }
#[verifier::external_body] pub struct BigDecimal { x: u64 }
''')
for b in ('BigInt','BigUint','BigDecimal'):
    o.append(f'''impl PartialEq for {b} {{ #[verifier::external_body] fn eq(&self, o: &{b}) -> bool {{ unimplemented!() }} }}
impl PartialOrd for {b} {{ #[verifier::external_body] fn partial_cmp(&self, o: &{b}) -> Option<Ordering> {{ unimplemented!() }} }}
#[verifier::external_body] proof fn ordered_{b}() ensures ordered::<{b}>(), <{b} as PartialEqSpec>::obeys_eq_spec() {{}}
''')
o.append(r'''
// ---- characters of a string, as a vector (std's Chars and its adaptors are mirrored by what they yield)
#[verifier::external_body]
fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
fn vx_count(v: Vec<char>) -> (r: usize) ensures r == v@.len() { v.len() }
// ---- numbers: which texts denote a value of the type, and which (str::parse of the type)
pub trait VxLex: Sized { spec fn lex(s: Seq<char>) -> Option<Self>; }
#[verifier::external_body]
fn vx_parse<T: VxLex>(s: &String) -> (r: Result<T, VxParseError>) ensures r is Ok <==> T::lex(s@) is Some, r matches Ok(v) ==> T::lex(s@) == Some(v) { unimplemented!() }
#[verifier::external_body]
fn vx_from_str<T: VxLex>(s: &str) -> (r: Result<T, VxParseError>) ensures r is Ok <==> T::lex(s@) is Some, r matches Ok(v) ==> T::lex(s@) == Some(v) { unimplemented!() }
// optional sign, then decimal digits
pub uninterp spec fn int_of(s: Seq<char>) -> Option<int>;
// lexical spaces decided by dependencies or regular expressions: taken as given
pub uninterp spec fn lexical(t: Seq<char>, v: Seq<char>) -> bool;
#[verifier::external_body]
fn vx_lexical(t: &str, v: &str) -> (r: bool) ensures r == lexical(t@, v@) { unimplemented!() }
pub uninterp spec fn biguint_zero() -> BigUint;
#[verifier::external_body]
fn vx_biguint_zero() -> (r: BigUint) ensures r == biguint_zero() { unimplemented!() }
// ---- white space
pub open spec fn ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0C' }
fn vx_is_ws(c: &char) -> (r: bool) ensures r == ws(*c) { *c == ' ' || *c == '\t' || *c == '\n' || *c == '\r' || *c == '\x0C' }
pub open spec fn trim_start(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s[0]) { trim_start(s.drop_first()) } else { s } }
pub open spec fn trim_end(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s.last()) { trim_end(s.drop_last()) } else { s } }
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s)) }
// str::trim_matches with a predicate that is white space
#[verifier::external_body]
fn vx_trim_matches<'a, F: Fn(char) -> bool>(s: &'a str, f: F) -> (r: &'a str)
    requires forall|c: char| f.requires((c,)), forall|c: char, b: bool| f.ensures((c,), b) ==> b == ws(c)
    ensures r@ == trim(s@)
{ s.trim_matches(|c: char| f(c)) }
// Iterator::skip_while, on the characters
#[verifier::external_body]
fn vx_skip_while<F: Fn(&char) -> bool>(v: Vec<char>, f: F) -> (r: Vec<char>)
    requires forall|c: &char| f.requires((c,)), forall|c: &char, b: bool| f.ensures((c,), b) ==> b == ws(*c)
    ensures r@ == trim_start(v@)
{ unimplemented!() }
#[verifier::external_body]
fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
''')
for t in ('i16','u16','i32','u32','i64','u64','usize'):
    o.append(f"impl VxLex for {t} {{ open spec fn lex(s: Seq<char>) -> Option<{t}> {{ match int_of(s) {{ Some(i) => if {t}::MIN <= i <= {t}::MAX {{ Some(i as {t}) }} else {{ None }}, None => None }} }} }}\n")
for t in ('BigInt','BigUint','BigDecimal'):
    o.append(f"impl VxLex for {t} {{ uninterp spec fn lex(s: Seq<char>) -> Option<{t}>; }}\n")
o.append(r'''
//@type x FacetError
//@type x LengthFacet
//@type x Min
//@type x Max
//@type x MinMaxFacet
//@type x PatternFacet
//@type x StringFacets
//@type x XsdDatatypes
//@type x QNameVal
//@type x XsdDatatypeValues
//@type d BuiltinDatatypeValue
//@type d BuiltinDatatype
//@type t Identifier
//@type t Keyword
//@type t IdentifierOrKeyword
//@type t LiteralSegment
//@type t Literal
//@type t Param
//@type t NcName
//@type t QName
//@type t NamespacedName
//@type t DatatypeName
//@type x XsdDatatypeError
//@type d Error as=RelaxError
//@file mo relaxng-model/src/datatype/mod.rs
//@type mo DatatypeValues
//@type mo Datatypes
//@typemap relax :: Error => RelaxError
//@type mo Errors
//@const x NAMESPACE_URI
impl VxShow for IdentifierOrKeyword { open spec fn shown(&self) -> Seq<char> { match *self { IdentifierOrKeyword::Identifier(i) => i.1@, IdentifierOrKeyword::Keyword(k) => k.1@ } } }

// ================================================================ the specification
pub open spec fn ordered<T: PartialOrd>() -> bool {
    &&& <T as PartialOrdSpec>::obeys_partial_cmp_spec()
    &&& forall|a: T, b: T| (#[trigger] a.partial_cmp_spec(&b)) is Some
    &&& forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == Some(Ordering::Less) <==> b.partial_cmp_spec(&a) == Some(Ordering::Greater)
    &&& forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == Some(Ordering::Equal) <==> b.partial_cmp_spec(&a) == Some(Ordering::Equal)
}
pub open spec fn lt<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) }
pub open spec fn le<T: PartialOrd>(a: T, b: T) -> bool { lt(a, b) || a.partial_cmp_spec(&b) == Some(Ordering::Equal) }

impl<T: PartialOrd> Min<T> {
    pub open spec fn allows(self, v: T) -> bool { match self { Min::Unbounded => true, Min::Inclusive(m) => le(m, v), Min::Exclusive(m) => lt(m, v) } }
}
impl<T: PartialOrd> Max<T> {
    pub open spec fn allows(self, v: T) -> bool { match self { Max::Unbounded => true, Max::Inclusive(m) => le(v, m), Max::Exclusive(m) => lt(v, m) } }
}
impl<T: PartialOrd> MinMaxFacet<T> {
    pub open spec fn allows(self, v: T) -> bool { self.min.allows(v) && self.max.allows(v) }
}
// bounds that contradict each other
pub open spec fn clash<T: PartialOrd>(a: Min<T>, b: Max<T>) -> bool {
    match (a, b) {
        (Min::Unbounded, _) => false,
        (_, Max::Unbounded) => false,
        (Min::Inclusive(x), Max::Inclusive(y)) => lt(y, x),
        (Min::Inclusive(x), Max::Exclusive(y)) => le(y, x),
        (Min::Exclusive(x), Max::Inclusive(y)) => le(y, x),
        (Min::Exclusive(x), Max::Exclusive(y)) => le(y, x),
    }
}
pub open spec fn lit(l: Seq<LiteralSegment>) -> Seq<char> decreases l.len() { if l.len() == 0 { Seq::empty() } else { lit(l.drop_last()) + l.last().body@ } }
pub open spec fn text_of(p: Param) -> Seq<char> { lit(p.3.1@) }
pub open spec fn named(p: Param, n: Seq<char>) -> bool { p.2.shown() == n }
pub open spec fn as_min<T: PartialOrd + VxLex>(p: Param) -> Min<T> {
    match T::lex(text_of(p)) {
        Some(v) => if named(p, "minInclusive"@) { Min::Inclusive(v) } else if named(p, "minExclusive"@) { Min::Exclusive(v) } else { Min::Unbounded },
        None => Min::Unbounded,
    }
}
pub open spec fn as_max<T: PartialOrd + VxLex>(p: Param) -> Max<T> {
    match T::lex(text_of(p)) {
        Some(v) => if named(p, "maxInclusive"@) { Max::Inclusive(v) } else if named(p, "maxExclusive"@) { Max::Exclusive(v) } else { Max::Unbounded },
        None => Max::Unbounded,
    }
}
pub open spec fn is_min(p: Param) -> bool { named(p, "minInclusive"@) || named(p, "minExclusive"@) }
pub open spec fn is_max(p: Param) -> bool { named(p, "maxInclusive"@) || named(p, "maxExclusive"@) }
pub open spec fn whole(p: Seq<char>) -> Seq<char> { "^(?:"@ + p + ")$"@ }
// a facet that is wrong on its own
pub open spec fn facet_ok<T: PartialOrd + VxLex>(p: Param, digits: bool) -> bool {
    if is_min(p) || is_max(p) { T::lex(text_of(p)) is Some }
    else if named(p, "pattern"@) { regex_ok(whole(text_of(p))) }
    else if digits && (named(p, "fractionDigits"@) || named(p, "totalDigits"@)) { u16::lex(text_of(p)) is Some }
    else { false }
}
// two facets that cannot stand together, whichever of them comes first
pub open spec fn pair_ok<T: PartialOrd + VxLex>(p: Param, q: Param) -> bool {
    &&& !(is_min(p) && is_min(q))
    &&& !(is_max(p) && is_max(q))
    &&& !clash(as_min::<T>(p), as_max::<T>(q))
    &&& !clash(as_min::<T>(q), as_max::<T>(p))
}
pub open spec fn facets_ok<T: PartialOrd + VxLex>(ps: Seq<Param>, n: int, digits: bool) -> bool {
    &&& forall|i: int| 0 <= i < n ==> #[trigger] facet_ok::<T>(ps[i], digits)
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] pair_ok::<T>(ps[i], ps[j])
}
// the number satisfies every range facet
pub open spec fn in_facets<T: PartialOrd + VxLex>(ps: Seq<Param>, n: int, v: T) -> bool {
    forall|i: int| 0 <= i < n ==> (#[trigger] as_min::<T>(ps[i])).allows(v) && as_max::<T>(ps[i]).allows(v)
}
// what is known of the bounds collected from the first n facets
pub open spec fn collected<T: PartialOrd + VxLex>(ps: Seq<Param>, n: int, m: MinMaxFacet<T>) -> bool {
    &&& (m.min is Unbounded ==> forall|i: int| 0 <= i < n ==> !is_min(#[trigger] ps[i]))
    &&& (!(m.min is Unbounded) ==> exists|i: int| 0 <= i < n && is_min(#[trigger] ps[i]) && as_min::<T>(ps[i]) == m.min)
    &&& (m.max is Unbounded ==> forall|i: int| 0 <= i < n ==> !is_max(#[trigger] ps[i]))
    &&& (!(m.max is Unbounded) ==> exists|i: int| 0 <= i < n && is_max(#[trigger] ps[i]) && as_max::<T>(ps[i]) == m.max)
}
pub open spec fn last_pattern(ps: Seq<Param>, n: int) -> Option<Seq<char>> decreases n {
    if n <= 0 { None } else if named(ps[n - 1], "pattern"@) { Some(text_of(ps[n - 1])) } else { last_pattern(ps, n - 1) }
}
pub open spec fn pat_of(p: Option<PatternFacet>) -> Option<Seq<char>> { match p { Some(f) => Some(f.0@), None => None } }
pub open spec fn pat_wf(p: Option<PatternFacet>) -> bool { match p { Some(f) => f.1.pat() == whole(f.0@), None => true } }
pub open spec fn pat_allows(p: Option<PatternFacet>, v: Seq<char>) -> bool { match p { Some(f) => regex_finds(f.1.pat(), v), None => true } }

// ---- lengths
pub open spec fn is_len(p: Param) -> bool { named(p, "length"@) }
pub open spec fn is_minlen(p: Param) -> bool { named(p, "minLength"@) }
pub open spec fn is_maxlen(p: Param) -> bool { named(p, "maxLength"@) }
pub open spec fn num(p: Param) -> int { match usize::lex(text_of(p)) { Some(n) => n as int, None => 0 } }
// what one facet says of the number of characters
pub open spec fn len_says(p: Param, n: int) -> bool {
    if is_len(p) { n == num(p) } else if is_minlen(p) { num(p) <= n } else if is_maxlen(p) { n <= num(p) } else { true }
}
pub open spec fn len_facet_ok(p: Param, patterns: bool) -> bool {
    if is_len(p) || is_minlen(p) || is_maxlen(p) { usize::lex(text_of(p)) is Some }
    else if patterns && named(p, "pattern"@) { regex_ok(whole(text_of(p))) }
    else { false }
}
pub open spec fn len_pair_ok(p: Param, q: Param) -> bool {
    &&& !(is_len(p) && (is_len(q) || is_minlen(q) || is_maxlen(q)))
    &&& !(is_len(q) && (is_minlen(p) || is_maxlen(p)))
    &&& !(is_minlen(p) && is_minlen(q))
    &&& !(is_maxlen(p) && is_maxlen(q))
    &&& (is_minlen(p) && is_maxlen(q) ==> num(p) <= num(q))
    &&& (is_maxlen(p) && is_minlen(q) ==> num(q) <= num(p))
}
pub open spec fn len_facets_ok(ps: Seq<Param>, n: int, patterns: bool) -> bool {
    &&& forall|i: int| 0 <= i < n ==> #[trigger] len_facet_ok(ps[i], patterns)
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] len_pair_ok(ps[i], ps[j])
}
pub open spec fn in_len_facets(ps: Seq<Param>, n: int, l: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] len_says(ps[i], l) }
impl LengthFacet {
    pub open spec fn exact(self) -> Option<int> { match self { LengthFacet::Length(l) => Some(l as int), _ => None } }
    pub open spec fn lo(self) -> Option<int> { match self { LengthFacet::MinLength(l) => Some(l as int), LengthFacet::MinMaxLength(l, _) => Some(l as int), _ => None } }
    pub open spec fn hi(self) -> Option<int> { match self { LengthFacet::MaxLength(l) => Some(l as int), LengthFacet::MinMaxLength(_, l) => Some(l as int), _ => None } }
    pub open spec fn allows(self, n: int) -> bool {
        &&& (self.exact() matches Some(l) ==> n == l)
        &&& (self.lo() matches Some(l) ==> l <= n)
        &&& (self.hi() matches Some(l) ==> n <= l)
    }
}
pub open spec fn len_collected(ps: Seq<Param>, n: int, f: LengthFacet) -> bool {
    &&& (f.exact() is None ==> forall|i: int| 0 <= i < n ==> !is_len(#[trigger] ps[i]))
    &&& (f.exact() is Some ==> exists|i: int| 0 <= i < n && is_len(#[trigger] ps[i]) && num(ps[i]) == f.exact()->0)
    &&& (f.lo() is None ==> forall|i: int| 0 <= i < n ==> !is_minlen(#[trigger] ps[i]))
    &&& (f.lo() is Some ==> exists|i: int| 0 <= i < n && is_minlen(#[trigger] ps[i]) && num(ps[i]) == f.lo()->0)
    &&& (f.hi() is None ==> forall|i: int| 0 <= i < n ==> !is_maxlen(#[trigger] ps[i]))
    &&& (f.hi() is Some ==> exists|i: int| 0 <= i < n && is_maxlen(#[trigger] ps[i]) && num(ps[i]) == f.hi()->0)
}
// the new facet can be added to those collected
pub open spec fn len_joins(f: LengthFacet, p: Param) -> bool {
    &&& (is_len(p) ==> f is Unbounded)
    &&& (is_minlen(p) ==> f.exact() is None && f.lo() is None && (f.hi() matches Some(h) ==> num(p) <= h))
    &&& (is_maxlen(p) ==> f.exact() is None && f.hi() is None && (f.lo() matches Some(l) ==> l <= num(p)))
}
proof fn len_step(ps: Seq<Param>, n: int, f: LengthFacet, patterns: bool)
    requires len_collected(ps, n, f), len_facets_ok(ps, n, patterns), 0 <= n < ps.len()
    ensures
        len_facets_ok(ps, ps.len() as int, patterns) ==> len_facets_ok(ps, n + 1, patterns),
        len_facets_ok(ps, n + 1, patterns) <==> len_facet_ok(ps[n], patterns) && len_joins(f, ps[n]),
        forall|g: LengthFacet| len_facet_ok(ps[n], patterns)
            && g.exact() == (if is_len(ps[n]) { Some(num(ps[n])) } else { f.exact() })
            && g.lo() == (if is_minlen(ps[n]) { Some(num(ps[n])) } else { f.lo() })
            && g.hi() == (if is_maxlen(ps[n]) { Some(num(ps[n])) } else { f.hi() }) ==> #[trigger] len_collected(ps, n + 1, g),
{
    names_differ();
    let p = ps[n];
    assert(len_facets_ok(ps, n + 1, patterns) ==> len_facet_ok(ps[n], patterns));
    if len_facets_ok(ps, n + 1, patterns) {
        assert forall|k: int| 0 <= k < n implies #[trigger] len_pair_ok(ps[k], ps[n]) by { }
        if f.exact() is Some { let k = choose|i: int| 0 <= i < n && is_len(#[trigger] ps[i]) && num(ps[i]) == f.exact()->0; assert(len_pair_ok(ps[k], ps[n])); }
        if f.lo() is Some { let k = choose|i: int| 0 <= i < n && is_minlen(#[trigger] ps[i]) && num(ps[i]) == f.lo()->0; assert(len_pair_ok(ps[k], ps[n])); }
        if f.hi() is Some { let k = choose|i: int| 0 <= i < n && is_maxlen(#[trigger] ps[i]) && num(ps[i]) == f.hi()->0; assert(len_pair_ok(ps[k], ps[n])); }
    }
    if len_facet_ok(ps[n], patterns) && len_joins(f, ps[n]) {
        assert forall|i: int, j: int| 0 <= i < j < n + 1 implies #[trigger] len_pair_ok(ps[i], ps[j]) by {
            if j == n {
                assert(len_facet_ok(ps[i], patterns));
                if f.lo() is Some { let k = choose|k: int| 0 <= k < n && is_minlen(#[trigger] ps[k]) && num(ps[k]) == f.lo()->0; if k < i { assert(len_pair_ok(ps[k], ps[i])); } else if i < k { assert(len_pair_ok(ps[i], ps[k])); } }
                if f.hi() is Some { let k = choose|k: int| 0 <= k < n && is_maxlen(#[trigger] ps[k]) && num(ps[k]) == f.hi()->0; if k < i { assert(len_pair_ok(ps[k], ps[i])); } else if i < k { assert(len_pair_ok(ps[i], ps[k])); } }
            }
        }
    }
}
proof fn len_collected_allows(ps: Seq<Param>, n: int, f: LengthFacet, l: int, patterns: bool)
    requires len_collected(ps, n, f), len_facets_ok(ps, n, patterns), 0 <= n <= ps.len()
    ensures f.allows(l) == in_len_facets(ps, n, l)
{
    names_differ();
    if f.allows(l) {
        assert forall|i: int| 0 <= i < n implies #[trigger] len_says(ps[i], l) by {
            if f.exact() is Some { let k = choose|k: int| 0 <= k < n && is_len(#[trigger] ps[k]) && num(ps[k]) == f.exact()->0; if k < i { assert(len_pair_ok(ps[k], ps[i])); } else if i < k { assert(len_pair_ok(ps[i], ps[k])); } }
            if f.lo() is Some { let k = choose|k: int| 0 <= k < n && is_minlen(#[trigger] ps[k]) && num(ps[k]) == f.lo()->0; if k < i { assert(len_pair_ok(ps[k], ps[i])); } else if i < k { assert(len_pair_ok(ps[i], ps[k])); } }
            if f.hi() is Some { let k = choose|k: int| 0 <= k < n && is_maxlen(#[trigger] ps[k]) && num(ps[k]) == f.hi()->0; if k < i { assert(len_pair_ok(ps[k], ps[i])); } else if i < k { assert(len_pair_ok(ps[i], ps[k])); } }
        }
    }
    if in_len_facets(ps, n, l) {
        if f.exact() is Some { let k = choose|k: int| 0 <= k < n && is_len(#[trigger] ps[k]) && num(ps[k]) == f.exact()->0; assert(len_says(ps[k], l)); }
        if f.lo() is Some { let k = choose|k: int| 0 <= k < n && is_minlen(#[trigger] ps[k]) && num(ps[k]) == f.lo()->0; assert(len_says(ps[k], l)); }
        if f.hi() is Some { let k = choose|k: int| 0 <= k < n && is_maxlen(#[trigger] ps[k]) && num(ps[k]) == f.hi()->0; assert(len_says(ps[k], l)); }
    }
}
impl StringFacets {
    pub open spec fn allows(self, v: Seq<char>) -> bool { self.len.allows(v.len() as int) && pat_allows(self.pattern, v) }
    // this is what the facets written in the schema say
    pub open spec fn compiled(self, ps: Seq<Param>) -> bool {
        (forall|l: int| #[trigger] self.len.allows(l) == in_len_facets(ps, ps.len() as int, l)) && pat_of(self.pattern) == last_pattern(ps, ps.len() as int) && pat_wf(self.pattern)
    }
}
// ---- white space (XML Schema's collapse, RELAX NG's token)
// the words of a text: its maximal runs of characters that are not white space
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if ws(s.last()) { words(s.drop_last()) }
    else if s.len() == 1 || ws(s[s.len() - 2]) { words(s.drop_last()).push(seq![s.last()]) }
    else { let w = words(s.drop_last()); w.drop_last().push(w.last().push(s.last())) }
}
pub open spec fn join(w: Seq<Seq<char>>) -> Seq<char> decreases w.len() {
    if w.len() == 0 { Seq::empty() } else if w.len() == 1 { w[0] } else { join(w.drop_last()).push(' ') + w.last() }
}
pub open spec fn norm(s: Seq<char>) -> Seq<char> { join(words(s)) }
proof fn words_last(s: Seq<char>)
    ensures s.len() > 0 && !ws(s.last()) ==> words(s).len() > 0
    decreases s.len()
{ if s.len() > 1 && !ws(s.last()) && !ws(s[s.len() - 2]) { words_last(s.drop_last()); } }
proof fn words_skip(s: Seq<char>)
    requires s.len() > 0, ws(s[0])
    ensures words(s.drop_first()) == words(s)
    decreases s.len()
{
    if s.len() == 1 { assert(s.drop_first() =~= Seq::empty()); assert(s.drop_last() =~= Seq::empty()); }
    else {
        let t = s.drop_first();
        assert(t.last() == s.last());
        words_skip(s.drop_last());
        assert(s.drop_last().drop_first() =~= t.drop_last());
        if t.len() == 1 { assert(s[s.len() - 2] == s[0]); } else { assert(t[t.len() - 2] == s[s.len() - 2]); }
    }
}
proof fn words_trim(s: Seq<char>)
    ensures words(trim_start(s)) == words(s), trim_start(s).len() > 0 ==> !ws(trim_start(s)[0])
    decreases s.len()
{ if s.len() > 0 && ws(s[0]) { words_skip(s); words_trim(s.drop_first()); } }
// one more character
proof fn norm_push(s: Seq<char>, c: char)
    requires s.len() > 0 ==> !ws(s[0])
    ensures
        ws(c) ==> norm(s.push(c)) == norm(s),
        !ws(c) && s.len() == 0 ==> norm(s.push(c)) == seq![c],
        !ws(c) && s.len() > 0 && ws(s.last()) ==> norm(s.push(c)) == norm(s).push(' ').push(c),
        !ws(c) && s.len() > 0 && !ws(s.last()) ==> norm(s.push(c)) == norm(s).push(c),
{
    let t = s.push(c);
    assert(t.drop_last() =~= s);
    if !ws(c) {
        if s.len() == 0 { assert(words(s) =~= Seq::empty()); assert(words(t) =~= seq![seq![c]]); assert(join(words(t)) =~= seq![c]); }
        else if ws(s.last()) {
            assert(t[t.len() - 2] == s.last());
            words_some(s);
            let w = words(s);
            assert(words(t).drop_last() =~= w);
            assert(words(t).last() =~= seq![c]);
            assert(norm(t) =~= norm(s).push(' ').push(c));
        } else {
            assert(t[t.len() - 2] == s.last());
            words_last(s);
            let w = words(s);
            assert(words(t).drop_last() =~= w.drop_last());
            assert(words(t).last() == w.last().push(c));
            assert(norm(t) =~= norm(s).push(c));
        }
    }
}
// str::split_ascii_whitespace, collected
#[verifier::external_body]
fn vx_words(s: &str) -> (r: Vec<&str>) ensures r@.len() == words(s@).len(), forall|i: int| #![trigger r@[i]] #![trigger words(s@)[i]] 0 <= i < r@.len() ==> r@[i]@ == words(s@)[i] { unimplemented!() }
fn vx_nmtoken(s: &str) -> (r: bool) ensures r == lexical("NMTOKEN"@, s@) { vx_lexical("NMTOKEN", s) }
proof fn words_cut(s: Seq<char>)
    ensures words(trim_end(s)) == words(s)
    decreases s.len()
{ if s.len() > 0 && ws(s.last()) { words_cut(s.drop_last()); } }
proof fn words_trimmed(s: Seq<char>)
    ensures words(trim(s)) == words(s)
{ words_trim(s); words_cut(trim_start(s)); }
proof fn words_some(s: Seq<char>)
    requires s.len() > 0, !ws(s[0])
    ensures words(s).len() > 0
    decreases s.len()
{
    if s.len() > 1 { words_some(s.drop_last()); }
}
// ---- values (6.2.9 and the datatype libraries)
impl BuiltinDatatypeValue {
    pub open spec fn equals(self, v: Seq<char>) -> bool { match self { BuiltinDatatypeValue::TokenValue(t) => t@ == norm(v), BuiltinDatatypeValue::StringValue(t) => t@ == v } }
}
impl XsdDatatypeValues {
    pub open spec fn equals(self, v: Seq<char>) -> bool { match self { XsdDatatypeValues::String(t) => t@ == v, XsdDatatypeValues::Token(t) => t@ == norm(v), XsdDatatypeValues::QName(q) => qname_equals(q, v) } }
}
pub uninterp spec fn qname_equals(q: QNameVal, v: Seq<char>) -> bool;
// ---- data: what each type accepts
pub open spec fn numeric<T: PartialOrd + VxLex>(m: MinMaxFacet<T>, p: Option<PatternFacet>, v: Seq<char>) -> bool {
    (T::lex(v) matches Some(x) && m.allows(x)) && pat_allows(p, v)
}
impl XsdDatatypes {
    pub open spec fn accepts(self, v: Seq<char>) -> bool {
        match self {
            XsdDatatypes::NormalizedString(f) => f.allows(norm(v)),
            XsdDatatypes::String(f) => f.allows(v),
            XsdDatatypes::Short(m, p) => numeric(m, p, trim(v)),
            XsdDatatypes::UnsignedShort(m, p) => numeric(m, p, trim(v)),
            XsdDatatypes::Long(m, p) => numeric(m, p, trim(v)),
            XsdDatatypes::Int(m, p) => numeric(m, p, trim(v)),
            XsdDatatypes::Integer(m, p) => numeric(m, p, trim(v)),
            XsdDatatypes::PositiveInteger(m, p) => (BigUint::lex(trim(v)) matches Some(x) && !x.eq_spec(&biguint_zero()) && m.allows(x)) && pat_allows(p, trim(v)),
            XsdDatatypes::UnsignedInt(m, p) => numeric(m, p, trim(v)),
            XsdDatatypes::UnsignedLong(m, p) => numeric(m, p, trim(v)),
            XsdDatatypes::Decimal { min_max, pattern, fraction_digits, total_digits } => numeric(min_max, pattern, trim(v)),
            XsdDatatypes::Double(p) => lexical("double"@, trim(v)) && pat_allows(p, trim(v)),
            XsdDatatypes::NcName(l) => lexical("NCName"@, trim(v)) && l.allows(trim(v).len() as int),
            XsdDatatypes::Duration(p) => lexical("duration"@, trim(v)) && pat_allows(p, trim(v)),
            XsdDatatypes::Date(p) => lexical("date"@, trim(v)) && pat_allows(p, trim(v)),
            XsdDatatypes::Datetime(p) => lexical("dateTime"@, trim(v)) && pat_allows(p, trim(v)),
            XsdDatatypes::AnyURI(p) => lexical("anyURI"@, trim(v)) && pat_allows(p, trim(v)),
            XsdDatatypes::Language(p) => lexical("language"@, trim(v)) && pat_allows(p, trim(v)),
            XsdDatatypes::Boolean(p) => (trim(v) == "true"@ || trim(v) == "false"@ || trim(v) == "1"@ || trim(v) == "0"@) && pat_allows(p, trim(v)),
            XsdDatatypes::Id(p) => pat_allows(p, trim(v)),
            XsdDatatypes::IdRef(p) => pat_allows(p, trim(v)),
            XsdDatatypes::Token(l) => l.allows(norm(v).len() as int),
            XsdDatatypes::NmToken(l) => lexical("NMTOKEN"@, trim(v)) && l.allows(trim(v).len() as int),
            // a list of at least one; its length is the number of its items
            XsdDatatypes::NmTokens(l) => words(v).len() > 0 && (forall|i: int| 0 <= i < words(v).len() ==> lexical("NMTOKEN"@, #[trigger] words(v)[i])) && l.allows(words(v).len() as int),
        }
    }
}
// C13 end to end: a type compiled from facets accepts exactly the numbers that satisfy every one of them
proof fn numeric_says<T: PartialOrd + VxLex>(ps: Seq<Param>, m: MinMaxFacet<T>, p: Option<PatternFacet>, v: Seq<char>)
    requires forall|x: T| #[trigger] m.allows(x) == in_facets(ps, ps.len() as int, x), pat_of(p) == last_pattern(ps, ps.len() as int), pat_wf(p)
    ensures numeric(m, p, v) <==> (T::lex(v) matches Some(x) && in_facets(ps, ps.len() as int, x)) && (last_pattern(ps, ps.len() as int) matches Some(r) ==> regex_finds(whole(r), v))
{ }
// C14 end to end
proof fn string_says(ps: Seq<Param>, f: StringFacets, v: Seq<char>)
    requires f.compiled(ps)
    ensures f.allows(v) <==> in_len_facets(ps, ps.len() as int, v.len() as int) && (last_pattern(ps, ps.len() as int) matches Some(r) ==> regex_finds(whole(r), v))
{ }
proof fn vx_lit() ensures forall|p: Seq<char>| #[trigger] whole(p) == "^(?:"@ + p + ")$"@ {}
proof fn names_differ()
    ensures "minInclusive"@ != "minExclusive"@, "minInclusive"@ != "maxInclusive"@, "minInclusive"@ != "maxExclusive"@, "minExclusive"@ != "maxInclusive"@,
        "minExclusive"@ != "maxExclusive"@, "maxInclusive"@ != "maxExclusive"@,
        "pattern"@ != "minInclusive"@, "pattern"@ != "minExclusive"@, "pattern"@ != "maxInclusive"@, "pattern"@ != "maxExclusive"@,
        "fractionDigits"@ != "minInclusive"@, "fractionDigits"@ != "minExclusive"@, "fractionDigits"@ != "maxInclusive"@, "fractionDigits"@ != "maxExclusive"@, "fractionDigits"@ != "pattern"@,
        "totalDigits"@ != "minInclusive"@, "totalDigits"@ != "minExclusive"@, "totalDigits"@ != "maxInclusive"@, "totalDigits"@ != "maxExclusive"@, "totalDigits"@ != "pattern"@, "totalDigits"@ != "fractionDigits"@,
        "length"@ != "minLength"@, "length"@ != "maxLength"@, "minLength"@ != "maxLength"@, "length"@ != "pattern"@, "minLength"@ != "pattern"@, "maxLength"@ != "pattern"@,
{
    reveal_strlit("minInclusive"); reveal_strlit("minExclusive"); reveal_strlit("maxInclusive"); reveal_strlit("maxExclusive"); reveal_strlit("pattern");
    reveal_strlit("fractionDigits"); reveal_strlit("totalDigits"); reveal_strlit("length"); reveal_strlit("minLength"); reveal_strlit("maxLength");
    assert("minInclusive"@[3] != "minExclusive"@[3]); assert("minInclusive"@[1] != "maxInclusive"@[1]); assert("minInclusive"@[1] != "maxExclusive"@[1]); assert("minExclusive"@[1] != "maxInclusive"@[1]);
    assert("minExclusive"@[1] != "maxExclusive"@[1]); assert("maxInclusive"@[3] != "maxExclusive"@[3]);
    assert("pattern"@.len() == 7); assert("fractionDigits"@.len() == 14); assert("minInclusive"@.len() == 12); assert("maxInclusive"@.len() == 12); assert("minExclusive"@.len() == 12); assert("maxExclusive"@.len() == 12);
    assert("totalDigits"@.len() == 11); assert("length"@.len() == 6); assert("minLength"@.len() == 9); assert("maxLength"@.len() == 9); assert("minLength"@[1] != "maxLength"@[1]);
}
// the bounds collected allow exactly what every facet allows
proof fn collected_allows<T: PartialOrd + VxLex>(ps: Seq<Param>, n: int, m: MinMaxFacet<T>, v: T, digits: bool)
    requires collected(ps, n, m), facets_ok::<T>(ps, n, digits), 0 <= n <= ps.len()
    ensures m.allows(v) == in_facets(ps, n, v)
{
    names_differ();
    if m.allows(v) {
        assert forall|i: int| 0 <= i < n implies (#[trigger] as_min::<T>(ps[i])).allows(v) && as_max::<T>(ps[i]).allows(v) by {
            if is_min(ps[i]) {
                if m.min is Unbounded { } else {
                    let k = choose|k: int| 0 <= k < n && is_min(#[trigger] ps[k]) && as_min::<T>(ps[k]) == m.min;
                    if k < i { assert(pair_ok::<T>(ps[k], ps[i])); } else if i < k { assert(pair_ok::<T>(ps[i], ps[k])); }
                }
            }
            if is_max(ps[i]) {
                if m.max is Unbounded { } else {
                    let k = choose|k: int| 0 <= k < n && is_max(#[trigger] ps[k]) && as_max::<T>(ps[k]) == m.max;
                    if k < i { assert(pair_ok::<T>(ps[k], ps[i])); } else if i < k { assert(pair_ok::<T>(ps[i], ps[k])); }
                }
            }
        }
    }
    if in_facets(ps, n, v) {
        if !(m.min is Unbounded) {
            let k = choose|k: int| 0 <= k < n && is_min(#[trigger] ps[k]) && as_min::<T>(ps[k]) == m.min;
            assert(as_min::<T>(ps[k]).allows(v));
        }
        if !(m.max is Unbounded) {
            let k = choose|k: int| 0 <= k < n && is_max(#[trigger] ps[k]) && as_max::<T>(ps[k]) == m.max;
            assert(as_min::<T>(ps[k]).allows(v));
        }
    }
}
proof fn step<T: PartialOrd + VxLex>(ps: Seq<Param>, n: int, m: MinMaxFacet<T>, digits: bool)
    requires collected(ps, n, m), facets_ok::<T>(ps, n, digits), 0 <= n < ps.len(), ordered::<T>()
    ensures
        facets_ok::<T>(ps, ps.len() as int, digits) ==> facets_ok::<T>(ps, n + 1, digits),
        facets_ok::<T>(ps, n + 1, digits) <==> facet_ok::<T>(ps[n], digits)
            && (is_min(ps[n]) ==> m.min is Unbounded && !clash(as_min::<T>(ps[n]), m.max))
            && (is_max(ps[n]) ==> m.max is Unbounded && !clash(m.min, as_max::<T>(ps[n]))),
        forall|m2: MinMaxFacet<T>| facet_ok::<T>(ps[n], digits)
            && m2.min == (if is_min(ps[n]) { as_min::<T>(ps[n]) } else { m.min })
            && m2.max == (if is_max(ps[n]) { as_max::<T>(ps[n]) } else { m.max }) ==> #[trigger] collected(ps, n + 1, m2),
{
    names_differ();
    let p = ps[n];
    assert(facets_ok::<T>(ps, n + 1, digits) ==> facet_ok::<T>(ps[n], digits));
    if facets_ok::<T>(ps, n + 1, digits) {
        if is_min(p) {
            if !(m.min is Unbounded) {
                let k = choose|k: int| 0 <= k < n && is_min(#[trigger] ps[k]) && as_min::<T>(ps[k]) == m.min;
                assert(pair_ok::<T>(ps[k], ps[n]));
            }
            if !(m.max is Unbounded) {
                let k = choose|k: int| 0 <= k < n && is_max(#[trigger] ps[k]) && as_max::<T>(ps[k]) == m.max;
                assert(pair_ok::<T>(ps[k], ps[n]));
            }
        }
        if is_max(p) {
            if !(m.max is Unbounded) {
                let k = choose|k: int| 0 <= k < n && is_max(#[trigger] ps[k]) && as_max::<T>(ps[k]) == m.max;
                assert(pair_ok::<T>(ps[k], ps[n]));
            }
            if !(m.min is Unbounded) {
                let k = choose|k: int| 0 <= k < n && is_min(#[trigger] ps[k]) && as_min::<T>(ps[k]) == m.min;
                assert(pair_ok::<T>(ps[k], ps[n]));
            }
        }
    }
    if facet_ok::<T>(ps[n], digits)
            && (is_min(ps[n]) ==> m.min is Unbounded && !clash(as_min::<T>(ps[n]), m.max))
            && (is_max(ps[n]) ==> m.max is Unbounded && !clash(m.min, as_max::<T>(ps[n]))) {
        assert forall|i: int, j: int| 0 <= i < j < n + 1 implies #[trigger] pair_ok::<T>(ps[i], ps[j]) by {
            if j == n {
                assert(facet_ok::<T>(ps[i], digits));
                if is_min(p) {
                    assert(!is_min(ps[i]));
                    if is_max(ps[i]) {
                        assert(!(m.max is Unbounded));
                        let k = choose|k: int| 0 <= k < n && is_max(#[trigger] ps[k]) && as_max::<T>(ps[k]) == m.max;
                        if k < i { assert(pair_ok::<T>(ps[k], ps[i])); } else if i < k { assert(pair_ok::<T>(ps[i], ps[k])); }
                    }
                }
                if is_max(p) {
                    assert(!is_max(ps[i]));
                    if is_min(ps[i]) {
                        assert(!(m.min is Unbounded));
                        let k = choose|k: int| 0 <= k < n && is_min(#[trigger] ps[k]) && as_min::<T>(ps[k]) == m.min;
                        if k < i { assert(pair_ok::<T>(ps[k], ps[i])); } else if i < k { assert(pair_ok::<T>(ps[i], ps[k])); }
                    }
                }
            }
        }
    }
    assert forall|m2: MinMaxFacet<T>| facet_ok::<T>(ps[n], digits)
            && m2.min == (if is_min(ps[n]) { as_min::<T>(ps[n]) } else { m.min })
            && m2.max == (if is_max(ps[n]) { as_max::<T>(ps[n]) } else { m.max }) implies #[trigger] collected(ps, n + 1, m2) by {
        if m2.min is Unbounded { } else if is_min(p) { assert(is_min(ps[n])); } else {
            let k = choose|k: int| 0 <= k < n && is_min(#[trigger] ps[k]) && as_min::<T>(ps[k]) == m.min;
            assert(is_min(ps[k]));
        }
        if m2.max is Unbounded { } else if is_max(p) { assert(is_max(ps[n])); } else {
            let k = choose|k: int| 0 <= k < n && is_max(#[trigger] ps[k]) && as_max::<T>(ps[k]) == m.max;
            assert(is_max(ps[k]));
        }
    }
}
// order does not matter: facets_ok and in_facets are about the set of facets (C13 "in whatever order they are written")
proof fn order_is_irrelevant<T: PartialOrd + VxLex>(ps: Seq<Param>, i: int, j: int, v: T, digits: bool)
    requires 0 <= i < j < ps.len()
    ensures pair_ok::<T>(ps[i], ps[j]) == pair_ok::<T>(ps[j], ps[i]),
{ }

// ================================================================ the code
impl<T: PartialOrd> Min<T> {
//@fn x Min::is_valid ret=r params=self,v props=C13
    requires ordered::<T>()
    ensures r == self.allows(*$v)
//@end
}
impl<T: PartialOrd> Max<T> {
//@fn x Max::is_valid ret=r params=self,v props=C13
    requires ordered::<T>()
    ensures r == self.allows(*$v)
//@end
}
impl<T: PartialOrd> MinMaxFacet<T> {
//@fn x MinMaxFacet::default ret=r props=C13
    ensures r.min is Unbounded, r.max is Unbounded
//@end
''')
for f, new, other in (('min_inclusive','Min::Inclusive($val)','max'),('min_exclusive','Min::Exclusive($val)','max'),('max_inclusive','Max::Inclusive($val)','min'),('max_exclusive','Max::Exclusive($val)','min')):
    me = 'min' if other == 'max' else 'max'
    cl = f'clash({new}, old(self).max)' if me == 'min' else f'clash(old(self).min, {new})'
    o.append(f'''//@fn x MinMaxFacet::{f} ret=r params=self,val props=C13
    requires ordered::<T>()
    ensures r is Ok <==> old(self).{me} is Unbounded && !{cl},
        r is Ok ==> final(self).{me} == {new} && final(self).{other} == old(self).{other},
//@end
''')
o.append('''//@fn x MinMaxFacet::is_valid ret=r params=self,v props=C13
    requires ordered::<T>()
    ensures r == self.allows(*$v)
//@end
}
impl Literal {
//@fn t Literal::as_string_value ret=r params=self props=C13,C14,C11,C16
    ensures r@ == lit(self.1@)
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &LiteralSegment| *x) =~= self.1@, val@ == lit(self.1@.take(it.index@ as int))
//@loopbegin 0
            proof { let m = it.seq().map(|i: int, x: &LiteralSegment| *x); assert(m[it.index@ as int] == *s); assert(self.1@.take(it.index@ as int + 1).drop_last() =~= self.1@.take(it.index@ as int)); }
//@loopafter 0
        proof { assert(self.1@.take(self.1@.len() as int) =~= self.1@); }
//@end
}
//@fn d normalize_whitespace ret=r params=val props=C15,C14
    ensures r@ == norm($val@)
//@closure 0
 -> (r: bool) ensures r == ws(*$1)
//@pre
    proof { words_trim($val@); }
//@loop 0 for:it
        invariant it.seq() =~= trim_start($val@), (trim_start($val@).len() > 0 ==> !ws(trim_start($val@)[0])), norm(trim_start($val@)) == norm($val@),
            out@ == norm(trim_start($val@).take(it.index@ as int)), last_space == (it.index@ > 0 && ws(trim_start($val@)[it.index@ - 1]))
//@loopbegin 0
            proof {
                let t = trim_start($val@);
                assert(c == t[it.index@ as int]);
                norm_push(t.take(it.index@ as int), c);
                assert(t.take(it.index@ as int).push(c) =~= t.take(it.index@ as int + 1));
                if it.index@ > 0 { assert(t.take(it.index@ as int).last() == t[it.index@ - 1]); assert(t.take(it.index@ as int)[0] == t[0]); }
            }
//@loopafter 0
    proof { assert(trim_start($val@).take(trim_start($val@).len() as int) =~= trim_start($val@)); }
//@end
impl BuiltinDatatypeValue {
//@fn d <BuiltinDatatypeValue~as~Datatype>::is_valid ret=r params=self,value props=C15,C03
    ensures r == self.equals($value@)
//@end
}
impl BuiltinDatatype {
//@fn d <BuiltinDatatype~as~Datatype>::is_valid ret=r params=self,value props=C15,C03
    ensures r
//@end
}
impl QNameVal {
    #[verifier::external_body]
    fn vx_equals(&self, value: &str) -> (r: bool) ensures r == qname_equals(*self, value@) { unimplemented!() }
}
impl XsdDatatypeValues {
//@fn x <XsdDatatypeValues~as~Datatype>::is_valid ret=r params=self,value props=C15,C03
    ensures r == self.equals($value@)
//@exprmap QNameVal :: try_from_val (value) . map (| value | & value == v) . unwrap_or (false) => v.vx_equals(value)
//@end
}
impl LengthFacet {
//@fn x LengthFacet::allows as=within ret=r params=self,actual props=C14
    ensures r == self.allows($actual as int)
//@end
//@fn x LengthFacet::is_valid ret=r params=self,value props=C14
    ensures r == self.allows($value@.len() as int)
//@end
//@fn x LengthFacet::merge ret=r params=self,other props=C14
    requires !(*old(self) is Unbounded) ==> $other is MinLength || $other is MaxLength || $other is Length
    ensures
        r is Ok <==> *old(self) is Unbounded || (*old(self) is MinLength && $other is MaxLength && old(self).lo()->0 <= $other.hi()->0)
            || (*old(self) is MaxLength && $other is MinLength && $other.lo()->0 <= old(self).hi()->0),
        r is Ok ==> final(self).exact() == (if $other.exact() is Some { $other.exact() } else { old(self).exact() })
            && final(self).lo() == (if $other.lo() is Some { $other.lo() } else { old(self).lo() })
            && final(self).hi() == (if $other.hi() is Some { $other.hi() } else { old(self).hi() }),
//@end
}
impl PatternFacet {
//@fn x PatternFacet::is_valid ret=r params=self,value props=C14
    ensures r == pat_allows(Some(*self), $value@)
//@end
}
impl StringFacets {
//@fn x StringFacets::is_valid ret=r params=self,value props=C14
    ensures r == self.allows($value@)
//@end
}
impl XsdDatatypes {
//@fn x <XsdDatatypes~as~Datatype>::is_valid ret=r params=self,value props=C13,C14,C03
    ensures r == self.accepts($value@)
//@chain split_ascii_whitespace.collect => vx_words
//@method iter => vx_iter ref
//@method all => vx_all
//@closure 0
 -> (r: bool) ensures r == ws($1)
//@closure 1
 -> (r: bool) ensures r == lexical("NMTOKEN"@, (**$1)@)
//@pre
    proof { ordered_BigInt(); ordered_BigUint(); ordered_BigDecimal(); words_trimmed($value@); }
//@end
}
pub struct Compiler;
impl Compiler {
''')
for k, t in RT.items():
    o.append(f'''//@fn x Compiler::{k} ret=r params=ctx,param props={'C14' if k=='usize' else 'C13'}
    ensures r is Ok <==> {t}::lex(text_of(*$param)) is Some, r matches Ok(v) ==> {t}::lex(text_of(*$param)) == Some(v)
//@end
''')
o.append('''//@fn x Compiler::pattern ret=r params=self,ctx,param props=C13,C14
    ensures r is Ok <==> regex_ok(whole(text_of(*$param))), r matches Ok(p) ==> p.0@ == text_of(*$param) && p.1.pat() == whole(p.0@)
//@inline map=res_map
//@pre
    proof { vx_lit(); }
//@end
''')
for v, f, k in INT:
    t = RT[k]
    dg = 'true' if v == 'Decimal' else 'false'
    shape = 'XsdDatatypes::Decimal { min_max: m, pattern: p, .. }' if v == 'Decimal' else f'XsdDatatypes::{v}(m, p)'
    pre = f'ordered_{t}();' if t.startswith('Big') else ''
    o.append(f'''//@fn x Compiler::{f} ret=r params=self,ctx,params props=C13
    ensures r is Ok <==> facets_ok::<{t}>($params@, $params@.len() as int, {dg}),
        r matches Ok(x) ==> x is {v} && (x matches {shape} ==> (forall|v: {t}| #[trigger] m.allows(v) == in_facets($params@, $params@.len() as int, v)) && pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@pre
    proof {{ names_differ(); {pre} }}
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@, ordered::<{t}>(),
            facets_ok::<{t}>($params@, it.index@ as int, {dg}), collected($params@, it.index@ as int, min_max),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof {{ names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); step::<{t}>($params@, it.index@ as int, min_max, {dg}); }}
//@loopafter 0
        proof {{ assert forall|v: {t}| #[trigger] min_max.allows(v) == in_facets($params@, $params@.len() as int, v) by {{ collected_allows::<{t}>($params@, $params@.len() as int, min_max, v, {dg}); }} }}
//@end
''')
for v, f, pat in (('NormalizedString','normalized_string',True),('String','string',True),('NmTokens','nmtokens',False),('NmToken','nmtoken',False),('NcName','ncname',False),('Token','token',False)):
    pt = 'true' if pat else 'false'
    res = f'x matches XsdDatatypes::{v}(f) ==> f.compiled($params@)' if pat else f'x matches XsdDatatypes::{v}(f) ==> (forall|l: int| #[trigger] f.allows(l) == in_len_facets($params@, $params@.len() as int, l))'
    patinv = ', pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)' if pat else ''
    o.append(f'''//@fn x Compiler::{f} ret=r params=self,ctx,params props=C14
    ensures r is Ok <==> len_facets_ok($params@, $params@.len() as int, {pt}),
        r matches Ok(x) ==> x is {v} && ({res})
//@pre
    proof {{ names_differ(); }}
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@,
            len_facets_ok($params@, it.index@ as int, {pt}), len_collected($params@, it.index@ as int, len){patinv}
//@loopbegin 0
            proof {{ names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); len_step($params@, it.index@ as int, len, {pt}); }}
//@loopafter 0
        proof {{ assert forall|l: int| #[trigger] len.allows(l) == in_len_facets($params@, $params@.len() as int, l) by {{ len_collected_allows($params@, $params@.len() as int, len, l, {pt}); }} }}
//@end
''')
for v, f in (('Duration','duration'),('Date','date'),('Datetime','datetime'),('AnyURI','any_uri'),('Language','language'),('Boolean','boolean'),('Id','id'),('IdRef','idref')):
    o.append(f'''//@fn x Compiler::{f} ret=r params=self,ctx,params props=C14
    ensures r is Ok <==> pat_facets_ok($params@, $params@.len() as int),
        r matches Ok(x) ==> x is {v} && (x matches XsdDatatypes::{v}(p) ==> pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@,
            pat_facets_ok($params@, it.index@ as int),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof {{ assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); pat_step($params@, it.index@ as int); }}
//@end
''')
N = [(v,{'UnsignedInt':'unsignedInt'}.get(v, v[0].lower()+v[1:]),RT[k]) for v,f,k in INT]
spec = ''
for v,n,t in N:
    dg = 'true' if v == 'Decimal' else 'false'
    shape = 'XsdDatatypes::Decimal { min_max: m, pattern: p, .. }' if v == 'Decimal' else f'XsdDatatypes::{v}(m, p)'
    spec += f'''    &&& (name == "{n}"@ ==> (r is Ok <==> facets_ok::<{t}>(ps, ps.len() as int, {dg})) && (r matches Ok(x) ==> x is {v} && (x matches {shape} ==> (forall|v: {t}| #[trigger] m.allows(v) == in_facets(ps, ps.len() as int, v)) && pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
'''
names = [n for _,n,_ in N]
for v,n,pat in (('NormalizedString','normalizedString',True),('String','string',True),('NmTokens','NMTOKENS',False),('NmToken','NMTOKEN',False),('NcName','NCName',False),('Token','token',False)):
    pt = 'true' if pat else 'false'
    res = f'x matches XsdDatatypes::{v}(f) ==> f.compiled(ps)' if pat else f'x matches XsdDatatypes::{v}(f) ==> (forall|l: int| #[trigger] f.allows(l) == in_len_facets(ps, ps.len() as int, l))'
    spec += f'''    &&& (name == "{n}"@ ==> (r is Ok <==> len_facets_ok(ps, ps.len() as int, {pt})) && (r matches Ok(x) ==> x is {v} && ({res})))
'''
    names.append(n)
for v,n in (('Duration','duration'),('Date','date'),('Datetime','dateTime'),('AnyURI','anyURI'),('Language','language'),('Boolean','boolean'),('Id','ID'),('IdRef','IDREF')):
    spec += f'''    &&& (name == "{n}"@ ==> (r is Ok <==> pat_facets_ok(ps, ps.len() as int)) && (r matches Ok(x) ==> x is {v} && (x matches XsdDatatypes::{v}(p) ==> pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
'''
    names.append(n)
names.append('double')
spec += '    &&& (name == "double"@ ==> (r matches Ok(x) ==> x is Double))\n'
spec += '    &&& (r is Ok ==> ' + ' || '.join(f'name == "{n}"@' for n in names) + ')\n'
rev = ' '.join(f'reveal_strlit("{n}");' for n in names)
o.append('''    // floating point is outside the verifier's reach: bounded
    #[verifier::external_body]
    fn double(&self, ctx: &Context, params: &[Param]) -> (r: Result<XsdDatatypes, FacetError>)
        ensures r matches Ok(x) ==> x is Double
    { unimplemented!() }
//@fn x Compiler::compile ret=r params=self,ctx,span,name,params props=C13,C14
    ensures names_type($name@, $params@, r)
//@inline map=res_map
//@pre
    proof { REVEAL }
//@end
//@fn x Compiler::compile_value ret=r params=self,ctx,span,name,value props=C15
    ensures xsd_value($name@, $value@, r)
//@fnren QNameVal :: try_from_val => vx_qname
//@pre
    proof { reveal_strlit("string"); reveal_strlit("token"); reveal_strlit("QName"); }
//@end
//@fn x <Compiler~as~DatatypeCompiler>::datatype_value as=datatype_value ret=r params=self,ctx,datatype_name,value props=C15
    requires $datatype_name is CName
    ensures $datatype_name matches DatatypeName::CName(q) && xsd_value(q.1.1@, $value@, r)
//@typemap Self :: DTValue => XsdDatatypeValues
//@typemap Self :: Error => XsdDatatypeError
//@end
//@fn x <Compiler~as~DatatypeCompiler>::datatype_name as=datatype_name ret=r params=self,ctx,datatype_name,params props=C13,C14
    requires $datatype_name is CName
    ensures $datatype_name matches DatatypeName::CName(q) && names_type(q.1.1@, $params@, r)
//@typemap Self :: DT => XsdDatatypes
//@typemap Self :: Error => XsdDatatypeError
//@end
}
pub open spec fn xsd_value(name: Seq<char>, v: Seq<char>, r: Result<XsdDatatypeValues, XsdDatatypeError>) -> bool {
    (name == "string"@ ==> (r matches Ok(XsdDatatypeValues::String(t)) && t@ == v)) && (name == "token"@ ==> (r matches Ok(XsdDatatypeValues::Token(t)) && t@ == norm(v)))
    && (r is Ok ==> name == "string"@ || name == "token"@ || name == "QName"@)
}
pub open spec fn names_type(name: Seq<char>, ps: Seq<Param>, r: Result<XsdDatatypes, XsdDatatypeError>) -> bool {
SPEC}
pub uninterp spec fn qname_lex(v: Seq<char>) -> Option<QNameVal>;
#[verifier::external_body]
fn vx_qname(v: &str) -> (r: Result<QNameVal, ()>) ensures r is Ok <==> qname_lex(v@) is Some { unimplemented!() }
// ---- the built-in library
pub struct RelaxCompiler;
pub open spec fn relax_name(n: DatatypeName) -> Option<Seq<char>> {
    match n { DatatypeName::String => Some("string"@), DatatypeName::Token => Some("token"@), DatatypeName::CName(q) => Some(q.1.1@), DatatypeName::NamespacedName(_) => None }
}
pub open spec fn relax_value(n: DatatypeName, v: Seq<char>, r: Result<BuiltinDatatypeValue, RelaxError>) -> bool {
    &&& (relax_name(n) == Some("string"@) ==> (r matches Ok(BuiltinDatatypeValue::StringValue(t)) && t@ == v))
    &&& (relax_name(n) == Some("token"@) ==> (r matches Ok(BuiltinDatatypeValue::TokenValue(t)) && t@ == norm(v)))
    &&& (r is Ok ==> relax_name(n) == Some("string"@) || relax_name(n) == Some("token"@))
}
impl RelaxCompiler {
//@fn d <Compiler~as~DatatypeCompiler>::datatype_value as=datatype_value ret=r params=self,ctx,name,value props=C15
    ensures relax_value(*$name, $value@, r)
//@typemap Self :: DTValue => BuiltinDatatypeValue
//@typemap Self :: Error => RelaxError
//@fnren Error :: DatataypeNameUnknown => RelaxError::DatataypeNameUnknown
//@pre
    proof { reveal_strlit("string"); reveal_strlit("token"); }
//@end
//@fn d <Compiler~as~DatatypeCompiler>::datatype_name as=datatype_name ret=r params=self,ctx,name,params props=C15,C18
    ensures r is Ok <==> $params@.len() == 0 && (relax_name(*$name) == Some("string"@) || relax_name(*$name) == Some("token"@))
//@typemap Self :: DT => BuiltinDatatype
//@typemap Self :: Error => RelaxError
//@fnren Error :: DatataypeNameUnknown => RelaxError::DatataypeNameUnknown
//@fnren Error :: ParamNotAllowed => RelaxError::ParamNotAllowed
//@pre
    proof { reveal_strlit("string"); reveal_strlit("token"); }
//@end
}
// ---- which library a name is in
pub struct LibCompiler { relax: RelaxCompiler, xsd: Compiler }
impl LibCompiler {
//@fn mo Compiler::dt_name ret=r params=self,ctx,datatype_name,params,ns_span,ns props=C15,C13,C14
    requires $ns@ == NAMESPACE_URI@ ==> $datatype_name is CName
    ensures lib_name($ns@, *$datatype_name, $params@, r)
//@inline map=res_map
//@pre
    proof { reveal_strlit(""); reveal_strlit("http://www.w3.org/2001/XMLSchema-datatypes"); }
//@end
//@fn mo Compiler::dt_value ret=r params=self,ctx,datatype_name,value,ns_span,ns props=C15
    requires $ns@ == NAMESPACE_URI@ ==> $datatype_name is CName
    ensures lib_value($ns@, *$datatype_name, $value@, r)
//@inline map=res_map
//@pre
    proof { reveal_strlit(""); reveal_strlit("http://www.w3.org/2001/XMLSchema-datatypes"); }
//@end
//@fn mo <Compiler~as~DatatypeCompiler>::datatype_name as=datatype_name ret=r params=self,ctx,datatype_name,params props=C15,C13,C14
    requires $datatype_name matches DatatypeName::NamespacedName(n) ==> lit(n.namespace_uri.1@) != NAMESPACE_URI@
    ensures lib_name(ns_of_name(*$datatype_name), *$datatype_name, $params@, r)
//@typemap Self :: DT => Datatypes
//@typemap Self :: Error => Errors
//@fullslice amp
//@inline map=res_map
//@pre
    proof { reveal_strlit(""); reveal_strlit("http://www.w3.org/2001/XMLSchema-datatypes"); }
//@end
//@fn mo <Compiler~as~DatatypeCompiler>::datatype_value as=datatype_value ret=r params=self,ctx,datatype_name,value props=C15
    requires ns_of_name(*$datatype_name) == NAMESPACE_URI@ ==> $datatype_name is CName
    ensures lib_value(ns_of_name(*$datatype_name), *$datatype_name, $value@, r)
//@typemap Self :: DTValue => DatatypeValues
//@typemap Self :: Error => Errors
//@fullslice amp
//@inline map=res_map
//@pre
    proof { reveal_strlit(""); reveal_strlit("http://www.w3.org/2001/XMLSchema-datatypes"); }
//@end
}
pub open spec fn ns_of_name(n: DatatypeName) -> Seq<char> {
    match n { DatatypeName::String => ""@, DatatypeName::Token => ""@, DatatypeName::CName(q) => q.0.1@, DatatypeName::NamespacedName(n) => lit(n.namespace_uri.1@) }
}
pub open spec fn lib_name(ns: Seq<char>, n: DatatypeName, ps: Seq<Param>, r: Result<Datatypes, Errors>) -> bool {
    &&& (ns == ""@ ==> (r is Ok <==> ps.len() == 0 && (relax_name(n) == Some("string"@) || relax_name(n) == Some("token"@))))
    &&& (ns == ""@ ==> (r matches Ok(x) ==> x is Relax))
    &&& (ns == NAMESPACE_URI@ ==> (n matches DatatypeName::CName(q) ==> match r { Ok(Datatypes::Xsd(x)) => names_type(q.1.1@, ps, Ok(x)), Err(Errors::Xsd(e)) => names_type(q.1.1@, ps, Err(e)), _ => false }))
    &&& (r is Ok ==> ns == ""@ || ns == NAMESPACE_URI@)
}
pub open spec fn lib_value(ns: Seq<char>, n: DatatypeName, v: Seq<char>, r: Result<DatatypeValues, Errors>) -> bool {
    &&& (ns == ""@ ==> match r { Ok(DatatypeValues::Relax(x)) => relax_value(n, v, Ok(x)), Err(Errors::Relax(e)) => relax_value(n, v, Err(e)), _ => false })
    &&& (ns == NAMESPACE_URI@ ==> (n matches DatatypeName::CName(q) ==> match r { Ok(DatatypeValues::Xsd(x)) => xsd_value(q.1.1@, v, Ok(x)), Err(Errors::Xsd(e)) => xsd_value(q.1.1@, v, Err(e)), _ => false }))
    &&& (r is Ok ==> ns == ""@ || ns == NAMESPACE_URI@)
}
'''.replace('REVEAL', rev).replace('SPEC', spec))
o.append('''
pub open spec fn pat_facets_ok(ps: Seq<Param>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] pat_facet_ok(ps[i]) }
proof fn pat_step(ps: Seq<Param>, n: int) requires 0 <= n < ps.len()
    ensures pat_facets_ok(ps, n + 1) <==> pat_facets_ok(ps, n) && pat_facet_ok(ps[n]), pat_facets_ok(ps, ps.len() as int) ==> pat_facets_ok(ps, n + 1)
{ assert(pat_facets_ok(ps, n + 1) ==> pat_facet_ok(ps[n])); }
pub open spec fn pat_facet_ok(p: Param) -> bool { named(p, "pattern"@) && regex_ok(whole(text_of(p))) }
}
fn main() {}
''')
open('facets.vrs','w').write(''.join(o))
