//@include common.vrs
//@include iter.vrs
//@file x relaxng-model/src/datatype/xsd.rs
//@file t relaxng-syntax/src/types.rs
//@file d relaxng-model/src/datatype/relax.rs
//@strip types
//@strip relax
//@strip xsd
//@strip num_bigint
//@strip bigdecimal
//@strip regex
//@strip super::relax
//@typemap codemap :: Span => VxSpan
//@typemap types :: Span => Range<usize>
//@typemap Span => Range<usize>
//@typemap regex :: Error => RegexError
//@typemap std :: num :: ParseIntError => VxParseError
//@typemap num_bigint :: ParseBigIntError => VxParseError
//@typemap bigdecimal :: ParseBigDecimalError => VxParseError
//@typemap Option<InitialAnnotation> => Option<VxSpan>
//@fullslice as_str
//@method to_string => vx_to_string ref
//@inline is_some_and map=opt_map map_err unwrap_or=opt_unwrap_or
//@method trim_matches => vx_trim_matches
//@method is_ascii_whitespace => vx_is_ws ref
//@method skip_while => vx_skip_while
//@method push => vx_push mut
//@fnren i16 :: from_str => vx_from_str::<i16>
//@fnren u16 :: from_str => vx_from_str::<u16>
//@fnren i32 :: from_str => vx_from_str::<i32>
//@fnren u32 :: from_str => vx_from_str::<u32>
//@fnren i64 :: from_str => vx_from_str::<i64>
//@fnren u64 :: from_str => vx_from_str::<u64>
//@fnren num_bigint :: BigInt :: from_str => vx_from_str::<BigInt>
//@fnren num_bigint :: BigUint :: from_str => vx_from_str::<BigUint>
//@fnren bigdecimal :: BigDecimal :: from_str => vx_from_str::<BigDecimal>
//@exprmap num_bigint :: BigUint :: from (0u8) => vx_biguint_zero()
//@exprmap DURATION_RE . is_match (value) => vx_lexical("duration", value)
//@exprmap DATETIME_RE . is_match (value) => vx_lexical("dateTime", value)
//@exprmap LANG_RE . is_match (value) => vx_lexical("language", value)
//@exprmap chrono :: NaiveDate :: parse_from_str (value , "%Y-%m-%d") . is_ok () => vx_lexical("date", value)
//@exprmap value . parse :: < f64 > () . is_ok () => vx_lexical("double", value)
//@exprmap uriparse :: URIReference :: try_from (value) . is_ok () => vx_lexical("anyURI", value)
//@exprmap is_valid_ncname (value) => vx_ncname(value)
//@fnren is_valid_nmtoken => vx_nmtoken
//@method allows => LengthFacet::within ref
//@method chars => vx_chars
//@method count => vx_count
//@method parse => vx_parse ref
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use std::ops::Range;

// ---- mirrors of types of dependencies: only what is said here is known of them
#[derive(Copy, Clone)]
pub struct VxSpan { x: u64 }
pub struct VxParseError { x: u64 }
impl VxShow for VxParseError { uninterp spec fn shown(&self) -> Seq<char>; }
pub struct RegexError { x: u64 }
#[verifier::external_body]
pub struct Regex { x: u64 }
// what the regex crate does is taken as given: which texts are regular expressions, and what they find
pub uninterp spec fn regex_ok(p: Seq<char>) -> bool;
pub uninterp spec fn regex_finds(p: Seq<char>, v: Seq<char>) -> bool;
impl Regex {
    pub uninterp spec fn pat(self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: Result<Regex, RegexError>) ensures r is Ok <==> regex_ok(p@), r matches Ok(x) ==> x.pat() == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, v: &str) -> (r: bool) ensures r == regex_finds(self.pat(), v@) { unimplemented!() }
}
pub struct Context { x: u64 }
impl Context { #[verifier::external_body] pub fn convert_span(&self, s: &Range<usize>) -> VxSpan { unimplemented!() } }
// arbitrary-precision numbers: a total order is all that is assumed of them
#[verifier::external_body] pub struct BigInt { x: u64 }
#[verifier::external_body] pub struct BigUint { x: u64 }
#[verifier::external_body] pub struct BigDecimal { x: u64 }
impl PartialEq for BigInt { #[verifier::external_body] fn eq(&self, o: &BigInt) -> bool { unimplemented!() } }
impl PartialOrd for BigInt { #[verifier::external_body] fn partial_cmp(&self, o: &BigInt) -> Option<Ordering> { unimplemented!() } }
#[verifier::external_body] proof fn ordered_BigInt() ensures ordered::<BigInt>(), <BigInt as PartialEqSpec>::obeys_eq_spec() {}
impl PartialEq for BigUint { #[verifier::external_body] fn eq(&self, o: &BigUint) -> bool { unimplemented!() } }
impl PartialOrd for BigUint { #[verifier::external_body] fn partial_cmp(&self, o: &BigUint) -> Option<Ordering> { unimplemented!() } }
#[verifier::external_body] proof fn ordered_BigUint() ensures ordered::<BigUint>(), <BigUint as PartialEqSpec>::obeys_eq_spec() {}
impl PartialEq for BigDecimal { #[verifier::external_body] fn eq(&self, o: &BigDecimal) -> bool { unimplemented!() } }
impl PartialOrd for BigDecimal { #[verifier::external_body] fn partial_cmp(&self, o: &BigDecimal) -> Option<Ordering> { unimplemented!() } }
#[verifier::external_body] proof fn ordered_BigDecimal() ensures ordered::<BigDecimal>(), <BigDecimal as PartialEqSpec>::obeys_eq_spec() {}

// ---- characters of a string, as a vector (std's Chars and its adaptors are mirrored by what they yield)
#[verifier::external_body]
fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
fn vx_count(v: Vec<char>) -> (r: usize) ensures r == v@.len() { v.len() }
// ---- numbers: which texts denote a value of the type, and which (str::parse of the type)
pub trait VxLex: Sized { spec fn lex(s: Seq<char>) -> Option<Self>; }
#[verifier::external_body]
fn vx_parse<T: VxLex>(s: &String) -> (r: Result<T, VxParseError>) ensures r is Ok <==> T::lex(s@) is Some, r matches Ok(v) ==> T::lex(s@) == Some(v) { unimplemented!() }
#[verifier::external_body]
fn vx_from_str<T: VxLex>(s: &str) -> (r: Result<T, VxParseError>) ensures r is Ok <==> T::lex(s@) is Some, r matches Ok(v) ==> T::lex(s@) == Some(v) { unimplemented!() }
// optional sign, then decimal digits
pub uninterp spec fn int_of(s: Seq<char>) -> Option<int>;
//@include ncspec.vrs
// lexical spaces decided by dependencies or regular expressions: taken as given
pub uninterp spec fn lexical(t: Seq<char>, v: Seq<char>) -> bool;
#[verifier::external_body]
fn vx_lexical(t: &str, v: &str) -> (r: bool) ensures r == lexical(t@, v@) { unimplemented!() }
pub uninterp spec fn biguint_zero() -> BigUint;
#[verifier::external_body]
fn vx_biguint_zero() -> (r: BigUint) ensures r == biguint_zero() { unimplemented!() }
// ---- white space
pub open spec fn ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0C' }
fn vx_is_ws(c: &char) -> (r: bool) ensures r == ws(*c) { *c == ' ' || *c == '\t' || *c == '\n' || *c == '\r' || *c == '\x0C' }
pub open spec fn trim_start(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s[0]) { trim_start(s.drop_first()) } else { s } }
pub open spec fn trim_end(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s.last()) { trim_end(s.drop_last()) } else { s } }
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s)) }
// str::trim_matches with a predicate that is white space
#[verifier::external_body]
fn vx_trim_matches<'a, F: Fn(char) -> bool>(s: &'a str, f: F) -> (r: &'a str)
    requires forall|c: char| f.requires((c,)), forall|c: char, b: bool| f.ensures((c,), b) ==> b == ws(c)
    ensures r@ == trim(s@)
{ s.trim_matches(|c: char| f(c)) }
// Iterator::skip_while, on the characters
#[verifier::external_body]
fn vx_skip_while<F: Fn(&char) -> bool>(v: Vec<char>, f: F) -> (r: Vec<char>)
    requires forall|c: &char| f.requires((c,)), forall|c: &char, b: bool| f.ensures((c,), b) ==> b == ws(*c)
    ensures r@ == trim_start(v@)
{ unimplemented!() }
#[verifier::external_body]
fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
impl VxLex for i16 { open spec fn lex(s: Seq<char>) -> Option<i16> { match int_of(s) { Some(i) => if i16::MIN <= i <= i16::MAX { Some(i as i16) } else { None }, None => None } } }
impl VxLex for u16 { open spec fn lex(s: Seq<char>) -> Option<u16> { match int_of(s) { Some(i) => if u16::MIN <= i <= u16::MAX { Some(i as u16) } else { None }, None => None } } }
impl VxLex for i32 { open spec fn lex(s: Seq<char>) -> Option<i32> { match int_of(s) { Some(i) => if i32::MIN <= i <= i32::MAX { Some(i as i32) } else { None }, None => None } } }
impl VxLex for u32 { open spec fn lex(s: Seq<char>) -> Option<u32> { match int_of(s) { Some(i) => if u32::MIN <= i <= u32::MAX { Some(i as u32) } else { None }, None => None } } }
impl VxLex for i64 { open spec fn lex(s: Seq<char>) -> Option<i64> { match int_of(s) { Some(i) => if i64::MIN <= i <= i64::MAX { Some(i as i64) } else { None }, None => None } } }
impl VxLex for u64 { open spec fn lex(s: Seq<char>) -> Option<u64> { match int_of(s) { Some(i) => if u64::MIN <= i <= u64::MAX { Some(i as u64) } else { None }, None => None } } }
impl VxLex for usize { open spec fn lex(s: Seq<char>) -> Option<usize> { match int_of(s) { Some(i) => if usize::MIN <= i <= usize::MAX { Some(i as usize) } else { None }, None => None } } }
impl VxLex for BigInt { uninterp spec fn lex(s: Seq<char>) -> Option<BigInt>; }
impl VxLex for BigUint { uninterp spec fn lex(s: Seq<char>) -> Option<BigUint>; }
impl VxLex for BigDecimal { uninterp spec fn lex(s: Seq<char>) -> Option<BigDecimal>; }

//@type x FacetError
//@type x LengthFacet
//@type x Min
//@type x Max
//@type x MinMaxFacet
//@type x PatternFacet
//@type x StringFacets
//@type x XsdDatatypes
//@type x QNameVal
//@type x XsdDatatypeValues
//@type d BuiltinDatatypeValue
//@type d BuiltinDatatype
//@type t Identifier
//@type t Keyword
//@type t IdentifierOrKeyword
//@type t LiteralSegment
//@type t Literal
//@type t Param
//@type t NcName
//@type t QName
//@type t NamespacedName
//@type t DatatypeName
//@type x XsdDatatypeError
//@type d Error as=RelaxError
//@file mo relaxng-model/src/datatype/mod.rs
//@type mo DatatypeValues
//@type mo Datatypes
//@typemap relax :: Error => RelaxError
//@type mo Errors
//@const x NAMESPACE_URI
impl VxShow for IdentifierOrKeyword { open spec fn shown(&self) -> Seq<char> { match *self { IdentifierOrKeyword::Identifier(i) => i.1@, IdentifierOrKeyword::Keyword(k) => k.1@ } } }

// ================================================================ the specification
pub open spec fn ordered<T: PartialOrd>() -> bool {
    &&& <T as PartialOrdSpec>::obeys_partial_cmp_spec()
    &&& forall|a: T, b: T| (#[trigger] a.partial_cmp_spec(&b)) is Some
    &&& forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == Some(Ordering::Less) <==> b.partial_cmp_spec(&a) == Some(Ordering::Greater)
    &&& forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == Some(Ordering::Equal) <==> b.partial_cmp_spec(&a) == Some(Ordering::Equal)
}
pub open spec fn lt<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) }
pub open spec fn le<T: PartialOrd>(a: T, b: T) -> bool { lt(a, b) || a.partial_cmp_spec(&b) == Some(Ordering::Equal) }

impl<T: PartialOrd> Min<T> {
    pub open spec fn allows(self, v: T) -> bool { match self { Min::Unbounded => true, Min::Inclusive(m) => le(m, v), Min::Exclusive(m) => lt(m, v) } }
}
impl<T: PartialOrd> Max<T> {
    pub open spec fn allows(self, v: T) -> bool { match self { Max::Unbounded => true, Max::Inclusive(m) => le(v, m), Max::Exclusive(m) => lt(v, m) } }
}
impl<T: PartialOrd> MinMaxFacet<T> {
    pub open spec fn allows(self, v: T) -> bool { self.min.allows(v) && self.max.allows(v) }
}
// bounds that contradict each other
pub open spec fn clash<T: PartialOrd>(a: Min<T>, b: Max<T>) -> bool {
    match (a, b) {
        (Min::Unbounded, _) => false,
        (_, Max::Unbounded) => false,
        (Min::Inclusive(x), Max::Inclusive(y)) => lt(y, x),
        (Min::Inclusive(x), Max::Exclusive(y)) => le(y, x),
        (Min::Exclusive(x), Max::Inclusive(y)) => le(y, x),
        (Min::Exclusive(x), Max::Exclusive(y)) => le(y, x),
    }
}
pub open spec fn lit(l: Seq<LiteralSegment>) -> Seq<char> decreases l.len() { if l.len() == 0 { Seq::empty() } else { lit(l.drop_last()) + l.last().body@ } }
pub open spec fn text_of(p: Param) -> Seq<char> { lit(p.3.1@) }
pub open spec fn named(p: Param, n: Seq<char>) -> bool { p.2.shown() == n }
pub open spec fn as_min<T: PartialOrd + VxLex>(p: Param) -> Min<T> {
    match T::lex(text_of(p)) {
        Some(v) => if named(p, "minInclusive"@) { Min::Inclusive(v) } else if named(p, "minExclusive"@) { Min::Exclusive(v) } else { Min::Unbounded },
        None => Min::Unbounded,
    }
}
pub open spec fn as_max<T: PartialOrd + VxLex>(p: Param) -> Max<T> {
    match T::lex(text_of(p)) {
        Some(v) => if named(p, "maxInclusive"@) { Max::Inclusive(v) } else if named(p, "maxExclusive"@) { Max::Exclusive(v) } else { Max::Unbounded },
        None => Max::Unbounded,
    }
}
pub open spec fn is_min(p: Param) -> bool { named(p, "minInclusive"@) || named(p, "minExclusive"@) }
pub open spec fn is_max(p: Param) -> bool { named(p, "maxInclusive"@) || named(p, "maxExclusive"@) }
pub open spec fn whole(p: Seq<char>) -> Seq<char> { "^(?:"@ + p + ")$"@ }
// a facet that is wrong on its own
pub open spec fn facet_ok<T: PartialOrd + VxLex>(p: Param, digits: bool) -> bool {
    if is_min(p) || is_max(p) { T::lex(text_of(p)) is Some }
    else if named(p, "pattern"@) { regex_ok(whole(text_of(p))) }
    else if digits && (named(p, "fractionDigits"@) || named(p, "totalDigits"@)) { u16::lex(text_of(p)) is Some }
    else { false }
}
// two facets that cannot stand together, whichever of them comes first
pub open spec fn pair_ok<T: PartialOrd + VxLex>(p: Param, q: Param) -> bool {
    &&& !(is_min(p) && is_min(q))
    &&& !(is_max(p) && is_max(q))
    &&& !clash(as_min::<T>(p), as_max::<T>(q))
    &&& !clash(as_min::<T>(q), as_max::<T>(p))
}
pub open spec fn facets_ok<T: PartialOrd + VxLex>(ps: Seq<Param>, n: int, digits: bool) -> bool {
    &&& forall|i: int| 0 <= i < n ==> #[trigger] facet_ok::<T>(ps[i], digits)
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] pair_ok::<T>(ps[i], ps[j])
}
// the number satisfies every range facet
pub open spec fn in_facets<T: PartialOrd + VxLex>(ps: Seq<Param>, n: int, v: T) -> bool {
    forall|i: int| 0 <= i < n ==> (#[trigger] as_min::<T>(ps[i])).allows(v) && as_max::<T>(ps[i]).allows(v)
}
// what is known of the bounds collected from the first n facets
pub open spec fn collected<T: PartialOrd + VxLex>(ps: Seq<Param>, n: int, m: MinMaxFacet<T>) -> bool {
    &&& (m.min is Unbounded ==> forall|i: int| 0 <= i < n ==> !is_min(#[trigger] ps[i]))
    &&& (!(m.min is Unbounded) ==> exists|i: int| 0 <= i < n && is_min(#[trigger] ps[i]) && as_min::<T>(ps[i]) == m.min)
    &&& (m.max is Unbounded ==> forall|i: int| 0 <= i < n ==> !is_max(#[trigger] ps[i]))
    &&& (!(m.max is Unbounded) ==> exists|i: int| 0 <= i < n && is_max(#[trigger] ps[i]) && as_max::<T>(ps[i]) == m.max)
}
pub open spec fn last_pattern(ps: Seq<Param>, n: int) -> Option<Seq<char>> decreases n {
    if n <= 0 { None } else if named(ps[n - 1], "pattern"@) { Some(text_of(ps[n - 1])) } else { last_pattern(ps, n - 1) }
}
pub open spec fn pat_of(p: Option<PatternFacet>) -> Option<Seq<char>> { match p { Some(f) => Some(f.0@), None => None } }
pub open spec fn pat_wf(p: Option<PatternFacet>) -> bool { match p { Some(f) => f.1.pat() == whole(f.0@), None => true } }
pub open spec fn pat_allows(p: Option<PatternFacet>, v: Seq<char>) -> bool { match p { Some(f) => regex_finds(f.1.pat(), v), None => true } }

// ---- lengths
pub open spec fn is_len(p: Param) -> bool { named(p, "length"@) }
pub open spec fn is_minlen(p: Param) -> bool { named(p, "minLength"@) }
pub open spec fn is_maxlen(p: Param) -> bool { named(p, "maxLength"@) }
pub open spec fn num(p: Param) -> int { match usize::lex(text_of(p)) { Some(n) => n as int, None => 0 } }
// what one facet says of the number of characters
pub open spec fn len_says(p: Param, n: int) -> bool {
    if is_len(p) { n == num(p) } else if is_minlen(p) { num(p) <= n } else if is_maxlen(p) { n <= num(p) } else { true }
}
pub open spec fn len_facet_ok(p: Param, patterns: bool) -> bool {
    if is_len(p) || is_minlen(p) || is_maxlen(p) { usize::lex(text_of(p)) is Some }
    else if patterns && named(p, "pattern"@) { regex_ok(whole(text_of(p))) }
    else { false }
}
pub open spec fn len_pair_ok(p: Param, q: Param) -> bool {
    &&& !(is_len(p) && (is_len(q) || is_minlen(q) || is_maxlen(q)))
    &&& !(is_len(q) && (is_minlen(p) || is_maxlen(p)))
    &&& !(is_minlen(p) && is_minlen(q))
    &&& !(is_maxlen(p) && is_maxlen(q))
    &&& (is_minlen(p) && is_maxlen(q) ==> num(p) <= num(q))
    &&& (is_maxlen(p) && is_minlen(q) ==> num(q) <= num(p))
}
pub open spec fn len_facets_ok(ps: Seq<Param>, n: int, patterns: bool) -> bool {
    &&& forall|i: int| 0 <= i < n ==> #[trigger] len_facet_ok(ps[i], patterns)
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] len_pair_ok(ps[i], ps[j])
}
pub open spec fn in_len_facets(ps: Seq<Param>, n: int, l: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] len_says(ps[i], l) }
impl LengthFacet {
    pub open spec fn exact(self) -> Option<int> { match self { LengthFacet::Length(l) => Some(l as int), _ => None } }
    pub open spec fn lo(self) -> Option<int> { match self { LengthFacet::MinLength(l) => Some(l as int), LengthFacet::MinMaxLength(l, _) => Some(l as int), _ => None } }
    pub open spec fn hi(self) -> Option<int> { match self { LengthFacet::MaxLength(l) => Some(l as int), LengthFacet::MinMaxLength(_, l) => Some(l as int), _ => None } }
    pub open spec fn allows(self, n: int) -> bool {
        &&& (self.exact() matches Some(l) ==> n == l)
        &&& (self.lo() matches Some(l) ==> l <= n)
        &&& (self.hi() matches Some(l) ==> n <= l)
    }
}
pub open spec fn len_collected(ps: Seq<Param>, n: int, f: LengthFacet) -> bool {
    &&& (f.exact() is None ==> forall|i: int| 0 <= i < n ==> !is_len(#[trigger] ps[i]))
    &&& (f.exact() is Some ==> exists|i: int| 0 <= i < n && is_len(#[trigger] ps[i]) && num(ps[i]) == f.exact()->0)
    &&& (f.lo() is None ==> forall|i: int| 0 <= i < n ==> !is_minlen(#[trigger] ps[i]))
    &&& (f.lo() is Some ==> exists|i: int| 0 <= i < n && is_minlen(#[trigger] ps[i]) && num(ps[i]) == f.lo()->0)
    &&& (f.hi() is None ==> forall|i: int| 0 <= i < n ==> !is_maxlen(#[trigger] ps[i]))
    &&& (f.hi() is Some ==> exists|i: int| 0 <= i < n && is_maxlen(#[trigger] ps[i]) && num(ps[i]) == f.hi()->0)
}
// the new facet can be added to those collected
pub open spec fn len_joins(f: LengthFacet, p: Param) -> bool {
    &&& (is_len(p) ==> f is Unbounded)
    &&& (is_minlen(p) ==> f.exact() is None && f.lo() is None && (f.hi() matches Some(h) ==> num(p) <= h))
    &&& (is_maxlen(p) ==> f.exact() is None && f.hi() is None && (f.lo() matches Some(l) ==> l <= num(p)))
}
proof fn len_step(ps: Seq<Param>, n: int, f: LengthFacet, patterns: bool)
    requires len_collected(ps, n, f), len_facets_ok(ps, n, patterns), 0 <= n < ps.len()
    ensures
        len_facets_ok(ps, ps.len() as int, patterns) ==> len_facets_ok(ps, n + 1, patterns),
        len_facets_ok(ps, n + 1, patterns) <==> len_facet_ok(ps[n], patterns) && len_joins(f, ps[n]),
        forall|g: LengthFacet| len_facet_ok(ps[n], patterns)
            && g.exact() == (if is_len(ps[n]) { Some(num(ps[n])) } else { f.exact() })
            && g.lo() == (if is_minlen(ps[n]) { Some(num(ps[n])) } else { f.lo() })
            && g.hi() == (if is_maxlen(ps[n]) { Some(num(ps[n])) } else { f.hi() }) ==> #[trigger] len_collected(ps, n + 1, g),
{
    names_differ();
    let p = ps[n];
    assert(len_facets_ok(ps, n + 1, patterns) ==> len_facet_ok(ps[n], patterns));
    if len_facets_ok(ps, n + 1, patterns) {
        assert forall|k: int| 0 <= k < n implies #[trigger] len_pair_ok(ps[k], ps[n]) by { }
        if f.exact() is Some { let k = choose|i: int| 0 <= i < n && is_len(#[trigger] ps[i]) && num(ps[i]) == f.exact()->0; assert(len_pair_ok(ps[k], ps[n])); }
        if f.lo() is Some { let k = choose|i: int| 0 <= i < n && is_minlen(#[trigger] ps[i]) && num(ps[i]) == f.lo()->0; assert(len_pair_ok(ps[k], ps[n])); }
        if f.hi() is Some { let k = choose|i: int| 0 <= i < n && is_maxlen(#[trigger] ps[i]) && num(ps[i]) == f.hi()->0; assert(len_pair_ok(ps[k], ps[n])); }
    }
    if len_facet_ok(ps[n], patterns) && len_joins(f, ps[n]) {
        assert forall|i: int, j: int| 0 <= i < j < n + 1 implies #[trigger] len_pair_ok(ps[i], ps[j]) by {
            if j == n {
                assert(len_facet_ok(ps[i], patterns));
                if f.lo() is Some { let k = choose|k: int| 0 <= k < n && is_minlen(#[trigger] ps[k]) && num(ps[k]) == f.lo()->0; if k < i { assert(len_pair_ok(ps[k], ps[i])); } else if i < k { assert(len_pair_ok(ps[i], ps[k])); } }
                if f.hi() is Some { let k = choose|k: int| 0 <= k < n && is_maxlen(#[trigger] ps[k]) && num(ps[k]) == f.hi()->0; if k < i { assert(len_pair_ok(ps[k], ps[i])); } else if i < k { assert(len_pair_ok(ps[i], ps[k])); } }
            }
        }
    }
}
proof fn len_collected_allows(ps: Seq<Param>, n: int, f: LengthFacet, l: int, patterns: bool)
    requires len_collected(ps, n, f), len_facets_ok(ps, n, patterns), 0 <= n <= ps.len()
    ensures f.allows(l) == in_len_facets(ps, n, l)
{
    names_differ();
    if f.allows(l) {
        assert forall|i: int| 0 <= i < n implies #[trigger] len_says(ps[i], l) by {
            if f.exact() is Some { let k = choose|k: int| 0 <= k < n && is_len(#[trigger] ps[k]) && num(ps[k]) == f.exact()->0; if k < i { assert(len_pair_ok(ps[k], ps[i])); } else if i < k { assert(len_pair_ok(ps[i], ps[k])); } }
            if f.lo() is Some { let k = choose|k: int| 0 <= k < n && is_minlen(#[trigger] ps[k]) && num(ps[k]) == f.lo()->0; if k < i { assert(len_pair_ok(ps[k], ps[i])); } else if i < k { assert(len_pair_ok(ps[i], ps[k])); } }
            if f.hi() is Some { let k = choose|k: int| 0 <= k < n && is_maxlen(#[trigger] ps[k]) && num(ps[k]) == f.hi()->0; if k < i { assert(len_pair_ok(ps[k], ps[i])); } else if i < k { assert(len_pair_ok(ps[i], ps[k])); } }
        }
    }
    if in_len_facets(ps, n, l) {
        if f.exact() is Some { let k = choose|k: int| 0 <= k < n && is_len(#[trigger] ps[k]) && num(ps[k]) == f.exact()->0; assert(len_says(ps[k], l)); }
        if f.lo() is Some { let k = choose|k: int| 0 <= k < n && is_minlen(#[trigger] ps[k]) && num(ps[k]) == f.lo()->0; assert(len_says(ps[k], l)); }
        if f.hi() is Some { let k = choose|k: int| 0 <= k < n && is_maxlen(#[trigger] ps[k]) && num(ps[k]) == f.hi()->0; assert(len_says(ps[k], l)); }
    }
}
impl StringFacets {
    pub open spec fn allows(self, v: Seq<char>) -> bool { self.len.allows(v.len() as int) && pat_allows(self.pattern, v) }
    // this is what the facets written in the schema say
    pub open spec fn compiled(self, ps: Seq<Param>) -> bool {
        (forall|l: int| #[trigger] self.len.allows(l) == in_len_facets(ps, ps.len() as int, l)) && pat_of(self.pattern) == last_pattern(ps, ps.len() as int) && pat_wf(self.pattern)
    }
}
// ---- white space (XML Schema's collapse, RELAX NG's token)
// the words of a text: its maximal runs of characters that are not white space
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if ws(s.last()) { words(s.drop_last()) }
    else if s.len() == 1 || ws(s[s.len() - 2]) { words(s.drop_last()).push(seq![s.last()]) }
    else { let w = words(s.drop_last()); w.drop_last().push(w.last().push(s.last())) }
}
pub open spec fn join(w: Seq<Seq<char>>) -> Seq<char> decreases w.len() {
    if w.len() == 0 { Seq::empty() } else if w.len() == 1 { w[0] } else { join(w.drop_last()).push(' ') + w.last() }
}
pub open spec fn norm(s: Seq<char>) -> Seq<char> { join(words(s)) }
proof fn words_last(s: Seq<char>)
    ensures s.len() > 0 && !ws(s.last()) ==> words(s).len() > 0
    decreases s.len()
{ if s.len() > 1 && !ws(s.last()) && !ws(s[s.len() - 2]) { words_last(s.drop_last()); } }
proof fn words_skip(s: Seq<char>)
    requires s.len() > 0, ws(s[0])
    ensures words(s.drop_first()) == words(s)
    decreases s.len()
{
    if s.len() == 1 { assert(s.drop_first() =~= Seq::empty()); assert(s.drop_last() =~= Seq::empty()); }
    else {
        let t = s.drop_first();
        assert(t.last() == s.last());
        words_skip(s.drop_last());
        assert(s.drop_last().drop_first() =~= t.drop_last());
        if t.len() == 1 { assert(s[s.len() - 2] == s[0]); } else { assert(t[t.len() - 2] == s[s.len() - 2]); }
    }
}
proof fn words_trim(s: Seq<char>)
    ensures words(trim_start(s)) == words(s), trim_start(s).len() > 0 ==> !ws(trim_start(s)[0])
    decreases s.len()
{ if s.len() > 0 && ws(s[0]) { words_skip(s); words_trim(s.drop_first()); } }
// one more character
proof fn norm_push(s: Seq<char>, c: char)
    requires s.len() > 0 ==> !ws(s[0])
    ensures
        ws(c) ==> norm(s.push(c)) == norm(s),
        !ws(c) && s.len() == 0 ==> norm(s.push(c)) == seq![c],
        !ws(c) && s.len() > 0 && ws(s.last()) ==> norm(s.push(c)) == norm(s).push(' ').push(c),
        !ws(c) && s.len() > 0 && !ws(s.last()) ==> norm(s.push(c)) == norm(s).push(c),
{
    let t = s.push(c);
    assert(t.drop_last() =~= s);
    if !ws(c) {
        if s.len() == 0 { assert(words(s) =~= Seq::empty()); assert(words(t) =~= seq![seq![c]]); assert(join(words(t)) =~= seq![c]); }
        else if ws(s.last()) {
            assert(t[t.len() - 2] == s.last());
            words_some(s);
            let w = words(s);
            assert(words(t).drop_last() =~= w);
            assert(words(t).last() =~= seq![c]);
            assert(norm(t) =~= norm(s).push(' ').push(c));
        } else {
            assert(t[t.len() - 2] == s.last());
            words_last(s);
            let w = words(s);
            assert(words(t).drop_last() =~= w.drop_last());
            assert(words(t).last() == w.last().push(c));
            assert(norm(t) =~= norm(s).push(c));
        }
    }
}
// str::split_ascii_whitespace, collected
#[verifier::external_body]
fn vx_words(s: &str) -> (r: Vec<&str>) ensures r@.len() == words(s@).len(), forall|i: int| #![trigger r@[i]] #![trigger words(s@)[i]] 0 <= i < r@.len() ==> r@[i]@ == words(s@)[i] { unimplemented!() }
// contracts proved in unit ncname
#[verifier::external_body]
fn vx_ncname(s: &str) -> (r: bool) ensures r == ncname_(s@) { unimplemented!() }
#[verifier::external_body]
fn vx_nmtoken(s: &str) -> (r: bool) ensures r == nmtoken_(s@) { unimplemented!() }
proof fn words_cut(s: Seq<char>)
    ensures words(trim_end(s)) == words(s)
    decreases s.len()
{ if s.len() > 0 && ws(s.last()) { words_cut(s.drop_last()); } }
proof fn words_trimmed(s: Seq<char>)
    ensures words(trim(s)) == words(s)
{ words_trim(s); words_cut(trim_start(s)); }
proof fn words_some(s: Seq<char>)
    requires s.len() > 0, !ws(s[0])
    ensures words(s).len() > 0
    decreases s.len()
{
    if s.len() > 1 { words_some(s.drop_last()); }
}
// ---- values (6.2.9 and the datatype libraries)
impl BuiltinDatatypeValue {
    pub open spec fn equals(self, v: Seq<char>) -> bool { match self { BuiltinDatatypeValue::TokenValue(t) => t@ == norm(v), BuiltinDatatypeValue::StringValue(t) => t@ == v } }
}
impl XsdDatatypeValues {
    pub open spec fn equals(self, v: Seq<char>) -> bool { match self { XsdDatatypeValues::String(t) => t@ == v, XsdDatatypeValues::Token(t) => t@ == norm(v), XsdDatatypeValues::QName(q) => qname_equals(q, v) } }
}
pub uninterp spec fn qname_equals(q: QNameVal, v: Seq<char>) -> bool;
// ---- data: what each type accepts
pub open spec fn numeric<T: PartialOrd + VxLex>(m: MinMaxFacet<T>, p: Option<PatternFacet>, v: Seq<char>) -> bool {
    (T::lex(v) matches Some(x) && m.allows(x)) && pat_allows(p, v)
}
pub open spec fn replaced(v: Seq<char>) -> Seq<char> { Seq::new(v.len(), |i: int| if v[i] == '\t' || v[i] == '\n' || v[i] == '\r' { ' ' } else { v[i] }) }
#[verifier::external_body]
fn vx_replace_ws(s: &str) -> (r: String) ensures r@ == replaced(s@) { unimplemented!() }
impl XsdDatatypes {
    pub open spec fn accepts(self, v: Seq<char>) -> bool {
        match self {
            XsdDatatypes::NormalizedString(f) => f.allows(replaced(v)), // white space is replaced, not collapsed
            XsdDatatypes::String(f) => f.allows(v),
            XsdDatatypes::Short(m, p) => numeric(m, p, trim(v)),
            XsdDatatypes::UnsignedShort(m, p) => numeric(m, p, trim(v)),
            XsdDatatypes::Long(m, p) => numeric(m, p, trim(v)),
            XsdDatatypes::Int(m, p) => numeric(m, p, trim(v)),
            XsdDatatypes::Integer(m, p) => numeric(m, p, trim(v)),
            XsdDatatypes::PositiveInteger(m, p) => (BigUint::lex(trim(v)) matches Some(x) && !x.eq_spec(&biguint_zero()) && m.allows(x)) && pat_allows(p, trim(v)),
            XsdDatatypes::UnsignedInt(m, p) => numeric(m, p, trim(v)),
            XsdDatatypes::UnsignedLong(m, p) => numeric(m, p, trim(v)),
            XsdDatatypes::Decimal { min_max, pattern, fraction_digits, total_digits } => numeric(min_max, pattern, trim(v)),
            XsdDatatypes::Double(p) => lexical("double"@, trim(v)) && pat_allows(p, trim(v)),
            XsdDatatypes::NcName(l) => ncname_(trim(v)) && l.allows(trim(v).len() as int),
            XsdDatatypes::Duration(p) => lexical("duration"@, trim(v)) && pat_allows(p, trim(v)),
            XsdDatatypes::Date(p) => lexical("date"@, trim(v)) && pat_allows(p, trim(v)),
            XsdDatatypes::Datetime(p) => lexical("dateTime"@, trim(v)) && pat_allows(p, trim(v)),
            XsdDatatypes::AnyURI(p) => lexical("anyURI"@, trim(v)) && pat_allows(p, trim(v)),
            XsdDatatypes::Language(p) => lexical("language"@, trim(v)) && pat_allows(p, trim(v)),
            XsdDatatypes::Boolean(p) => (trim(v) == "true"@ || trim(v) == "false"@ || trim(v) == "1"@ || trim(v) == "0"@) && pat_allows(p, trim(v)),
            XsdDatatypes::Id(p) => pat_allows(p, trim(v)),
            XsdDatatypes::IdRef(p) => pat_allows(p, trim(v)),
            XsdDatatypes::Token(l) => l.allows(norm(v).len() as int),
            XsdDatatypes::NmToken(l) => nmtoken_(trim(v)) && l.allows(trim(v).len() as int),
            // a list of at least one; its length is the number of its items
            XsdDatatypes::NmTokens(l) => words(v).len() > 0 && (forall|i: int| 0 <= i < words(v).len() ==> nmtoken_(#[trigger] words(v)[i])) && l.allows(words(v).len() as int),
        }
    }
}
// C13 end to end: a type compiled from facets accepts exactly the numbers that satisfy every one of them
proof fn numeric_says<T: PartialOrd + VxLex>(ps: Seq<Param>, m: MinMaxFacet<T>, p: Option<PatternFacet>, v: Seq<char>)
    requires forall|x: T| #[trigger] m.allows(x) == in_facets(ps, ps.len() as int, x), pat_of(p) == last_pattern(ps, ps.len() as int), pat_wf(p)
    ensures numeric(m, p, v) <==> (T::lex(v) matches Some(x) && in_facets(ps, ps.len() as int, x)) && (last_pattern(ps, ps.len() as int) matches Some(r) ==> regex_finds(whole(r), v))
{ }
// C14 end to end
proof fn string_says(ps: Seq<Param>, f: StringFacets, v: Seq<char>)
    requires f.compiled(ps)
    ensures f.allows(v) <==> in_len_facets(ps, ps.len() as int, v.len() as int) && (last_pattern(ps, ps.len() as int) matches Some(r) ==> regex_finds(whole(r), v))
{ }
proof fn vx_lit() ensures forall|p: Seq<char>| #[trigger] whole(p) == "^(?:"@ + p + ")$"@ {}
proof fn names_differ()
    ensures "minInclusive"@ != "minExclusive"@, "minInclusive"@ != "maxInclusive"@, "minInclusive"@ != "maxExclusive"@, "minExclusive"@ != "maxInclusive"@,
        "minExclusive"@ != "maxExclusive"@, "maxInclusive"@ != "maxExclusive"@,
        "pattern"@ != "minInclusive"@, "pattern"@ != "minExclusive"@, "pattern"@ != "maxInclusive"@, "pattern"@ != "maxExclusive"@,
        "fractionDigits"@ != "minInclusive"@, "fractionDigits"@ != "minExclusive"@, "fractionDigits"@ != "maxInclusive"@, "fractionDigits"@ != "maxExclusive"@, "fractionDigits"@ != "pattern"@,
        "totalDigits"@ != "minInclusive"@, "totalDigits"@ != "minExclusive"@, "totalDigits"@ != "maxInclusive"@, "totalDigits"@ != "maxExclusive"@, "totalDigits"@ != "pattern"@, "totalDigits"@ != "fractionDigits"@,
        "length"@ != "minLength"@, "length"@ != "maxLength"@, "minLength"@ != "maxLength"@, "length"@ != "pattern"@, "minLength"@ != "pattern"@, "maxLength"@ != "pattern"@,
{
    reveal_strlit("minInclusive"); reveal_strlit("minExclusive"); reveal_strlit("maxInclusive"); reveal_strlit("maxExclusive"); reveal_strlit("pattern");
    reveal_strlit("fractionDigits"); reveal_strlit("totalDigits"); reveal_strlit("length"); reveal_strlit("minLength"); reveal_strlit("maxLength");
    assert("minInclusive"@[3] != "minExclusive"@[3]); assert("minInclusive"@[1] != "maxInclusive"@[1]); assert("minInclusive"@[1] != "maxExclusive"@[1]); assert("minExclusive"@[1] != "maxInclusive"@[1]);
    assert("minExclusive"@[1] != "maxExclusive"@[1]); assert("maxInclusive"@[3] != "maxExclusive"@[3]);
    assert("pattern"@.len() == 7); assert("fractionDigits"@.len() == 14); assert("minInclusive"@.len() == 12); assert("maxInclusive"@.len() == 12); assert("minExclusive"@.len() == 12); assert("maxExclusive"@.len() == 12);
    assert("totalDigits"@.len() == 11); assert("length"@.len() == 6); assert("minLength"@.len() == 9); assert("maxLength"@.len() == 9); assert("minLength"@[1] != "maxLength"@[1]);
}
// the bounds collected allow exactly what every facet allows
proof fn collected_allows<T: PartialOrd + VxLex>(ps: Seq<Param>, n: int, m: MinMaxFacet<T>, v: T, digits: bool)
    requires collected(ps, n, m), facets_ok::<T>(ps, n, digits), 0 <= n <= ps.len()
    ensures m.allows(v) == in_facets(ps, n, v)
{
    names_differ();
    if m.allows(v) {
        assert forall|i: int| 0 <= i < n implies (#[trigger] as_min::<T>(ps[i])).allows(v) && as_max::<T>(ps[i]).allows(v) by {
            if is_min(ps[i]) {
                if m.min is Unbounded { } else {
                    let k = choose|k: int| 0 <= k < n && is_min(#[trigger] ps[k]) && as_min::<T>(ps[k]) == m.min;
                    if k < i { assert(pair_ok::<T>(ps[k], ps[i])); } else if i < k { assert(pair_ok::<T>(ps[i], ps[k])); }
                }
            }
            if is_max(ps[i]) {
                if m.max is Unbounded { } else {
                    let k = choose|k: int| 0 <= k < n && is_max(#[trigger] ps[k]) && as_max::<T>(ps[k]) == m.max;
                    if k < i { assert(pair_ok::<T>(ps[k], ps[i])); } else if i < k { assert(pair_ok::<T>(ps[i], ps[k])); }
                }
            }
        }
    }
    if in_facets(ps, n, v) {
        if !(m.min is Unbounded) {
            let k = choose|k: int| 0 <= k < n && is_min(#[trigger] ps[k]) && as_min::<T>(ps[k]) == m.min;
            assert(as_min::<T>(ps[k]).allows(v));
        }
        if !(m.max is Unbounded) {
            let k = choose|k: int| 0 <= k < n && is_max(#[trigger] ps[k]) && as_max::<T>(ps[k]) == m.max;
            assert(as_min::<T>(ps[k]).allows(v));
        }
    }
}
proof fn step<T: PartialOrd + VxLex>(ps: Seq<Param>, n: int, m: MinMaxFacet<T>, digits: bool)
    requires collected(ps, n, m), facets_ok::<T>(ps, n, digits), 0 <= n < ps.len(), ordered::<T>()
    ensures
        facets_ok::<T>(ps, ps.len() as int, digits) ==> facets_ok::<T>(ps, n + 1, digits),
        facets_ok::<T>(ps, n + 1, digits) <==> facet_ok::<T>(ps[n], digits)
            && (is_min(ps[n]) ==> m.min is Unbounded && !clash(as_min::<T>(ps[n]), m.max))
            && (is_max(ps[n]) ==> m.max is Unbounded && !clash(m.min, as_max::<T>(ps[n]))),
        forall|m2: MinMaxFacet<T>| facet_ok::<T>(ps[n], digits)
            && m2.min == (if is_min(ps[n]) { as_min::<T>(ps[n]) } else { m.min })
            && m2.max == (if is_max(ps[n]) { as_max::<T>(ps[n]) } else { m.max }) ==> #[trigger] collected(ps, n + 1, m2),
{
    names_differ();
    let p = ps[n];
    assert(facets_ok::<T>(ps, n + 1, digits) ==> facet_ok::<T>(ps[n], digits));
    if facets_ok::<T>(ps, n + 1, digits) {
        if is_min(p) {
            if !(m.min is Unbounded) {
                let k = choose|k: int| 0 <= k < n && is_min(#[trigger] ps[k]) && as_min::<T>(ps[k]) == m.min;
                assert(pair_ok::<T>(ps[k], ps[n]));
            }
            if !(m.max is Unbounded) {
                let k = choose|k: int| 0 <= k < n && is_max(#[trigger] ps[k]) && as_max::<T>(ps[k]) == m.max;
                assert(pair_ok::<T>(ps[k], ps[n]));
            }
        }
        if is_max(p) {
            if !(m.max is Unbounded) {
                let k = choose|k: int| 0 <= k < n && is_max(#[trigger] ps[k]) && as_max::<T>(ps[k]) == m.max;
                assert(pair_ok::<T>(ps[k], ps[n]));
            }
            if !(m.min is Unbounded) {
                let k = choose|k: int| 0 <= k < n && is_min(#[trigger] ps[k]) && as_min::<T>(ps[k]) == m.min;
                assert(pair_ok::<T>(ps[k], ps[n]));
            }
        }
    }
    if facet_ok::<T>(ps[n], digits)
            && (is_min(ps[n]) ==> m.min is Unbounded && !clash(as_min::<T>(ps[n]), m.max))
            && (is_max(ps[n]) ==> m.max is Unbounded && !clash(m.min, as_max::<T>(ps[n]))) {
        assert forall|i: int, j: int| 0 <= i < j < n + 1 implies #[trigger] pair_ok::<T>(ps[i], ps[j]) by {
            if j == n {
                assert(facet_ok::<T>(ps[i], digits));
                if is_min(p) {
                    assert(!is_min(ps[i]));
                    if is_max(ps[i]) {
                        assert(!(m.max is Unbounded));
                        let k = choose|k: int| 0 <= k < n && is_max(#[trigger] ps[k]) && as_max::<T>(ps[k]) == m.max;
                        if k < i { assert(pair_ok::<T>(ps[k], ps[i])); } else if i < k { assert(pair_ok::<T>(ps[i], ps[k])); }
                    }
                }
                if is_max(p) {
                    assert(!is_max(ps[i]));
                    if is_min(ps[i]) {
                        assert(!(m.min is Unbounded));
                        let k = choose|k: int| 0 <= k < n && is_min(#[trigger] ps[k]) && as_min::<T>(ps[k]) == m.min;
                        if k < i { assert(pair_ok::<T>(ps[k], ps[i])); } else if i < k { assert(pair_ok::<T>(ps[i], ps[k])); }
                    }
                }
            }
        }
    }
    assert forall|m2: MinMaxFacet<T>| facet_ok::<T>(ps[n], digits)
            && m2.min == (if is_min(ps[n]) { as_min::<T>(ps[n]) } else { m.min })
            && m2.max == (if is_max(ps[n]) { as_max::<T>(ps[n]) } else { m.max }) implies #[trigger] collected(ps, n + 1, m2) by {
        if m2.min is Unbounded { } else if is_min(p) { assert(is_min(ps[n])); } else {
            let k = choose|k: int| 0 <= k < n && is_min(#[trigger] ps[k]) && as_min::<T>(ps[k]) == m.min;
            assert(is_min(ps[k]));
        }
        if m2.max is Unbounded { } else if is_max(p) { assert(is_max(ps[n])); } else {
            let k = choose|k: int| 0 <= k < n && is_max(#[trigger] ps[k]) && as_max::<T>(ps[k]) == m.max;
            assert(is_max(ps[k]));
        }
    }
}
// order does not matter: facets_ok and in_facets are about the set of facets (C13 "in whatever order they are written")
proof fn order_is_irrelevant<T: PartialOrd + VxLex>(ps: Seq<Param>, i: int, j: int, v: T, digits: bool)
    requires 0 <= i < j < ps.len()
    ensures pair_ok::<T>(ps[i], ps[j]) == pair_ok::<T>(ps[j], ps[i]),
{ }

// ================================================================ the code
impl<T: PartialOrd> Min<T> {
//@fn x Min::is_valid ret=r params=self,v props=C13
    requires ordered::<T>()
    ensures r == self.allows(*$v)
//@end
}
impl<T: PartialOrd> Max<T> {
//@fn x Max::is_valid ret=r params=self,v props=C13
    requires ordered::<T>()
    ensures r == self.allows(*$v)
//@end
}
impl<T: PartialOrd> MinMaxFacet<T> {
//@fn x MinMaxFacet::default ret=r props=C13
    ensures r.min is Unbounded, r.max is Unbounded
//@end
//@fn x MinMaxFacet::min_inclusive ret=r params=self,val props=C13
    requires ordered::<T>()
    ensures r is Ok <==> old(self).min is Unbounded && !clash(Min::Inclusive($val), old(self).max),
        r is Ok ==> final(self).min == Min::Inclusive($val) && final(self).max == old(self).max,
//@end
//@fn x MinMaxFacet::min_exclusive ret=r params=self,val props=C13
    requires ordered::<T>()
    ensures r is Ok <==> old(self).min is Unbounded && !clash(Min::Exclusive($val), old(self).max),
        r is Ok ==> final(self).min == Min::Exclusive($val) && final(self).max == old(self).max,
//@end
//@fn x MinMaxFacet::max_inclusive ret=r params=self,val props=C13
    requires ordered::<T>()
    ensures r is Ok <==> old(self).max is Unbounded && !clash(old(self).min, Max::Inclusive($val)),
        r is Ok ==> final(self).max == Max::Inclusive($val) && final(self).min == old(self).min,
//@end
//@fn x MinMaxFacet::max_exclusive ret=r params=self,val props=C13
    requires ordered::<T>()
    ensures r is Ok <==> old(self).max is Unbounded && !clash(old(self).min, Max::Exclusive($val)),
        r is Ok ==> final(self).max == Max::Exclusive($val) && final(self).min == old(self).min,
//@end
//@fn x MinMaxFacet::is_valid ret=r params=self,v props=C13
    requires ordered::<T>()
    ensures r == self.allows(*$v)
//@end
}
impl Literal {
//@fn t Literal::as_string_value ret=r params=self props=C13,C14,C11,C16
    ensures r@ == lit(self.1@)
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &LiteralSegment| *x) =~= self.1@, val@ == lit(self.1@.take(it.index@ as int))
//@loopbegin 0
            proof { let m = it.seq().map(|i: int, x: &LiteralSegment| *x); assert(m[it.index@ as int] == *s); assert(self.1@.take(it.index@ as int + 1).drop_last() =~= self.1@.take(it.index@ as int)); }
//@loopafter 0
        proof { assert(self.1@.take(self.1@.len() as int) =~= self.1@); }
//@end
}
//@fn d normalize_whitespace ret=r params=val props=C15,C14
    ensures r@ == norm($val@)
//@closure 0
 -> (r: bool) ensures r == ws(*$1)
//@pre
    proof { words_trim($val@); }
//@loop 0 for:it
        invariant it.seq() =~= trim_start($val@), (trim_start($val@).len() > 0 ==> !ws(trim_start($val@)[0])), norm(trim_start($val@)) == norm($val@),
            out@ == norm(trim_start($val@).take(it.index@ as int)), last_space == (it.index@ > 0 && ws(trim_start($val@)[it.index@ - 1]))
//@loopbegin 0
            proof {
                let t = trim_start($val@);
                assert(c == t[it.index@ as int]);
                norm_push(t.take(it.index@ as int), c);
                assert(t.take(it.index@ as int).push(c) =~= t.take(it.index@ as int + 1));
                if it.index@ > 0 { assert(t.take(it.index@ as int).last() == t[it.index@ - 1]); assert(t.take(it.index@ as int)[0] == t[0]); }
            }
//@loopafter 0
    proof { assert(trim_start($val@).take(trim_start($val@).len() as int) =~= trim_start($val@)); }
//@end
impl BuiltinDatatypeValue {
//@fn d <BuiltinDatatypeValue~as~Datatype>::is_valid ret=r params=self,value props=C15,C03
    ensures r == self.equals($value@)
//@end
}
impl BuiltinDatatype {
//@fn d <BuiltinDatatype~as~Datatype>::is_valid ret=r params=self,value props=C15,C03
    ensures r
//@end
}
impl QNameVal {
    #[verifier::external_body]
    fn vx_equals(&self, value: &str) -> (r: bool) ensures r == qname_equals(*self, value@) { unimplemented!() }
}
impl XsdDatatypeValues {
//@fn x <XsdDatatypeValues~as~Datatype>::is_valid ret=r params=self,value props=C15,C03
    ensures r == self.equals($value@)
//@exprmap QNameVal :: try_from_val (value) . map (| value | & value == v) . unwrap_or (false) => v.vx_equals(value)
//@end
}
impl LengthFacet {
//@fn x LengthFacet::allows as=within ret=r params=self,actual props=C14
    ensures r == self.allows($actual as int)
//@end
//@fn x LengthFacet::is_valid ret=r params=self,value props=C14
    ensures r == self.allows($value@.len() as int)
//@end
//@fn x LengthFacet::merge ret=r params=self,other props=C14
    requires !(*old(self) is Unbounded) ==> $other is MinLength || $other is MaxLength || $other is Length
    ensures
        r is Ok <==> *old(self) is Unbounded || (*old(self) is MinLength && $other is MaxLength && old(self).lo()->0 <= $other.hi()->0)
            || (*old(self) is MaxLength && $other is MinLength && $other.lo()->0 <= old(self).hi()->0),
        r is Ok ==> final(self).exact() == (if $other.exact() is Some { $other.exact() } else { old(self).exact() })
            && final(self).lo() == (if $other.lo() is Some { $other.lo() } else { old(self).lo() })
            && final(self).hi() == (if $other.hi() is Some { $other.hi() } else { old(self).hi() }),
//@end
}
impl PatternFacet {
//@fn x PatternFacet::is_valid ret=r params=self,value props=C14
    ensures r == pat_allows(Some(*self), $value@)
//@end
}
impl StringFacets {
//@fn x StringFacets::is_valid ret=r params=self,value props=C14
    ensures r == self.allows($value@)
//@end
}
impl XsdDatatypes {
//@fn x <XsdDatatypes~as~Datatype>::is_valid ret=r params=self,value props=C13,C14,C03
    ensures r == self.accepts($value@)
//@chain split_ascii_whitespace.collect => vx_words
//@exprmap value . replace (['\t' , '\n' , '\r'] , " ") => vx_replace_ws(value)
//@method iter => vx_iter ref
//@method all => vx_all
//@closure 0
 -> (r: bool) ensures r == ws($1)
//@closure 1
 -> (r: bool) ensures r == nmtoken_((**$1)@)
//@pre
    proof { ordered_BigInt(); ordered_BigUint(); ordered_BigDecimal(); words_trimmed($value@); }
//@end
}
pub struct Compiler;
impl Compiler {
//@fn x Compiler::i16 ret=r params=ctx,param props=C13
    ensures r is Ok <==> i16::lex(text_of(*$param)) is Some, r matches Ok(v) ==> i16::lex(text_of(*$param)) == Some(v)
//@end
//@fn x Compiler::u16 ret=r params=ctx,param props=C13
    ensures r is Ok <==> u16::lex(text_of(*$param)) is Some, r matches Ok(v) ==> u16::lex(text_of(*$param)) == Some(v)
//@end
//@fn x Compiler::i64 ret=r params=ctx,param props=C13
    ensures r is Ok <==> i64::lex(text_of(*$param)) is Some, r matches Ok(v) ==> i64::lex(text_of(*$param)) == Some(v)
//@end
//@fn x Compiler::i32 ret=r params=ctx,param props=C13
    ensures r is Ok <==> i32::lex(text_of(*$param)) is Some, r matches Ok(v) ==> i32::lex(text_of(*$param)) == Some(v)
//@end
//@fn x Compiler::u32 ret=r params=ctx,param props=C13
    ensures r is Ok <==> u32::lex(text_of(*$param)) is Some, r matches Ok(v) ==> u32::lex(text_of(*$param)) == Some(v)
//@end
//@fn x Compiler::u64 ret=r params=ctx,param props=C13
    ensures r is Ok <==> u64::lex(text_of(*$param)) is Some, r matches Ok(v) ==> u64::lex(text_of(*$param)) == Some(v)
//@end
//@fn x Compiler::bigint ret=r params=ctx,param props=C13
    ensures r is Ok <==> BigInt::lex(text_of(*$param)) is Some, r matches Ok(v) ==> BigInt::lex(text_of(*$param)) == Some(v)
//@end
//@fn x Compiler::biguint ret=r params=ctx,param props=C13
    ensures r is Ok <==> BigUint::lex(text_of(*$param)) is Some, r matches Ok(v) ==> BigUint::lex(text_of(*$param)) == Some(v)
//@end
//@fn x Compiler::bigdecimal ret=r params=ctx,param props=C13
    ensures r is Ok <==> BigDecimal::lex(text_of(*$param)) is Some, r matches Ok(v) ==> BigDecimal::lex(text_of(*$param)) == Some(v)
//@end
//@fn x Compiler::usize ret=r params=ctx,param props=C14
    ensures r is Ok <==> usize::lex(text_of(*$param)) is Some, r matches Ok(v) ==> usize::lex(text_of(*$param)) == Some(v)
//@end
//@fn x Compiler::pattern ret=r params=self,ctx,param props=C13,C14
    ensures r is Ok <==> regex_ok(whole(text_of(*$param))), r matches Ok(p) ==> p.0@ == text_of(*$param) && p.1.pat() == whole(p.0@)
//@inline map=res_map
//@pre
    proof { vx_lit(); }
//@end
//@fn x Compiler::short ret=r params=self,ctx,params props=C13
    ensures r is Ok <==> facets_ok::<i16>($params@, $params@.len() as int, false),
        r matches Ok(x) ==> x is Short && (x matches XsdDatatypes::Short(m, p) ==> (forall|v: i16| #[trigger] m.allows(v) == in_facets($params@, $params@.len() as int, v)) && pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@pre
    proof { names_differ();  }
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@, ordered::<i16>(),
            facets_ok::<i16>($params@, it.index@ as int, false), collected($params@, it.index@ as int, min_max),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); step::<i16>($params@, it.index@ as int, min_max, false); }
//@loopafter 0
        proof { assert forall|v: i16| #[trigger] min_max.allows(v) == in_facets($params@, $params@.len() as int, v) by { collected_allows::<i16>($params@, $params@.len() as int, min_max, v, false); } }
//@end
//@fn x Compiler::unsigned_short ret=r params=self,ctx,params props=C13
    ensures r is Ok <==> facets_ok::<u16>($params@, $params@.len() as int, false),
        r matches Ok(x) ==> x is UnsignedShort && (x matches XsdDatatypes::UnsignedShort(m, p) ==> (forall|v: u16| #[trigger] m.allows(v) == in_facets($params@, $params@.len() as int, v)) && pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@pre
    proof { names_differ();  }
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@, ordered::<u16>(),
            facets_ok::<u16>($params@, it.index@ as int, false), collected($params@, it.index@ as int, min_max),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); step::<u16>($params@, it.index@ as int, min_max, false); }
//@loopafter 0
        proof { assert forall|v: u16| #[trigger] min_max.allows(v) == in_facets($params@, $params@.len() as int, v) by { collected_allows::<u16>($params@, $params@.len() as int, min_max, v, false); } }
//@end
//@fn x Compiler::long ret=r params=self,ctx,params props=C13
    ensures r is Ok <==> facets_ok::<i64>($params@, $params@.len() as int, false),
        r matches Ok(x) ==> x is Long && (x matches XsdDatatypes::Long(m, p) ==> (forall|v: i64| #[trigger] m.allows(v) == in_facets($params@, $params@.len() as int, v)) && pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@pre
    proof { names_differ();  }
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@, ordered::<i64>(),
            facets_ok::<i64>($params@, it.index@ as int, false), collected($params@, it.index@ as int, min_max),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); step::<i64>($params@, it.index@ as int, min_max, false); }
//@loopafter 0
        proof { assert forall|v: i64| #[trigger] min_max.allows(v) == in_facets($params@, $params@.len() as int, v) by { collected_allows::<i64>($params@, $params@.len() as int, min_max, v, false); } }
//@end
//@fn x Compiler::int ret=r params=self,ctx,params props=C13
    ensures r is Ok <==> facets_ok::<i32>($params@, $params@.len() as int, false),
        r matches Ok(x) ==> x is Int && (x matches XsdDatatypes::Int(m, p) ==> (forall|v: i32| #[trigger] m.allows(v) == in_facets($params@, $params@.len() as int, v)) && pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@pre
    proof { names_differ();  }
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@, ordered::<i32>(),
            facets_ok::<i32>($params@, it.index@ as int, false), collected($params@, it.index@ as int, min_max),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); step::<i32>($params@, it.index@ as int, min_max, false); }
//@loopafter 0
        proof { assert forall|v: i32| #[trigger] min_max.allows(v) == in_facets($params@, $params@.len() as int, v) by { collected_allows::<i32>($params@, $params@.len() as int, min_max, v, false); } }
//@end
//@fn x Compiler::integer ret=r params=self,ctx,params props=C13
    ensures r is Ok <==> facets_ok::<BigInt>($params@, $params@.len() as int, false),
        r matches Ok(x) ==> x is Integer && (x matches XsdDatatypes::Integer(m, p) ==> (forall|v: BigInt| #[trigger] m.allows(v) == in_facets($params@, $params@.len() as int, v)) && pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@pre
    proof { names_differ(); ordered_BigInt(); }
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@, ordered::<BigInt>(),
            facets_ok::<BigInt>($params@, it.index@ as int, false), collected($params@, it.index@ as int, min_max),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); step::<BigInt>($params@, it.index@ as int, min_max, false); }
//@loopafter 0
        proof { assert forall|v: BigInt| #[trigger] min_max.allows(v) == in_facets($params@, $params@.len() as int, v) by { collected_allows::<BigInt>($params@, $params@.len() as int, min_max, v, false); } }
//@end
//@fn x Compiler::positive_integer ret=r params=self,ctx,params props=C13
    ensures r is Ok <==> facets_ok::<BigUint>($params@, $params@.len() as int, false),
        r matches Ok(x) ==> x is PositiveInteger && (x matches XsdDatatypes::PositiveInteger(m, p) ==> (forall|v: BigUint| #[trigger] m.allows(v) == in_facets($params@, $params@.len() as int, v)) && pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@pre
    proof { names_differ(); ordered_BigUint(); }
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@, ordered::<BigUint>(),
            facets_ok::<BigUint>($params@, it.index@ as int, false), collected($params@, it.index@ as int, min_max),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); step::<BigUint>($params@, it.index@ as int, min_max, false); }
//@loopafter 0
        proof { assert forall|v: BigUint| #[trigger] min_max.allows(v) == in_facets($params@, $params@.len() as int, v) by { collected_allows::<BigUint>($params@, $params@.len() as int, min_max, v, false); } }
//@end
//@fn x Compiler::unsigned_int ret=r params=self,ctx,params props=C13
    ensures r is Ok <==> facets_ok::<u32>($params@, $params@.len() as int, false),
        r matches Ok(x) ==> x is UnsignedInt && (x matches XsdDatatypes::UnsignedInt(m, p) ==> (forall|v: u32| #[trigger] m.allows(v) == in_facets($params@, $params@.len() as int, v)) && pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@pre
    proof { names_differ();  }
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@, ordered::<u32>(),
            facets_ok::<u32>($params@, it.index@ as int, false), collected($params@, it.index@ as int, min_max),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); step::<u32>($params@, it.index@ as int, min_max, false); }
//@loopafter 0
        proof { assert forall|v: u32| #[trigger] min_max.allows(v) == in_facets($params@, $params@.len() as int, v) by { collected_allows::<u32>($params@, $params@.len() as int, min_max, v, false); } }
//@end
//@fn x Compiler::unsigned_long ret=r params=self,ctx,params props=C13
    ensures r is Ok <==> facets_ok::<u64>($params@, $params@.len() as int, false),
        r matches Ok(x) ==> x is UnsignedLong && (x matches XsdDatatypes::UnsignedLong(m, p) ==> (forall|v: u64| #[trigger] m.allows(v) == in_facets($params@, $params@.len() as int, v)) && pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@pre
    proof { names_differ();  }
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@, ordered::<u64>(),
            facets_ok::<u64>($params@, it.index@ as int, false), collected($params@, it.index@ as int, min_max),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); step::<u64>($params@, it.index@ as int, min_max, false); }
//@loopafter 0
        proof { assert forall|v: u64| #[trigger] min_max.allows(v) == in_facets($params@, $params@.len() as int, v) by { collected_allows::<u64>($params@, $params@.len() as int, min_max, v, false); } }
//@end
//@fn x Compiler::decimal ret=r params=self,ctx,params props=C13
    ensures r is Ok <==> facets_ok::<BigDecimal>($params@, $params@.len() as int, true),
        r matches Ok(x) ==> x is Decimal && (x matches XsdDatatypes::Decimal { min_max: m, pattern: p, .. } ==> (forall|v: BigDecimal| #[trigger] m.allows(v) == in_facets($params@, $params@.len() as int, v)) && pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@pre
    proof { names_differ(); ordered_BigDecimal(); }
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@, ordered::<BigDecimal>(),
            facets_ok::<BigDecimal>($params@, it.index@ as int, true), collected($params@, it.index@ as int, min_max),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); step::<BigDecimal>($params@, it.index@ as int, min_max, true); }
//@loopafter 0
        proof { assert forall|v: BigDecimal| #[trigger] min_max.allows(v) == in_facets($params@, $params@.len() as int, v) by { collected_allows::<BigDecimal>($params@, $params@.len() as int, min_max, v, true); } }
//@end
//@fn x Compiler::normalized_string ret=r params=self,ctx,params props=C14
    ensures r is Ok <==> len_facets_ok($params@, $params@.len() as int, true),
        r matches Ok(x) ==> x is NormalizedString && (x matches XsdDatatypes::NormalizedString(f) ==> f.compiled($params@))
//@pre
    proof { names_differ(); }
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@,
            len_facets_ok($params@, it.index@ as int, true), len_collected($params@, it.index@ as int, len), pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); len_step($params@, it.index@ as int, len, true); }
//@loopafter 0
        proof { assert forall|l: int| #[trigger] len.allows(l) == in_len_facets($params@, $params@.len() as int, l) by { len_collected_allows($params@, $params@.len() as int, len, l, true); } }
//@end
//@fn x Compiler::string ret=r params=self,ctx,params props=C14
    ensures r is Ok <==> len_facets_ok($params@, $params@.len() as int, true),
        r matches Ok(x) ==> x is String && (x matches XsdDatatypes::String(f) ==> f.compiled($params@))
//@pre
    proof { names_differ(); }
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@,
            len_facets_ok($params@, it.index@ as int, true), len_collected($params@, it.index@ as int, len), pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); len_step($params@, it.index@ as int, len, true); }
//@loopafter 0
        proof { assert forall|l: int| #[trigger] len.allows(l) == in_len_facets($params@, $params@.len() as int, l) by { len_collected_allows($params@, $params@.len() as int, len, l, true); } }
//@end
//@fn x Compiler::nmtokens ret=r params=self,ctx,params props=C14
    ensures r is Ok <==> len_facets_ok($params@, $params@.len() as int, false),
        r matches Ok(x) ==> x is NmTokens && (x matches XsdDatatypes::NmTokens(f) ==> (forall|l: int| #[trigger] f.allows(l) == in_len_facets($params@, $params@.len() as int, l)))
//@pre
    proof { names_differ(); }
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@,
            len_facets_ok($params@, it.index@ as int, false), len_collected($params@, it.index@ as int, len)
//@loopbegin 0
            proof { names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); len_step($params@, it.index@ as int, len, false); }
//@loopafter 0
        proof { assert forall|l: int| #[trigger] len.allows(l) == in_len_facets($params@, $params@.len() as int, l) by { len_collected_allows($params@, $params@.len() as int, len, l, false); } }
//@end
//@fn x Compiler::nmtoken ret=r params=self,ctx,params props=C14
    ensures r is Ok <==> len_facets_ok($params@, $params@.len() as int, false),
        r matches Ok(x) ==> x is NmToken && (x matches XsdDatatypes::NmToken(f) ==> (forall|l: int| #[trigger] f.allows(l) == in_len_facets($params@, $params@.len() as int, l)))
//@pre
    proof { names_differ(); }
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@,
            len_facets_ok($params@, it.index@ as int, false), len_collected($params@, it.index@ as int, len)
//@loopbegin 0
            proof { names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); len_step($params@, it.index@ as int, len, false); }
//@loopafter 0
        proof { assert forall|l: int| #[trigger] len.allows(l) == in_len_facets($params@, $params@.len() as int, l) by { len_collected_allows($params@, $params@.len() as int, len, l, false); } }
//@end
//@fn x Compiler::ncname ret=r params=self,ctx,params props=C14
    ensures r is Ok <==> len_facets_ok($params@, $params@.len() as int, false),
        r matches Ok(x) ==> x is NcName && (x matches XsdDatatypes::NcName(f) ==> (forall|l: int| #[trigger] f.allows(l) == in_len_facets($params@, $params@.len() as int, l)))
//@pre
    proof { names_differ(); }
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@,
            len_facets_ok($params@, it.index@ as int, false), len_collected($params@, it.index@ as int, len)
//@loopbegin 0
            proof { names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); len_step($params@, it.index@ as int, len, false); }
//@loopafter 0
        proof { assert forall|l: int| #[trigger] len.allows(l) == in_len_facets($params@, $params@.len() as int, l) by { len_collected_allows($params@, $params@.len() as int, len, l, false); } }
//@end
//@fn x Compiler::token ret=r params=self,ctx,params props=C14
    ensures r is Ok <==> len_facets_ok($params@, $params@.len() as int, false),
        r matches Ok(x) ==> x is Token && (x matches XsdDatatypes::Token(f) ==> (forall|l: int| #[trigger] f.allows(l) == in_len_facets($params@, $params@.len() as int, l)))
//@pre
    proof { names_differ(); }
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@,
            len_facets_ok($params@, it.index@ as int, false), len_collected($params@, it.index@ as int, len)
//@loopbegin 0
            proof { names_differ(); assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); len_step($params@, it.index@ as int, len, false); }
//@loopafter 0
        proof { assert forall|l: int| #[trigger] len.allows(l) == in_len_facets($params@, $params@.len() as int, l) by { len_collected_allows($params@, $params@.len() as int, len, l, false); } }
//@end
//@fn x Compiler::duration ret=r params=self,ctx,params props=C14
    ensures r is Ok <==> pat_facets_ok($params@, $params@.len() as int),
        r matches Ok(x) ==> x is Duration && (x matches XsdDatatypes::Duration(p) ==> pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@,
            pat_facets_ok($params@, it.index@ as int),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); pat_step($params@, it.index@ as int); }
//@end
//@fn x Compiler::date ret=r params=self,ctx,params props=C14
    ensures r is Ok <==> pat_facets_ok($params@, $params@.len() as int),
        r matches Ok(x) ==> x is Date && (x matches XsdDatatypes::Date(p) ==> pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@,
            pat_facets_ok($params@, it.index@ as int),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); pat_step($params@, it.index@ as int); }
//@end
//@fn x Compiler::datetime ret=r params=self,ctx,params props=C14
    ensures r is Ok <==> pat_facets_ok($params@, $params@.len() as int),
        r matches Ok(x) ==> x is Datetime && (x matches XsdDatatypes::Datetime(p) ==> pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@,
            pat_facets_ok($params@, it.index@ as int),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); pat_step($params@, it.index@ as int); }
//@end
//@fn x Compiler::any_uri ret=r params=self,ctx,params props=C14
    ensures r is Ok <==> pat_facets_ok($params@, $params@.len() as int),
        r matches Ok(x) ==> x is AnyURI && (x matches XsdDatatypes::AnyURI(p) ==> pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@,
            pat_facets_ok($params@, it.index@ as int),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); pat_step($params@, it.index@ as int); }
//@end
//@fn x Compiler::language ret=r params=self,ctx,params props=C14
    ensures r is Ok <==> pat_facets_ok($params@, $params@.len() as int),
        r matches Ok(x) ==> x is Language && (x matches XsdDatatypes::Language(p) ==> pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@,
            pat_facets_ok($params@, it.index@ as int),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); pat_step($params@, it.index@ as int); }
//@end
//@fn x Compiler::boolean ret=r params=self,ctx,params props=C14
    ensures r is Ok <==> pat_facets_ok($params@, $params@.len() as int),
        r matches Ok(x) ==> x is Boolean && (x matches XsdDatatypes::Boolean(p) ==> pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@,
            pat_facets_ok($params@, it.index@ as int),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); pat_step($params@, it.index@ as int); }
//@end
//@fn x Compiler::id ret=r params=self,ctx,params props=C14
    ensures r is Ok <==> pat_facets_ok($params@, $params@.len() as int),
        r matches Ok(x) ==> x is Id && (x matches XsdDatatypes::Id(p) ==> pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@,
            pat_facets_ok($params@, it.index@ as int),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); pat_step($params@, it.index@ as int); }
//@end
//@fn x Compiler::idref ret=r params=self,ctx,params props=C14
    ensures r is Ok <==> pat_facets_ok($params@, $params@.len() as int),
        r matches Ok(x) ==> x is IdRef && (x matches XsdDatatypes::IdRef(p) ==> pat_of(p) == last_pattern($params@, $params@.len() as int) && pat_wf(p))
//@loop 0 for:it
        invariant it.seq().map(|i: int, x: &Param| *x) =~= $params@,
            pat_facets_ok($params@, it.index@ as int),
            pat_of(pattern) == last_pattern($params@, it.index@ as int), pat_wf(pattern)
//@loopbegin 0
            proof { assert(it.seq().map(|i: int, x: &Param| *x)[it.index@ as int] == *param); assert(*param == $params@[it.index@ as int]); pat_step($params@, it.index@ as int); }
//@end
    // floating point is outside the verifier's reach: bounded
    #[verifier::external_body]
    fn double(&self, ctx: &Context, params: &[Param]) -> (r: Result<XsdDatatypes, FacetError>)
        ensures r matches Ok(x) ==> x is Double
    { unimplemented!() }
//@fn x Compiler::compile ret=r params=self,ctx,span,name,params props=C13,C14
    ensures names_type($name@, $params@, r)
//@inline map=res_map
//@pre
    proof { reveal_strlit("short"); reveal_strlit("unsignedShort"); reveal_strlit("long"); reveal_strlit("int"); reveal_strlit("integer"); reveal_strlit("positiveInteger"); reveal_strlit("unsignedInt"); reveal_strlit("unsignedLong"); reveal_strlit("decimal"); reveal_strlit("normalizedString"); reveal_strlit("string"); reveal_strlit("NMTOKENS"); reveal_strlit("NMTOKEN"); reveal_strlit("NCName"); reveal_strlit("token"); reveal_strlit("duration"); reveal_strlit("date"); reveal_strlit("dateTime"); reveal_strlit("anyURI"); reveal_strlit("language"); reveal_strlit("boolean"); reveal_strlit("ID"); reveal_strlit("IDREF"); reveal_strlit("double"); }
//@end
//@fn x Compiler::compile_value ret=r params=self,ctx,span,name,value props=C15
    ensures xsd_value($name@, $value@, r)
//@fnren QNameVal :: try_from_val => vx_qname
//@pre
    proof { reveal_strlit("string"); reveal_strlit("token"); reveal_strlit("QName"); }
//@end
//@fn x <Compiler~as~DatatypeCompiler>::datatype_value as=datatype_value ret=r params=self,ctx,datatype_name,value props=C15
    requires $datatype_name is CName
    ensures $datatype_name matches DatatypeName::CName(q) && xsd_value(q.1.1@, $value@, r)
//@typemap Self :: DTValue => XsdDatatypeValues
//@typemap Self :: Error => XsdDatatypeError
//@end
//@fn x <Compiler~as~DatatypeCompiler>::datatype_name as=datatype_name ret=r params=self,ctx,datatype_name,params props=C13,C14
    requires $datatype_name is CName
    ensures $datatype_name matches DatatypeName::CName(q) && names_type(q.1.1@, $params@, r)
//@typemap Self :: DT => XsdDatatypes
//@typemap Self :: Error => XsdDatatypeError
//@end
}
pub open spec fn xsd_value(name: Seq<char>, v: Seq<char>, r: Result<XsdDatatypeValues, XsdDatatypeError>) -> bool {
    (name == "string"@ ==> (r matches Ok(XsdDatatypeValues::String(t)) && t@ == v)) && (name == "token"@ ==> (r matches Ok(XsdDatatypeValues::Token(t)) && t@ == norm(v)))
    && (r is Ok ==> name == "string"@ || name == "token"@ || name == "QName"@)
}
pub open spec fn names_type(name: Seq<char>, ps: Seq<Param>, r: Result<XsdDatatypes, XsdDatatypeError>) -> bool {
    &&& (name == "short"@ ==> (r is Ok <==> facets_ok::<i16>(ps, ps.len() as int, false)) && (r matches Ok(x) ==> x is Short && (x matches XsdDatatypes::Short(m, p) ==> (forall|v: i16| #[trigger] m.allows(v) == in_facets(ps, ps.len() as int, v)) && pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "unsignedShort"@ ==> (r is Ok <==> facets_ok::<u16>(ps, ps.len() as int, false)) && (r matches Ok(x) ==> x is UnsignedShort && (x matches XsdDatatypes::UnsignedShort(m, p) ==> (forall|v: u16| #[trigger] m.allows(v) == in_facets(ps, ps.len() as int, v)) && pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "long"@ ==> (r is Ok <==> facets_ok::<i64>(ps, ps.len() as int, false)) && (r matches Ok(x) ==> x is Long && (x matches XsdDatatypes::Long(m, p) ==> (forall|v: i64| #[trigger] m.allows(v) == in_facets(ps, ps.len() as int, v)) && pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "int"@ ==> (r is Ok <==> facets_ok::<i32>(ps, ps.len() as int, false)) && (r matches Ok(x) ==> x is Int && (x matches XsdDatatypes::Int(m, p) ==> (forall|v: i32| #[trigger] m.allows(v) == in_facets(ps, ps.len() as int, v)) && pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "integer"@ ==> (r is Ok <==> facets_ok::<BigInt>(ps, ps.len() as int, false)) && (r matches Ok(x) ==> x is Integer && (x matches XsdDatatypes::Integer(m, p) ==> (forall|v: BigInt| #[trigger] m.allows(v) == in_facets(ps, ps.len() as int, v)) && pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "positiveInteger"@ ==> (r is Ok <==> facets_ok::<BigUint>(ps, ps.len() as int, false)) && (r matches Ok(x) ==> x is PositiveInteger && (x matches XsdDatatypes::PositiveInteger(m, p) ==> (forall|v: BigUint| #[trigger] m.allows(v) == in_facets(ps, ps.len() as int, v)) && pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "unsignedInt"@ ==> (r is Ok <==> facets_ok::<u32>(ps, ps.len() as int, false)) && (r matches Ok(x) ==> x is UnsignedInt && (x matches XsdDatatypes::UnsignedInt(m, p) ==> (forall|v: u32| #[trigger] m.allows(v) == in_facets(ps, ps.len() as int, v)) && pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "unsignedLong"@ ==> (r is Ok <==> facets_ok::<u64>(ps, ps.len() as int, false)) && (r matches Ok(x) ==> x is UnsignedLong && (x matches XsdDatatypes::UnsignedLong(m, p) ==> (forall|v: u64| #[trigger] m.allows(v) == in_facets(ps, ps.len() as int, v)) && pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "decimal"@ ==> (r is Ok <==> facets_ok::<BigDecimal>(ps, ps.len() as int, true)) && (r matches Ok(x) ==> x is Decimal && (x matches XsdDatatypes::Decimal { min_max: m, pattern: p, .. } ==> (forall|v: BigDecimal| #[trigger] m.allows(v) == in_facets(ps, ps.len() as int, v)) && pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "normalizedString"@ ==> (r is Ok <==> len_facets_ok(ps, ps.len() as int, true)) && (r matches Ok(x) ==> x is NormalizedString && (x matches XsdDatatypes::NormalizedString(f) ==> f.compiled(ps))))
    &&& (name == "string"@ ==> (r is Ok <==> len_facets_ok(ps, ps.len() as int, true)) && (r matches Ok(x) ==> x is String && (x matches XsdDatatypes::String(f) ==> f.compiled(ps))))
    &&& (name == "NMTOKENS"@ ==> (r is Ok <==> len_facets_ok(ps, ps.len() as int, false)) && (r matches Ok(x) ==> x is NmTokens && (x matches XsdDatatypes::NmTokens(f) ==> (forall|l: int| #[trigger] f.allows(l) == in_len_facets(ps, ps.len() as int, l)))))
    &&& (name == "NMTOKEN"@ ==> (r is Ok <==> len_facets_ok(ps, ps.len() as int, false)) && (r matches Ok(x) ==> x is NmToken && (x matches XsdDatatypes::NmToken(f) ==> (forall|l: int| #[trigger] f.allows(l) == in_len_facets(ps, ps.len() as int, l)))))
    &&& (name == "NCName"@ ==> (r is Ok <==> len_facets_ok(ps, ps.len() as int, false)) && (r matches Ok(x) ==> x is NcName && (x matches XsdDatatypes::NcName(f) ==> (forall|l: int| #[trigger] f.allows(l) == in_len_facets(ps, ps.len() as int, l)))))
    &&& (name == "token"@ ==> (r is Ok <==> len_facets_ok(ps, ps.len() as int, false)) && (r matches Ok(x) ==> x is Token && (x matches XsdDatatypes::Token(f) ==> (forall|l: int| #[trigger] f.allows(l) == in_len_facets(ps, ps.len() as int, l)))))
    &&& (name == "duration"@ ==> (r is Ok <==> pat_facets_ok(ps, ps.len() as int)) && (r matches Ok(x) ==> x is Duration && (x matches XsdDatatypes::Duration(p) ==> pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "date"@ ==> (r is Ok <==> pat_facets_ok(ps, ps.len() as int)) && (r matches Ok(x) ==> x is Date && (x matches XsdDatatypes::Date(p) ==> pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "dateTime"@ ==> (r is Ok <==> pat_facets_ok(ps, ps.len() as int)) && (r matches Ok(x) ==> x is Datetime && (x matches XsdDatatypes::Datetime(p) ==> pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "anyURI"@ ==> (r is Ok <==> pat_facets_ok(ps, ps.len() as int)) && (r matches Ok(x) ==> x is AnyURI && (x matches XsdDatatypes::AnyURI(p) ==> pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "language"@ ==> (r is Ok <==> pat_facets_ok(ps, ps.len() as int)) && (r matches Ok(x) ==> x is Language && (x matches XsdDatatypes::Language(p) ==> pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "boolean"@ ==> (r is Ok <==> pat_facets_ok(ps, ps.len() as int)) && (r matches Ok(x) ==> x is Boolean && (x matches XsdDatatypes::Boolean(p) ==> pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "ID"@ ==> (r is Ok <==> pat_facets_ok(ps, ps.len() as int)) && (r matches Ok(x) ==> x is Id && (x matches XsdDatatypes::Id(p) ==> pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "IDREF"@ ==> (r is Ok <==> pat_facets_ok(ps, ps.len() as int)) && (r matches Ok(x) ==> x is IdRef && (x matches XsdDatatypes::IdRef(p) ==> pat_of(p) == last_pattern(ps, ps.len() as int) && pat_wf(p))))
    &&& (name == "double"@ ==> (r matches Ok(x) ==> x is Double))
    &&& (r is Ok ==> name == "short"@ || name == "unsignedShort"@ || name == "long"@ || name == "int"@ || name == "integer"@ || name == "positiveInteger"@ || name == "unsignedInt"@ || name == "unsignedLong"@ || name == "decimal"@ || name == "normalizedString"@ || name == "string"@ || name == "NMTOKENS"@ || name == "NMTOKEN"@ || name == "NCName"@ || name == "token"@ || name == "duration"@ || name == "date"@ || name == "dateTime"@ || name == "anyURI"@ || name == "language"@ || name == "boolean"@ || name == "ID"@ || name == "IDREF"@ || name == "double"@)
}
pub uninterp spec fn qname_lex(v: Seq<char>) -> Option<QNameVal>;
#[verifier::external_body]
fn vx_qname(v: &str) -> (r: Result<QNameVal, ()>) ensures r is Ok <==> qname_lex(v@) is Some { unimplemented!() }
// ---- the built-in library
pub struct RelaxCompiler;
pub open spec fn relax_name(n: DatatypeName) -> Option<Seq<char>> {
    match n { DatatypeName::String => Some("string"@), DatatypeName::Token => Some("token"@), DatatypeName::CName(q) => Some(q.1.1@), DatatypeName::NamespacedName(_) => None }
}
pub open spec fn relax_value(n: DatatypeName, v: Seq<char>, r: Result<BuiltinDatatypeValue, RelaxError>) -> bool {
    &&& (relax_name(n) == Some("string"@) ==> (r matches Ok(BuiltinDatatypeValue::StringValue(t)) && t@ == v))
    &&& (relax_name(n) == Some("token"@) ==> (r matches Ok(BuiltinDatatypeValue::TokenValue(t)) && t@ == norm(v)))
    &&& (r is Ok ==> relax_name(n) == Some("string"@) || relax_name(n) == Some("token"@))
}
impl RelaxCompiler {
//@fn d <Compiler~as~DatatypeCompiler>::datatype_value as=datatype_value ret=r params=self,ctx,name,value props=C15
    ensures relax_value(*$name, $value@, r)
//@typemap Self :: DTValue => BuiltinDatatypeValue
//@typemap Self :: Error => RelaxError
//@fnren Error :: DatataypeNameUnknown => RelaxError::DatataypeNameUnknown
//@pre
    proof { reveal_strlit("string"); reveal_strlit("token"); }
//@end
//@fn d <Compiler~as~DatatypeCompiler>::datatype_name as=datatype_name ret=r params=self,ctx,name,params props=C15,C18
    ensures r is Ok <==> $params@.len() == 0 && (relax_name(*$name) == Some("string"@) || relax_name(*$name) == Some("token"@))
//@typemap Self :: DT => BuiltinDatatype
//@typemap Self :: Error => RelaxError
//@fnren Error :: DatataypeNameUnknown => RelaxError::DatataypeNameUnknown
//@fnren Error :: ParamNotAllowed => RelaxError::ParamNotAllowed
//@pre
    proof { reveal_strlit("string"); reveal_strlit("token"); }
//@end
}
// ---- which library a name is in
pub struct LibCompiler { relax: RelaxCompiler, xsd: Compiler }
impl LibCompiler {
//@fn mo Compiler::dt_name ret=r params=self,ctx,datatype_name,params,ns_span,ns props=C15,C13,C14
    requires $ns@ == NAMESPACE_URI@ ==> $datatype_name is CName
    ensures lib_name($ns@, *$datatype_name, $params@, r)
//@inline map=res_map
//@pre
    proof { reveal_strlit(""); reveal_strlit("http://www.w3.org/2001/XMLSchema-datatypes"); }
//@end
//@fn mo Compiler::dt_value ret=r params=self,ctx,datatype_name,value,ns_span,ns props=C15
    requires $ns@ == NAMESPACE_URI@ ==> $datatype_name is CName
    ensures lib_value($ns@, *$datatype_name, $value@, r)
//@inline map=res_map
//@pre
    proof { reveal_strlit(""); reveal_strlit("http://www.w3.org/2001/XMLSchema-datatypes"); }
//@end
//@fn mo <Compiler~as~DatatypeCompiler>::datatype_name as=datatype_name ret=r params=self,ctx,datatype_name,params props=C15,C13,C14
    requires $datatype_name matches DatatypeName::NamespacedName(n) ==> lit(n.namespace_uri.1@) != NAMESPACE_URI@
    ensures lib_name(ns_of_name(*$datatype_name), *$datatype_name, $params@, r)
//@typemap Self :: DT => Datatypes
//@typemap Self :: Error => Errors
//@fullslice amp
//@inline map=res_map
//@pre
    proof { reveal_strlit(""); reveal_strlit("http://www.w3.org/2001/XMLSchema-datatypes"); }
//@end
//@fn mo <Compiler~as~DatatypeCompiler>::datatype_value as=datatype_value ret=r params=self,ctx,datatype_name,value props=C15
    requires ns_of_name(*$datatype_name) == NAMESPACE_URI@ ==> $datatype_name is CName
    ensures lib_value(ns_of_name(*$datatype_name), *$datatype_name, $value@, r)
//@typemap Self :: DTValue => DatatypeValues
//@typemap Self :: Error => Errors
//@fullslice amp
//@inline map=res_map
//@pre
    proof { reveal_strlit(""); reveal_strlit("http://www.w3.org/2001/XMLSchema-datatypes"); }
//@end
}
pub open spec fn ns_of_name(n: DatatypeName) -> Seq<char> {
    match n { DatatypeName::String => ""@, DatatypeName::Token => ""@, DatatypeName::CName(q) => q.0.1@, DatatypeName::NamespacedName(n) => lit(n.namespace_uri.1@) }
}
pub open spec fn lib_name(ns: Seq<char>, n: DatatypeName, ps: Seq<Param>, r: Result<Datatypes, Errors>) -> bool {
    &&& (ns == ""@ ==> (r is Ok <==> ps.len() == 0 && (relax_name(n) == Some("string"@) || relax_name(n) == Some("token"@))))
    &&& (ns == ""@ ==> (r matches Ok(x) ==> x is Relax))
    &&& (ns == NAMESPACE_URI@ ==> (n matches DatatypeName::CName(q) ==> match r { Ok(Datatypes::Xsd(x)) => names_type(q.1.1@, ps, Ok(x)), Err(Errors::Xsd(e)) => names_type(q.1.1@, ps, Err(e)), _ => false }))
    &&& (r is Ok ==> ns == ""@ || ns == NAMESPACE_URI@)
}
pub open spec fn lib_value(ns: Seq<char>, n: DatatypeName, v: Seq<char>, r: Result<DatatypeValues, Errors>) -> bool {
    &&& (ns == ""@ ==> match r { Ok(DatatypeValues::Relax(x)) => relax_value(n, v, Ok(x)), Err(Errors::Relax(e)) => relax_value(n, v, Err(e)), _ => false })
    &&& (ns == NAMESPACE_URI@ ==> (n matches DatatypeName::CName(q) ==> match r { Ok(DatatypeValues::Xsd(x)) => xsd_value(q.1.1@, v, Ok(x)), Err(Errors::Xsd(e)) => xsd_value(q.1.1@, v, Err(e)), _ => false }))
    &&& (r is Ok ==> ns == ""@ || ns == NAMESPACE_URI@)
}

pub open spec fn pat_facets_ok(ps: Seq<Param>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] pat_facet_ok(ps[i]) }
proof fn pat_step(ps: Seq<Param>, n: int) requires 0 <= n < ps.len()
    ensures pat_facets_ok(ps, n + 1) <==> pat_facets_ok(ps, n) && pat_facet_ok(ps[n]), pat_facets_ok(ps, ps.len() as int) ==> pat_facets_ok(ps, n + 1)
{ assert(pat_facets_ok(ps, n + 1) ==> pat_facet_ok(ps[n])); }
pub open spec fn pat_facet_ok(p: Param) -> bool { named(p, "pattern"@) && regex_ok(whole(text_of(p))) }
}
fn main() {}
