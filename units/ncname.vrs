//@include common.vrs
//@include strpos.vrs
//@include nom.vrs
//@file c relaxng-syntax/src/compact.rs
//@file l relaxng-syntax/src/xml.rs
//@file x relaxng-model/src/datatype/xsd.rs
//@file t relaxng-syntax/src/types.rs
//@strip nom
use std::ops::{Range, RangeInclusive};
//@typemap Span => Range<usize>
//@type t NcName
//@type t Identifier
//@typemap Span => Span<'_>
//@typemap IResult<Span, char> => IRes<'_, char>
//@typemap IResult<Span, NcName> => IRes<'_, NcName>
//@typemap Option<char> => Option<char>
//@method to_string => vx_to_string ref
//@method is_empty => vx_is_empty ref
//@method trim => vx_trim
//@exprmap range . contains (& c . as_char ()) => vx_in(&range, c)
// RangeInclusive::contains
#[verifier::external_body]
fn vx_in(r: &RangeInclusive<char>, c: char) -> (b: bool) ensures b == (r@.start <= c && c <= r@.end && !r@.exhausted) { r.contains(&c) }

//@include ncspec.vrs
// length of the longest run of name characters
pub open spec fn run(s: Seq<char>) -> nat decreases s.len() { if s.len() > 0 && name_char(s[0]) { 1 + run(s.drop_first()) } else { 0 } }
pub proof fn lem_run(s: Seq<char>)
    ensures run(s) <= s.len(), forall|k: int| 0 <= k < run(s) ==> name_char(#[trigger] s[k]), run(s) < s.len() ==> !name_char(s[run(s) as int])
    decreases s.len()
{
    if s.len() > 0 && name_char(s[0]) {
        let t = s.drop_first();
        lem_run(t);
        assert forall|k: int| 0 <= k < run(s) implies name_char(#[trigger] s[k]) by { if k > 0 { assert(t[k - 1] == s[k]); } }
        if run(s) < s.len() { assert(t[run(t) as int] == s[run(s) as int]); }
    }
}
//@fn c char_in params=range props=C19
//@sig fn char_in(range: RangeInclusive<char>) -> (r: impl for<'a> Parser<'a, char>)
    requires !$range@.exhausted
    ensures r.req(), forall|i: Span<'_>, o: IRes<'_, char>| #[trigger] r.rel(i, o) ==> one(i@, $range@.start <= i@[0] && i@[0] <= $range@.end, o)
//@closure 0
    -> (b: bool) ensures b == ($range@.start <= $1 && $1 <= $range@.end)
//@end
//@fn c nc_name_start_char ret=r params=input props=C19
    ensures one($input@, start_char($input@[0]), r)
//@end
//@fn c nc_name_char ret=r params=input props=C19
    ensures one($input@, name_char($input@[0]), r)
//@end
//@fn c span ret=r params=start,end props=C19
//@typemap LocatedSpan < & str > => Span<'_>
    ensures r.start == $start.offset(), r.end == $end.offset()
//@end
// the run that many0 takes is the longest one
proof fn lem_many<'a, P: Parser<'a, char>>(p: P, i: Span<'a>, out: Seq<char>, j: Span<'a>)
    requires many_rel(p, i, out, j), forall|i: Span<'a>, o: IRes<'a, char>| #[trigger] p.rel(i, o) ==> one(i@, name_char(i@[0]), o)
    ensures j@ == i@.skip(run(i@) as int)
    decreases out.len()
{
    if out.len() == 0 { assert(j@ =~= i@.skip(0)); }
    else {
        let m = choose|m: Span<'a>| #[trigger] p.rel(i, Ok((m, out[0]))) && m@.len() != i@.len() && many_rel(p, m, out.drop_first(), j);
        lem_many(p, m, out.drop_first(), j);
        lem_run(i@.drop_first());
        assert(j@ =~= i@.skip(run(i@) as int));
    }
}
//@fn c nc_name ret=r params=input props=C19
    ensures match r {
        Ok((j, n)) => $input@.len() > 0 && start_char($input@[0]) && n.1@ == $input@.take(run($input@) as int) && j@ == $input@.skip(run($input@) as int),
        Err(_) => !($input@.len() > 0 && start_char($input@[0])),
    }
//@closure 0
    -> (n: NcName) ensures n.1@ == $1.1@
//@pre
    proof {
        assert forall|p: Span<'_>, o: Seq<char>, j: Span<'_>| #[trigger] many_rel(nc_name_char, p, o, j) implies j@ == p@.skip(run(p@) as int) && run(p@) <= p@.len() by { lem_many(nc_name_char, p, o, j); lem_run(p@); }
    }
//@end

//@fn x is_valid_ncname ret=r params=text props=C19,C13
//@fnren relaxng_syntax :: compact :: nc_name => nc_name
//@fnren relaxng_syntax :: compact :: Span :: new => Span::new
    ensures r == ncname_($text@)
//@pre
    proof {
        lem_run($text@);
        if ncname_($text@) { if run($text@) < $text@.len() { assert(name_char($text@[run($text@) as int])); } }
        else if run($text@) == $text@.len() { assert($text@ =~= $text@.take(run($text@) as int)); }
    }
//@end

// ---- xsd:NMTOKEN: one or more name characters, the colon among them
pub open spec fn okp(w: Seq<char>) -> bool { forall|k: int| 0 <= k < w.len() ==> name_char(#[trigger] w[k]) }
// what the colons in a text divide it into
pub open spec fn splits(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::empty()] }
    else {
        let w = splits(s.drop_last());
        if s.last() == ':' { w.push(Seq::empty()) } else { w.drop_last().push(w.last().push(s.last())) }
    }
}
proof fn lem_splits(s: Seq<char>)
    ensures splits(s).len() > 0,
        (forall|i: int| 0 <= i < splits(s).len() ==> okp(#[trigger] splits(s)[i])) <==> (forall|k: int| 0 <= k < s.len() ==> name_char(#[trigger] s[k]) || s[k] == ':'),
    decreases s.len()
{
    if s.len() == 0 { assert(okp(splits(s)[0])); }
    else {
        let t = s.drop_last();
        let (w, v) = (splits(t), splits(s));
        lem_splits(t);
        let l = w.len() - 1;
        if s.last() == ':' {
            assert(forall|i: int| 0 <= i < w.len() ==> v[i] == w[i]);
            assert(v.last().len() == 0);
            if forall|i: int| 0 <= i < v.len() ==> okp(#[trigger] v[i]) {
                assert forall|i: int| 0 <= i < w.len() implies okp(#[trigger] w[i]) by { assert(v[i] == w[i]); }
                assert forall|k: int| 0 <= k < s.len() implies name_char(#[trigger] s[k]) || s[k] == ':' by { if k < t.len() { assert(t[k] == s[k]); } }
            }
            if forall|k: int| 0 <= k < s.len() ==> name_char(#[trigger] s[k]) || s[k] == ':' {
                assert forall|k: int| 0 <= k < t.len() implies name_char(#[trigger] t[k]) || t[k] == ':' by { assert(t[k] == s[k]); }
                assert forall|i: int| 0 <= i < v.len() implies okp(#[trigger] v[i]) by { if i < w.len() { assert(okp(w[i])); } }
            }
        } else {
            assert(forall|i: int| 0 <= i < l ==> v[i] == w[i]);
            assert(v[l] == w[l].push(s.last()));
            if forall|i: int| 0 <= i < v.len() ==> okp(#[trigger] v[i]) {
                assert(okp(v[l]));
                assert(v[l].last() == s.last() && v[l][v[l].len() - 1] == s.last());
                assert forall|i: int| 0 <= i < w.len() implies okp(#[trigger] w[i]) by {
                    assert(okp(v[i]));
                    if i == l { assert forall|k: int| 0 <= k < w[l].len() implies name_char(#[trigger] w[l][k]) by { assert(v[l][k] == w[l][k]); } }
                }
                assert forall|k: int| 0 <= k < s.len() implies name_char(#[trigger] s[k]) || s[k] == ':' by { if k < t.len() { assert(t[k] == s[k]); } }
            }
            if forall|k: int| 0 <= k < s.len() ==> name_char(#[trigger] s[k]) || s[k] == ':' {
                assert forall|k: int| 0 <= k < t.len() implies name_char(#[trigger] t[k]) || t[k] == ':' by { assert(t[k] == s[k]); }
                assert(name_char(s[s.len() - 1]));
                assert(okp(w[l]));
                assert forall|i: int| 0 <= i < v.len() implies okp(#[trigger] v[i]) by {
                    assert(okp(w[i]));
                    if i == l { assert forall|k: int| 0 <= k < v[l].len() implies name_char(#[trigger] v[l][k]) by { if k < w[l].len() { assert(v[l][k] == w[l][k]); } } }
                }
            }
        }
    }
}
// str::split by a colon, collected; a name before which there is an underscore
#[verifier::external_body]
fn vx_split(s: &str) -> (r: Vec<&str>) ensures r@.len() == splits(s@).len(), forall|i: int| #![trigger r@[i]] #![trigger splits(s@)[i]] 0 <= i < r@.len() ==> r@[i]@ == splits(s@)[i] { s.split(':').collect() }
#[verifier::external_body]
fn vx_under(s: &str) -> (r: String) ensures r@ == seq!['_'] + s@ { format!("_{s}") }
#[verifier::external_body]
fn vx_all_str<'x, F: Fn(&'x str) -> bool>(v: Vec<&'x str>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],))
    ensures r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((#[trigger] v@[i],), true), !r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((#[trigger] v@[i],), false)
{ v.into_iter().all(f) }
proof fn lem_under(s: Seq<char>) ensures ncname_(seq!['_'] + s) == okp(s) {
    let t = seq!['_'] + s;
    if ncname_(t) { assert forall|k: int| 0 <= k < s.len() implies name_char(#[trigger] s[k]) by { assert(t[k + 1] == s[k]); } }
    if okp(s) { assert forall|k: int| 0 <= k < t.len() implies name_char(#[trigger] t[k]) by { if k > 0 { assert(t[k] == s[k - 1]); } } }
}
//@fn x is_valid_nmtoken ret=r params=text props=C19
//@exprmap text . split (':') => vx_split(text)
//@exprmap format ! ("_{part}") => vx_under(part)
//@method all => vx_all_str
    ensures r == nmtoken_($text@)
//@closure 0
 -> (b: bool) ensures b == okp($1@)
//@pre
    proof { lem_splits($text@); assert forall|s: Seq<char>| #[trigger] ncname_(seq!['_'] + s) == okp(s) by { lem_under(s); } }
//@end

// ---- the XML syntax
pub enum Error { Expected(Range<usize>, &'static str), Unexpected(Range<usize>, &'static str) }
//@typemap Result<NcName> => Result<NcName, Error>
//@typemap Result<Identifier> => Result<Identifier, Error>
//@include ncxml.vrs

}
fn main() {}
