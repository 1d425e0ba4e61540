import runpy, os
runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'nom.py'))
R = "A-Z _ a-z C0-D6 D8-F6 F8-2FF 370-37D 37F-1FFF 200C-200D 2070-218F 2C00-2FEF 3001-D7FF F900-FDCF FDF0-FFFD 10000-EFFFF"
o = r'''//@include common.vrs
//@include strpos.vrs
//@include nom.vrs
//@file c relaxng-syntax/src/compact.rs
//@file l relaxng-syntax/src/xml.rs
//@file x relaxng-model/src/datatype/xsd.rs
//@file t relaxng-syntax/src/types.rs
//@strip nom
use std::ops::{Range, RangeInclusive};
//@typemap Span => Range<usize>
//@type t NcName
//@type t Identifier
//@typemap Span => Span<'_>
//@typemap IResult<Span, char> => IRes<'_, char>
//@typemap IResult<Span, NcName> => IRes<'_, NcName>
//@typemap Option<char> => Option<char>
//@method to_string => vx_to_string ref
//@method is_empty => vx_is_empty ref
//@method trim => vx_trim
//@exprmap range . contains (& c . as_char ()) => vx_in(&range, c)
// RangeInclusive::contains
#[verifier::external_body]
fn vx_in(r: &RangeInclusive<char>, c: char) -> (b: bool) ensures b == (r@.start <= c && c <= r@.end && !r@.exhausted) { r.contains(&c) }

// ---- the specification: XML Namespaces 1.0 NCName, XML 1.0 NameStartChar and NameChar without the colon
pub open spec fn start_char(c: char) -> bool {
    START
}
pub open spec fn name_char(c: char) -> bool {
    start_char(c) || c == '-' || c == '.' || ('0' <= c && c <= '9') || c == '\u{B7}' || ('\u{300}' <= c && c <= '\u{36F}') || ('\u{203F}' <= c && c <= '\u{2040}')
}
pub open spec fn ncname_(s: Seq<char>) -> bool { s.len() > 0 && start_char(s[0]) && forall|k: int| 0 <= k < s.len() ==> name_char(#[trigger] s[k]) }
// length of the longest run of name characters
pub open spec fn run(s: Seq<char>) -> nat decreases s.len() { if s.len() > 0 && name_char(s[0]) { 1 + run(s.drop_first()) } else { 0 } }
pub proof fn lem_run(s: Seq<char>)
    ensures run(s) <= s.len(), forall|k: int| 0 <= k < run(s) ==> name_char(#[trigger] s[k]), run(s) < s.len() ==> !name_char(s[run(s) as int])
    decreases s.len()
{
    if s.len() > 0 && name_char(s[0]) {
        let t = s.drop_first();
        lem_run(t);
        assert forall|k: int| 0 <= k < run(s) implies name_char(#[trigger] s[k]) by { if k > 0 { assert(t[k - 1] == s[k]); } }
        if run(s) < s.len() { assert(t[run(t) as int] == s[run(s) as int]); }
    }
}
//@fn c char_in params=range props=C19
//@sig fn char_in(range: RangeInclusive<char>) -> (r: impl for<'a> Parser<'a, char>)
    requires !$range@.exhausted
    ensures r.req(), forall|i: Span<'_>, o: IRes<'_, char>| #[trigger] r.rel(i, o) ==> one(i@, $range@.start <= i@[0] && i@[0] <= $range@.end, o)
//@closure 0
    -> (b: bool) ensures b == ($range@.start <= $1 && $1 <= $range@.end)
//@end
//@fn c nc_name_start_char ret=r params=input props=C19
    ensures one($input@, start_char($input@[0]), r)
//@end
//@fn c nc_name_char ret=r params=input props=C19
    ensures one($input@, name_char($input@[0]), r)
//@end
//@fn c span ret=r params=start,end props=C19
//@typemap LocatedSpan < & str > => Span<'_>
    ensures r.start == $start.offset(), r.end == $end.offset()
//@end
// the run that many0 takes is the longest one
proof fn lem_many<'a, P: Parser<'a, char>>(p: P, i: Span<'a>, out: Seq<char>, j: Span<'a>)
    requires many_rel(p, i, out, j), forall|i: Span<'a>, o: IRes<'a, char>| #[trigger] p.rel(i, o) ==> one(i@, name_char(i@[0]), o)
    ensures j@ == i@.skip(run(i@) as int)
    decreases out.len()
{
    if out.len() == 0 { assert(j@ =~= i@.skip(0)); }
    else {
        let m = choose|m: Span<'a>| #[trigger] p.rel(i, Ok((m, out[0]))) && m@.len() != i@.len() && many_rel(p, m, out.drop_first(), j);
        lem_many(p, m, out.drop_first(), j);
        lem_run(i@.drop_first());
        assert(j@ =~= i@.skip(run(i@) as int));
    }
}
//@fn c nc_name ret=r params=input props=C19
    ensures match r {
        Ok((j, n)) => $input@.len() > 0 && start_char($input@[0]) && n.1@ == $input@.take(run($input@) as int) && j@ == $input@.skip(run($input@) as int),
        Err(_) => !($input@.len() > 0 && start_char($input@[0])),
    }
//@closure 0
    -> (n: NcName) ensures n.1@ == $1.1@
//@pre
    proof {
        assert forall|p: Span<'_>, o: Seq<char>, j: Span<'_>| #[trigger] many_rel(nc_name_char, p, o, j) implies j@ == p@.skip(run(p@) as int) && run(p@) <= p@.len() by { lem_many(nc_name_char, p, o, j); lem_run(p@); }
    }
//@end
'''
def rng(r):
    if '-' not in r:
        return f"c == '{r}'"
    a, b = r.split('-')
    q = lambda v: f"'{v}'" if len(v) == 1 else f"'\\u{{{v}}}'"
    return f"({q(a)} <= c && c <= {q(b)})"
o = o.replace('START', ' || '.join(rng(r) for r in R.split()))
o += r'''
//@fn x is_valid_ncname ret=r params=text props=C19,C13
//@fnren relaxng_syntax :: compact :: nc_name => nc_name
//@fnren relaxng_syntax :: compact :: Span :: new => Span::new
    ensures r == ncname_($text@)
//@pre
    proof {
        lem_run($text@);
        if ncname_($text@) { if run($text@) < $text@.len() { assert(name_char($text@[run($text@) as int])); } }
        else if run($text@) == $text@.len() { assert($text@ =~= $text@.take(run($text@) as int)); }
    }
//@end

// ---- the XML syntax
pub enum Error { Expected(Range<usize>, &'static str), Unexpected(Range<usize>, &'static str) }
//@typemap Result<NcName> => Result<NcName, Error>
//@typemap Result<Identifier> => Result<Identifier, Error>
// str::char_indices: the characters, each with where it starts, which is 0 for the first only
#[verifier::external_body]
fn vx_cidx(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), forall|k: int| 0 <= k < s@.len() ==> (#[trigger] r@[k]).1 == s@[k] && (r@[k].0 == 0 <==> k == 0) && r@[k].0 < blen(s@)
{ s.char_indices().collect() }
pub open spec fn xws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }
pub open spec fn trim_start(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && xws(s[0]) { trim_start(s.drop_first()) } else { s } }
pub open spec fn trim_end(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && xws(s.last()) { trim_end(s.drop_last()) } else { s } }
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s)) }
// str::trim_matches with an array of characters
pub open spec fn one_of(p: Seq<char>) -> spec_fn(char) -> bool { |c: char| p.contains(c) }
pub open spec fn trim_start_by(s: Seq<char>, f: spec_fn(char) -> bool) -> Seq<char> decreases s.len() { if s.len() > 0 && f(s[0]) { trim_start_by(s.drop_first(), f) } else { s } }
pub open spec fn trim_end_by(s: Seq<char>, f: spec_fn(char) -> bool) -> Seq<char> decreases s.len() { if s.len() > 0 && f(s.last()) { trim_end_by(s.drop_last(), f) } else { s } }
#[verifier::external_body]
fn vx_trim_matches<const N: usize>(s: &str, p: [char; N]) -> (r: &str) ensures r@ == trim_end_by(trim_start_by(s@, one_of(p@)), one_of(p@)) { s.trim_matches(p) }
proof fn lem_trim_start(s: Seq<char>, f: spec_fn(char) -> bool) requires forall|c: char| #[trigger] f(c) == xws(c) ensures trim_start_by(s, f) == trim_start(s) decreases s.len() { if s.len() > 0 { lem_trim_start(s.drop_first(), f); } }
proof fn lem_trim_end(s: Seq<char>, f: spec_fn(char) -> bool) requires forall|c: char| #[trigger] f(c) == xws(c) ensures trim_end_by(s, f) == trim_end(s) decreases s.len() { if s.len() > 0 { lem_trim_end(s.drop_last(), f); } }
proof fn lem_trim(q: Seq<char>)
    requires q == seq![' ', '\t', '\n', '\r']
    ensures forall|s: Seq<char>| #[trigger] trim_start_by(s, one_of(q)) == trim_start(s), forall|s: Seq<char>| #[trigger] trim_end_by(s, one_of(q)) == trim_end(s)
{
    assert(q[0] == ' ' && q[1] == '\t' && q[2] == '\n' && q[3] == '\r');
    assert forall|c: char| #[trigger] one_of(q)(c) == xws(c) by { if xws(c) { assert(q.contains(c)); } }
    assert forall|s: Seq<char>| #[trigger] trim_start_by(s, one_of(q)) == trim_start(s) by { lem_trim_start(s, one_of(q)); }
    assert forall|s: Seq<char>| #[trigger] trim_end_by(s, one_of(q)) == trim_end(s) by { lem_trim_end(s, one_of(q)); }
}
// str::trim, trim_start, trim_end: Unicode white space, of which nothing is known here
pub uninterp spec fn uni_trim(s: Seq<char>, side: int) -> Seq<char>;
#[verifier::external_body]
fn vx_trim(s: &str) -> (r: &str) ensures r@ == uni_trim(s@, 0) { s.trim() }
#[verifier::external_body]
fn vx_trim_start(s: &str) -> (r: &str) ensures r@ == uni_trim(s@, 1) { s.trim_start() }
#[verifier::external_body]
fn vx_trim_end(s: &str) -> (r: &str) ensures r@ == uni_trim(s@, 2) { s.trim_end() }
//@method trim_matches => vx_trim_matches
//@method trim => vx_trim ref
//@method trim_start => vx_trim_start ref
//@method trim_end => vx_trim_end ref
//@method char_indices => vx_cidx
//@fn l trim_ws ret=r params=val props=C19,C16
    ensures r@ == trim($val@)
//@pre
    proof {
        let p = seq![' ', '\t', '\n', '\r'];
        lem_trim(p);
        assert([' ', '\t', '\n', '\r']@ =~= p);
    }
//@end
//@fn l is_nc_name_start_char ret=r params=c props=C19
    ensures r == start_char($c)
//@end
//@fn l is_nc_name_char ret=r params=c props=C19
    ensures r == name_char($c)
//@end
//@fn l ncname ret=r params=range,val props=C19 loops=1
    requires $range.start + blen($val@) < usize::MAX
    ensures r is Ok <==> ncname_($val@), r matches Ok(n) ==> n.1@ == $val@
//@loop 0 for:it
        invariant it.seq().len() == $val@.len(), $val@.len() > 0, $range.start + blen($val@) < usize::MAX,
            forall|k: int| 0 <= k < $val@.len() ==> (#[trigger] it.seq()[k]).1 == $val@[k] && (it.seq()[k].0 == 0 <==> k == 0) && it.seq()[k].0 < blen($val@),
            it.index@ > 0 ==> start_char($val@[0]),
            forall|k: int| 0 <= k < it.index@ ==> name_char(#[trigger] $val@[k]),
//@loopbegin 0
    proof {
        assert(it.seq()[it.index@ as int] == (i, c));
        assert(c == $val@[it.index@ as int]);
        if ncname_($val@) { assert(name_char($val@[it.index@ as int])); }
    }
//@end
//@fn l ident ret=r params=range,val props=C19 loops=1
    requires $range.start + blen($val@) < usize::MAX
    ensures r is Ok <==> ncname_($val@), r matches Ok(n) ==> n.1@ == $val@
//@loop 0 for:it
        invariant it.seq().len() == $val@.len(), $val@.len() > 0, $range.start + blen($val@) < usize::MAX,
            forall|k: int| 0 <= k < $val@.len() ==> (#[trigger] it.seq()[k]).1 == $val@[k] && (it.seq()[k].0 == 0 <==> k == 0) && it.seq()[k].0 < blen($val@),
            it.index@ > 0 ==> start_char($val@[0]),
            forall|k: int| 0 <= k < it.index@ ==> name_char(#[trigger] $val@[k]),
//@loopbegin 0
    proof {
        assert(it.seq()[it.index@ as int] == (i, c));
        assert(c == $val@[it.index@ as int]);
        if ncname_($val@) { assert(name_char($val@[it.index@ as int])); }
    }
//@end

}
fn main() {}
'''
d = os.path.dirname(os.path.abspath(__file__))
# two parts of it are used by the xml unit as well
def part(f, a, b):
    global o
    i, j = o.index(a), o.index(b)
    open(os.path.join(d, f), 'w').write(o[i:j])
    o = o[:i] + '//@include ' + f + '\n' + o[j:]
part('ncspec.vrs', '// ---- the specification: XML Namespaces', '// length of the longest run of name')
part('ncxml.vrs', '// str::char_indices: the characters', '\n}\nfn main() {}')
open(os.path.join(d, 'ncname.vrs'), 'w').write(o)
