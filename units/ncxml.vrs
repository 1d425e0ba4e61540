// str::char_indices: the characters, each with where it starts, which is 0 for the first only
#[verifier::external_body]
fn vx_cidx(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), forall|k: int| 0 <= k < s@.len() ==> (#[trigger] r@[k]).1 == s@[k] && (r@[k].0 == 0 <==> k == 0) && r@[k].0 < blen(s@)
{ s.char_indices().collect() }
pub open spec fn xws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }
pub open spec fn trim_start(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && xws(s[0]) { trim_start(s.drop_first()) } else { s } }
pub open spec fn trim_end(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && xws(s.last()) { trim_end(s.drop_last()) } else { s } }
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s)) }
// str::trim_matches with an array of characters
pub open spec fn one_of(p: Seq<char>) -> spec_fn(char) -> bool { |c: char| p.contains(c) }
pub open spec fn trim_start_by(s: Seq<char>, f: spec_fn(char) -> bool) -> Seq<char> decreases s.len() { if s.len() > 0 && f(s[0]) { trim_start_by(s.drop_first(), f) } else { s } }
pub open spec fn trim_end_by(s: Seq<char>, f: spec_fn(char) -> bool) -> Seq<char> decreases s.len() { if s.len() > 0 && f(s.last()) { trim_end_by(s.drop_last(), f) } else { s } }
#[verifier::external_body]
fn vx_trim_matches<const N: usize>(s: &str, p: [char; N]) -> (r: &str) ensures r@ == trim_end_by(trim_start_by(s@, one_of(p@)), one_of(p@)) { s.trim_matches(p) }
proof fn lem_trim_start(s: Seq<char>, f: spec_fn(char) -> bool) requires forall|c: char| #[trigger] f(c) == xws(c) ensures trim_start_by(s, f) == trim_start(s) decreases s.len() { if s.len() > 0 { lem_trim_start(s.drop_first(), f); } }
proof fn lem_trim_end(s: Seq<char>, f: spec_fn(char) -> bool) requires forall|c: char| #[trigger] f(c) == xws(c) ensures trim_end_by(s, f) == trim_end(s) decreases s.len() { if s.len() > 0 { lem_trim_end(s.drop_last(), f); } }
proof fn lem_trim(q: Seq<char>)
    requires q == seq![' ', '\t', '\n', '\r']
    ensures forall|s: Seq<char>| #[trigger] trim_start_by(s, one_of(q)) == trim_start(s), forall|s: Seq<char>| #[trigger] trim_end_by(s, one_of(q)) == trim_end(s)
{
    assert(q[0] == ' ' && q[1] == '\t' && q[2] == '\n' && q[3] == '\r');
    assert forall|c: char| #[trigger] one_of(q)(c) == xws(c) by { if xws(c) { assert(q.contains(c)); } }
    assert forall|s: Seq<char>| #[trigger] trim_start_by(s, one_of(q)) == trim_start(s) by { lem_trim_start(s, one_of(q)); }
    assert forall|s: Seq<char>| #[trigger] trim_end_by(s, one_of(q)) == trim_end(s) by { lem_trim_end(s, one_of(q)); }
}
// str::trim, trim_start, trim_end: Unicode white space, of which nothing is known here
pub uninterp spec fn uni_trim(s: Seq<char>, side: int) -> Seq<char>;
#[verifier::external_body]
fn vx_trim(s: &str) -> (r: &str) ensures r@ == uni_trim(s@, 0) { s.trim() }
#[verifier::external_body]
fn vx_trim_start(s: &str) -> (r: &str) ensures r@ == uni_trim(s@, 1) { s.trim_start() }
#[verifier::external_body]
fn vx_trim_end(s: &str) -> (r: &str) ensures r@ == uni_trim(s@, 2) { s.trim_end() }
//@method trim_matches => vx_trim_matches
//@method trim => vx_trim ref
//@method trim_start => vx_trim_start ref
//@method trim_end => vx_trim_end ref
//@method char_indices => vx_cidx
//@fn l trim_ws ret=r params=val props=C19,C16
    ensures r@ == trim($val@)
//@pre
    proof {
        let p = seq![' ', '\t', '\n', '\r'];
        lem_trim(p);
        assert([' ', '\t', '\n', '\r']@ =~= p);
    }
//@end
//@fn l is_nc_name_start_char ret=r params=c props=C19
    ensures r == start_char($c)
//@end
//@fn l is_nc_name_char ret=r params=c props=C19
    ensures r == name_char($c)
//@end
//@fn l ncname ret=r params=range,val props=C19 loops=1
    requires $range.start + blen($val@) < usize::MAX
    ensures r is Ok <==> ncname_($val@), r matches Ok(n) ==> n.1@ == $val@
//@loop 0 for:it
        invariant it.seq().len() == $val@.len(), $val@.len() > 0, $range.start + blen($val@) < usize::MAX,
            forall|k: int| 0 <= k < $val@.len() ==> (#[trigger] it.seq()[k]).1 == $val@[k] && (it.seq()[k].0 == 0 <==> k == 0) && it.seq()[k].0 < blen($val@),
            it.index@ > 0 ==> start_char($val@[0]),
            forall|k: int| 0 <= k < it.index@ ==> name_char(#[trigger] $val@[k]),
//@loopbegin 0
    proof {
        assert(it.seq()[it.index@ as int] == (i, c));
        assert(c == $val@[it.index@ as int]);
        if ncname_($val@) { assert(name_char($val@[it.index@ as int])); }
    }
//@end
//@fn l ident ret=r params=range,val props=C19 loops=1
    requires $range.start + blen($val@) < usize::MAX
    ensures r is Ok <==> ncname_($val@), r matches Ok(n) ==> n.1@ == $val@
//@loop 0 for:it
        invariant it.seq().len() == $val@.len(), $val@.len() > 0, $range.start + blen($val@) < usize::MAX,
            forall|k: int| 0 <= k < $val@.len() ==> (#[trigger] it.seq()[k]).1 == $val@[k] && (it.seq()[k].0 == 0 <==> k == 0) && it.seq()[k].0 < blen($val@),
            it.index@ > 0 ==> start_char($val@[0]),
            forall|k: int| 0 <= k < it.index@ ==> name_char(#[trigger] $val@[k]),
//@loopbegin 0
    proof {
        assert(it.seq()[it.index@ as int] == (i, c));
        assert(c == $val@[it.index@ as int]);
        if ncname_($val@) { assert(name_char($val@[it.index@ as int])); }
    }
//@end
