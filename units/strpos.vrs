// ---- positions in a string are counted in bytes: UTF-8 encoded lengths
pub open spec fn clen(c: char) -> nat { if c as u32 <= 0x7f { 1 } else if c as u32 <= 0x7ff { 2 } else if c as u32 <= 0xffff { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { clen(s[0]) + blen(s.drop_first()) } }
// byte position off is in front of character k
pub open spec fn cut(s: Seq<char>, k: int, off: int) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == off }
proof fn blen_cat(a: Seq<char>, b: Seq<char>) ensures blen(a + b) == blen(a) + blen(b) decreases a.len() {
    if a.len() == 0 { assert(a + b =~= b); } else { assert((a + b).drop_first() =~= a.drop_first() + b); blen_cat(a.drop_first(), b); }
}
proof fn blen_ge(s: Seq<char>) ensures blen(s) >= s.len() decreases s.len() { if s.len() > 0 { blen_ge(s.drop_first()); } }
proof fn cut_le(s: Seq<char>, k: int, off: int) requires cut(s, k, off) ensures off <= blen(s), off == blen(s) ==> k == s.len(), k == s.len() ==> off == blen(s) {
    assert(s =~= s.take(k) + s.skip(k)); blen_cat(s.take(k), s.skip(k)); blen_ge(s.skip(k));
    if k == s.len() { assert(s.take(k) =~= s); }
}
proof fn cut_step(s: Seq<char>, k: int, off: int, i: int, d: int) requires cut(s, k, off), cut(s.skip(k), i, d) ensures cut(s, k + i, off + d), s.skip(k + i) == s.skip(k).skip(i) {
    assert(s.take(k + i) =~= s.take(k) + s.skip(k).take(i)); blen_cat(s.take(k), s.skip(k).take(i)); assert(s.skip(k + i) =~= s.skip(k).skip(i));
}
proof fn cut_uniq(s: Seq<char>, k: int, j: int, off: int) requires cut(s, k, off), cut(s, j, off) ensures k == j {
    if k < j { assert(s.take(j) =~= s.take(k) + s.subrange(k, j)); blen_cat(s.take(k), s.subrange(k, j)); blen_ge(s.subrange(k, j)); }
    if j < k { assert(s.take(k) =~= s.take(j) + s.subrange(j, k)); blen_cat(s.take(j), s.subrange(j, k)); blen_ge(s.subrange(j, k)); }
}
proof fn cut_only(s: Seq<char>, k: int, off: int) requires cut(s, k, off) ensures forall|j: int| #[trigger] cut(s, j, off) ==> j == k { assert forall|j: int| #[trigger] cut(s, j, off) implies j == k by { cut_uniq(s, k, j, off); } }
#[verifier::external_body]
fn vx_len(s: &str) -> (r: usize) ensures r == blen(s@), r <= isize::MAX { s.len() }
#[verifier::external_body]
fn vx_from(s: &str, a: usize) -> (r: &str) requires exists|k: int| cut(s@, k, a as int) ensures forall|k: int| #[trigger] cut(s@, k, a as int) ==> r@ == s@.skip(k) { &s[a..] }
#[verifier::external_body]
fn vx_upto(s: &str, a: usize) -> (r: &str) requires exists|k: int| cut(s@, k, a as int) ensures forall|k: int| #[trigger] cut(s@, k, a as int) ==> r@ == s@.take(k) { &s[..a] }
#[verifier::external_body]
fn vx_range(s: &str, a: usize, b: usize) -> (r: &str)
    requires a <= b, exists|k: int| cut(s@, k, a as int), exists|k: int| cut(s@, k, b as int)
    ensures forall|k: int, j: int| #[trigger] cut(s@, k, a as int) && #[trigger] cut(s@, j, b as int) ==> r@ == s@.subrange(k, j)
{ &s[a..b] }
#[verifier::external_body]
fn vx_char_indices(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), blen(s@) <= isize::MAX, forall|k: int| 0 <= k < s@.len() ==> (#[trigger] r@[k]).1 == s@[k] && cut(s@, k, r@[k].0 as int)
{ s.char_indices().collect() }
fn vx_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
// a pattern of str::starts_with: a character, or a predicate
pub trait VxPat { spec fn preq(&self) -> bool; spec fn hit(&self, c: char, b: bool) -> bool; fn test(&self, c: char) -> (b: bool) requires self.preq() ensures self.hit(c, b); }
impl VxPat for char { open spec fn preq(&self) -> bool { true } open spec fn hit(&self, c: char, b: bool) -> bool { b == (*self == c) } fn test(&self, c: char) -> (b: bool) { *self == c } }
impl<F: Fn(char) -> bool> VxPat for F { open spec fn preq(&self) -> bool { forall|c: char| self.requires((c,)) } open spec fn hit(&self, c: char, b: bool) -> bool { self.ensures((c,), b) } fn test(&self, c: char) -> (b: bool) { self(c) } }
#[verifier::external_body]
fn vx_starts_with<P: VxPat>(s: &str, p: P) -> (r: bool) requires p.preq() ensures if s@.len() == 0 { !r } else { p.hit(s@[0], r) } { match s.chars().next() { Some(c) => p.test(c), None => false } }
#[verifier::external_body]
fn vx_contains(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }
#[verifier::external_body]
fn vx_strip_prefix(s: &str, c: char) -> (r: Option<&str>)
    ensures r is Some <==> s@.len() > 0 && s@[0] == c, r matches Some(x) ==> x@ == s@.drop_first()
{ s.strip_prefix(c) }
// a string is shorter than the address space
#[verifier::external_body]
proof fn str_len(s: &str) ensures blen(s@) <= isize::MAX { }
