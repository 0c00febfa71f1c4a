@@opt str string
@@mapmethod starts_with kx_str_starts_with
@@mapmethod ends_with kx_str_ends_with
@@raw
use vstd::utf8::*;
use vstd::string::StringSliceAdditionalSpecFns;
// ---- UTF-8 text: vstd's encode_utf8 (trusted: the std functions on str used by the code) ----
broadcast use {vstd::utf8::group_utf8_lib, kx_ax::kx_str_bound};
// the bytes of a text
spec fn kx_b(s: &str) -> Seq<u8> { encode_utf8(s@) }
spec fn kx_ascii_bytes(t: Seq<char>) -> Seq<u8> { Seq::new(t.len(), |i: int| t[i] as u8) }
proof fn kx_ascii(t: Seq<char>)
    requires forall|i: int| 0 <= i < t.len() ==> (t[i] as u32) < 0x80,
    ensures encode_utf8(t) =~= kx_ascii_bytes(t),
{
    assert(is_ascii_chars(t));
    is_ascii_chars_encode_utf8(t);
}
mod kx_ax {
    use super::*;
    #[verifier::external_body]
    pub broadcast proof fn kx_str_bound(s: &str) ensures #[trigger] s.spec_bytes().len() <= isize::MAX as int {}
}
// a position is a character boundary if it is the end or does not hold a continuation byte
proof fn kx_boundary(s: Seq<char>, i: int)
    requires 0 <= i <= encode_utf8(s).len(), i == encode_utf8(s).len() || encode_utf8(s)[i] < 0x80,
    ensures is_char_boundary(encode_utf8(s), i),
{
    if i < encode_utf8(s).len() {
        is_char_boundary_iff_not_is_continuation_byte(encode_utf8(s), i);
    } else {
        is_char_boundary_start_end_of_seq(encode_utf8(s));
    }
}
#[verifier::external_body]
fn kx_str_starts_with(s: &str, p: &str) -> (r: bool)
    ensures r == (kx_b(p).len() <= kx_b(s).len() && kx_b(s).take(kx_b(p).len() as int) == kx_b(p)),
{ s.starts_with(p) }
#[verifier::external_body]
fn kx_str_ends_with(s: &str, p: &str) -> (r: bool)
    ensures r == (kx_b(p).len() <= kx_b(s).len() && kx_b(s).skip(kx_b(s).len() - kx_b(p).len()) == kx_b(p)),
{ s.ends_with(p) }
#[verifier::external_body]
fn kx_str_slice(s: &str, a: usize, b: usize) -> (r: &str)
    requires a <= b <= kx_b(s).len(), is_char_boundary(kx_b(s), a as int), is_char_boundary(kx_b(s), b as int),
    ensures kx_b(r) == kx_b(s).subrange(a as int, b as int),
{ &s[a..b] }
#[verifier::external_body]
fn kx_str_eq(s: &str, p: &str) -> (r: bool)
    ensures r == (s@ == p@),
{ s == p }
