@@mapmethod to_vec kx_to_vec
@@raw
#[verifier::external_body]
fn kx_to_vec<T: Copy>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { s.to_vec() }
// A slice of non-zero-sized elements has at most isize::MAX of them.
#[verifier::external_body]
proof fn kx_slice_bound_t<T>(s: &[T]) ensures s@.len() <= isize::MAX as int {}
// one byte: its value; two bytes: 0x10000 + the big-endian pair
spec fn code_of(s: Seq<u8>) -> int {
    if s.len() == 1 { s[0] as int } else if s.len() == 2 { 0x10000 + s[0] * 256 + s[1] } else { -2 }
}
spec fn kx_opt_code(o: Option<&'static [u8]>) -> int {
    match o { None => -1, Some(s) => code_of(s@) }
}
