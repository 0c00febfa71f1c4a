// ---- shared prelude (trusted: see DESIGN.md, section "Trusted base") ----
#[verifier::external_body]
struct ErrorTrace { _p: u8 }
impl ErrorTrace {
    #[verifier::external_body]
    fn kx_new() -> ErrorTrace { ErrorTrace { _p: 0 } }
}
#[verifier::external_body]
fn kx_panic() -> !
    requires false,
{ panic!() }
#[verifier::external_body]
fn kx_string() -> String { String::new() }

spec fn kx_u16_le(b: Seq<u8>) -> u16 { (b[0] as u16) | ((b[1] as u16) << 8u16) }
spec fn kx_u16_be(b: Seq<u8>) -> u16 { (b[1] as u16) | ((b[0] as u16) << 8u16) }
spec fn kx_u32_le(b: Seq<u8>) -> u32 { (b[0] as u32) | ((b[1] as u32) << 8u32) | ((b[2] as u32) << 16u32) | ((b[3] as u32) << 24u32) }
spec fn kx_u32_be(b: Seq<u8>) -> u32 { (b[3] as u32) | ((b[2] as u32) << 8u32) | ((b[1] as u32) << 16u32) | ((b[0] as u32) << 24u32) }
spec fn kx_u64_le(b: Seq<u8>) -> u64 {
    (b[0] as u64) | ((b[1] as u64) << 8u64) | ((b[2] as u64) << 16u64) | ((b[3] as u64) << 24u64)
    | ((b[4] as u64) << 32u64) | ((b[5] as u64) << 40u64) | ((b[6] as u64) << 48u64) | ((b[7] as u64) << 56u64) }
spec fn kx_u64_be(b: Seq<u8>) -> u64 {
    (b[7] as u64) | ((b[6] as u64) << 8u64) | ((b[5] as u64) << 16u64) | ((b[4] as u64) << 24u64)
    | ((b[3] as u64) << 32u64) | ((b[2] as u64) << 40u64) | ((b[1] as u64) << 48u64) | ((b[0] as u64) << 56u64) }
#[verifier::external_body]
fn kx_array_u8_2(s: &[u8]) -> (r: [u8; 2]) requires s@.len() == 2, ensures r@ == s@ { <[u8; 2]>::try_from(s).unwrap() }
#[verifier::external_body]
fn kx_array_u8_4(s: &[u8]) -> (r: [u8; 4]) requires s@.len() == 4, ensures r@ == s@ { <[u8; 4]>::try_from(s).unwrap() }
#[verifier::external_body]
fn kx_array_u8_8(s: &[u8]) -> (r: [u8; 8]) requires s@.len() == 8, ensures r@ == s@ { <[u8; 8]>::try_from(s).unwrap() }
#[verifier::external_body]
fn kx_u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r == kx_u16_le(b@) { u16::from_le_bytes(b) }
#[verifier::external_body]
fn kx_u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r == kx_u16_be(b@) { u16::from_be_bytes(b) }
#[verifier::external_body]
fn kx_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == kx_u32_le(b@) { u32::from_le_bytes(b) }
#[verifier::external_body]
fn kx_u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == kx_u32_be(b@) { u32::from_be_bytes(b) }
#[verifier::external_body]
fn kx_u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r == kx_u64_le(b@) { u64::from_le_bytes(b) }
#[verifier::external_body]
fn kx_u64_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r == kx_u64_be(b@) { u64::from_be_bytes(b) }
#[verifier::external_body]
fn kx_i16_from_le_bytes(b: [u8; 2]) -> (r: i16) ensures r == kx_u16_le(b@) as i16 { i16::from_le_bytes(b) }
#[verifier::external_body]
fn kx_i16_from_be_bytes(b: [u8; 2]) -> (r: i16) ensures r == kx_u16_be(b@) as i16 { i16::from_be_bytes(b) }
#[verifier::external_body]
fn kx_i32_from_le_bytes(b: [u8; 4]) -> (r: i32) ensures r == kx_u32_le(b@) as i32 { i32::from_le_bytes(b) }
#[verifier::external_body]
fn kx_i32_from_be_bytes(b: [u8; 4]) -> (r: i32) ensures r == kx_u32_be(b@) as i32 { i32::from_be_bytes(b) }
#[verifier::external_body]
fn kx_i64_from_le_bytes(b: [u8; 8]) -> (r: i64) ensures r == kx_u64_le(b@) as i64 { i64::from_le_bytes(b) }
#[verifier::external_body]
fn kx_i64_from_be_bytes(b: [u8; 8]) -> (r: i64) ensures r == kx_u64_be(b@) as i64 { i64::from_be_bytes(b) }
#[verifier::external_body]
fn kx_vec_from_elem<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x,
{ vec![x; n] }
pub assume_specification<T: Clone>[ <[T]>::fill ](s: &mut [T], value: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> #[trigger] final(s)@[i] == value,
;
pub assume_specification[ u32::rotate_left ](x: u32, n: u32) -> (r: u32)
    ensures r == ((x << (n % 32)) | (x >> ((32 - (n % 32)) % 32) as u32));
pub assume_specification[ u32::rotate_right ](x: u32, n: u32) -> (r: u32)
    ensures r == ((x >> (n % 32)) | (x << ((32 - (n % 32)) % 32) as u32));
pub assume_specification[ u64::rotate_right ](x: u64, n: u32) -> (r: u64)
    ensures r == ((x >> (n % 64) as u64) | (x << ((64 - (n % 64)) % 64) as u64));
pub assume_specification[ u64::rotate_left ](x: u64, n: u32) -> (r: u64)
    ensures r == ((x << (n % 64) as u64) | (x >> ((64 - (n % 64)) % 64) as u64));
spec fn kx_le8(x: u64) -> Seq<u8> { Seq::new(8, |i: int| (x >> ((8 * i) as u64)) as u8) }
spec fn kx_be8(x: u64) -> Seq<u8> { Seq::new(8, |i: int| (x >> ((56 - 8 * i) as u64)) as u8) }
spec fn kx_le4(x: u32) -> Seq<u8> { Seq::new(4, |i: int| (x >> ((8 * i) as u32)) as u8) }
spec fn kx_be4(x: u32) -> Seq<u8> { Seq::new(4, |i: int| (x >> ((24 - 8 * i) as u32)) as u8) }
#[verifier::external_body]
fn kx_u64_to_le_bytes(x: u64) -> (r: [u8; 8]) ensures r@ == kx_le8(x) { x.to_le_bytes() }
#[verifier::external_body]
fn kx_u64_to_be_bytes(x: u64) -> (r: [u8; 8]) ensures r@ == kx_be8(x) { x.to_be_bytes() }
// Rust guarantees that no slice of bytes is larger than isize::MAX bytes.
#[verifier::external_body]
proof fn kx_slice_bound(s: &[u8]) ensures s@.len() <= isize::MAX as int {}
// ---- end of shared prelude ----
