@@raw
#[verifier::external_body]
fn kx_slice_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
