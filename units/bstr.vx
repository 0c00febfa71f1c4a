@@raw
spec fn nul(s: Seq<u8>, i: int) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() || s[i] == 0 { i } else { nul(s, i + 1) }
}
spec fn until_nul(s: Seq<u8>) -> Seq<u8> { s.take(nul(s, 0)) }
proof fn lemma_nul_from(s: Seq<u8>, i: int, n: int)
    requires 0 <= i <= n <= s.len(), n == s.len() || s[n] == 0, forall|k: int| i <= k < n ==> #[trigger] s[k] != 0,
    ensures nul(s, i) == n,
    decreases n - i
{
    if i < n { lemma_nul_from(s, i + 1, n); }
}
#[verifier::external_body]
fn kx_bytes_eq(a: &Vec<u8>, b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
@@file keramics-encodings/src/enums.rs
@@item CharacterEncoding #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@opt eq .elements kx_bytes_eq
@@file keramics-types/src/byte_string.rs
@@item ByteString
@@raw
// the derived Clone
impl ByteString {
    #[verifier::external_body]
    fn clone(&self) -> (r: ByteString) ensures r.elements@ == self.elements@, r.encoding == self.encoding { unimplemented!() }
}
@@mappath Vec::from kx_vec_from
@@raw
#[verifier::external_body]
fn kx_vec_from<T: Copy>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { Vec::from(s) }
@@mappath ByteString::from ByteString::from_slice
@@fn ByteString::new_with_encoding
    ensures r.elements@.len() == 0, r.encoding == *encoding,
@@fn ByteString::from for From<&[u8]>
@@rename from_slice
    ensures r.elements@ == until_nul(slice@), r.encoding == CharacterEncoding::Utf8,
@@isolate
@@loop 0
invariant_except_break
    kx_p is None, forall|k: int| 0 <= k < it0 ==> #[trigger] slice@[k] != 0,
invariant
    lo0 == 0, hi0 == slice@.len(),
ensures
    kx_p is None ==> forall|k: int| 0 <= k < slice@.len() ==> #[trigger] slice@[k] != 0,
    kx_p is Some ==> kx_p->Some_0 < slice@.len() && slice@[kx_p->Some_0 as int] == 0
        && forall|k: int| 0 <= k < kx_p->Some_0 ==> #[trigger] slice@[k] != 0,
@@at loop 0 after
proof { lemma_nul_from(slice@, 0, match kx_p { Some(k) => k as int, None => slice@.len() as int }); }
@@fn ByteString::eq for PartialEq<&[u8]>
@@rename eq_slice
    ensures r == (self.elements@ == slice@),
