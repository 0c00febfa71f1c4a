@@include std.vx
@@mapmethod to_be_bytes kx_u64_to_be_bytes
@@raw
// SHA-256 (FIPS 180-4).  Round constants: fractional parts of the cube roots of the first
// 64 primes; initial value: square roots of the first 8 primes.  Both recomputed with
// integer arithmetic when this file was written, not taken from the code.
spec fn k_table() -> Seq<u32> { seq![
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2
] }
spec fn h0() -> Seq<u32> { seq![
    0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19
] }
spec fn rotr(x: u32, n: u32) -> u32 { ((x >> (n % 32)) | (x << ((32 - (n % 32)) % 32) as u32)) }
spec fn add(x: u32, y: u32) -> u32 { x.wrapping_add(y) }
spec fn ch(x: u32, y: u32, z: u32) -> u32 { (x & y) ^ (!x & z) }
spec fn maj(x: u32, y: u32, z: u32) -> u32 { (x & y) ^ (x & z) ^ (y & z) }
spec fn big0(x: u32) -> u32 { rotr(x, 2) ^ rotr(x, 13) ^ rotr(x, 22) }
spec fn big1(x: u32) -> u32 { rotr(x, 6) ^ rotr(x, 11) ^ rotr(x, 25) }
spec fn small0(x: u32) -> u32 { rotr(x, 7) ^ rotr(x, 18) ^ (x >> 3u32) }
spec fn small1(x: u32) -> u32 { rotr(x, 17) ^ rotr(x, 19) ^ (x >> 10u32) }
// message schedule
spec fn sched(d: Seq<u8>, t: int) -> u32
    decreases t
{
    if t < 16 { kx_u32_be(d.subrange(4 * t, 4 * t + 4)) }
    else { add(add(add(sched(d, t - 16), small0(sched(d, t - 15))), sched(d, t - 7)), small1(sched(d, t - 2))) }
}
spec fn step(s: Seq<u32>, w: u32, k: u32) -> Seq<u32> {
    let t1 = add(add(add(add(s[7], big1(s[4])), ch(s[4], s[5], s[6])), k), w);
    let t2 = add(big0(s[0]), maj(s[0], s[1], s[2]));
    seq![add(t1, t2), s[0], s[1], s[2], add(s[3], t1), s[4], s[5], s[6]]
}
spec fn rounds(s: Seq<u32>, d: Seq<u8>, n: nat) -> Seq<u32>
    decreases n
{
    if n == 0 { s } else { step(rounds(s, d, (n - 1) as nat), sched(d, n - 1), k_table()[n - 1]) }
}
#[verifier::opaque]
spec fn compress(h: Seq<u32>, d: Seq<u8>) -> Seq<u32> {
    let r = rounds(h, d, 64);
    Seq::new(8, |i: int| add(r[i], h[i]))
}
spec fn len8(bits: u64) -> Seq<u8> { kx_be8(bits) }
spec fn len_field(bits: u64) -> Seq<u8> { kx_be8(bits) }
proof fn lemma_len_field(bits: u64) ensures len_field(bits) == len8(bits) {}
spec fn words_out(h: Seq<u32>) -> Seq<u8>
    decreases h.len()
{
    if h.len() == 0 { Seq::empty() } else { words_out(h.drop_last()) + kx_be4(h.last()) }
}
#[verifier::external_body]
fn kx_flatten_be(w: &[u32]) -> (r: Vec<u8>)
    ensures r@ == words_out(w@),
{ w.iter().map(|v| v.to_be_bytes()).flatten().collect() }
proof fn lemma_tables()
    ensures SHA256_PRIME_CUBE_ROOTS@ == k_table(),
{
    assert(SHA256_PRIME_CUBE_ROOTS@ =~= k_table());
}
@@file keramics-hashes/src/sha256.rs
@@item SHA256_BLOCK_SIZE
@@item SHA256_PRIME_SQUARE_ROOTS
@@item SHA256_PRIME_CUBE_ROOTS
@@item Sha256Context
@@fn Sha256Context::transform_block
    requires hash_values@.len() == 8, data_offset + 64 <= data@.len(),
    ensures r@ == compress(hash_values@, data@.subrange(data_offset as int, data_offset + 64)),
@@at start
let ghost off0 = data_offset as int;
let ghost d = data@.subrange(off0, off0 + 64);
proof { lemma_tables(); kx_slice_bound(data); }
@@loop 0
    invariant
        lo0 == 0, hi0 == 16, data_offset == off0 + 4 * it0, off0 + 64 <= data@.len(),
        d == data@.subrange(off0, off0 + 64),
        forall|i: int| 0 <= i < it0 ==> values_32bit@[i] == sched(d, i),
@@at loop 0 begin
proof {
    let i = it0 as int - 1;
    assert(data@.subrange(data_offset as int, data_offset + 4) =~= d.subrange(4 * i, 4 * i + 4));
}
@@loop 1
    invariant
        lo1 == 16, hi1 == 64,
        forall|i: int| 0 <= i < it1 ==> values_32bit@[i] == sched(d, i),
@@at loop 1 begin
let ghost t = it1 as int - 1;
proof {
    assert(values_32bit@[t - 2] == sched(d, t - 2));
    assert(values_32bit@[t - 7] == sched(d, t - 7));
    assert(values_32bit@[t - 15] == sched(d, t - 15));
    assert(values_32bit@[t - 16] == sched(d, t - 16));
}
@@at loop 1 end
proof { assert(values_32bit@[t] == sched(d, t)); }
@@loop 2
    invariant
        lo2 == 0, hi2 == 64, hash_values@.len() == 8,
        forall|i: int| 0 <= i < 64 ==> values_32bit@[i] == sched(d, i),
        block_hashes@ == rounds(hash_values@, d, it2 as nat),
@@at loop 2 end
proof { assert(block_hashes@ =~= rounds(hash_values@, d, it2 as nat)); }
@@loop 3
    invariant
        lo3 == 0, hi3 == 8, hash_values@.len() == 8,
        forall|i: int| 0 <= i < it3 ==> block_hashes@[i] == add(rounds(hash_values@, d, 64)[i], hash_values@[i]),
        forall|i: int| it3 <= i < 8 ==> block_hashes@[i] == rounds(hash_values@, d, 64)[i],
@@at loop 3 after
proof { reveal(compress); assert(block_hashes@ =~= compress(hash_values@, d)); }
@@include hash_md.vx T=Sha256Context F=sha256 BS=64 LF=8 W=u32 H0=SHA256_PRIME_SQUARE_ROOTS BLK=128 OUT=h OUTHINT=
