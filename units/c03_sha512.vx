@@include std.vx
@@mapmethod to_be_bytes kx_u64_to_be_bytes
@@raw
// SHA-512 (FIPS 180-4).  Round constants: fractional parts of the cube roots of the first
// 80 primes; initial value: square roots of the first 8 primes.  Both recomputed with
// integer arithmetic when this file was written, not taken from the code.
spec fn k_table() -> Seq<u64> { seq![
    0x428a2f98d728ae22, 0x7137449123ef65cd, 0xb5c0fbcfec4d3b2f, 0xe9b5dba58189dbbc,
    0x3956c25bf348b538, 0x59f111f1b605d019, 0x923f82a4af194f9b, 0xab1c5ed5da6d8118,
    0xd807aa98a3030242, 0x12835b0145706fbe, 0x243185be4ee4b28c, 0x550c7dc3d5ffb4e2,
    0x72be5d74f27b896f, 0x80deb1fe3b1696b1, 0x9bdc06a725c71235, 0xc19bf174cf692694,
    0xe49b69c19ef14ad2, 0xefbe4786384f25e3, 0x0fc19dc68b8cd5b5, 0x240ca1cc77ac9c65,
    0x2de92c6f592b0275, 0x4a7484aa6ea6e483, 0x5cb0a9dcbd41fbd4, 0x76f988da831153b5,
    0x983e5152ee66dfab, 0xa831c66d2db43210, 0xb00327c898fb213f, 0xbf597fc7beef0ee4,
    0xc6e00bf33da88fc2, 0xd5a79147930aa725, 0x06ca6351e003826f, 0x142929670a0e6e70,
    0x27b70a8546d22ffc, 0x2e1b21385c26c926, 0x4d2c6dfc5ac42aed, 0x53380d139d95b3df,
    0x650a73548baf63de, 0x766a0abb3c77b2a8, 0x81c2c92e47edaee6, 0x92722c851482353b,
    0xa2bfe8a14cf10364, 0xa81a664bbc423001, 0xc24b8b70d0f89791, 0xc76c51a30654be30,
    0xd192e819d6ef5218, 0xd69906245565a910, 0xf40e35855771202a, 0x106aa07032bbd1b8,
    0x19a4c116b8d2d0c8, 0x1e376c085141ab53, 0x2748774cdf8eeb99, 0x34b0bcb5e19b48a8,
    0x391c0cb3c5c95a63, 0x4ed8aa4ae3418acb, 0x5b9cca4f7763e373, 0x682e6ff3d6b2b8a3,
    0x748f82ee5defb2fc, 0x78a5636f43172f60, 0x84c87814a1f0ab72, 0x8cc702081a6439ec,
    0x90befffa23631e28, 0xa4506cebde82bde9, 0xbef9a3f7b2c67915, 0xc67178f2e372532b,
    0xca273eceea26619c, 0xd186b8c721c0c207, 0xeada7dd6cde0eb1e, 0xf57d4f7fee6ed178,
    0x06f067aa72176fba, 0x0a637dc5a2c898a6, 0x113f9804bef90dae, 0x1b710b35131c471b,
    0x28db77f523047d84, 0x32caab7b40c72493, 0x3c9ebe0a15c9bebc, 0x431d67c49c100d4c,
    0x4cc5d4becb3e42b6, 0x597f299cfc657e2a, 0x5fcb6fab3ad6faec, 0x6c44198c4a475817
] }
spec fn h0() -> Seq<u64> { seq![
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179
] }
spec fn rotr(x: u64, n: u32) -> u64 { ((x >> (n % 64) as u64) | (x << ((64 - (n % 64)) % 64) as u64)) }
spec fn add(x: u64, y: u64) -> u64 { x.wrapping_add(y) }
spec fn ch(x: u64, y: u64, z: u64) -> u64 { (x & y) ^ (!x & z) }
spec fn maj(x: u64, y: u64, z: u64) -> u64 { (x & y) ^ (x & z) ^ (y & z) }
spec fn big0(x: u64) -> u64 { rotr(x, 28) ^ rotr(x, 34) ^ rotr(x, 39) }
spec fn big1(x: u64) -> u64 { rotr(x, 14) ^ rotr(x, 18) ^ rotr(x, 41) }
spec fn small0(x: u64) -> u64 { rotr(x, 1) ^ rotr(x, 8) ^ (x >> 7u64) }
spec fn small1(x: u64) -> u64 { rotr(x, 19) ^ rotr(x, 61) ^ (x >> 6u64) }
// message schedule
spec fn sched(d: Seq<u8>, t: int) -> u64
    decreases t
{
    if t < 16 { kx_u64_be(d.subrange(8 * t, 8 * t + 8)) }
    else { add(add(add(sched(d, t - 16), small0(sched(d, t - 15))), sched(d, t - 7)), small1(sched(d, t - 2))) }
}
spec fn step(s: Seq<u64>, w: u64, k: u64) -> Seq<u64> {
    let t1 = add(add(add(add(s[7], big1(s[4])), ch(s[4], s[5], s[6])), k), w);
    let t2 = add(big0(s[0]), maj(s[0], s[1], s[2]));
    seq![add(t1, t2), s[0], s[1], s[2], add(s[3], t1), s[4], s[5], s[6]]
}
spec fn rounds(s: Seq<u64>, d: Seq<u8>, n: nat) -> Seq<u64>
    decreases n
{
    if n == 0 { s } else { step(rounds(s, d, (n - 1) as nat), sched(d, n - 1), k_table()[n - 1]) }
}
#[verifier::opaque]
spec fn compress(h: Seq<u64>, d: Seq<u8>) -> Seq<u64> {
    let r = rounds(h, d, 80);
    Seq::new(8, |i: int| add(r[i], h[i]))
}
spec fn len8(bits: u64) -> Seq<u8> { kx_be8(bits) }
// 128-bit length whose upper half is zero: messages here are shorter than 2^61 bytes
spec fn len_field(bits: u64) -> Seq<u8> { Seq::new(8, |i: int| 0u8) + kx_be8(bits) }
proof fn lemma_len_field(bits: u64)
    ensures
        len_field(bits).len() == 16, len_field(bits).take(8) =~= Seq::new(8, |i: int| 0u8),
        len_field(bits).skip(8) == len8(bits),
{
    assert(len_field(bits).skip(8) =~= len8(bits));
}
spec fn words_out(h: Seq<u64>) -> Seq<u8>
    decreases h.len()
{
    if h.len() == 0 { Seq::empty() } else { words_out(h.drop_last()) + kx_be8(h.last()) }
}
#[verifier::external_body]
fn kx_flatten_be(w: &[u64]) -> (r: Vec<u8>)
    ensures r@ == words_out(w@),
{ w.iter().map(|v| v.to_be_bytes()).flatten().collect() }
proof fn lemma_tables()
    ensures SHA512_PRIME_CUBE_ROOTS@ == k_table(),
{
    assert(SHA512_PRIME_CUBE_ROOTS@ =~= k_table());
}
@@file keramics-hashes/src/sha512.rs
@@item SHA512_BLOCK_SIZE
@@item SHA512_PRIME_SQUARE_ROOTS
@@item SHA512_PRIME_CUBE_ROOTS
@@item Sha512Context
@@fn Sha512Context::transform_block
    requires hash_values@.len() == 8, data_offset + 128 <= data@.len(),
    ensures r@ == compress(hash_values@, data@.subrange(data_offset as int, data_offset + 128)),
@@at start
let ghost off0 = data_offset as int;
let ghost d = data@.subrange(off0, off0 + 128);
proof { lemma_tables(); kx_slice_bound(data); }
@@loop 0
    invariant
        lo0 == 0, hi0 == 16, data_offset == off0 + 8 * it0, off0 + 128 <= data@.len(),
        d == data@.subrange(off0, off0 + 128),
        forall|i: int| 0 <= i < it0 ==> values_64bit@[i] == sched(d, i),
@@at loop 0 begin
proof {
    let i = it0 as int - 1;
    assert(data@.subrange(data_offset as int, data_offset + 8) =~= d.subrange(8 * i, 8 * i + 8));
}
@@loop 1
    invariant
        lo1 == 16, hi1 == 80,
        forall|i: int| 0 <= i < it1 ==> values_64bit@[i] == sched(d, i),
@@at loop 1 begin
let ghost t = it1 as int - 1;
proof {
    assert(values_64bit@[t - 2] == sched(d, t - 2));
    assert(values_64bit@[t - 7] == sched(d, t - 7));
    assert(values_64bit@[t - 15] == sched(d, t - 15));
    assert(values_64bit@[t - 16] == sched(d, t - 16));
}
@@at loop 1 end
proof { assert(values_64bit@[t] == sched(d, t)); }
@@loop 2
    invariant
        lo2 == 0, hi2 == 80, hash_values@.len() == 8,
        forall|i: int| 0 <= i < 80 ==> values_64bit@[i] == sched(d, i),
        block_hashes@ == rounds(hash_values@, d, it2 as nat),
@@at loop 2 end
proof { assert(block_hashes@ =~= rounds(hash_values@, d, it2 as nat)); }
@@loop 3
    invariant
        lo3 == 0, hi3 == 8, hash_values@.len() == 8,
        forall|i: int| 0 <= i < it3 ==> block_hashes@[i] == add(rounds(hash_values@, d, 80)[i], hash_values@[i]),
        forall|i: int| it3 <= i < 8 ==> block_hashes@[i] == rounds(hash_values@, d, 80)[i],
@@at loop 3 after
proof { reveal(compress); assert(block_hashes@ =~= compress(hash_values@, d)); }
@@include hash_md.vx T=Sha512Context F=sha512 BS=128 LF=16 W=u64 H0=SHA512_PRIME_SQUARE_ROOTS BLK=256 OUT=h OUTHINT=
