@@include std.vx
@@mapmethod to_be_bytes kx_u64_to_be_bytes
@@raw
// SHA-1 (FIPS 180-4).
spec fn h0() -> Seq<u32> { seq![0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0] }
spec fn rotl(x: u32, n: u32) -> u32 { ((x << (n % 32)) | (x >> ((32 - (n % 32)) % 32) as u32)) }
spec fn add(x: u32, y: u32) -> u32 { x.wrapping_add(y) }
spec fn func(t: int, x: u32, y: u32, z: u32) -> u32 {
    if t < 20 { (x & y) | (!x & z) }
    else if 40 <= t < 60 { (x & y) | (x & z) | (y & z) }
    else { x ^ y ^ z }
}
spec fn constant(t: int) -> u32 {
    if t < 20 { 0x5a827999u32 } else if t < 40 { 0x6ed9eba1u32 } else if t < 60 { 0x8f1bbcdcu32 } else { 0xca62c1d6u32 }
}
spec fn sched(d: Seq<u8>, t: int) -> u32
    decreases t
{
    if t < 16 { kx_u32_be(d.subrange(4 * t, 4 * t + 4)) }
    else { rotl(sched(d, t - 3) ^ sched(d, t - 8) ^ sched(d, t - 14) ^ sched(d, t - 16), 1) }
}
spec fn step(s: Seq<u32>, w: u32, t: int) -> Seq<u32> {
    let temp = add(add(add(add(constant(t), func(t, s[1], s[2], s[3])), s[4]), rotl(s[0], 5)), w);
    seq![temp, s[0], rotl(s[1], 30), s[2], s[3]]
}
spec fn rounds(s: Seq<u32>, d: Seq<u8>, n: nat) -> Seq<u32>
    decreases n
{
    if n == 0 { s } else { step(rounds(s, d, (n - 1) as nat), sched(d, n - 1), n - 1) }
}
#[verifier::opaque]
spec fn compress(h: Seq<u32>, d: Seq<u8>) -> Seq<u32> {
    let r = rounds(h, d, 80);
    Seq::new(5, |i: int| add(r[i], h[i]))
}
spec fn len8(bits: u64) -> Seq<u8> { kx_be8(bits) }
spec fn len_field(bits: u64) -> Seq<u8> { kx_be8(bits) }
proof fn lemma_len_field(bits: u64) ensures len_field(bits) == len8(bits) {}
spec fn words_out(h: Seq<u32>) -> Seq<u8>
    decreases h.len()
{
    if h.len() == 0 { Seq::empty() } else { words_out(h.drop_last()) + kx_be4(h.last()) }
}
#[verifier::external_body]
fn kx_flatten_be(w: &[u32]) -> (r: Vec<u8>)
    ensures r@ == words_out(w@),
{ w.iter().map(|v| v.to_be_bytes()).flatten().collect() }
@@file keramics-hashes/src/sha1.rs
@@item SHA1_BLOCK_SIZE
@@item SHA1_HASH_VALUES
@@item Sha1Context
@@fn Sha1Context::transform_block
    requires hash_values@.len() == 5, data_offset + 64 <= data@.len(),
    ensures r@ == compress(hash_values@, data@.subrange(data_offset as int, data_offset + 64)),
@@at start
let ghost off0 = data_offset as int;
let ghost d = data@.subrange(off0, off0 + 64);
proof { kx_slice_bound(data); }
@@loop 0
    invariant
        lo0 == 0, hi0 == 16, data_offset == off0 + 4 * it0, off0 + 64 <= data@.len(),
        d == data@.subrange(off0, off0 + 64),
        forall|i: int| 0 <= i < it0 ==> values_32bit@[i] == sched(d, i),
@@at loop 0 begin
proof {
    let i = it0 as int - 1;
    assert(data@.subrange(data_offset as int, data_offset + 4) =~= d.subrange(4 * i, 4 * i + 4));
}
@@loop 1
    invariant
        lo1 == 16, hi1 == 80,
        forall|i: int| 0 <= i < it1 ==> values_32bit@[i] == sched(d, i),
@@at loop 1 begin
let ghost t = it1 as int - 1;
proof {
    assert(values_32bit@[t - 3] == sched(d, t - 3));
    assert(values_32bit@[t - 8] == sched(d, t - 8));
    assert(values_32bit@[t - 14] == sched(d, t - 14));
    assert(values_32bit@[t - 16] == sched(d, t - 16));
}
@@at loop 1 end
proof { assert(values_32bit@[t] == sched(d, t)); }
@@loop 2
    invariant
        lo2 == 0, hi2 == 80, hash_values@.len() == 5,
        forall|i: int| 0 <= i < 80 ==> values_32bit@[i] == sched(d, i),
        block_hashes@ == rounds(hash_values@, d, it2 as nat),
@@at loop 2 end
proof { assert(block_hashes@ =~= rounds(hash_values@, d, it2 as nat)); }
@@loop 3
    invariant
        lo3 == 0, hi3 == 5, hash_values@.len() == 5,
        forall|i: int| 0 <= i < it3 ==> block_hashes@[i] == add(rounds(hash_values@, d, 80)[i], hash_values@[i]),
        forall|i: int| it3 <= i < 5 ==> block_hashes@[i] == rounds(hash_values@, d, 80)[i],
@@at loop 3 after
proof { reveal(compress); assert(block_hashes@ =~= compress(hash_values@, d)); }
@@include hash_md.vx T=Sha1Context F=sha1 BS=64 LF=8 W=u32 H0=SHA1_HASH_VALUES BLK=128 OUT=h OUTHINT=
