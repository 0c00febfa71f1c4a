@@include std.vx
@@mapmethod to_le_bytes kx_u64_to_le_bytes
@@raw
// MD5 (RFC 1321).  Sines table: floor(2^32 * |sin(i + 1)|), computed when this file was written.
spec fn k_table() -> Seq<u32> { seq![
    0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501,
    0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821,
    0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8,
    0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a,
    0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70,
    0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665,
    0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1,
    0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391
] }
spec fn rotl(x: u32, n: u32) -> u32 { ((x << (n % 32)) | (x >> ((32 - (n % 32)) % 32) as u32)) }
spec fn add(x: u32, y: u32) -> u32 { x.wrapping_add(y) }
spec fn shift(i: int) -> u32 {
    let r = seq![seq![7u32, 12, 17, 22], seq![5u32, 9, 14, 20], seq![4u32, 11, 16, 23], seq![6u32, 10, 15, 21]];
    r[i / 16][i % 4]
}
spec fn word_index(i: int) -> int {
    if i < 16 { i } else if i < 32 { (5 * i + 1) % 16 } else if i < 48 { (3 * i + 5) % 16 } else { (7 * i) % 16 }
}
spec fn func(i: int, b: u32, c: u32, d: u32) -> u32 {
    if i < 16 { (b & c) | (!b & d) }
    else if i < 32 { (b & d) | (c & !d) }
    else if i < 48 { b ^ c ^ d }
    else { c ^ (b | !d) }
}
spec fn step(s: Seq<u32>, x: Seq<u32>, i: int) -> Seq<u32> {
    let t = rotl(add(add(add(func(i, s[1], s[2], s[3]), s[0]), x[word_index(i)]), k_table()[i]), shift(i));
    seq![s[3], add(s[1], t), s[1], s[2]]
}
spec fn rounds(s: Seq<u32>, x: Seq<u32>, n: nat) -> Seq<u32>
    decreases n
{
    if n == 0 { s } else { step(rounds(s, x, (n - 1) as nat), x, n - 1) }
}
spec fn words(d: Seq<u8>) -> Seq<u32> { Seq::new(16, |i: int| kx_u32_le(d.subrange(4 * i, 4 * i + 4))) }
#[verifier::opaque]
spec fn compress(h: Seq<u32>, d: Seq<u8>) -> Seq<u32> {
    let r = rounds(h, words(d), 64);
    seq![add(r[0], h[0]), add(r[1], h[1]), add(r[2], h[2]), add(r[3], h[3])]
}
spec fn h0() -> Seq<u32> { seq![0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476] }
spec fn len8(bits: u64) -> Seq<u8> { kx_le8(bits) }
spec fn len_field(bits: u64) -> Seq<u8> { kx_le8(bits) }
proof fn lemma_len_field(bits: u64) ensures len_field(bits) == len8(bits) {}
spec fn words_out(h: Seq<u32>) -> Seq<u8>
    decreases h.len()
{
    if h.len() == 0 { Seq::empty() } else { words_out(h.drop_last()) + kx_le4(h.last()) }
}
#[verifier::external_body]
fn kx_flatten_le(w: &[u32]) -> (r: Vec<u8>)
    ensures r@ == words_out(w@),
{ w.iter().map(|v| v.to_le_bytes()).flatten().collect() }
proof fn lemma_tables()
    ensures
        MD5_SINES@ == k_table(),
        forall|i: int| 0 <= i < 64 ==> #[trigger] MD5_BIT_SHIFTS@[i] == shift(i),
        forall|i: int| 0 <= i < 64 ==> #[trigger] MD5_VALUES_32BIT_INDEX@[i] == word_index(i),
{
    assert(MD5_SINES@ =~= k_table());
}
@@file keramics-hashes/src/md5.rs
@@item MD5_BLOCK_SIZE
@@item MD5_HASH_VALUES
@@item MD5_SINES
@@item MD5_BIT_SHIFTS
@@item MD5_VALUES_32BIT_INDEX
@@item Md5Context
@@fn Md5Context::transform_block
    requires hash_values@.len() == 4, data_offset + 64 <= data@.len(),
    ensures r@ == compress(hash_values@, data@.subrange(data_offset as int, data_offset + 64)),
@@at start
let ghost off0 = data_offset as int;
let ghost d = data@.subrange(off0, off0 + 64);
proof { lemma_tables(); kx_slice_bound(data); }
@@loop 0
    invariant
        lo0 == 0, hi0 == 16, data_offset == off0 + 4 * it0, off0 + 64 <= data@.len(),
        d == data@.subrange(off0, off0 + 64),
        forall|i: int| 0 <= i < it0 ==> values_32bit@[i] == words(d)[i],
@@at loop 0 begin
proof {
    let i = it0 as int - 1;
    assert(data@.subrange(data_offset as int, data_offset + 4) =~= d.subrange(4 * i, 4 * i + 4));
}
@@at loop 0 after
proof { assert(values_32bit@ =~= words(d)); }
@@loop 1
    invariant
        lo1 == 0, hi1 == 64, values_32bit@ == words(d), hash_values@.len() == 4,
        block_hashes@ == rounds(hash_values@, words(d), it1 as nat),
@@at loop 1 end
proof { assert(block_hashes@ =~= rounds(hash_values@, words(d), it1 as nat)); }
@@loop 2
    invariant
        lo2 == 0, hi2 == 4, hash_values@.len() == 4,
        forall|i: int| 0 <= i < it2 ==> block_hashes@[i] == add(rounds(hash_values@, words(d), 64)[i], hash_values@[i]),
        forall|i: int| it2 <= i < 4 ==> block_hashes@[i] == rounds(hash_values@, words(d), 64)[i],
@@at loop 2 after
proof { reveal(compress); assert(block_hashes@ =~= compress(hash_values@, d)); }
@@include hash_md.vx T=Md5Context F=md5 BS=64 LF=8 W=u32 H0=MD5_HASH_VALUES BLK=128 OUT=h OUTHINT=
