@@# generated by gen_codecs.py
@@include std.vx
@@include codec.vx
@@raw
// reference mapping: code point of each byte, -1 where the encoding assigns none
spec fn dec_table() -> Seq<int> { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1] }
spec fn dec(b: u8) -> int { dec_table()[b as int] }
// its inverse: a byte for each code point, -1 where no byte has that code point
spec fn enc(c: int) -> int { if 0 <= c < 128 { c } else { -1 } }
spec fn chk(n: nat) -> bool
    decreases n
{
    n == 0 || (chk((n - 1) as nat) && (dec_table()[n - 1] != -1 ==> enc(dec_table()[n - 1]) == n - 1))
}
proof fn lemma_chk(n: nat, k: int)
    requires chk(n), 0 <= k < n,
    ensures dec_table()[k] != -1 ==> enc(dec_table()[k]) == k,
    decreases n
{
    if k < n - 1 { lemma_chk((n - 1) as nat, k); }
}
proof fn lemma_enc(c: int)
    ensures enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
}
// Decoding and encoding are inverse to each other.
proof fn theorem_inverse(k: int, c: int)
    ensures
        0 <= k < 256 ==> (dec_table()[k] != -1 ==> enc(dec_table()[k]) == k),
        enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
    assert(chk(256)) by (compute_only);
    lemma_enc(c);
    if 0 <= k < 256 { lemma_chk(256, k); }
}
spec fn decoded(b: u8, r: Result<u32, ErrorTrace>) -> bool {
    match r { Ok(c) => b < 0x80 ==> dec(b) == c, Err(_) => dec(b) == -1 }
}
// `b` encodes c: one byte, and it decodes to c
spec fn encoded(c: u32, r: Result<Vec<u8>, ErrorTrace>) -> bool {
    match r { Ok(v) => v@.len() == 1 && enc(c as int) != -1 && dec(v@[0]) == c, Err(_) => enc(c as int) == -1 }
}
@@file keramics-encodings/src/ascii.rs
@@item DecoderAscii
@@item EncoderAscii
@@fn DecoderAscii::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn DecoderAscii::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && final(self).byte_index == old(self).byte_index + 1
            && decoded(old(self).bytes@[old(self).byte_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.bytes); }
@@fn EncoderAscii::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn EncoderAscii::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1
            && encoded(old(self).code_points@[old(self).code_point_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.code_points); }
@@endfn
