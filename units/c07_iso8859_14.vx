@@# generated by gen_codecs.py
@@include std.vx
@@include codec.vx
@@raw
// reference mapping: code point of each byte, -1 where the encoding assigns none
spec fn dec_table() -> Seq<int> { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 7682, 7683, 163, 266, 267, 7690, 167, 7808, 169, 7810, 7691, 7922, 173, 174, 376, 7710, 7711, 288, 289, 7744, 7745, 182, 7766, 7809, 7767, 7811, 7776, 7923, 7812, 7813, 7777, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 372, 209, 210, 211, 212, 213, 214, 7786, 216, 217, 218, 219, 220, 221, 374, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 373, 241, 242, 243, 244, 245, 246, 7787, 248, 249, 250, 251, 252, 253, 375, 255] }
spec fn dec(b: u8) -> int { dec_table()[b as int] }
// its inverse: a byte for each code point, -1 where no byte has that code point
spec fn enc(c: int) -> int { if 0 <= c < 161 { c } else if c == 7682 { 161 } else if c == 7683 { 162 } else if c == 163 { 163 } else if c == 266 { 164 } else if c == 267 { 165 } else if c == 7690 { 166 } else if c == 167 { 167 } else if c == 7808 { 168 } else if c == 169 { 169 } else if c == 7810 { 170 } else if c == 7691 { 171 } else if c == 7922 { 172 } else if c == 173 { 173 } else if c == 174 { 174 } else if c == 376 { 175 } else if c == 7710 { 176 } else if c == 7711 { 177 } else if c == 288 { 178 } else if c == 289 { 179 } else if c == 7744 { 180 } else if c == 7745 { 181 } else if c == 182 { 182 } else if c == 7766 { 183 } else if c == 7809 { 184 } else if c == 7767 { 185 } else if c == 7811 { 186 } else if c == 7776 { 187 } else if c == 7923 { 188 } else if c == 7812 { 189 } else if c == 7813 { 190 } else if c == 7777 { 191 } else if c == 192 { 192 } else if c == 193 { 193 } else if c == 194 { 194 } else if c == 195 { 195 } else if c == 196 { 196 } else if c == 197 { 197 } else if c == 198 { 198 } else if c == 199 { 199 } else if c == 200 { 200 } else if c == 201 { 201 } else if c == 202 { 202 } else if c == 203 { 203 } else if c == 204 { 204 } else if c == 205 { 205 } else if c == 206 { 206 } else if c == 207 { 207 } else if c == 372 { 208 } else if c == 209 { 209 } else if c == 210 { 210 } else if c == 211 { 211 } else if c == 212 { 212 } else if c == 213 { 213 } else if c == 214 { 214 } else if c == 7786 { 215 } else if c == 216 { 216 } else if c == 217 { 217 } else if c == 218 { 218 } else if c == 219 { 219 } else if c == 220 { 220 } else if c == 221 { 221 } else if c == 374 { 222 } else if c == 223 { 223 } else if c == 224 { 224 } else if c == 225 { 225 } else if c == 226 { 226 } else if c == 227 { 227 } else if c == 228 { 228 } else if c == 229 { 229 } else if c == 230 { 230 } else if c == 231 { 231 } else if c == 232 { 232 } else if c == 233 { 233 } else if c == 234 { 234 } else if c == 235 { 235 } else if c == 236 { 236 } else if c == 237 { 237 } else if c == 238 { 238 } else if c == 239 { 239 } else if c == 373 { 240 } else if c == 241 { 241 } else if c == 242 { 242 } else if c == 243 { 243 } else if c == 244 { 244 } else if c == 245 { 245 } else if c == 246 { 246 } else if c == 7787 { 247 } else if c == 248 { 248 } else if c == 249 { 249 } else if c == 250 { 250 } else if c == 251 { 251 } else if c == 252 { 252 } else if c == 253 { 253 } else if c == 375 { 254 } else if c == 255 { 255 } else { -1 } }
spec fn chk(n: nat) -> bool
    decreases n
{
    n == 0 || (chk((n - 1) as nat) && (dec_table()[n - 1] != -1 ==> enc(dec_table()[n - 1]) == n - 1))
}
proof fn lemma_chk(n: nat, k: int)
    requires chk(n), 0 <= k < n,
    ensures dec_table()[k] != -1 ==> enc(dec_table()[k]) == k,
    decreases n
{
    if k < n - 1 { lemma_chk((n - 1) as nat, k); }
}
proof fn lemma_enc(c: int)
    ensures enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
}
// Decoding and encoding are inverse to each other.
proof fn theorem_inverse(k: int, c: int)
    ensures
        0 <= k < 256 ==> (dec_table()[k] != -1 ==> enc(dec_table()[k]) == k),
        enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
    assert(chk(256)) by (compute_only);
    lemma_enc(c);
    if 0 <= k < 256 { lemma_chk(256, k); }
}
spec fn decoded(b: u8, r: Result<u32, ErrorTrace>) -> bool {
    match r { Ok(c) => dec(b) == c, Err(_) => dec(b) == -1 }
}
// `b` encodes c: one byte, and it decodes to c
spec fn encoded(c: u32, r: Result<Vec<u8>, ErrorTrace>) -> bool {
    match r { Ok(v) => v@.len() == 1 && enc(c as int) != -1 && dec(v@[0]) == c, Err(_) => enc(c as int) == -1 }
}
@@file keramics-encodings/src/iso8859_14.rs
@@item DecoderIso8859_14
@@item EncoderIso8859_14
@@fn DecoderIso8859_14::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn DecoderIso8859_14::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && final(self).byte_index == old(self).byte_index + 1
            && decoded(old(self).bytes@[old(self).byte_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.bytes); }
@@fn EncoderIso8859_14::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn EncoderIso8859_14::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1
            && encoded(old(self).code_points@[old(self).code_point_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.code_points); }
@@endfn
