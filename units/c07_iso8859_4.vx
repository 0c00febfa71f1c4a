@@# generated by gen_codecs.py
@@include std.vx
@@include codec.vx
@@raw
// reference mapping: code point of each byte, -1 where the encoding assigns none
spec fn dec_table() -> Seq<int> { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 312, 342, 164, 296, 315, 167, 168, 352, 274, 290, 358, 173, 381, 175, 176, 261, 731, 343, 180, 297, 316, 711, 184, 353, 275, 291, 359, 330, 382, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 298, 272, 325, 332, 310, 212, 213, 214, 215, 216, 370, 218, 219, 220, 360, 362, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 299, 273, 326, 333, 311, 244, 245, 246, 247, 248, 371, 250, 251, 252, 361, 363, 729] }
spec fn dec(b: u8) -> int { dec_table()[b as int] }
// its inverse: a byte for each code point, -1 where no byte has that code point
spec fn enc(c: int) -> int { if 0 <= c < 161 { c } else if c == 260 { 161 } else if c == 312 { 162 } else if c == 342 { 163 } else if c == 164 { 164 } else if c == 296 { 165 } else if c == 315 { 166 } else if c == 167 { 167 } else if c == 168 { 168 } else if c == 352 { 169 } else if c == 274 { 170 } else if c == 290 { 171 } else if c == 358 { 172 } else if c == 173 { 173 } else if c == 381 { 174 } else if c == 175 { 175 } else if c == 176 { 176 } else if c == 261 { 177 } else if c == 731 { 178 } else if c == 343 { 179 } else if c == 180 { 180 } else if c == 297 { 181 } else if c == 316 { 182 } else if c == 711 { 183 } else if c == 184 { 184 } else if c == 353 { 185 } else if c == 275 { 186 } else if c == 291 { 187 } else if c == 359 { 188 } else if c == 330 { 189 } else if c == 382 { 190 } else if c == 331 { 191 } else if c == 256 { 192 } else if c == 193 { 193 } else if c == 194 { 194 } else if c == 195 { 195 } else if c == 196 { 196 } else if c == 197 { 197 } else if c == 198 { 198 } else if c == 302 { 199 } else if c == 268 { 200 } else if c == 201 { 201 } else if c == 280 { 202 } else if c == 203 { 203 } else if c == 278 { 204 } else if c == 205 { 205 } else if c == 206 { 206 } else if c == 298 { 207 } else if c == 272 { 208 } else if c == 325 { 209 } else if c == 332 { 210 } else if c == 310 { 211 } else if c == 212 { 212 } else if c == 213 { 213 } else if c == 214 { 214 } else if c == 215 { 215 } else if c == 216 { 216 } else if c == 370 { 217 } else if c == 218 { 218 } else if c == 219 { 219 } else if c == 220 { 220 } else if c == 360 { 221 } else if c == 362 { 222 } else if c == 223 { 223 } else if c == 257 { 224 } else if c == 225 { 225 } else if c == 226 { 226 } else if c == 227 { 227 } else if c == 228 { 228 } else if c == 229 { 229 } else if c == 230 { 230 } else if c == 303 { 231 } else if c == 269 { 232 } else if c == 233 { 233 } else if c == 281 { 234 } else if c == 235 { 235 } else if c == 279 { 236 } else if c == 237 { 237 } else if c == 238 { 238 } else if c == 299 { 239 } else if c == 273 { 240 } else if c == 326 { 241 } else if c == 333 { 242 } else if c == 311 { 243 } else if c == 244 { 244 } else if c == 245 { 245 } else if c == 246 { 246 } else if c == 247 { 247 } else if c == 248 { 248 } else if c == 371 { 249 } else if c == 250 { 250 } else if c == 251 { 251 } else if c == 252 { 252 } else if c == 361 { 253 } else if c == 363 { 254 } else if c == 729 { 255 } else { -1 } }
spec fn chk(n: nat) -> bool
    decreases n
{
    n == 0 || (chk((n - 1) as nat) && (dec_table()[n - 1] != -1 ==> enc(dec_table()[n - 1]) == n - 1))
}
proof fn lemma_chk(n: nat, k: int)
    requires chk(n), 0 <= k < n,
    ensures dec_table()[k] != -1 ==> enc(dec_table()[k]) == k,
    decreases n
{
    if k < n - 1 { lemma_chk((n - 1) as nat, k); }
}
proof fn lemma_enc(c: int)
    ensures enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
}
// Decoding and encoding are inverse to each other.
proof fn theorem_inverse(k: int, c: int)
    ensures
        0 <= k < 256 ==> (dec_table()[k] != -1 ==> enc(dec_table()[k]) == k),
        enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
    assert(chk(256)) by (compute_only);
    lemma_enc(c);
    if 0 <= k < 256 { lemma_chk(256, k); }
}
spec fn decoded(b: u8, r: Result<u32, ErrorTrace>) -> bool {
    match r { Ok(c) => dec(b) == c, Err(_) => dec(b) == -1 }
}
// `b` encodes c: one byte, and it decodes to c
spec fn encoded(c: u32, r: Result<Vec<u8>, ErrorTrace>) -> bool {
    match r { Ok(v) => v@.len() == 1 && enc(c as int) != -1 && dec(v@[0]) == c, Err(_) => enc(c as int) == -1 }
}
@@file keramics-encodings/src/iso8859_4.rs
@@item DecoderIso8859_4
@@item EncoderIso8859_4
@@fn DecoderIso8859_4::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn DecoderIso8859_4::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && final(self).byte_index == old(self).byte_index + 1
            && decoded(old(self).bytes@[old(self).byte_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.bytes); }
@@fn EncoderIso8859_4::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn EncoderIso8859_4::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1
            && encoded(old(self).code_points@[old(self).code_point_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.code_points); }
@@endfn
