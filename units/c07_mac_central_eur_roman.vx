@@# generated by gen_codecs.py
@@include std.vx
@@include codec.vx
@@raw
// reference mapping: code point of each byte, -1 where the encoding assigns none
spec fn dec_table() -> Seq<int> { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 196, 256, 257, 201, 260, 214, 220, 225, 261, 268, 228, 269, 262, 263, 233, 377, 378, 270, 237, 271, 274, 275, 278, 243, 279, 244, 246, 245, 250, 282, 283, 252, 8224, 176, 280, 163, 167, 8226, 182, 223, 174, 169, 8482, 281, 168, 8800, 291, 302, 303, 298, 8804, 8805, 299, 310, 8706, 8721, 322, 315, 316, 317, 318, 313, 314, 325, 326, 323, 172, 8730, 324, 327, 8710, 171, 187, 8230, 160, 328, 336, 213, 337, 332, 8211, 8212, 8220, 8221, 8216, 8217, 247, 9674, 333, 340, 341, 344, 8249, 8250, 345, 342, 343, 352, 8218, 8222, 353, 346, 347, 193, 356, 357, 205, 381, 382, 362, 211, 212, 363, 366, 218, 367, 368, 369, 370, 371, 221, 253, 311, 379, 321, 380, 290, 711] }
spec fn dec(b: u8) -> int { dec_table()[b as int] }
// its inverse: a byte for each code point, -1 where no byte has that code point
spec fn enc(c: int) -> int { if 0 <= c < 128 { c } else if c == 196 { 128 } else if c == 256 { 129 } else if c == 257 { 130 } else if c == 201 { 131 } else if c == 260 { 132 } else if c == 214 { 133 } else if c == 220 { 134 } else if c == 225 { 135 } else if c == 261 { 136 } else if c == 268 { 137 } else if c == 228 { 138 } else if c == 269 { 139 } else if c == 262 { 140 } else if c == 263 { 141 } else if c == 233 { 142 } else if c == 377 { 143 } else if c == 378 { 144 } else if c == 270 { 145 } else if c == 237 { 146 } else if c == 271 { 147 } else if c == 274 { 148 } else if c == 275 { 149 } else if c == 278 { 150 } else if c == 243 { 151 } else if c == 279 { 152 } else if c == 244 { 153 } else if c == 246 { 154 } else if c == 245 { 155 } else if c == 250 { 156 } else if c == 282 { 157 } else if c == 283 { 158 } else if c == 252 { 159 } else if c == 8224 { 160 } else if c == 176 { 161 } else if c == 280 { 162 } else if c == 163 { 163 } else if c == 167 { 164 } else if c == 8226 { 165 } else if c == 182 { 166 } else if c == 223 { 167 } else if c == 174 { 168 } else if c == 169 { 169 } else if c == 8482 { 170 } else if c == 281 { 171 } else if c == 168 { 172 } else if c == 8800 { 173 } else if c == 291 { 174 } else if c == 302 { 175 } else if c == 303 { 176 } else if c == 298 { 177 } else if c == 8804 { 178 } else if c == 8805 { 179 } else if c == 299 { 180 } else if c == 310 { 181 } else if c == 8706 { 182 } else if c == 8721 { 183 } else if c == 322 { 184 } else if c == 315 { 185 } else if c == 316 { 186 } else if c == 317 { 187 } else if c == 318 { 188 } else if c == 313 { 189 } else if c == 314 { 190 } else if c == 325 { 191 } else if c == 326 { 192 } else if c == 323 { 193 } else if c == 172 { 194 } else if c == 8730 { 195 } else if c == 324 { 196 } else if c == 327 { 197 } else if c == 8710 { 198 } else if c == 171 { 199 } else if c == 187 { 200 } else if c == 8230 { 201 } else if c == 160 { 202 } else if c == 328 { 203 } else if c == 336 { 204 } else if c == 213 { 205 } else if c == 337 { 206 } else if c == 332 { 207 } else if c == 8211 { 208 } else if c == 8212 { 209 } else if c == 8220 { 210 } else if c == 8221 { 211 } else if c == 8216 { 212 } else if c == 8217 { 213 } else if c == 247 { 214 } else if c == 9674 { 215 } else if c == 333 { 216 } else if c == 340 { 217 } else if c == 341 { 218 } else if c == 344 { 219 } else if c == 8249 { 220 } else if c == 8250 { 221 } else if c == 345 { 222 } else if c == 342 { 223 } else if c == 343 { 224 } else if c == 352 { 225 } else if c == 8218 { 226 } else if c == 8222 { 227 } else if c == 353 { 228 } else if c == 346 { 229 } else if c == 347 { 230 } else if c == 193 { 231 } else if c == 356 { 232 } else if c == 357 { 233 } else if c == 205 { 234 } else if c == 381 { 235 } else if c == 382 { 236 } else if c == 362 { 237 } else if c == 211 { 238 } else if c == 212 { 239 } else if c == 363 { 240 } else if c == 366 { 241 } else if c == 218 { 242 } else if c == 367 { 243 } else if c == 368 { 244 } else if c == 369 { 245 } else if c == 370 { 246 } else if c == 371 { 247 } else if c == 221 { 248 } else if c == 253 { 249 } else if c == 311 { 250 } else if c == 379 { 251 } else if c == 321 { 252 } else if c == 380 { 253 } else if c == 290 { 254 } else if c == 711 { 255 } else { -1 } }
spec fn chk(n: nat) -> bool
    decreases n
{
    n == 0 || (chk((n - 1) as nat) && (dec_table()[n - 1] != -1 ==> enc(dec_table()[n - 1]) == n - 1))
}
proof fn lemma_chk(n: nat, k: int)
    requires chk(n), 0 <= k < n,
    ensures dec_table()[k] != -1 ==> enc(dec_table()[k]) == k,
    decreases n
{
    if k < n - 1 { lemma_chk((n - 1) as nat, k); }
}
proof fn lemma_enc(c: int)
    ensures enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
}
// Decoding and encoding are inverse to each other.
proof fn theorem_inverse(k: int, c: int)
    ensures
        0 <= k < 256 ==> (dec_table()[k] != -1 ==> enc(dec_table()[k]) == k),
        enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
    assert(chk(256)) by (compute_only);
    lemma_enc(c);
    if 0 <= k < 256 { lemma_chk(256, k); }
}
spec fn decoded(b: u8, r: Result<u32, ErrorTrace>) -> bool {
    match r { Ok(c) => dec(b) == c, Err(_) => dec(b) == -1 }
}
// `b` encodes c: one byte, and it decodes to c
spec fn encoded(c: u32, r: Result<Vec<u8>, ErrorTrace>) -> bool {
    match r { Ok(v) => v@.len() == 1 && enc(c as int) != -1 && dec(v@[0]) == c, Err(_) => enc(c as int) == -1 }
}
@@file keramics-encodings/src/mac_central_eur_roman.rs
@@item DecoderMacCentralEurRoman
@@item EncoderMacCentralEurRoman
@@fn DecoderMacCentralEurRoman::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn DecoderMacCentralEurRoman::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && final(self).byte_index == old(self).byte_index + 1
            && decoded(old(self).bytes@[old(self).byte_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.bytes); }
@@fn EncoderMacCentralEurRoman::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn EncoderMacCentralEurRoman::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1
            && encoded(old(self).code_points@[old(self).code_point_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.code_points); }
@@endfn
