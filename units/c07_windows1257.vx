@@# generated by gen_codecs.py
@@include std.vx
@@include codec.vx
@@raw
// reference mapping: code point of each byte, -1 where the encoding assigns none
spec fn dec_table() -> Seq<int> { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 8364, -1, 8218, -1, 8222, 8230, 8224, 8225, -1, 8240, -1, 8249, -1, 168, 711, 184, -1, 8216, 8217, 8220, 8221, 8226, 8211, 8212, -1, 8482, -1, 8250, -1, 175, 731, -1, 160, -1, 162, 163, 164, -1, 166, 167, 216, 169, 342, 171, 172, 173, 174, 198, 176, 177, 178, 179, 180, 181, 182, 183, 248, 185, 343, 187, 188, 189, 190, 230, 260, 302, 256, 262, 196, 197, 280, 274, 268, 201, 377, 278, 290, 310, 298, 315, 352, 323, 325, 211, 332, 213, 214, 215, 370, 321, 346, 362, 220, 379, 381, 223, 261, 303, 257, 263, 228, 229, 281, 275, 269, 233, 378, 279, 291, 311, 299, 316, 353, 324, 326, 243, 333, 245, 246, 247, 371, 322, 347, 363, 252, 380, 382, 729] }
spec fn dec(b: u8) -> int { dec_table()[b as int] }
// its inverse: a byte for each code point, -1 where no byte has that code point
spec fn enc(c: int) -> int { if 0 <= c < 128 { c } else if c == 8364 { 128 } else if c == 8218 { 130 } else if c == 8222 { 132 } else if c == 8230 { 133 } else if c == 8224 { 134 } else if c == 8225 { 135 } else if c == 8240 { 137 } else if c == 8249 { 139 } else if c == 168 { 141 } else if c == 711 { 142 } else if c == 184 { 143 } else if c == 8216 { 145 } else if c == 8217 { 146 } else if c == 8220 { 147 } else if c == 8221 { 148 } else if c == 8226 { 149 } else if c == 8211 { 150 } else if c == 8212 { 151 } else if c == 8482 { 153 } else if c == 8250 { 155 } else if c == 175 { 157 } else if c == 731 { 158 } else if c == 160 { 160 } else if c == 162 { 162 } else if c == 163 { 163 } else if c == 164 { 164 } else if c == 166 { 166 } else if c == 167 { 167 } else if c == 216 { 168 } else if c == 169 { 169 } else if c == 342 { 170 } else if c == 171 { 171 } else if c == 172 { 172 } else if c == 173 { 173 } else if c == 174 { 174 } else if c == 198 { 175 } else if c == 176 { 176 } else if c == 177 { 177 } else if c == 178 { 178 } else if c == 179 { 179 } else if c == 180 { 180 } else if c == 181 { 181 } else if c == 182 { 182 } else if c == 183 { 183 } else if c == 248 { 184 } else if c == 185 { 185 } else if c == 343 { 186 } else if c == 187 { 187 } else if c == 188 { 188 } else if c == 189 { 189 } else if c == 190 { 190 } else if c == 230 { 191 } else if c == 260 { 192 } else if c == 302 { 193 } else if c == 256 { 194 } else if c == 262 { 195 } else if c == 196 { 196 } else if c == 197 { 197 } else if c == 280 { 198 } else if c == 274 { 199 } else if c == 268 { 200 } else if c == 201 { 201 } else if c == 377 { 202 } else if c == 278 { 203 } else if c == 290 { 204 } else if c == 310 { 205 } else if c == 298 { 206 } else if c == 315 { 207 } else if c == 352 { 208 } else if c == 323 { 209 } else if c == 325 { 210 } else if c == 211 { 211 } else if c == 332 { 212 } else if c == 213 { 213 } else if c == 214 { 214 } else if c == 215 { 215 } else if c == 370 { 216 } else if c == 321 { 217 } else if c == 346 { 218 } else if c == 362 { 219 } else if c == 220 { 220 } else if c == 379 { 221 } else if c == 381 { 222 } else if c == 223 { 223 } else if c == 261 { 224 } else if c == 303 { 225 } else if c == 257 { 226 } else if c == 263 { 227 } else if c == 228 { 228 } else if c == 229 { 229 } else if c == 281 { 230 } else if c == 275 { 231 } else if c == 269 { 232 } else if c == 233 { 233 } else if c == 378 { 234 } else if c == 279 { 235 } else if c == 291 { 236 } else if c == 311 { 237 } else if c == 299 { 238 } else if c == 316 { 239 } else if c == 353 { 240 } else if c == 324 { 241 } else if c == 326 { 242 } else if c == 243 { 243 } else if c == 333 { 244 } else if c == 245 { 245 } else if c == 246 { 246 } else if c == 247 { 247 } else if c == 371 { 248 } else if c == 322 { 249 } else if c == 347 { 250 } else if c == 363 { 251 } else if c == 252 { 252 } else if c == 380 { 253 } else if c == 382 { 254 } else if c == 729 { 255 } else { -1 } }
spec fn chk(n: nat) -> bool
    decreases n
{
    n == 0 || (chk((n - 1) as nat) && (dec_table()[n - 1] != -1 ==> enc(dec_table()[n - 1]) == n - 1))
}
proof fn lemma_chk(n: nat, k: int)
    requires chk(n), 0 <= k < n,
    ensures dec_table()[k] != -1 ==> enc(dec_table()[k]) == k,
    decreases n
{
    if k < n - 1 { lemma_chk((n - 1) as nat, k); }
}
proof fn lemma_enc(c: int)
    ensures enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
}
// Decoding and encoding are inverse to each other.
proof fn theorem_inverse(k: int, c: int)
    ensures
        0 <= k < 256 ==> (dec_table()[k] != -1 ==> enc(dec_table()[k]) == k),
        enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
    assert(chk(256)) by (compute_only);
    lemma_enc(c);
    if 0 <= k < 256 { lemma_chk(256, k); }
}
spec fn decoded(b: u8, r: Result<u32, ErrorTrace>) -> bool {
    match r { Ok(c) => dec(b) == c, Err(_) => dec(b) == -1 }
}
// `b` encodes c: one byte, and it decodes to c
spec fn encoded(c: u32, r: Result<Vec<u8>, ErrorTrace>) -> bool {
    match r { Ok(v) => v@.len() == 1 && enc(c as int) != -1 && dec(v@[0]) == c, Err(_) => enc(c as int) == -1 }
}
@@file keramics-encodings/src/windows1257.rs
@@item DecoderWindows1257
@@item EncoderWindows1257
@@fn DecoderWindows1257::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn DecoderWindows1257::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && final(self).byte_index == old(self).byte_index + 1
            && decoded(old(self).bytes@[old(self).byte_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.bytes); }
@@fn EncoderWindows1257::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn EncoderWindows1257::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1
            && encoded(old(self).code_points@[old(self).code_point_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.code_points); }
@@endfn
