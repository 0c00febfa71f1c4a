@@# generated by gen_codecs.py
@@include std.vx
@@include codec.vx
@@raw
// reference mapping: code point of each byte, -1 where the encoding assigns none
spec fn dec_table() -> Seq<int> { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 196, 197, 199, 201, 209, 214, 220, 225, 224, 226, 228, 227, 229, 231, 233, 232, 234, 235, 237, 236, 238, 239, 241, 243, 242, 244, 246, 245, 250, 249, 251, 252, 8224, 176, 162, 163, 167, 8226, 182, 223, 174, 169, 8482, 180, 168, 8800, 198, 216, 7682, 177, 8804, 8805, 7683, 266, 267, 7690, 7691, 7710, 7711, 288, 289, 7744, 230, 248, 7745, 7766, 7767, 636, 402, 383, 7776, 171, 187, 8230, 160, 192, 195, 213, 338, 339, 8211, 8212, 8220, 8221, 8216, 8217, 7777, 7835, 255, 376, 7786, 8364, 8249, 8250, 374, 375, 7787, 183, 7922, 7923, 8266, 194, 202, 193, 203, 200, 205, 206, 207, 204, 211, 212, 9827, 210, 218, 219, 217, 305, 221, 253, 372, 373, 7812, 7813, 7808, 7809, 7810, 7811] }
spec fn dec(b: u8) -> int { dec_table()[b as int] }
// its inverse: a byte for each code point, -1 where no byte has that code point
spec fn enc(c: int) -> int { if 0 <= c < 128 { c } else if c == 196 { 128 } else if c == 197 { 129 } else if c == 199 { 130 } else if c == 201 { 131 } else if c == 209 { 132 } else if c == 214 { 133 } else if c == 220 { 134 } else if c == 225 { 135 } else if c == 224 { 136 } else if c == 226 { 137 } else if c == 228 { 138 } else if c == 227 { 139 } else if c == 229 { 140 } else if c == 231 { 141 } else if c == 233 { 142 } else if c == 232 { 143 } else if c == 234 { 144 } else if c == 235 { 145 } else if c == 237 { 146 } else if c == 236 { 147 } else if c == 238 { 148 } else if c == 239 { 149 } else if c == 241 { 150 } else if c == 243 { 151 } else if c == 242 { 152 } else if c == 244 { 153 } else if c == 246 { 154 } else if c == 245 { 155 } else if c == 250 { 156 } else if c == 249 { 157 } else if c == 251 { 158 } else if c == 252 { 159 } else if c == 8224 { 160 } else if c == 176 { 161 } else if c == 162 { 162 } else if c == 163 { 163 } else if c == 167 { 164 } else if c == 8226 { 165 } else if c == 182 { 166 } else if c == 223 { 167 } else if c == 174 { 168 } else if c == 169 { 169 } else if c == 8482 { 170 } else if c == 180 { 171 } else if c == 168 { 172 } else if c == 8800 { 173 } else if c == 198 { 174 } else if c == 216 { 175 } else if c == 7682 { 176 } else if c == 177 { 177 } else if c == 8804 { 178 } else if c == 8805 { 179 } else if c == 7683 { 180 } else if c == 266 { 181 } else if c == 267 { 182 } else if c == 7690 { 183 } else if c == 7691 { 184 } else if c == 7710 { 185 } else if c == 7711 { 186 } else if c == 288 { 187 } else if c == 289 { 188 } else if c == 7744 { 189 } else if c == 230 { 190 } else if c == 248 { 191 } else if c == 7745 { 192 } else if c == 7766 { 193 } else if c == 7767 { 194 } else if c == 636 { 195 } else if c == 402 { 196 } else if c == 383 { 197 } else if c == 7776 { 198 } else if c == 171 { 199 } else if c == 187 { 200 } else if c == 8230 { 201 } else if c == 160 { 202 } else if c == 192 { 203 } else if c == 195 { 204 } else if c == 213 { 205 } else if c == 338 { 206 } else if c == 339 { 207 } else if c == 8211 { 208 } else if c == 8212 { 209 } else if c == 8220 { 210 } else if c == 8221 { 211 } else if c == 8216 { 212 } else if c == 8217 { 213 } else if c == 7777 { 214 } else if c == 7835 { 215 } else if c == 255 { 216 } else if c == 376 { 217 } else if c == 7786 { 218 } else if c == 8364 { 219 } else if c == 8249 { 220 } else if c == 8250 { 221 } else if c == 374 { 222 } else if c == 375 { 223 } else if c == 7787 { 224 } else if c == 183 { 225 } else if c == 7922 { 226 } else if c == 7923 { 227 } else if c == 8266 { 228 } else if c == 194 { 229 } else if c == 202 { 230 } else if c == 193 { 231 } else if c == 203 { 232 } else if c == 200 { 233 } else if c == 205 { 234 } else if c == 206 { 235 } else if c == 207 { 236 } else if c == 204 { 237 } else if c == 211 { 238 } else if c == 212 { 239 } else if c == 9827 { 240 } else if c == 210 { 241 } else if c == 218 { 242 } else if c == 219 { 243 } else if c == 217 { 244 } else if c == 305 { 245 } else if c == 221 { 246 } else if c == 253 { 247 } else if c == 372 { 248 } else if c == 373 { 249 } else if c == 7812 { 250 } else if c == 7813 { 251 } else if c == 7808 { 252 } else if c == 7809 { 253 } else if c == 7810 { 254 } else if c == 7811 { 255 } else { -1 } }
spec fn chk(n: nat) -> bool
    decreases n
{
    n == 0 || (chk((n - 1) as nat) && (dec_table()[n - 1] != -1 ==> enc(dec_table()[n - 1]) == n - 1))
}
proof fn lemma_chk(n: nat, k: int)
    requires chk(n), 0 <= k < n,
    ensures dec_table()[k] != -1 ==> enc(dec_table()[k]) == k,
    decreases n
{
    if k < n - 1 { lemma_chk((n - 1) as nat, k); }
}
proof fn lemma_enc(c: int)
    ensures enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
}
// Decoding and encoding are inverse to each other.
proof fn theorem_inverse(k: int, c: int)
    ensures
        0 <= k < 256 ==> (dec_table()[k] != -1 ==> enc(dec_table()[k]) == k),
        enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
    assert(chk(256)) by (compute_only);
    lemma_enc(c);
    if 0 <= k < 256 { lemma_chk(256, k); }
}
spec fn decoded(b: u8, r: Result<u32, ErrorTrace>) -> bool {
    match r { Ok(c) => dec(b) == c, Err(_) => dec(b) == -1 }
}
// `b` encodes c: one byte, and it decodes to c
spec fn encoded(c: u32, r: Result<Vec<u8>, ErrorTrace>) -> bool {
    match r { Ok(v) => v@.len() == 1 && enc(c as int) != -1 && dec(v@[0]) == c, Err(_) => enc(c as int) == -1 }
}
@@file keramics-encodings/src/mac_gaelic.rs
@@item DecoderMacGaelic
@@item EncoderMacGaelic
@@fn DecoderMacGaelic::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn DecoderMacGaelic::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && final(self).byte_index == old(self).byte_index + 1
            && decoded(old(self).bytes@[old(self).byte_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.bytes); }
@@fn EncoderMacGaelic::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn EncoderMacGaelic::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1
            && encoded(old(self).code_points@[old(self).code_point_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.code_points); }
@@endfn
