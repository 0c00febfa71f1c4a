@@# generated by gen_codecs.py
@@include std.vx
@@include codec.vx
@@raw
// reference mapping: code point of each byte, -1 where the encoding assigns none
spec fn dec_table() -> Seq<int> { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 8364, -1, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, -1, 8249, -1, -1, -1, -1, -1, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, -1, 8250, -1, -1, -1, -1, 160, 161, 162, 163, 8362, 165, 166, 167, 168, 169, 215, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 247, 187, 188, 189, 190, 191, 1456, 1457, 1458, 1459, 1460, 1461, 1462, 1463, 1464, 1465, -1, 1467, 1468, 1469, 1470, 1471, 1472, 1473, 1474, 1475, 1520, 1521, 1522, 1523, 1524, -1, -1, -1, -1, -1, -1, -1, 1488, 1489, 1490, 1491, 1492, 1493, 1494, 1495, 1496, 1497, 1498, 1499, 1500, 1501, 1502, 1503, 1504, 1505, 1506, 1507, 1508, 1509, 1510, 1511, 1512, 1513, 1514, -1, -1, 8206, 8207, -1] }
spec fn dec(b: u8) -> int { dec_table()[b as int] }
// its inverse: a byte for each code point, -1 where no byte has that code point
spec fn enc(c: int) -> int { if 0 <= c < 128 { c } else if c == 8364 { 128 } else if c == 8218 { 130 } else if c == 402 { 131 } else if c == 8222 { 132 } else if c == 8230 { 133 } else if c == 8224 { 134 } else if c == 8225 { 135 } else if c == 710 { 136 } else if c == 8240 { 137 } else if c == 8249 { 139 } else if c == 8216 { 145 } else if c == 8217 { 146 } else if c == 8220 { 147 } else if c == 8221 { 148 } else if c == 8226 { 149 } else if c == 8211 { 150 } else if c == 8212 { 151 } else if c == 732 { 152 } else if c == 8482 { 153 } else if c == 8250 { 155 } else if c == 160 { 160 } else if c == 161 { 161 } else if c == 162 { 162 } else if c == 163 { 163 } else if c == 8362 { 164 } else if c == 165 { 165 } else if c == 166 { 166 } else if c == 167 { 167 } else if c == 168 { 168 } else if c == 169 { 169 } else if c == 215 { 170 } else if c == 171 { 171 } else if c == 172 { 172 } else if c == 173 { 173 } else if c == 174 { 174 } else if c == 175 { 175 } else if c == 176 { 176 } else if c == 177 { 177 } else if c == 178 { 178 } else if c == 179 { 179 } else if c == 180 { 180 } else if c == 181 { 181 } else if c == 182 { 182 } else if c == 183 { 183 } else if c == 184 { 184 } else if c == 185 { 185 } else if c == 247 { 186 } else if c == 187 { 187 } else if c == 188 { 188 } else if c == 189 { 189 } else if c == 190 { 190 } else if c == 191 { 191 } else if c == 1456 { 192 } else if c == 1457 { 193 } else if c == 1458 { 194 } else if c == 1459 { 195 } else if c == 1460 { 196 } else if c == 1461 { 197 } else if c == 1462 { 198 } else if c == 1463 { 199 } else if c == 1464 { 200 } else if c == 1465 { 201 } else if c == 1467 { 203 } else if c == 1468 { 204 } else if c == 1469 { 205 } else if c == 1470 { 206 } else if c == 1471 { 207 } else if c == 1472 { 208 } else if c == 1473 { 209 } else if c == 1474 { 210 } else if c == 1475 { 211 } else if c == 1520 { 212 } else if c == 1521 { 213 } else if c == 1522 { 214 } else if c == 1523 { 215 } else if c == 1524 { 216 } else if c == 1488 { 224 } else if c == 1489 { 225 } else if c == 1490 { 226 } else if c == 1491 { 227 } else if c == 1492 { 228 } else if c == 1493 { 229 } else if c == 1494 { 230 } else if c == 1495 { 231 } else if c == 1496 { 232 } else if c == 1497 { 233 } else if c == 1498 { 234 } else if c == 1499 { 235 } else if c == 1500 { 236 } else if c == 1501 { 237 } else if c == 1502 { 238 } else if c == 1503 { 239 } else if c == 1504 { 240 } else if c == 1505 { 241 } else if c == 1506 { 242 } else if c == 1507 { 243 } else if c == 1508 { 244 } else if c == 1509 { 245 } else if c == 1510 { 246 } else if c == 1511 { 247 } else if c == 1512 { 248 } else if c == 1513 { 249 } else if c == 1514 { 250 } else if c == 8206 { 253 } else if c == 8207 { 254 } else { -1 } }
spec fn chk(n: nat) -> bool
    decreases n
{
    n == 0 || (chk((n - 1) as nat) && (dec_table()[n - 1] != -1 ==> enc(dec_table()[n - 1]) == n - 1))
}
proof fn lemma_chk(n: nat, k: int)
    requires chk(n), 0 <= k < n,
    ensures dec_table()[k] != -1 ==> enc(dec_table()[k]) == k,
    decreases n
{
    if k < n - 1 { lemma_chk((n - 1) as nat, k); }
}
proof fn lemma_enc(c: int)
    ensures enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
}
// Decoding and encoding are inverse to each other.
proof fn theorem_inverse(k: int, c: int)
    ensures
        0 <= k < 256 ==> (dec_table()[k] != -1 ==> enc(dec_table()[k]) == k),
        enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
    assert(chk(256)) by (compute_only);
    lemma_enc(c);
    if 0 <= k < 256 { lemma_chk(256, k); }
}
spec fn decoded(b: u8, r: Result<u32, ErrorTrace>) -> bool {
    match r { Ok(c) => dec(b) == c, Err(_) => dec(b) == -1 }
}
// `b` encodes c: one byte, and it decodes to c
spec fn encoded(c: u32, r: Result<Vec<u8>, ErrorTrace>) -> bool {
    match r { Ok(v) => v@.len() == 1 && enc(c as int) != -1 && dec(v@[0]) == c, Err(_) => enc(c as int) == -1 }
}
@@file keramics-encodings/src/windows1255.rs
@@item DecoderWindows1255
@@item EncoderWindows1255
@@fn DecoderWindows1255::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn DecoderWindows1255::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && final(self).byte_index == old(self).byte_index + 1
            && decoded(old(self).bytes@[old(self).byte_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.bytes); }
@@fn EncoderWindows1255::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn EncoderWindows1255::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1
            && encoded(old(self).code_points@[old(self).code_point_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.code_points); }
@@endfn
