@@# generated by gen_codecs.py
@@include std.vx
@@include codec.vx
@@raw
// reference mapping: code point of each byte, -1 where the encoding assigns none
spec fn dec_table() -> Seq<int> { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 8364, 1662, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 1657, 8249, 338, 1670, 1688, 1672, 1711, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 1705, 8482, 1681, 8250, 339, 8204, 8205, 1722, 160, 1548, 162, 163, 164, 165, 166, 167, 168, 169, 1726, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 1563, 187, 188, 189, 190, 1567, 1729, 1569, 1570, 1571, 1572, 1573, 1574, 1575, 1576, 1577, 1578, 1579, 1580, 1581, 1582, 1583, 1584, 1585, 1586, 1587, 1588, 1589, 1590, 215, 1591, 1592, 1593, 1594, 1600, 1601, 1602, 1603, 224, 1604, 226, 1605, 1606, 1607, 1608, 231, 232, 233, 234, 235, 1609, 1610, 238, 239, 1611, 1612, 1613, 1614, 244, 1615, 1616, 247, 1617, 249, 1618, 251, 252, 8206, 8207, 1746] }
spec fn dec(b: u8) -> int { dec_table()[b as int] }
// its inverse: a byte for each code point, -1 where no byte has that code point
spec fn enc(c: int) -> int { if 0 <= c < 128 { c } else if c == 8364 { 128 } else if c == 1662 { 129 } else if c == 8218 { 130 } else if c == 402 { 131 } else if c == 8222 { 132 } else if c == 8230 { 133 } else if c == 8224 { 134 } else if c == 8225 { 135 } else if c == 710 { 136 } else if c == 8240 { 137 } else if c == 1657 { 138 } else if c == 8249 { 139 } else if c == 338 { 140 } else if c == 1670 { 141 } else if c == 1688 { 142 } else if c == 1672 { 143 } else if c == 1711 { 144 } else if c == 8216 { 145 } else if c == 8217 { 146 } else if c == 8220 { 147 } else if c == 8221 { 148 } else if c == 8226 { 149 } else if c == 8211 { 150 } else if c == 8212 { 151 } else if c == 1705 { 152 } else if c == 8482 { 153 } else if c == 1681 { 154 } else if c == 8250 { 155 } else if c == 339 { 156 } else if c == 8204 { 157 } else if c == 8205 { 158 } else if c == 1722 { 159 } else if c == 160 { 160 } else if c == 1548 { 161 } else if c == 162 { 162 } else if c == 163 { 163 } else if c == 164 { 164 } else if c == 165 { 165 } else if c == 166 { 166 } else if c == 167 { 167 } else if c == 168 { 168 } else if c == 169 { 169 } else if c == 1726 { 170 } else if c == 171 { 171 } else if c == 172 { 172 } else if c == 173 { 173 } else if c == 174 { 174 } else if c == 175 { 175 } else if c == 176 { 176 } else if c == 177 { 177 } else if c == 178 { 178 } else if c == 179 { 179 } else if c == 180 { 180 } else if c == 181 { 181 } else if c == 182 { 182 } else if c == 183 { 183 } else if c == 184 { 184 } else if c == 185 { 185 } else if c == 1563 { 186 } else if c == 187 { 187 } else if c == 188 { 188 } else if c == 189 { 189 } else if c == 190 { 190 } else if c == 1567 { 191 } else if c == 1729 { 192 } else if c == 1569 { 193 } else if c == 1570 { 194 } else if c == 1571 { 195 } else if c == 1572 { 196 } else if c == 1573 { 197 } else if c == 1574 { 198 } else if c == 1575 { 199 } else if c == 1576 { 200 } else if c == 1577 { 201 } else if c == 1578 { 202 } else if c == 1579 { 203 } else if c == 1580 { 204 } else if c == 1581 { 205 } else if c == 1582 { 206 } else if c == 1583 { 207 } else if c == 1584 { 208 } else if c == 1585 { 209 } else if c == 1586 { 210 } else if c == 1587 { 211 } else if c == 1588 { 212 } else if c == 1589 { 213 } else if c == 1590 { 214 } else if c == 215 { 215 } else if c == 1591 { 216 } else if c == 1592 { 217 } else if c == 1593 { 218 } else if c == 1594 { 219 } else if c == 1600 { 220 } else if c == 1601 { 221 } else if c == 1602 { 222 } else if c == 1603 { 223 } else if c == 224 { 224 } else if c == 1604 { 225 } else if c == 226 { 226 } else if c == 1605 { 227 } else if c == 1606 { 228 } else if c == 1607 { 229 } else if c == 1608 { 230 } else if c == 231 { 231 } else if c == 232 { 232 } else if c == 233 { 233 } else if c == 234 { 234 } else if c == 235 { 235 } else if c == 1609 { 236 } else if c == 1610 { 237 } else if c == 238 { 238 } else if c == 239 { 239 } else if c == 1611 { 240 } else if c == 1612 { 241 } else if c == 1613 { 242 } else if c == 1614 { 243 } else if c == 244 { 244 } else if c == 1615 { 245 } else if c == 1616 { 246 } else if c == 247 { 247 } else if c == 1617 { 248 } else if c == 249 { 249 } else if c == 1618 { 250 } else if c == 251 { 251 } else if c == 252 { 252 } else if c == 8206 { 253 } else if c == 8207 { 254 } else if c == 1746 { 255 } else { -1 } }
spec fn chk(n: nat) -> bool
    decreases n
{
    n == 0 || (chk((n - 1) as nat) && (dec_table()[n - 1] != -1 ==> enc(dec_table()[n - 1]) == n - 1))
}
proof fn lemma_chk(n: nat, k: int)
    requires chk(n), 0 <= k < n,
    ensures dec_table()[k] != -1 ==> enc(dec_table()[k]) == k,
    decreases n
{
    if k < n - 1 { lemma_chk((n - 1) as nat, k); }
}
proof fn lemma_enc(c: int)
    ensures enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
}
// Decoding and encoding are inverse to each other.
proof fn theorem_inverse(k: int, c: int)
    ensures
        0 <= k < 256 ==> (dec_table()[k] != -1 ==> enc(dec_table()[k]) == k),
        enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
    assert(chk(256)) by (compute_only);
    lemma_enc(c);
    if 0 <= k < 256 { lemma_chk(256, k); }
}
spec fn decoded(b: u8, r: Result<u32, ErrorTrace>) -> bool {
    match r { Ok(c) => dec(b) == c, Err(_) => dec(b) == -1 }
}
// `b` encodes c: one byte, and it decodes to c
spec fn encoded(c: u32, r: Result<Vec<u8>, ErrorTrace>) -> bool {
    match r { Ok(v) => v@.len() == 1 && enc(c as int) != -1 && dec(v@[0]) == c, Err(_) => enc(c as int) == -1 }
}
@@file keramics-encodings/src/windows1256.rs
@@item DecoderWindows1256
@@item EncoderWindows1256
@@fn DecoderWindows1256::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn DecoderWindows1256::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && final(self).byte_index == old(self).byte_index + 1
            && decoded(old(self).bytes@[old(self).byte_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.bytes); }
@@fn EncoderWindows1256::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn EncoderWindows1256::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1
            && encoded(old(self).code_points@[old(self).code_point_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.code_points); }
@@endfn
