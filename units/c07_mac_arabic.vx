@@# generated by gen_codecs.py
@@include std.vx
@@include codec.vx
@@raw
// reference mapping: code point of each byte, -1 where the encoding assigns none
spec fn dec_table() -> Seq<int> { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 196, 160, 199, 201, 209, 214, 220, 225, 224, 226, 228, 1722, 171, 231, 233, 232, 234, 235, 237, 8230, 238, 239, 241, 243, 187, 244, 246, 247, 250, 249, 251, 252, 32, 33, 34, 35, 36, 1642, 38, 39, 40, 41, 42, 43, 1548, 45, 46, 47, 1632, 1633, 1634, 1635, 1636, 1637, 1638, 1639, 1640, 1641, 58, 1563, 60, 61, 62, 1567, 10058, 1569, 1570, 1571, 1572, 1573, 1574, 1575, 1576, 1577, 1578, 1579, 1580, 1581, 1582, 1583, 1584, 1585, 1586, 1587, 1588, 1589, 1590, 1591, 1592, 1593, 1594, 91, 92, 93, 94, 95, 1600, 1601, 1602, 1603, 1604, 1605, 1606, 1607, 1608, 1609, 1610, 1611, 1612, 1613, 1614, 1615, 1616, 1617, 1618, 1662, 1657, 1670, 1749, 1700, 1711, 1672, 1681, 123, 124, 125, 1688, 1746] }
spec fn dec(b: u8) -> int { dec_table()[b as int] }
// its inverse: a byte for each code point, -1 where no byte has that code point
spec fn enc(c: int) -> int { if 0 <= c < 128 { c } else if c == 196 { 128 } else if c == 160 { 129 } else if c == 199 { 130 } else if c == 201 { 131 } else if c == 209 { 132 } else if c == 214 { 133 } else if c == 220 { 134 } else if c == 225 { 135 } else if c == 224 { 136 } else if c == 226 { 137 } else if c == 228 { 138 } else if c == 1722 { 139 } else if c == 171 { 140 } else if c == 231 { 141 } else if c == 233 { 142 } else if c == 232 { 143 } else if c == 234 { 144 } else if c == 235 { 145 } else if c == 237 { 146 } else if c == 8230 { 147 } else if c == 238 { 148 } else if c == 239 { 149 } else if c == 241 { 150 } else if c == 243 { 151 } else if c == 187 { 152 } else if c == 244 { 153 } else if c == 246 { 154 } else if c == 247 { 155 } else if c == 250 { 156 } else if c == 249 { 157 } else if c == 251 { 158 } else if c == 252 { 159 } else if c == 1642 { 165 } else if c == 1548 { 172 } else if c == 1632 { 176 } else if c == 1633 { 177 } else if c == 1634 { 178 } else if c == 1635 { 179 } else if c == 1636 { 180 } else if c == 1637 { 181 } else if c == 1638 { 182 } else if c == 1639 { 183 } else if c == 1640 { 184 } else if c == 1641 { 185 } else if c == 1563 { 187 } else if c == 1567 { 191 } else if c == 10058 { 192 } else if c == 1569 { 193 } else if c == 1570 { 194 } else if c == 1571 { 195 } else if c == 1572 { 196 } else if c == 1573 { 197 } else if c == 1574 { 198 } else if c == 1575 { 199 } else if c == 1576 { 200 } else if c == 1577 { 201 } else if c == 1578 { 202 } else if c == 1579 { 203 } else if c == 1580 { 204 } else if c == 1581 { 205 } else if c == 1582 { 206 } else if c == 1583 { 207 } else if c == 1584 { 208 } else if c == 1585 { 209 } else if c == 1586 { 210 } else if c == 1587 { 211 } else if c == 1588 { 212 } else if c == 1589 { 213 } else if c == 1590 { 214 } else if c == 1591 { 215 } else if c == 1592 { 216 } else if c == 1593 { 217 } else if c == 1594 { 218 } else if c == 1600 { 224 } else if c == 1601 { 225 } else if c == 1602 { 226 } else if c == 1603 { 227 } else if c == 1604 { 228 } else if c == 1605 { 229 } else if c == 1606 { 230 } else if c == 1607 { 231 } else if c == 1608 { 232 } else if c == 1609 { 233 } else if c == 1610 { 234 } else if c == 1611 { 235 } else if c == 1612 { 236 } else if c == 1613 { 237 } else if c == 1614 { 238 } else if c == 1615 { 239 } else if c == 1616 { 240 } else if c == 1617 { 241 } else if c == 1618 { 242 } else if c == 1662 { 243 } else if c == 1657 { 244 } else if c == 1670 { 245 } else if c == 1749 { 246 } else if c == 1700 { 247 } else if c == 1711 { 248 } else if c == 1672 { 249 } else if c == 1681 { 250 } else if c == 1688 { 254 } else if c == 1746 { 255 } else { -1 } }
spec fn chk(n: nat) -> bool
    decreases n
{
    n == 0 || (chk((n - 1) as nat) && (dec_table()[n - 1] != -1 ==> enc(dec_table()[n - 1]) != -1))
}
proof fn lemma_chk(n: nat, k: int)
    requires chk(n), 0 <= k < n,
    ensures dec_table()[k] != -1 ==> enc(dec_table()[k]) != -1,
    decreases n
{
    if k < n - 1 { lemma_chk((n - 1) as nat, k); }
}
proof fn lemma_enc(c: int)
    ensures enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
}
// Decoding and encoding are inverse to each other.
proof fn theorem_inverse(k: int, c: int)
    ensures
        0 <= k < 256 ==> (dec_table()[k] != -1 ==> enc(dec_table()[k]) != -1),
        enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
    assert(chk(256)) by (compute_only);
    lemma_enc(c);
    if 0 <= k < 256 { lemma_chk(256, k); }
}
spec fn decoded(b: u8, r: Result<u32, ErrorTrace>) -> bool {
    match r { Ok(c) => dec(b) == c, Err(_) => dec(b) == -1 }
}
// `b` encodes c: one byte, and it decodes to c
spec fn encoded(c: u32, r: Result<Vec<u8>, ErrorTrace>) -> bool {
    match r { Ok(v) => v@.len() == 1 && enc(c as int) != -1 && dec(v@[0]) == c, Err(_) => enc(c as int) == -1 }
}
@@file keramics-encodings/src/mac_arabic.rs
@@item DecoderMacArabic
@@item EncoderMacArabic
@@fn DecoderMacArabic::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn DecoderMacArabic::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && final(self).byte_index == old(self).byte_index + 1
            && decoded(old(self).bytes@[old(self).byte_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.bytes); }
@@fn EncoderMacArabic::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn EncoderMacArabic::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1
            && encoded(old(self).code_points@[old(self).code_point_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.code_points); }
@@endfn
