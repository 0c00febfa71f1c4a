@@# generated by gen_codecs.py
@@include std.vx
@@include codec.vx
@@raw
// reference mapping: code point of each byte, -1 where the encoding assigns none
spec fn dec_table() -> Seq<int> { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 8364, -1, -1, -1, -1, 8230, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 8216, 8217, 8220, 8221, 8226, 8211, 8212, -1, -1, -1, -1, -1, -1, -1, -1, 160, 3585, 3586, 3587, 3588, 3589, 3590, 3591, 3592, 3593, 3594, 3595, 3596, 3597, 3598, 3599, 3600, 3601, 3602, 3603, 3604, 3605, 3606, 3607, 3608, 3609, 3610, 3611, 3612, 3613, 3614, 3615, 3616, 3617, 3618, 3619, 3620, 3621, 3622, 3623, 3624, 3625, 3626, 3627, 3628, 3629, 3630, 3631, 3632, 3633, 3634, 3635, 3636, 3637, 3638, 3639, 3640, 3641, 3642, -1, -1, -1, -1, 3647, 3648, 3649, 3650, 3651, 3652, 3653, 3654, 3655, 3656, 3657, 3658, 3659, 3660, 3661, 3662, 3663, 3664, 3665, 3666, 3667, 3668, 3669, 3670, 3671, 3672, 3673, 3674, 3675, -1, -1, -1, -1] }
spec fn dec(b: u8) -> int { dec_table()[b as int] }
// its inverse: a byte for each code point, -1 where no byte has that code point
spec fn enc(c: int) -> int { if 0 <= c < 128 { c } else if c == 8364 { 128 } else if c == 8230 { 133 } else if c == 8216 { 145 } else if c == 8217 { 146 } else if c == 8220 { 147 } else if c == 8221 { 148 } else if c == 8226 { 149 } else if c == 8211 { 150 } else if c == 8212 { 151 } else if c == 160 { 160 } else if c == 3585 { 161 } else if c == 3586 { 162 } else if c == 3587 { 163 } else if c == 3588 { 164 } else if c == 3589 { 165 } else if c == 3590 { 166 } else if c == 3591 { 167 } else if c == 3592 { 168 } else if c == 3593 { 169 } else if c == 3594 { 170 } else if c == 3595 { 171 } else if c == 3596 { 172 } else if c == 3597 { 173 } else if c == 3598 { 174 } else if c == 3599 { 175 } else if c == 3600 { 176 } else if c == 3601 { 177 } else if c == 3602 { 178 } else if c == 3603 { 179 } else if c == 3604 { 180 } else if c == 3605 { 181 } else if c == 3606 { 182 } else if c == 3607 { 183 } else if c == 3608 { 184 } else if c == 3609 { 185 } else if c == 3610 { 186 } else if c == 3611 { 187 } else if c == 3612 { 188 } else if c == 3613 { 189 } else if c == 3614 { 190 } else if c == 3615 { 191 } else if c == 3616 { 192 } else if c == 3617 { 193 } else if c == 3618 { 194 } else if c == 3619 { 195 } else if c == 3620 { 196 } else if c == 3621 { 197 } else if c == 3622 { 198 } else if c == 3623 { 199 } else if c == 3624 { 200 } else if c == 3625 { 201 } else if c == 3626 { 202 } else if c == 3627 { 203 } else if c == 3628 { 204 } else if c == 3629 { 205 } else if c == 3630 { 206 } else if c == 3631 { 207 } else if c == 3632 { 208 } else if c == 3633 { 209 } else if c == 3634 { 210 } else if c == 3635 { 211 } else if c == 3636 { 212 } else if c == 3637 { 213 } else if c == 3638 { 214 } else if c == 3639 { 215 } else if c == 3640 { 216 } else if c == 3641 { 217 } else if c == 3642 { 218 } else if c == 3647 { 223 } else if c == 3648 { 224 } else if c == 3649 { 225 } else if c == 3650 { 226 } else if c == 3651 { 227 } else if c == 3652 { 228 } else if c == 3653 { 229 } else if c == 3654 { 230 } else if c == 3655 { 231 } else if c == 3656 { 232 } else if c == 3657 { 233 } else if c == 3658 { 234 } else if c == 3659 { 235 } else if c == 3660 { 236 } else if c == 3661 { 237 } else if c == 3662 { 238 } else if c == 3663 { 239 } else if c == 3664 { 240 } else if c == 3665 { 241 } else if c == 3666 { 242 } else if c == 3667 { 243 } else if c == 3668 { 244 } else if c == 3669 { 245 } else if c == 3670 { 246 } else if c == 3671 { 247 } else if c == 3672 { 248 } else if c == 3673 { 249 } else if c == 3674 { 250 } else if c == 3675 { 251 } else { -1 } }
spec fn chk(n: nat) -> bool
    decreases n
{
    n == 0 || (chk((n - 1) as nat) && (dec_table()[n - 1] != -1 ==> enc(dec_table()[n - 1]) == n - 1))
}
proof fn lemma_chk(n: nat, k: int)
    requires chk(n), 0 <= k < n,
    ensures dec_table()[k] != -1 ==> enc(dec_table()[k]) == k,
    decreases n
{
    if k < n - 1 { lemma_chk((n - 1) as nat, k); }
}
proof fn lemma_enc(c: int)
    ensures enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
}
// Decoding and encoding are inverse to each other.
proof fn theorem_inverse(k: int, c: int)
    ensures
        0 <= k < 256 ==> (dec_table()[k] != -1 ==> enc(dec_table()[k]) == k),
        enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
    assert(chk(256)) by (compute_only);
    lemma_enc(c);
    if 0 <= k < 256 { lemma_chk(256, k); }
}
spec fn decoded(b: u8, r: Result<u32, ErrorTrace>) -> bool {
    match r { Ok(c) => dec(b) == c, Err(_) => dec(b) == -1 }
}
// `b` encodes c: one byte, and it decodes to c
spec fn encoded(c: u32, r: Result<Vec<u8>, ErrorTrace>) -> bool {
    match r { Ok(v) => v@.len() == 1 && enc(c as int) != -1 && dec(v@[0]) == c, Err(_) => enc(c as int) == -1 }
}
@@file keramics-encodings/src/windows874.rs
@@item DecoderWindows874
@@item EncoderWindows874
@@fn DecoderWindows874::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn DecoderWindows874::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && final(self).byte_index == old(self).byte_index + 1
            && decoded(old(self).bytes@[old(self).byte_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.bytes); }
@@fn EncoderWindows874::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn EncoderWindows874::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1
            && encoded(old(self).code_points@[old(self).code_point_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.code_points); }
@@endfn
