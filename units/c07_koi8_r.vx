@@# generated by gen_codecs.py
@@include std.vx
@@include codec.vx
@@raw
// reference mapping: code point of each byte, -1 where the encoding assigns none
spec fn dec_table() -> Seq<int> { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 9472, 9474, 9484, 9488, 9492, 9496, 9500, 9508, 9516, 9524, 9532, 9600, 9604, 9608, 9612, 9616, 9617, 9618, 9619, 8992, 9632, 8729, 8730, 8776, 8804, 8805, 160, 8993, 176, 178, 183, 247, 9552, 9553, 9554, 1105, 9555, 9556, 9557, 9558, 9559, 9560, 9561, 9562, 9563, 9564, 9565, 9566, 9567, 9568, 9569, 1025, 9570, 9571, 9572, 9573, 9574, 9575, 9576, 9577, 9578, 9579, 9580, 169, 1102, 1072, 1073, 1094, 1076, 1077, 1092, 1075, 1093, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1103, 1088, 1089, 1090, 1091, 1078, 1074, 1100, 1099, 1079, 1096, 1101, 1097, 1095, 1098, 1070, 1040, 1041, 1062, 1044, 1045, 1060, 1043, 1061, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1071, 1056, 1057, 1058, 1059, 1046, 1042, 1068, 1067, 1047, 1064, 1069, 1065, 1063, 1066] }
spec fn dec(b: u8) -> int { dec_table()[b as int] }
// its inverse: a byte for each code point, -1 where no byte has that code point
spec fn enc(c: int) -> int { if 0 <= c < 128 { c } else if c == 9472 { 128 } else if c == 9474 { 129 } else if c == 9484 { 130 } else if c == 9488 { 131 } else if c == 9492 { 132 } else if c == 9496 { 133 } else if c == 9500 { 134 } else if c == 9508 { 135 } else if c == 9516 { 136 } else if c == 9524 { 137 } else if c == 9532 { 138 } else if c == 9600 { 139 } else if c == 9604 { 140 } else if c == 9608 { 141 } else if c == 9612 { 142 } else if c == 9616 { 143 } else if c == 9617 { 144 } else if c == 9618 { 145 } else if c == 9619 { 146 } else if c == 8992 { 147 } else if c == 9632 { 148 } else if c == 8729 { 149 } else if c == 8730 { 150 } else if c == 8776 { 151 } else if c == 8804 { 152 } else if c == 8805 { 153 } else if c == 160 { 154 } else if c == 8993 { 155 } else if c == 176 { 156 } else if c == 178 { 157 } else if c == 183 { 158 } else if c == 247 { 159 } else if c == 9552 { 160 } else if c == 9553 { 161 } else if c == 9554 { 162 } else if c == 1105 { 163 } else if c == 9555 { 164 } else if c == 9556 { 165 } else if c == 9557 { 166 } else if c == 9558 { 167 } else if c == 9559 { 168 } else if c == 9560 { 169 } else if c == 9561 { 170 } else if c == 9562 { 171 } else if c == 9563 { 172 } else if c == 9564 { 173 } else if c == 9565 { 174 } else if c == 9566 { 175 } else if c == 9567 { 176 } else if c == 9568 { 177 } else if c == 9569 { 178 } else if c == 1025 { 179 } else if c == 9570 { 180 } else if c == 9571 { 181 } else if c == 9572 { 182 } else if c == 9573 { 183 } else if c == 9574 { 184 } else if c == 9575 { 185 } else if c == 9576 { 186 } else if c == 9577 { 187 } else if c == 9578 { 188 } else if c == 9579 { 189 } else if c == 9580 { 190 } else if c == 169 { 191 } else if c == 1102 { 192 } else if c == 1072 { 193 } else if c == 1073 { 194 } else if c == 1094 { 195 } else if c == 1076 { 196 } else if c == 1077 { 197 } else if c == 1092 { 198 } else if c == 1075 { 199 } else if c == 1093 { 200 } else if c == 1080 { 201 } else if c == 1081 { 202 } else if c == 1082 { 203 } else if c == 1083 { 204 } else if c == 1084 { 205 } else if c == 1085 { 206 } else if c == 1086 { 207 } else if c == 1087 { 208 } else if c == 1103 { 209 } else if c == 1088 { 210 } else if c == 1089 { 211 } else if c == 1090 { 212 } else if c == 1091 { 213 } else if c == 1078 { 214 } else if c == 1074 { 215 } else if c == 1100 { 216 } else if c == 1099 { 217 } else if c == 1079 { 218 } else if c == 1096 { 219 } else if c == 1101 { 220 } else if c == 1097 { 221 } else if c == 1095 { 222 } else if c == 1098 { 223 } else if c == 1070 { 224 } else if c == 1040 { 225 } else if c == 1041 { 226 } else if c == 1062 { 227 } else if c == 1044 { 228 } else if c == 1045 { 229 } else if c == 1060 { 230 } else if c == 1043 { 231 } else if c == 1061 { 232 } else if c == 1048 { 233 } else if c == 1049 { 234 } else if c == 1050 { 235 } else if c == 1051 { 236 } else if c == 1052 { 237 } else if c == 1053 { 238 } else if c == 1054 { 239 } else if c == 1055 { 240 } else if c == 1071 { 241 } else if c == 1056 { 242 } else if c == 1057 { 243 } else if c == 1058 { 244 } else if c == 1059 { 245 } else if c == 1046 { 246 } else if c == 1042 { 247 } else if c == 1068 { 248 } else if c == 1067 { 249 } else if c == 1047 { 250 } else if c == 1064 { 251 } else if c == 1069 { 252 } else if c == 1065 { 253 } else if c == 1063 { 254 } else if c == 1066 { 255 } else { -1 } }
spec fn chk(n: nat) -> bool
    decreases n
{
    n == 0 || (chk((n - 1) as nat) && (dec_table()[n - 1] != -1 ==> enc(dec_table()[n - 1]) == n - 1))
}
proof fn lemma_chk(n: nat, k: int)
    requires chk(n), 0 <= k < n,
    ensures dec_table()[k] != -1 ==> enc(dec_table()[k]) == k,
    decreases n
{
    if k < n - 1 { lemma_chk((n - 1) as nat, k); }
}
proof fn lemma_enc(c: int)
    ensures enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
}
// Decoding and encoding are inverse to each other.
proof fn theorem_inverse(k: int, c: int)
    ensures
        0 <= k < 256 ==> (dec_table()[k] != -1 ==> enc(dec_table()[k]) == k),
        enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
    assert(chk(256)) by (compute_only);
    lemma_enc(c);
    if 0 <= k < 256 { lemma_chk(256, k); }
}
spec fn decoded(b: u8, r: Result<u32, ErrorTrace>) -> bool {
    match r { Ok(c) => dec(b) == c, Err(_) => dec(b) == -1 }
}
// `b` encodes c: one byte, and it decodes to c
spec fn encoded(c: u32, r: Result<Vec<u8>, ErrorTrace>) -> bool {
    match r { Ok(v) => v@.len() == 1 && enc(c as int) != -1 && dec(v@[0]) == c, Err(_) => enc(c as int) == -1 }
}
@@file keramics-encodings/src/koi8_r.rs
@@item DecoderKoi8R
@@item EncoderKoi8R
@@fn DecoderKoi8R::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn DecoderKoi8R::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && final(self).byte_index == old(self).byte_index + 1
            && decoded(old(self).bytes@[old(self).byte_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.bytes); }
@@fn EncoderKoi8R::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn EncoderKoi8R::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1
            && encoded(old(self).code_points@[old(self).code_point_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.code_points); }
@@endfn
