@@# generated by gen_codecs.py
@@include std.vx
@@include codec.vx
@@raw
// reference mapping: code point of each byte, -1 where the encoding assigns none
spec fn dec_table() -> Seq<int> { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 8224, 176, 1168, 163, 167, 8226, 182, 1030, 174, 169, 8482, 1026, 1106, 8800, 1027, 1107, 8734, 177, 8804, 8805, 1110, 181, 1169, 1032, 1028, 1108, 1031, 1111, 1033, 1113, 1034, 1114, 1112, 1029, 172, 8730, 402, 8776, 8710, 171, 187, 8230, 160, 1035, 1115, 1036, 1116, 1109, 8211, 8212, 8220, 8221, 8216, 8217, 247, 8222, 1038, 1118, 1039, 1119, 8470, 1025, 1105, 1103, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 8364] }
spec fn dec(b: u8) -> int { dec_table()[b as int] }
// its inverse: a byte for each code point, -1 where no byte has that code point
spec fn enc(c: int) -> int { if 0 <= c < 128 { c } else if c == 1040 { 128 } else if c == 1041 { 129 } else if c == 1042 { 130 } else if c == 1043 { 131 } else if c == 1044 { 132 } else if c == 1045 { 133 } else if c == 1046 { 134 } else if c == 1047 { 135 } else if c == 1048 { 136 } else if c == 1049 { 137 } else if c == 1050 { 138 } else if c == 1051 { 139 } else if c == 1052 { 140 } else if c == 1053 { 141 } else if c == 1054 { 142 } else if c == 1055 { 143 } else if c == 1056 { 144 } else if c == 1057 { 145 } else if c == 1058 { 146 } else if c == 1059 { 147 } else if c == 1060 { 148 } else if c == 1061 { 149 } else if c == 1062 { 150 } else if c == 1063 { 151 } else if c == 1064 { 152 } else if c == 1065 { 153 } else if c == 1066 { 154 } else if c == 1067 { 155 } else if c == 1068 { 156 } else if c == 1069 { 157 } else if c == 1070 { 158 } else if c == 1071 { 159 } else if c == 8224 { 160 } else if c == 176 { 161 } else if c == 1168 { 162 } else if c == 163 { 163 } else if c == 167 { 164 } else if c == 8226 { 165 } else if c == 182 { 166 } else if c == 1030 { 167 } else if c == 174 { 168 } else if c == 169 { 169 } else if c == 8482 { 170 } else if c == 1026 { 171 } else if c == 1106 { 172 } else if c == 8800 { 173 } else if c == 1027 { 174 } else if c == 1107 { 175 } else if c == 8734 { 176 } else if c == 177 { 177 } else if c == 8804 { 178 } else if c == 8805 { 179 } else if c == 1110 { 180 } else if c == 181 { 181 } else if c == 1169 { 182 } else if c == 1032 { 183 } else if c == 1028 { 184 } else if c == 1108 { 185 } else if c == 1031 { 186 } else if c == 1111 { 187 } else if c == 1033 { 188 } else if c == 1113 { 189 } else if c == 1034 { 190 } else if c == 1114 { 191 } else if c == 1112 { 192 } else if c == 1029 { 193 } else if c == 172 { 194 } else if c == 8730 { 195 } else if c == 402 { 196 } else if c == 8776 { 197 } else if c == 8710 { 198 } else if c == 171 { 199 } else if c == 187 { 200 } else if c == 8230 { 201 } else if c == 160 { 202 } else if c == 1035 { 203 } else if c == 1115 { 204 } else if c == 1036 { 205 } else if c == 1116 { 206 } else if c == 1109 { 207 } else if c == 8211 { 208 } else if c == 8212 { 209 } else if c == 8220 { 210 } else if c == 8221 { 211 } else if c == 8216 { 212 } else if c == 8217 { 213 } else if c == 247 { 214 } else if c == 8222 { 215 } else if c == 1038 { 216 } else if c == 1118 { 217 } else if c == 1039 { 218 } else if c == 1119 { 219 } else if c == 8470 { 220 } else if c == 1025 { 221 } else if c == 1105 { 222 } else if c == 1103 { 223 } else if c == 1072 { 224 } else if c == 1073 { 225 } else if c == 1074 { 226 } else if c == 1075 { 227 } else if c == 1076 { 228 } else if c == 1077 { 229 } else if c == 1078 { 230 } else if c == 1079 { 231 } else if c == 1080 { 232 } else if c == 1081 { 233 } else if c == 1082 { 234 } else if c == 1083 { 235 } else if c == 1084 { 236 } else if c == 1085 { 237 } else if c == 1086 { 238 } else if c == 1087 { 239 } else if c == 1088 { 240 } else if c == 1089 { 241 } else if c == 1090 { 242 } else if c == 1091 { 243 } else if c == 1092 { 244 } else if c == 1093 { 245 } else if c == 1094 { 246 } else if c == 1095 { 247 } else if c == 1096 { 248 } else if c == 1097 { 249 } else if c == 1098 { 250 } else if c == 1099 { 251 } else if c == 1100 { 252 } else if c == 1101 { 253 } else if c == 1102 { 254 } else if c == 8364 { 255 } else { -1 } }
spec fn chk(n: nat) -> bool
    decreases n
{
    n == 0 || (chk((n - 1) as nat) && (dec_table()[n - 1] != -1 ==> enc(dec_table()[n - 1]) == n - 1))
}
proof fn lemma_chk(n: nat, k: int)
    requires chk(n), 0 <= k < n,
    ensures dec_table()[k] != -1 ==> enc(dec_table()[k]) == k,
    decreases n
{
    if k < n - 1 { lemma_chk((n - 1) as nat, k); }
}
proof fn lemma_enc(c: int)
    ensures enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
}
// Decoding and encoding are inverse to each other.
proof fn theorem_inverse(k: int, c: int)
    ensures
        0 <= k < 256 ==> (dec_table()[k] != -1 ==> enc(dec_table()[k]) == k),
        enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
    assert(chk(256)) by (compute_only);
    lemma_enc(c);
    if 0 <= k < 256 { lemma_chk(256, k); }
}
spec fn decoded(b: u8, r: Result<u32, ErrorTrace>) -> bool {
    match r { Ok(c) => dec(b) == c, Err(_) => dec(b) == -1 }
}
// `b` encodes c: one byte, and it decodes to c
spec fn encoded(c: u32, r: Result<Vec<u8>, ErrorTrace>) -> bool {
    match r { Ok(v) => v@.len() == 1 && enc(c as int) != -1 && dec(v@[0]) == c, Err(_) => enc(c as int) == -1 }
}
@@file keramics-encodings/src/mac_cyrillic.rs
@@item DecoderMacCyrillic
@@item EncoderMacCyrillic
@@fn DecoderMacCyrillic::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn DecoderMacCyrillic::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && final(self).byte_index == old(self).byte_index + 1
            && decoded(old(self).bytes@[old(self).byte_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.bytes); }
@@fn EncoderMacCyrillic::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn EncoderMacCyrillic::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1
            && encoded(old(self).code_points@[old(self).code_point_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.code_points); }
@@endfn
