@@# generated by gen_codecs.py
@@include std.vx
@@include codec.vx
@@raw
// reference mapping: code point of each byte, -1 where the encoding assigns none
spec fn dec_table() -> Seq<int> { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 1026, 1027, 8218, 1107, 8222, 8230, 8224, 8225, 8364, 8240, 1033, 8249, 1034, 1036, 1035, 1039, 1106, 8216, 8217, 8220, 8221, 8226, 8211, 8212, -1, 8482, 1113, 8250, 1114, 1116, 1115, 1119, 160, 1038, 1118, 1032, 164, 1168, 166, 167, 1025, 169, 1028, 171, 172, 173, 174, 1031, 176, 177, 1030, 1110, 1169, 181, 182, 183, 1105, 8470, 1108, 187, 1112, 1029, 1109, 1111, 1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103] }
spec fn dec(b: u8) -> int { dec_table()[b as int] }
// its inverse: a byte for each code point, -1 where no byte has that code point
spec fn enc(c: int) -> int { if 0 <= c < 128 { c } else if c == 1026 { 128 } else if c == 1027 { 129 } else if c == 8218 { 130 } else if c == 1107 { 131 } else if c == 8222 { 132 } else if c == 8230 { 133 } else if c == 8224 { 134 } else if c == 8225 { 135 } else if c == 8364 { 136 } else if c == 8240 { 137 } else if c == 1033 { 138 } else if c == 8249 { 139 } else if c == 1034 { 140 } else if c == 1036 { 141 } else if c == 1035 { 142 } else if c == 1039 { 143 } else if c == 1106 { 144 } else if c == 8216 { 145 } else if c == 8217 { 146 } else if c == 8220 { 147 } else if c == 8221 { 148 } else if c == 8226 { 149 } else if c == 8211 { 150 } else if c == 8212 { 151 } else if c == 8482 { 153 } else if c == 1113 { 154 } else if c == 8250 { 155 } else if c == 1114 { 156 } else if c == 1116 { 157 } else if c == 1115 { 158 } else if c == 1119 { 159 } else if c == 160 { 160 } else if c == 1038 { 161 } else if c == 1118 { 162 } else if c == 1032 { 163 } else if c == 164 { 164 } else if c == 1168 { 165 } else if c == 166 { 166 } else if c == 167 { 167 } else if c == 1025 { 168 } else if c == 169 { 169 } else if c == 1028 { 170 } else if c == 171 { 171 } else if c == 172 { 172 } else if c == 173 { 173 } else if c == 174 { 174 } else if c == 1031 { 175 } else if c == 176 { 176 } else if c == 177 { 177 } else if c == 1030 { 178 } else if c == 1110 { 179 } else if c == 1169 { 180 } else if c == 181 { 181 } else if c == 182 { 182 } else if c == 183 { 183 } else if c == 1105 { 184 } else if c == 8470 { 185 } else if c == 1108 { 186 } else if c == 187 { 187 } else if c == 1112 { 188 } else if c == 1029 { 189 } else if c == 1109 { 190 } else if c == 1111 { 191 } else if c == 1040 { 192 } else if c == 1041 { 193 } else if c == 1042 { 194 } else if c == 1043 { 195 } else if c == 1044 { 196 } else if c == 1045 { 197 } else if c == 1046 { 198 } else if c == 1047 { 199 } else if c == 1048 { 200 } else if c == 1049 { 201 } else if c == 1050 { 202 } else if c == 1051 { 203 } else if c == 1052 { 204 } else if c == 1053 { 205 } else if c == 1054 { 206 } else if c == 1055 { 207 } else if c == 1056 { 208 } else if c == 1057 { 209 } else if c == 1058 { 210 } else if c == 1059 { 211 } else if c == 1060 { 212 } else if c == 1061 { 213 } else if c == 1062 { 214 } else if c == 1063 { 215 } else if c == 1064 { 216 } else if c == 1065 { 217 } else if c == 1066 { 218 } else if c == 1067 { 219 } else if c == 1068 { 220 } else if c == 1069 { 221 } else if c == 1070 { 222 } else if c == 1071 { 223 } else if c == 1072 { 224 } else if c == 1073 { 225 } else if c == 1074 { 226 } else if c == 1075 { 227 } else if c == 1076 { 228 } else if c == 1077 { 229 } else if c == 1078 { 230 } else if c == 1079 { 231 } else if c == 1080 { 232 } else if c == 1081 { 233 } else if c == 1082 { 234 } else if c == 1083 { 235 } else if c == 1084 { 236 } else if c == 1085 { 237 } else if c == 1086 { 238 } else if c == 1087 { 239 } else if c == 1088 { 240 } else if c == 1089 { 241 } else if c == 1090 { 242 } else if c == 1091 { 243 } else if c == 1092 { 244 } else if c == 1093 { 245 } else if c == 1094 { 246 } else if c == 1095 { 247 } else if c == 1096 { 248 } else if c == 1097 { 249 } else if c == 1098 { 250 } else if c == 1099 { 251 } else if c == 1100 { 252 } else if c == 1101 { 253 } else if c == 1102 { 254 } else if c == 1103 { 255 } else { -1 } }
spec fn chk(n: nat) -> bool
    decreases n
{
    n == 0 || (chk((n - 1) as nat) && (dec_table()[n - 1] != -1 ==> enc(dec_table()[n - 1]) == n - 1))
}
proof fn lemma_chk(n: nat, k: int)
    requires chk(n), 0 <= k < n,
    ensures dec_table()[k] != -1 ==> enc(dec_table()[k]) == k,
    decreases n
{
    if k < n - 1 { lemma_chk((n - 1) as nat, k); }
}
proof fn lemma_enc(c: int)
    ensures enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
}
// Decoding and encoding are inverse to each other.
proof fn theorem_inverse(k: int, c: int)
    ensures
        0 <= k < 256 ==> (dec_table()[k] != -1 ==> enc(dec_table()[k]) == k),
        enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
    assert(chk(256)) by (compute_only);
    lemma_enc(c);
    if 0 <= k < 256 { lemma_chk(256, k); }
}
spec fn decoded(b: u8, r: Result<u32, ErrorTrace>) -> bool {
    match r { Ok(c) => dec(b) == c, Err(_) => dec(b) == -1 }
}
// `b` encodes c: one byte, and it decodes to c
spec fn encoded(c: u32, r: Result<Vec<u8>, ErrorTrace>) -> bool {
    match r { Ok(v) => v@.len() == 1 && enc(c as int) != -1 && dec(v@[0]) == c, Err(_) => enc(c as int) == -1 }
}
@@file keramics-encodings/src/windows1251.rs
@@item DecoderWindows1251
@@item EncoderWindows1251
@@fn DecoderWindows1251::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn DecoderWindows1251::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && final(self).byte_index == old(self).byte_index + 1
            && decoded(old(self).bytes@[old(self).byte_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.bytes); }
@@fn EncoderWindows1251::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn EncoderWindows1251::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1
            && encoded(old(self).code_points@[old(self).code_point_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.code_points); }
@@endfn
