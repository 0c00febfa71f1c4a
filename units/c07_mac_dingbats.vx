@@# generated by gen_codecs.py
@@include std.vx
@@include codec.vx
@@raw
// reference mapping: code point of each byte, -1 where the encoding assigns none
spec fn dec_table() -> Seq<int> { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 9985, 9986, 9987, 9988, 9742, 9990, 9991, 9992, 9993, 9755, 9758, 9996, 9997, 9998, 9999, 10000, 10001, 10002, 10003, 10004, 10005, 10006, 10007, 10008, 10009, 10010, 10011, 10012, 10013, 10014, 10015, 10016, 10017, 10018, 10019, 10020, 10021, 10022, 10023, 9733, 10025, 10026, 10027, 10028, 10029, 10030, 10031, 10032, 10033, 10034, 10035, 10036, 10037, 10038, 10039, 10040, 10041, 10042, 10043, 10044, 10045, 10046, 10047, 10048, 10049, 10050, 10051, 10052, 10053, 10054, 10055, 10056, 10057, 10058, 10059, 9679, 10061, 9632, 10063, 10064, 10065, 10066, 9650, 9660, 9670, 10070, 9687, 10072, 10073, 10074, 10075, 10076, 10077, 10078, 127, 10088, 10089, 10090, 10091, 10092, 10093, 10094, 10095, 10096, 10097, 10098, 10099, 10100, 10101, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 10081, 10082, 10083, 10084, 10085, 10086, 10087, 9827, 9830, 9829, 9824, 9312, 9313, 9314, 9315, 9316, 9317, 9318, 9319, 9320, 9321, 10102, 10103, 10104, 10105, 10106, 10107, 10108, 10109, 10110, 10111, 10112, 10113, 10114, 10115, 10116, 10117, 10118, 10119, 10120, 10121, 10122, 10123, 10124, 10125, 10126, 10127, 10128, 10129, 10130, 10131, 10132, 8594, 8596, 8597, 10136, 10137, 10138, 10139, 10140, 10141, 10142, 10143, 10144, 10145, 10146, 10147, 10148, 10149, 10150, 10151, 10152, 10153, 10154, 10155, 10156, 10157, 10158, 10159, -1, 10161, 10162, 10163, 10164, 10165, 10166, 10167, 10168, 10169, 10170, 10171, 10172, 10173, 10174, -1] }
spec fn dec(b: u8) -> int { dec_table()[b as int] }
// its inverse: a byte for each code point, -1 where no byte has that code point
spec fn enc(c: int) -> int { if 0 <= c < 33 { c } else if c == 9985 { 33 } else if c == 9986 { 34 } else if c == 9987 { 35 } else if c == 9988 { 36 } else if c == 9742 { 37 } else if c == 9990 { 38 } else if c == 9991 { 39 } else if c == 9992 { 40 } else if c == 9993 { 41 } else if c == 9755 { 42 } else if c == 9758 { 43 } else if c == 9996 { 44 } else if c == 9997 { 45 } else if c == 9998 { 46 } else if c == 9999 { 47 } else if c == 10000 { 48 } else if c == 10001 { 49 } else if c == 10002 { 50 } else if c == 10003 { 51 } else if c == 10004 { 52 } else if c == 10005 { 53 } else if c == 10006 { 54 } else if c == 10007 { 55 } else if c == 10008 { 56 } else if c == 10009 { 57 } else if c == 10010 { 58 } else if c == 10011 { 59 } else if c == 10012 { 60 } else if c == 10013 { 61 } else if c == 10014 { 62 } else if c == 10015 { 63 } else if c == 10016 { 64 } else if c == 10017 { 65 } else if c == 10018 { 66 } else if c == 10019 { 67 } else if c == 10020 { 68 } else if c == 10021 { 69 } else if c == 10022 { 70 } else if c == 10023 { 71 } else if c == 9733 { 72 } else if c == 10025 { 73 } else if c == 10026 { 74 } else if c == 10027 { 75 } else if c == 10028 { 76 } else if c == 10029 { 77 } else if c == 10030 { 78 } else if c == 10031 { 79 } else if c == 10032 { 80 } else if c == 10033 { 81 } else if c == 10034 { 82 } else if c == 10035 { 83 } else if c == 10036 { 84 } else if c == 10037 { 85 } else if c == 10038 { 86 } else if c == 10039 { 87 } else if c == 10040 { 88 } else if c == 10041 { 89 } else if c == 10042 { 90 } else if c == 10043 { 91 } else if c == 10044 { 92 } else if c == 10045 { 93 } else if c == 10046 { 94 } else if c == 10047 { 95 } else if c == 10048 { 96 } else if c == 10049 { 97 } else if c == 10050 { 98 } else if c == 10051 { 99 } else if c == 10052 { 100 } else if c == 10053 { 101 } else if c == 10054 { 102 } else if c == 10055 { 103 } else if c == 10056 { 104 } else if c == 10057 { 105 } else if c == 10058 { 106 } else if c == 10059 { 107 } else if c == 9679 { 108 } else if c == 10061 { 109 } else if c == 9632 { 110 } else if c == 10063 { 111 } else if c == 10064 { 112 } else if c == 10065 { 113 } else if c == 10066 { 114 } else if c == 9650 { 115 } else if c == 9660 { 116 } else if c == 9670 { 117 } else if c == 10070 { 118 } else if c == 9687 { 119 } else if c == 10072 { 120 } else if c == 10073 { 121 } else if c == 10074 { 122 } else if c == 10075 { 123 } else if c == 10076 { 124 } else if c == 10077 { 125 } else if c == 10078 { 126 } else if c == 127 { 127 } else if c == 10088 { 128 } else if c == 10089 { 129 } else if c == 10090 { 130 } else if c == 10091 { 131 } else if c == 10092 { 132 } else if c == 10093 { 133 } else if c == 10094 { 134 } else if c == 10095 { 135 } else if c == 10096 { 136 } else if c == 10097 { 137 } else if c == 10098 { 138 } else if c == 10099 { 139 } else if c == 10100 { 140 } else if c == 10101 { 141 } else if c == 10081 { 161 } else if c == 10082 { 162 } else if c == 10083 { 163 } else if c == 10084 { 164 } else if c == 10085 { 165 } else if c == 10086 { 166 } else if c == 10087 { 167 } else if c == 9827 { 168 } else if c == 9830 { 169 } else if c == 9829 { 170 } else if c == 9824 { 171 } else if c == 9312 { 172 } else if c == 9313 { 173 } else if c == 9314 { 174 } else if c == 9315 { 175 } else if c == 9316 { 176 } else if c == 9317 { 177 } else if c == 9318 { 178 } else if c == 9319 { 179 } else if c == 9320 { 180 } else if c == 9321 { 181 } else if c == 10102 { 182 } else if c == 10103 { 183 } else if c == 10104 { 184 } else if c == 10105 { 185 } else if c == 10106 { 186 } else if c == 10107 { 187 } else if c == 10108 { 188 } else if c == 10109 { 189 } else if c == 10110 { 190 } else if c == 10111 { 191 } else if c == 10112 { 192 } else if c == 10113 { 193 } else if c == 10114 { 194 } else if c == 10115 { 195 } else if c == 10116 { 196 } else if c == 10117 { 197 } else if c == 10118 { 198 } else if c == 10119 { 199 } else if c == 10120 { 200 } else if c == 10121 { 201 } else if c == 10122 { 202 } else if c == 10123 { 203 } else if c == 10124 { 204 } else if c == 10125 { 205 } else if c == 10126 { 206 } else if c == 10127 { 207 } else if c == 10128 { 208 } else if c == 10129 { 209 } else if c == 10130 { 210 } else if c == 10131 { 211 } else if c == 10132 { 212 } else if c == 8594 { 213 } else if c == 8596 { 214 } else if c == 8597 { 215 } else if c == 10136 { 216 } else if c == 10137 { 217 } else if c == 10138 { 218 } else if c == 10139 { 219 } else if c == 10140 { 220 } else if c == 10141 { 221 } else if c == 10142 { 222 } else if c == 10143 { 223 } else if c == 10144 { 224 } else if c == 10145 { 225 } else if c == 10146 { 226 } else if c == 10147 { 227 } else if c == 10148 { 228 } else if c == 10149 { 229 } else if c == 10150 { 230 } else if c == 10151 { 231 } else if c == 10152 { 232 } else if c == 10153 { 233 } else if c == 10154 { 234 } else if c == 10155 { 235 } else if c == 10156 { 236 } else if c == 10157 { 237 } else if c == 10158 { 238 } else if c == 10159 { 239 } else if c == 10161 { 241 } else if c == 10162 { 242 } else if c == 10163 { 243 } else if c == 10164 { 244 } else if c == 10165 { 245 } else if c == 10166 { 246 } else if c == 10167 { 247 } else if c == 10168 { 248 } else if c == 10169 { 249 } else if c == 10170 { 250 } else if c == 10171 { 251 } else if c == 10172 { 252 } else if c == 10173 { 253 } else if c == 10174 { 254 } else { -1 } }
spec fn chk(n: nat) -> bool
    decreases n
{
    n == 0 || (chk((n - 1) as nat) && (dec_table()[n - 1] != -1 ==> enc(dec_table()[n - 1]) == n - 1))
}
proof fn lemma_chk(n: nat, k: int)
    requires chk(n), 0 <= k < n,
    ensures dec_table()[k] != -1 ==> enc(dec_table()[k]) == k,
    decreases n
{
    if k < n - 1 { lemma_chk((n - 1) as nat, k); }
}
proof fn lemma_enc(c: int)
    ensures enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
}
// Decoding and encoding are inverse to each other.
proof fn theorem_inverse(k: int, c: int)
    ensures
        0 <= k < 256 ==> (dec_table()[k] != -1 ==> enc(dec_table()[k]) == k),
        enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
    assert(chk(256)) by (compute_only);
    lemma_enc(c);
    if 0 <= k < 256 { lemma_chk(256, k); }
}
spec fn decoded(b: u8, r: Result<u32, ErrorTrace>) -> bool {
    match r { Ok(c) => dec(b) == c, Err(_) => dec(b) == -1 }
}
// `b` encodes c: one byte, and it decodes to c
spec fn encoded(c: u32, r: Result<Vec<u8>, ErrorTrace>) -> bool {
    match r { Ok(v) => v@.len() == 1 && enc(c as int) != -1 && dec(v@[0]) == c, Err(_) => enc(c as int) == -1 }
}
@@file keramics-encodings/src/mac_dingbats.rs
@@item DecoderMacDingbats
@@item EncoderMacDingbats
@@fn DecoderMacDingbats::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn DecoderMacDingbats::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && final(self).byte_index == old(self).byte_index + 1
            && decoded(old(self).bytes@[old(self).byte_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.bytes); }
@@fn EncoderMacDingbats::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn EncoderMacDingbats::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1
            && encoded(old(self).code_points@[old(self).code_point_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.code_points); }
@@endfn
