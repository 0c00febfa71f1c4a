@@# generated by gen_codecs.py
@@include std.vx
@@include codec.vx
@@raw
// reference mapping: code point of each byte, -1 where the encoding assigns none
spec fn dec_table() -> Seq<int> { seq![0int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 8364, -1, 8218, 402, 8222, 8230, 8224, 8225, -1, 8240, -1, 8249, -1, -1, -1, -1, -1, 8216, 8217, 8220, 8221, 8226, 8211, 8212, -1, 8482, -1, 8250, -1, -1, -1, -1, 160, 901, 902, 163, 164, 165, 166, 167, 168, 169, -1, 171, 172, 173, 174, 8213, 176, 177, 178, 179, 900, 181, 182, 183, 904, 905, 906, 187, 908, 189, 910, 911, 912, 913, 914, 915, 916, 917, 918, 919, 920, 921, 922, 923, 924, 925, 926, 927, 928, 929, -1, 931, 932, 933, 934, 935, 936, 937, 938, 939, 940, 941, 942, 943, 944, 945, 946, 947, 948, 949, 950, 951, 952, 953, 954, 955, 956, 957, 958, 959, 960, 961, 962, 963, 964, 965, 966, 967, 968, 969, 970, 971, 972, 973, 974, -1] }
spec fn dec(b: u8) -> int { dec_table()[b as int] }
// its inverse: a byte for each code point, -1 where no byte has that code point
spec fn enc(c: int) -> int { if 0 <= c < 128 { c } else if c == 8364 { 128 } else if c == 8218 { 130 } else if c == 402 { 131 } else if c == 8222 { 132 } else if c == 8230 { 133 } else if c == 8224 { 134 } else if c == 8225 { 135 } else if c == 8240 { 137 } else if c == 8249 { 139 } else if c == 8216 { 145 } else if c == 8217 { 146 } else if c == 8220 { 147 } else if c == 8221 { 148 } else if c == 8226 { 149 } else if c == 8211 { 150 } else if c == 8212 { 151 } else if c == 8482 { 153 } else if c == 8250 { 155 } else if c == 160 { 160 } else if c == 901 { 161 } else if c == 902 { 162 } else if c == 163 { 163 } else if c == 164 { 164 } else if c == 165 { 165 } else if c == 166 { 166 } else if c == 167 { 167 } else if c == 168 { 168 } else if c == 169 { 169 } else if c == 171 { 171 } else if c == 172 { 172 } else if c == 173 { 173 } else if c == 174 { 174 } else if c == 8213 { 175 } else if c == 176 { 176 } else if c == 177 { 177 } else if c == 178 { 178 } else if c == 179 { 179 } else if c == 900 { 180 } else if c == 181 { 181 } else if c == 182 { 182 } else if c == 183 { 183 } else if c == 904 { 184 } else if c == 905 { 185 } else if c == 906 { 186 } else if c == 187 { 187 } else if c == 908 { 188 } else if c == 189 { 189 } else if c == 910 { 190 } else if c == 911 { 191 } else if c == 912 { 192 } else if c == 913 { 193 } else if c == 914 { 194 } else if c == 915 { 195 } else if c == 916 { 196 } else if c == 917 { 197 } else if c == 918 { 198 } else if c == 919 { 199 } else if c == 920 { 200 } else if c == 921 { 201 } else if c == 922 { 202 } else if c == 923 { 203 } else if c == 924 { 204 } else if c == 925 { 205 } else if c == 926 { 206 } else if c == 927 { 207 } else if c == 928 { 208 } else if c == 929 { 209 } else if c == 931 { 211 } else if c == 932 { 212 } else if c == 933 { 213 } else if c == 934 { 214 } else if c == 935 { 215 } else if c == 936 { 216 } else if c == 937 { 217 } else if c == 938 { 218 } else if c == 939 { 219 } else if c == 940 { 220 } else if c == 941 { 221 } else if c == 942 { 222 } else if c == 943 { 223 } else if c == 944 { 224 } else if c == 945 { 225 } else if c == 946 { 226 } else if c == 947 { 227 } else if c == 948 { 228 } else if c == 949 { 229 } else if c == 950 { 230 } else if c == 951 { 231 } else if c == 952 { 232 } else if c == 953 { 233 } else if c == 954 { 234 } else if c == 955 { 235 } else if c == 956 { 236 } else if c == 957 { 237 } else if c == 958 { 238 } else if c == 959 { 239 } else if c == 960 { 240 } else if c == 961 { 241 } else if c == 962 { 242 } else if c == 963 { 243 } else if c == 964 { 244 } else if c == 965 { 245 } else if c == 966 { 246 } else if c == 967 { 247 } else if c == 968 { 248 } else if c == 969 { 249 } else if c == 970 { 250 } else if c == 971 { 251 } else if c == 972 { 252 } else if c == 973 { 253 } else if c == 974 { 254 } else { -1 } }
spec fn chk(n: nat) -> bool
    decreases n
{
    n == 0 || (chk((n - 1) as nat) && (dec_table()[n - 1] != -1 ==> enc(dec_table()[n - 1]) == n - 1))
}
proof fn lemma_chk(n: nat, k: int)
    requires chk(n), 0 <= k < n,
    ensures dec_table()[k] != -1 ==> enc(dec_table()[k]) == k,
    decreases n
{
    if k < n - 1 { lemma_chk((n - 1) as nat, k); }
}
proof fn lemma_enc(c: int)
    ensures enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
}
// Decoding and encoding are inverse to each other.
proof fn theorem_inverse(k: int, c: int)
    ensures
        0 <= k < 256 ==> (dec_table()[k] != -1 ==> enc(dec_table()[k]) == k),
        enc(c) != -1 ==> 0 <= enc(c) < 256 && dec_table()[enc(c)] == c,
{
    assert(chk(256)) by (compute_only);
    lemma_enc(c);
    if 0 <= k < 256 { lemma_chk(256, k); }
}
spec fn decoded(b: u8, r: Result<u32, ErrorTrace>) -> bool {
    match r { Ok(c) => dec(b) == c, Err(_) => dec(b) == -1 }
}
// `b` encodes c: one byte, and it decodes to c
spec fn encoded(c: u32, r: Result<Vec<u8>, ErrorTrace>) -> bool {
    match r { Ok(v) => v@.len() == 1 && enc(c as int) != -1 && dec(v@[0]) == c, Err(_) => enc(c as int) == -1 }
}
@@file keramics-encodings/src/windows1253.rs
@@item DecoderWindows1253
@@item EncoderWindows1253
@@fn DecoderWindows1253::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn DecoderWindows1253::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && final(self).byte_index == old(self).byte_index + 1
            && decoded(old(self).bytes@[old(self).byte_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.bytes); }
@@fn EncoderWindows1253::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn EncoderWindows1253::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1
            && encoded(old(self).code_points@[old(self).code_point_index as int], r.unwrap()),
@@at start
proof { kx_slice_bound_t(self.code_points); }
@@endfn
