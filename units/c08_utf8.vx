@@include std.vx
@@include codec.vx
@@raw
// RFC 3629.  A Unicode scalar value and its UTF-8 encoding (section 3).
spec fn scalar(c: int) -> bool { 0 <= c < 0xd800 || 0xe000 <= c <= 0x10ffff }
spec fn utf8(c: int) -> Seq<u8> {
    if c < 0x80 { seq![c as u8] }
    else if c < 0x800 { seq![(0xc0 + c / 64) as u8, (0x80 + c % 64) as u8] }
    else if c < 0x10000 { seq![(0xe0 + c / 4096) as u8, (0x80 + (c / 64) % 64) as u8, (0x80 + c % 64) as u8] }
    else { seq![(0xf0 + c / 262144) as u8, (0x80 + (c / 4096) % 64) as u8, (0x80 + (c / 64) % 64) as u8, (0x80 + c % 64) as u8] }
}
spec fn starts(s: Seq<u8>, p: Seq<u8>) -> bool {
    &&& p.len() <= s.len()
    &&& p.len() >= 1 ==> s[0] == p[0]
    &&& p.len() >= 2 ==> s[1] == p[1]
    &&& p.len() >= 3 ==> s[2] == p[2]
    &&& p.len() >= 4 ==> s[3] == p[3]
}
// The well-formed byte sequences (section 4, syntax of UTF-8 byte sequences).
spec fn tail(b: u8) -> bool { 0x80 <= b <= 0xbf }
spec fn wf_len(s: Seq<u8>) -> int {
    if s.len() >= 1 && s[0] <= 0x7f { 1 }
    else if s.len() >= 2 && 0xc2 <= s[0] <= 0xdf && tail(s[1]) { 2 }
    else if s.len() >= 3 && s[0] == 0xe0 && 0xa0 <= s[1] <= 0xbf && tail(s[2]) { 3 }
    else if s.len() >= 3 && (0xe1 <= s[0] <= 0xec || 0xee <= s[0] <= 0xef) && tail(s[1]) && tail(s[2]) { 3 }
    else if s.len() >= 3 && s[0] == 0xed && 0x80 <= s[1] <= 0x9f && tail(s[2]) { 3 }
    else if s.len() >= 4 && s[0] == 0xf0 && 0x90 <= s[1] <= 0xbf && tail(s[2]) && tail(s[3]) { 4 }
    else if s.len() >= 4 && 0xf1 <= s[0] <= 0xf3 && tail(s[1]) && tail(s[2]) && tail(s[3]) { 4 }
    else if s.len() >= 4 && s[0] == 0xf4 && 0x80 <= s[1] <= 0x8f && tail(s[2]) && tail(s[3]) { 4 }
    else { 0 }
}
spec fn value(s: Seq<u8>) -> int {
    if wf_len(s) == 1 { s[0] as int }
    else if wf_len(s) == 2 { (s[0] - 0xc0) * 64 + (s[1] - 0x80) }
    else if wf_len(s) == 3 { (s[0] - 0xe0) * 4096 + (s[1] - 0x80) * 64 + (s[2] - 0x80) }
    else { (s[0] - 0xf0) * 262144 + (s[1] - 0x80) * 4096 + (s[2] - 0x80) * 64 + (s[3] - 0x80) }
}
// The syntax accepts exactly the encodings of scalar values.
proof fn theorem_syntax(s: Seq<u8>, c: int)
    ensures
        wf_len(s) > 0 ==> scalar(value(s)) && starts(s, utf8(value(s))) && utf8(value(s)).len() == wf_len(s),
        scalar(c) && starts(s, utf8(c)) ==> wf_len(s) == utf8(c).len() && value(s) == c,
{
    if wf_len(s) > 0 {
        let v = value(s);
        let (a, b, d, e) = (s[0] as int, s[1] as int, s[2] as int, s[3] as int);
        if wf_len(s) == 2 {
            assert(v / 64 == a - 0xc0 && v % 64 == b - 0x80);
        } else if wf_len(s) == 3 {
            let w = (a - 0xe0) * 64 + (b - 0x80);
            assert(v == w * 64 + (d - 0x80));
            assert(v / 64 == w && v % 64 == d - 0x80);
            assert(w / 64 == a - 0xe0 && w % 64 == b - 0x80);
            assert(v / 4096 == w / 64);
        } else if wf_len(s) == 4 {
            let w = (a - 0xf0) * 4096 + (b - 0x80) * 64 + (d - 0x80);
            let x = (a - 0xf0) * 64 + (b - 0x80);
            assert(v == w * 64 + (e - 0x80));
            assert(w == x * 64 + (d - 0x80));
            assert(v / 64 == w && v % 64 == e - 0x80);
            assert(w / 64 == x && w % 64 == d - 0x80);
            assert(x / 64 == a - 0xf0 && x % 64 == b - 0x80);
            assert(v / 4096 == w / 64);
            assert(v / 262144 == x / 64);
        }
    }
    if scalar(c) && starts(s, utf8(c)) {
        if c < 0x80 {
        } else if c < 0x800 {
            assert(c / 64 * 64 + c % 64 == c && 2 <= c / 64 < 32);
        } else if c < 0x10000 {
            let w = c / 64;
            assert(c == w * 64 + c % 64 && w == w / 64 * 64 + w % 64 && c / 4096 == w / 64);
            assert(c / 4096 < 16);
            assert(c / 4096 == 0 ==> w % 64 >= 32);
            assert(c / 4096 == 13 ==> (c < 0xd800 ==> w % 64 < 32));
            assert(c / 4096 == 13 ==> c < 0xe000);
        } else {
            let w = c / 64;
            let x = w / 64;
            assert(c == w * 64 + c % 64 && w == x * 64 + w % 64 && x == x / 64 * 64 + x % 64);
            assert(c / 4096 == x && c / 262144 == x / 64);
            assert(x >= 16 && x <= 0x10f);
            assert(x / 64 <= 4);
        }
    }
}
proof fn lemma_bits(a: u8, b: u8, c: u8, d: u8)
    ensures
        0xc2 <= a <= 0xdf && tail(b) ==> ((((a & 0x1f) as u32) << 6) | ((b & 0x3f) as u32)) == (a - 0xc0) * 64 + (b - 0x80),
        0xe0 <= a <= 0xef && tail(b) && tail(c) ==> ((((a & 0x0f) as u32) << 12) | (((b & 0x3f) as u32) << 6) | ((c & 0x3f) as u32))
            == (a - 0xe0) * 4096 + (b - 0x80) * 64 + (c - 0x80),
        0xf0 <= a <= 0xf4 && tail(b) && tail(c) && tail(d) ==>
            ((((a & 0x07) as u32) << 18) | (((b & 0x3f) as u32) << 12) | (((c & 0x3f) as u32) << 6) | ((d & 0x3f) as u32))
            == (a - 0xf0) * 262144 + (b - 0x80) * 4096 + (c - 0x80) * 64 + (d - 0x80),
{
    assert(0xc2 <= a <= 0xdf && 0x80 <= b <= 0xbf ==> ((((a & 0x1f) as u32) << 6) | ((b & 0x3f) as u32)) == ((a as u32) - 0xc0) * 64 + ((b as u32) - 0x80)) by (bit_vector);
    assert(0xe0 <= a <= 0xef && 0x80 <= b <= 0xbf && 0x80 <= c <= 0xbf ==>
        ((((a & 0x0f) as u32) << 12) | (((b & 0x3f) as u32) << 6) | ((c & 0x3f) as u32)) == ((a as u32) - 0xe0) * 4096 + ((b as u32) - 0x80) * 64 + ((c as u32) - 0x80)) by (bit_vector);
    assert(0xf0 <= a <= 0xf4 && 0x80 <= b <= 0xbf && 0x80 <= c <= 0xbf && 0x80 <= d <= 0xbf ==>
        ((((a & 0x07) as u32) << 18) | (((b & 0x3f) as u32) << 12) | (((c & 0x3f) as u32) << 6) | ((d & 0x3f) as u32))
        == ((a as u32) - 0xf0) * 262144 + ((b as u32) - 0x80) * 4096 + ((c as u32) - 0x80) * 64 + ((d as u32) - 0x80)) by (bit_vector);
}
@@file keramics-encodings/src/utf8.rs
@@item DecoderUtf8
@@fn DecoderUtf8::new
    ensures r.bytes@ == bytes@, r.byte_index == 0,
@@fn DecoderUtf8::next for Iterator
    ensures
        final(self).bytes@ == old(self).bytes@,
        old(self).byte_index >= old(self).bytes@.len() ==> r is None && final(self).byte_index == old(self).byte_index,
        old(self).byte_index < old(self).bytes@.len() ==> r is Some && ({
            let s = old(self).bytes@.skip(old(self).byte_index as int);
            match r.unwrap() {
                // a well-formed sequence is consumed whole
                Ok(c) => wf_len(s) > 0 && c == value(s) && final(self).byte_index == old(self).byte_index + wf_len(s),
                // an ill-formed one yields an error and is left after at least one byte
                Err(_) => wf_len(s) == 0 && old(self).byte_index < final(self).byte_index <= old(self).bytes@.len(),
            }
        }),
@@at start
proof {
    kx_slice_bound_t(self.bytes);
    let n = self.bytes@.len();
    let i = self.byte_index as int;
    if i < n {
        let s = self.bytes@.skip(i);
        assert(s[0] == self.bytes@[i]);
        if i + 1 < n { assert(s[1] == self.bytes@[i + 1]); }
        if i + 2 < n { assert(s[2] == self.bytes@[i + 2]); }
        if i + 3 < n { assert(s[3] == self.bytes@[i + 3]); }
        lemma_bits(s[0], s[1], s[2], s[3]);
    }
}
@@item EncoderUtf8
@@raw
proof fn lemma_encode(c: u32)
    ensures
        0x80 <= c <= 0x7ff ==> (0xc0u8 | (c >> 6) as u8) == 0xc0 + c / 64 && (0x80u8 | (c & 0x3f) as u8) == 0x80 + c % 64,
        0x800 <= c <= 0xffff ==> (0xe0u8 | (c >> 12) as u8) == 0xe0 + c / 4096 && (0x80u8 | ((c >> 6) & 0x3f) as u8) == 0x80 + (c / 64) % 64
            && (0x80u8 | (c & 0x3f) as u8) == 0x80 + c % 64,
        0x10000 <= c <= 0x10ffff ==> (0xf0u8 | (c >> 18) as u8) == 0xf0 + c / 262144 && (0x80u8 | ((c >> 12) & 0x3f) as u8) == 0x80 + (c / 4096) % 64
            && (0x80u8 | ((c >> 6) & 0x3f) as u8) == 0x80 + (c / 64) % 64 && (0x80u8 | (c & 0x3f) as u8) == 0x80 + c % 64,
{
    assert(0x80 <= c <= 0x7ff ==> (0xc0u8 | (c >> 6) as u8) == add(0xc0u8, (c / 64) as u8) && (c / 64) < 0x20) by (bit_vector);
    assert((0x80u8 | (c & 0x3f) as u8) == add(0x80u8, (c % 64) as u8) && c % 64 < 64) by (bit_vector);
    assert(0x800 <= c <= 0xffff ==> (0xe0u8 | (c >> 12) as u8) == add(0xe0u8, (c / 4096) as u8) && c / 4096 < 0x10) by (bit_vector);
    assert((0x80u8 | ((c >> 6) & 0x3f) as u8) == add(0x80u8, ((c / 64) % 64) as u8)) by (bit_vector);
    assert((0x80u8 | ((c >> 12) & 0x3f) as u8) == add(0x80u8, ((c / 4096) % 64) as u8)) by (bit_vector);
    assert(0x10000 <= c <= 0x10ffff ==> (0xf0u8 | (c >> 18) as u8) == add(0xf0u8, (c / 262144) as u8) && c / 262144 < 8) by (bit_vector);
}
@@fn EncoderUtf8::new
    ensures r.code_points@ == code_points@, r.code_point_index == 0,
@@fn EncoderUtf8::next for Iterator
    ensures
        final(self).code_points@ == old(self).code_points@,
        old(self).code_point_index >= old(self).code_points@.len() ==> r is None && final(self).code_point_index == old(self).code_point_index,
        old(self).code_point_index < old(self).code_points@.len() ==> r is Some && final(self).code_point_index == old(self).code_point_index + 1 && ({
            let c = old(self).code_points@[old(self).code_point_index as int];
            match r.unwrap() {
                Ok(b) => scalar(c as int) && b@ =~= utf8(c as int),
                Err(_) => !scalar(c as int),
            }
        }),
@@at start
proof {
    kx_slice_bound_t(self.code_points);
    if self.code_point_index < self.code_points@.len() { lemma_encode(self.code_points@[self.code_point_index as int]); }
}
@@endfn
