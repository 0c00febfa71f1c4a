@@opt format
@@opt default
@@include std.vx
@@include fmt.vx
@@include strs.vx
@@mappath u16::from_str_radix kx_u16_radix
@@mappath u32::from_str_radix kx_u32_radix
@@mappath u64::from_str_radix kx_u64_radix
@@raw
pub open spec fn hexv(b: u8) -> int {
    if 0x30 <= b <= 0x39 { b - 0x30 } else if 0x41 <= b <= 0x46 { b - 0x41 + 10 } else if 0x61 <= b <= 0x66 { b - 0x61 + 10 } else { -1 }
}
spec fn hexnum(s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { hexnum(s.drop_last()) * 16 + hexv(s.last()) }
}
spec fn all_hex(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> hexv(#[trigger] s[i]) >= 0 }
struct ParseIntError { _p: u8 }
// std: an optional '+', then at least one digit; anything else and any value too large is an error
spec fn radix16(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s[0] == 0x2b { s.skip(1) } else { s } }
#[verifier::external_body]
fn kx_u16_radix(s: &str, radix: u32) -> (r: Result<u16, ParseIntError>)
    requires radix == 16,
    ensures ({ let d = radix16(kx_b(s)); if d.len() > 0 && all_hex(d) && hexnum(d) <= u16::MAX { r is Ok && r->Ok_0 == hexnum(d) } else { r is Err } }),
{ unimplemented!() }
#[verifier::external_body]
fn kx_u32_radix(s: &str, radix: u32) -> (r: Result<u32, ParseIntError>)
    requires radix == 16,
    ensures ({ let d = radix16(kx_b(s)); if d.len() > 0 && all_hex(d) && hexnum(d) <= u32::MAX { r is Ok && r->Ok_0 == hexnum(d) } else { r is Err } }),
{ unimplemented!() }
#[verifier::external_body]
fn kx_u64_radix(s: &str, radix: u32) -> (r: Result<u64, ParseIntError>)
    requires radix == 16,
    ensures ({ let d = radix16(kx_b(s)); if d.len() > 0 && all_hex(d) && hexnum(d) <= u64::MAX { r is Ok && r->Ok_0 == hexnum(d) } else { r is Err } }),
{ unimplemented!() }
pub assume_specification[ u8::is_ascii_hexdigit ](b: &u8) -> (r: bool)
    ensures r == (hexv(*b) >= 0),
;
struct ParseError { _p: u8 }
impl ParseError {
    #[verifier::external_body]
    fn new(s: String) -> ParseError { unimplemented!() }
}
// 8-4-4-4-12 hexadecimal digits, optionally between braces
spec fn inner(s: Seq<u8>) -> Seq<u8> {
    if s.len() >= 2 && s[0] == 0x7b && s.last() == 0x7d { s.subrange(1, s.len() - 1) } else { s }
}
spec fn uuid_syntax(s: Seq<u8>) -> bool {
    s.len() == 36 && forall|i: int| 0 <= i < 36 ==> uuid_char(i, #[trigger] s[i])
}
spec fn uuid_char(i: int, b: u8) -> bool {
    if i == 8 || i == 13 || i == 18 || i == 23 { b == 0x2d } else { hexv(b) >= 0 }
}
spec fn uuid_is(u: Uuid, s: Seq<u8>) -> bool {
    &&& u.part1 == hexnum(s.subrange(0, 8))
    &&& u.part2 == hexnum(s.subrange(9, 13))
    &&& u.part3 == hexnum(s.subrange(14, 18))
    &&& u.part4 == hexnum(s.subrange(19, 23))
    &&& u.part5 == hexnum(s.subrange(24, 36))
}
spec fn pow16(n: nat) -> int
    decreases n
{
    if n == 0 { 1 } else { 16 * pow16((n - 1) as nat) }
}
proof fn lemma_hexnum(s: Seq<u8>)
    requires all_hex(s),
    ensures 0 <= hexnum(s) < pow16(s.len()),
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies hexv(#[trigger] p[i]) >= 0 by { assert(p[i] == s[i]); }
        lemma_hexnum(p);
        assert(hexv(s[s.len() - 1]) >= 0);
        assert(hexv(s.last()) < 16);
    }
}
proof fn lemma_after_ascii(t: Seq<char>)
    requires encode_utf8(t).len() >= 1, encode_utf8(t)[0] < 0x80,
    ensures is_char_boundary(encode_utf8(t), 1),
{
    let b = encode_utf8(t);
    reveal_with_fuel(is_char_boundary, 3);
    assert(length_of_first_scalar(b) == 1);
    is_char_boundary_start_end_of_seq(pop_first_scalar(b));
}
proof fn lemma_part(s: Seq<u8>, a: int, b: int)
    requires uuid_syntax(s), 0 <= a < b <= 36, b <= 8 || a > 8, b <= 13 || a > 13, b <= 18 || a > 18, b <= 23 || a > 23,
    ensures
        all_hex(s.subrange(a, b)), radix16(s.subrange(a, b)) == s.subrange(a, b),
        0 <= hexnum(s.subrange(a, b)) < pow16((b - a) as nat),
{
    let t = s.subrange(a, b);
    assert forall|i: int| 0 <= i < t.len() implies hexv(#[trigger] t[i]) >= 0 by { assert(uuid_char(a + i, s[a + i])); }
    assert(hexv(t[0]) >= 0);
    lemma_hexnum(t);
}
proof fn lemma_parts(x: &str)
    requires uuid_syntax(kx_b(x)),
    ensures part_ok(kx_b(x), 0, 8, u32::MAX as int), part_ok(kx_b(x), 9, 13, u16::MAX as int), part_ok(kx_b(x), 14, 18, u16::MAX as int),
        part_ok(kx_b(x), 19, 23, u16::MAX as int), part_ok(kx_b(x), 24, 36, u64::MAX as int),
        is_char_boundary(kx_b(x), 0), is_char_boundary(kx_b(x), 8), is_char_boundary(kx_b(x), 9), is_char_boundary(kx_b(x), 13),
        is_char_boundary(kx_b(x), 14), is_char_boundary(kx_b(x), 18), is_char_boundary(kx_b(x), 19), is_char_boundary(kx_b(x), 23),
        is_char_boundary(kx_b(x), 24), is_char_boundary(kx_b(x), 36),
{
    let s = kx_b(x);
    reveal_with_fuel(pow16, 14);
    lemma_part(s, 0, 8);
    lemma_part(s, 9, 13);
    lemma_part(s, 14, 18);
    lemma_part(s, 19, 23);
    lemma_part(s, 24, 36);
    assert forall|i: int| 0 <= i <= 36 implies #[trigger] is_char_boundary(s, i) by {
        if i < 36 { assert(uuid_char(i, s[i])); }
        kx_boundary(x@, i);
    }
}
spec fn part_ok(s: Seq<u8>, a: int, b: int, max: int) -> bool {
    let t = s.subrange(a, b);
    all_hex(t) && radix16(t) == t && 0 <= hexnum(t) <= max
}
spec fn uuid_text(u: Uuid) -> Seq<char> {
    kx_hex_text(u.part1 as int, 8).push('-') + kx_hex_text(u.part2 as int, 4).push('-') + kx_hex_text(u.part3 as int, 4).push('-')
        + kx_hex_text(u.part4 as int, 4).push('-') + kx_hex_text(u.part5 as int, 12)
}
proof fn lemma_part5(a: u16, b: u32)
    ensures ((a as u64) << 32) | (b as u64) == a * 0x1_0000_0000 + b,
{
    assert(((a as u64) << 32) | (b as u64) == (a as u64) * 0x1_0000_0000 + b as u64) by (bit_vector);
}
// ---- a UUID written as text reads back as itself ----
proof fn lemma_digit(d: nat)
    requires d < 16,
    ensures hexv(kx_digit(d) as u8) == d, (kx_digit(d) as u32) < 0x80, kx_digit(d) != '-',
{
}
spec fn text_hex(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i] as u32) < 0x80 && hexv(t[i] as u8) >= 0 }
proof fn lemma_digits(n: nat, w: nat)
    requires n < pow16(w), w >= 1,
    ensures
        1 <= kx_digits16(n).len() <= w, text_hex(kx_digits16(n)), hexnum(kx_ascii_bytes(kx_digits16(n))) == n,
    decreases n
{
    reveal_with_fuel(hexnum, 2);
    let t = kx_digits16(n);
    if n < 16 {
        lemma_digit(n);
        assert(kx_ascii_bytes(t).drop_last() =~= Seq::<u8>::empty());
    } else {
        if w == 1 { assert(pow16(1) == 16) by { reveal_with_fuel(pow16, 2); } }
        assert(pow16(w) == 16 * pow16((w - 1) as nat));
        lemma_digits(n / 16, (w - 1) as nat);
        lemma_digit(n % 16);
        let p = kx_digits16(n / 16);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 0x80 && hexv(t[i] as u8) >= 0 by {
            if i < p.len() { assert(t[i] == p[i]); }
        }
        assert(kx_ascii_bytes(t).drop_last() =~= kx_ascii_bytes(p));
    }
}
proof fn lemma_zeros(k: nat, s: Seq<u8>)
    ensures hexnum(Seq::new(k, |i: int| 0x30u8) + s) == hexnum(s),
    decreases k + s.len()
{
    let z = Seq::new(k, |i: int| 0x30u8);
    if s.len() == 0 {
        assert(z + s =~= z);
        if k > 0 {
            assert(z.drop_last() =~= Seq::new((k - 1) as nat, |i: int| 0x30u8) + s);
            lemma_zeros((k - 1) as nat, s);
        }
    } else {
        assert((z + s).drop_last() =~= z + s.drop_last());
        lemma_zeros(k, s.drop_last());
    }
}
proof fn lemma_hex_text(v: int, w: nat)
    requires 0 <= v < pow16(w), w >= 1,
    ensures
        kx_hex_text(v, w).len() == w, text_hex(kx_hex_text(v, w)), hexnum(kx_ascii_bytes(kx_hex_text(v, w))) == v,
{
    lemma_digits(v as nat, w);
    let d = kx_digits16(v as nat);
    let k = (w - d.len()) as nat;
    lemma_zeros(k, kx_ascii_bytes(d));
    assert(kx_ascii_bytes(kx_hex_text(v, w)) =~= Seq::new(k, |i: int| 0x30u8) + kx_ascii_bytes(d));
    let t = kx_hex_text(v, w);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 0x80 && hexv(t[i] as u8) >= 0 by {
        if i >= k { assert(t[i] == d[i - k]); }
    }
}
proof fn theorem_text_roundtrip(u: Uuid, x: &str)
    requires x@ == uuid_text(u), u.part5 < 0x1_0000_0000_0000,
    ensures uuid_syntax(inner(kx_b(x))), uuid_is(u, inner(kx_b(x))),
{
    assert(pow16(4) == 0x1_0000 && pow16(8) == 0x1_0000_0000 && pow16(12) == 0x1_0000_0000_0000) by { reveal_with_fuel(pow16, 14); }
    lemma_hex_text(u.part1 as int, 8);
    lemma_hex_text(u.part2 as int, 4);
    lemma_hex_text(u.part3 as int, 4);
    lemma_hex_text(u.part4 as int, 4);
    lemma_hex_text(u.part5 as int, 12);
    let t = uuid_text(u);
    let (a, b, c, d, e) = (kx_hex_text(u.part1 as int, 8), kx_hex_text(u.part2 as int, 4), kx_hex_text(u.part3 as int, 4), kx_hex_text(u.part4 as int, 4), kx_hex_text(u.part5 as int, 12));
    assert(t.len() == 36);
    assert(t.subrange(0, 8) =~= a && t.subrange(9, 13) =~= b && t.subrange(14, 18) =~= c && t.subrange(19, 23) =~= d && t.subrange(24, 36) =~= e);
    assert(t[8] == '-' && t[13] == '-' && t[18] == '-' && t[23] == '-');
    assert forall|i: int| 0 <= i < 36 implies (#[trigger] t[i] as u32) < 0x80 && uuid_char(i, t[i] as u8) by {
        if i < 8 { assert(t[i] == a[i]); }
        else if 9 <= i < 13 { assert(t[i] == b[i - 9]); }
        else if 14 <= i < 18 { assert(t[i] == c[i - 14]); }
        else if 19 <= i < 23 { assert(t[i] == d[i - 19]); }
        else if 24 <= i { assert(t[i] == e[i - 24]); }
    }
    kx_ascii(t);
    let s = kx_b(x);
    assert(s.subrange(0, 8) =~= kx_ascii_bytes(a) && s.subrange(9, 13) =~= kx_ascii_bytes(b) && s.subrange(14, 18) =~= kx_ascii_bytes(c)
        && s.subrange(19, 23) =~= kx_ascii_bytes(d) && s.subrange(24, 36) =~= kx_ascii_bytes(e));
    assert(uuid_char(0, s[0]));
}
@@file keramics-types/src/uuid.rs
@@item Uuid
@@fn Uuid::new
    ensures r.part1 == 0, r.part2 == 0, r.part3 == 0, r.part4 == 0, r.part5 == 0,
@@fn Uuid::from_be_bytes
    requires data@.len() >= 16,
    ensures
        r.part1 == kx_u32_be(data@), r.part2 == kx_u16_be(data@.skip(4)), r.part3 == kx_u16_be(data@.skip(6)),
        r.part4 == kx_u16_be(data@.skip(8)),
        r.part5 == kx_u16_be(data@.skip(10)) * 0x1_0000_0000 + kx_u32_be(data@.skip(12)),
@@at start
proof { lemma_part5(kx_u16_be(data@.skip(10)), kx_u32_be(data@.skip(12))); assert(data@.subrange(10, 12) =~= data@.skip(10).take(2)); }
@@fn Uuid::from_le_bytes
    requires data@.len() >= 16,
    ensures
        r.part1 == kx_u32_le(data@), r.part2 == kx_u16_le(data@.skip(4)), r.part3 == kx_u16_le(data@.skip(6)),
        r.part4 == kx_u16_be(data@.skip(8)),
        r.part5 == kx_u16_be(data@.skip(10)) * 0x1_0000_0000 + kx_u32_be(data@.skip(12)),
@@at start
proof { lemma_part5(kx_u16_be(data@.skip(10)), kx_u32_be(data@.skip(12))); assert(data@.subrange(10, 12) =~= data@.skip(10).take(2)); }
@@fn Uuid::is_max
    ensures r == (self.part1 == 0xffffffff && self.part2 == 0xffff && self.part3 == 0xffff && self.part4 == 0xffff && self.part5 == 0xffffffffffff),
@@fn Uuid::is_nil
    ensures r == (self.part1 == 0 && self.part2 == 0 && self.part3 == 0 && self.part4 == 0 && self.part5 == 0),
@@fn Uuid::from_string
    ensures
        r is Ok <==> uuid_syntax(inner(kx_b(string))),
        r is Ok ==> uuid_is(*final(self), inner(kx_b(string))),
        r is Err ==> *final(self) == *old(self),
@@at start
let ghost s0 = string@;
proof {
    reveal_strlit("{");
    reveal_strlit("}");
    kx_ascii("{"@);
    kx_ascii("}"@);
    if kx_b(string).len() >= 1 {
        assert(kx_b(string).take(1)[0] == kx_b(string)[0]);
        assert(kx_b(string).skip(kx_b(string).len() - 1)[0] == kx_b(string).last());
        if kx_b(string)[0] == 0x7b { assert(kx_b(string).take(1) =~= kx_b("{")); kx_boundary(string@, 0); }
        if kx_b(string).last() == 0x7d { assert(kx_b(string).skip(kx_b(string).len() - 1) =~= kx_b("}")); kx_boundary(string@, kx_b(string).len() - 1); }
        if kx_b(string).len() >= 2 && kx_b(string)[0] == 0x7b && kx_b(string).last() == 0x7d {
            let b = kx_b(string);
            // the byte after the one-byte character '{' starts a character
            lemma_after_ascii(string@);
        }
    }
}
@@loop 0
    kx_b(string) == inner(encode_utf8(s0)),
    sl0@ == kx_b(string), string_length == 36, sl0@.len() == 36,
    forall|i: int| 0 <= i < it0 ==> uuid_char(i, #[trigger] kx_b(string)[i]),
    *self == *old(self),
@@at loop 0 after
proof { lemma_parts(string); }
@@fn Uuid::to_string
    ensures r@ =~= uuid_text(*self),
@@fn Uuid::fmt for Display
@@rename fmt_display
    ensures r is Ok ==> final(formatter).text() =~= old(formatter).text() + uuid_text(*self),
@@endfn
