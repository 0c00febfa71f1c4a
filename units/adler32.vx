@@raw
// Adler-32 as RFC 1950 defines it: two running sums, reduced modulo 65521.
spec fn adler_a(a0: int, s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 { a0 } else { adler_a(a0, s.drop_last()) + s.last() as int }
}
spec fn adler_b(a0: int, b0: int, s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 { b0 } else { adler_b(a0, b0, s.drop_last()) + adler_a(a0, s) }
}
spec fn adler_value(a: int, b: int) -> int { (b % 65521) * 65536 + (a % 65521) }
// checksum of s continued from the checksum value c0
spec fn adler(c0: int, s: Seq<u8>) -> int {
    if s.len() == 0 { c0 } else { adler_value(adler_a(c0 % 65536, s), adler_b(c0 % 65536, c0 / 65536, s)) }
}

proof fn lemma_step(a0: int, b0: int, s: Seq<u8>, i: int)
    requires 0 <= i < s.len(),
    ensures
        adler_a(a0, s.take(i + 1)) == adler_a(a0, s.take(i)) + s[i] as int,
        adler_b(a0, b0, s.take(i + 1)) == adler_b(a0, b0, s.take(i)) + adler_a(a0, s.take(i + 1)),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}

proof fn lemma_mod_add(x: int, y: int, d: int)
    requires x % 65521 == y % 65521,
    ensures (x + d) % 65521 == (y + d) % 65521,
{
    vstd::arithmetic::div_mod::lemma_mod_adds(x, d, 65521);
    vstd::arithmetic::div_mod::lemma_mod_adds(y, d, 65521);
    assert((x + d) % 65521 == (x % 65521 + d % 65521) % 65521) by (nonlinear_arith);
    assert((y + d) % 65521 == (y % 65521 + d % 65521) % 65521) by (nonlinear_arith);
}
proof fn lemma_mod_add2(x: int, y: int, u: int, v: int)
    requires x % 65521 == y % 65521, u % 65521 == v % 65521,
    ensures (x + u) % 65521 == (y + v) % 65521,
{
    lemma_mod_add(x, y, u);
    lemma_mod_add(u, v, y);
}

// Splitting the input at any point does not change the checksum.
proof fn theorem_split(c0: int, x: Seq<u8>, y: Seq<u8>)
    requires 0 <= c0 < 0x1_0000_0000,
    ensures adler(adler(c0, x), y) == adler(c0, x + y),
    decreases y.len()
{
    if x.len() == 0 { assert(x + y =~= y); }
    else if y.len() == 0 { assert(x + y =~= x); }
    else {
        let a0 = c0 % 65536; let b0 = c0 / 65536;
        let c1 = adler(c0, x);
        let a1 = adler_a(a0, x); let b1 = adler_b(a0, b0, x);
        assert(c1 % 65536 == a1 % 65521);
        assert(c1 / 65536 == b1 % 65521);
        lemma_concat(a0, b0, a1 % 65521, b1 % 65521, x, y);
        assert((a1 % 65521) % 65521 == a1 % 65521);
        assert((b1 % 65521) % 65521 == b1 % 65521);
    }
}
proof fn lemma_concat(a0: int, b0: int, a1: int, b1: int, x: Seq<u8>, y: Seq<u8>)
    requires
        a1 % 65521 == adler_a(a0, x) % 65521,
        b1 % 65521 == adler_b(a0, b0, x) % 65521,
    ensures
        adler_a(a1, y) % 65521 == adler_a(a0, x + y) % 65521,
        adler_b(a1, b1, y) % 65521 == adler_b(a0, b0, x + y) % 65521,
    decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); }
    else {
        lemma_concat(a0, b0, a1, b1, x, y.drop_last());
        assert((x + y).drop_last() =~= x + y.drop_last());
        assert((x + y).last() == y.last());
        lemma_mod_add(adler_a(a1, y.drop_last()), adler_a(a0, x + y.drop_last()), y.last() as int);
        lemma_mod_add2(adler_b(a1, b1, y.drop_last()), adler_b(a0, b0, x + y.drop_last()), adler_a(a1, y), adler_a(a0, x + y));
    }
}

@@file keramics-checksums/src/adler32.rs
@@item Adler32Context
@@fn Adler32Context::new
    ensures r.initial_value == initial_value, r.checksum == initial_value,
@@fn Adler32Context::finalize
    ensures
        r == old(self).checksum,
        final(self).checksum == old(self).initial_value,
        final(self).initial_value == old(self).initial_value,
@@fn Adler32Context::mod_65521
    ensures r == value % 65521,
@@at start
proof {
    assert(forall|x: u32| #![auto] x & 0x0000ffff == x % 65536) by (bit_vector);
    assert(forall|x: u32| #![auto] x >> 16u32 == x / 65536) by (bit_vector);
    assert(forall|x: u32| #![auto] x < 65536 ==> (x << 4u32) == x * 16) by (bit_vector);
    assert(value == 65536 * (value / 65536) + value % 65536);
}
@@fn Adler32Context::update
    ensures
        final(self).checksum as int == adler(old(self).checksum as int, data@),
        final(self).initial_value == old(self).initial_value,
@@at start
let ghost a0 = (self.checksum % 65536) as int;
let ghost b0 = (self.checksum / 65536) as int;
proof {
    kx_slice_bound(data);
    assert(forall|x: u32| #![auto] x & 0x0000ffff == x % 65536) by (bit_vector);
    assert(forall|x: u32| #![auto] x >> 16u32 == x / 65536) by (bit_vector);
    assert(forall|x: u32, y: u32| #![auto] x < 65536 && y < 65536 ==> ((x << 16u32) | y) == x * 65536 + y) by (bit_vector);
    assert(data@.take(data@.len() as int) =~= data@);
    assert(data@.take(0) =~= Seq::<u8>::empty());
}
@@loop 0
    invariant
        data_size == data@.len(), data_offset <= data_size, data_size > 0 ==> data_offset < data_size,
        lower_word <= 65535, upper_word <= 65535,
        lower_word as int % 65521 == adler_a(a0, data@.take(data_offset as int)) % 65521,
        upper_word as int % 65521 == adler_b(a0, b0, data@.take(data_offset as int)) % 65521,
        data_offset == 0 ==> lower_word == a0 && upper_word == b0,
    decreases data_size - data_offset
@@at loop 1 before
let ghost off0 = data_offset as int;
@@loop 1
    invariant
        hi1 == 5552,
        data_offset == off0 + it1,
        data_offset + 5552 < data_size + it1,
        lower_word <= 65535 + 255 * it1,
        upper_word <= 65535 * (it1 + 1) + 255 * it1 * (it1 + 1) / 2,
        lower_word as int % 65521 == adler_a(a0, data@.take(data_offset as int)) % 65521,
        upper_word as int % 65521 == adler_b(a0, b0, data@.take(data_offset as int)) % 65521,
@@at loop 1 begin
proof {
    let k = it1 - 1;
    assert(0 <= k < 5552);
    assert(255 * k * (k + 1) / 2 + 255 * (k + 1) == 255 * (k + 1) * (k + 2) / 2) by (nonlinear_arith);
    assert(255 * k * (k + 1) / 2 <= 255 * 5551 * 5552 / 2) by (nonlinear_arith) requires 0 <= k < 5552;
    assert(255 * (k + 1) * (k + 2) / 2 <= 255 * 5552 * 5553 / 2) by (nonlinear_arith) requires 0 <= k < 5552;
    lemma_step(a0, b0, data@, data_offset as int);
    lemma_mod_add(lower_word as int, adler_a(a0, data@.take(data_offset as int)), data@[data_offset as int] as int);
    lemma_mod_add2(upper_word as int, adler_b(a0, b0, data@.take(data_offset as int)), lower_word as int + data@[data_offset as int], adler_a(a0, data@.take(data_offset as int + 1)));
}
@@at loop 2 before
let ghost off0 = data_offset as int;
@@loop 2
    invariant
        off0 <= data_offset <= data_size,
        data_size <= off0 + 5552,
        lower_word <= 65535 + 255 * (data_offset - off0),
        upper_word <= 65535 * ((data_offset - off0) + 1) + 255 * (data_offset - off0) * ((data_offset - off0) + 1) / 2,
        lower_word as int % 65521 == adler_a(a0, data@.take(data_offset as int)) % 65521,
        upper_word as int % 65521 == adler_b(a0, b0, data@.take(data_offset as int)) % 65521,
    decreases data_size - data_offset
@@at loop 2 begin
proof {
    let k = data_offset - off0;
    assert(0 <= k < 5552);
    assert(255 * k * (k + 1) / 2 + 255 * (k + 1) == 255 * (k + 1) * (k + 2) / 2) by (nonlinear_arith);
    assert(255 * k * (k + 1) / 2 <= 255 * 5551 * 5552 / 2) by (nonlinear_arith) requires 0 <= k < 5552;
    assert(255 * (k + 1) * (k + 2) / 2 <= 255 * 5552 * 5553 / 2) by (nonlinear_arith) requires 0 <= k < 5552;
    lemma_step(a0, b0, data@, data_offset as int);
    lemma_mod_add(lower_word as int, adler_a(a0, data@.take(data_offset as int)), data@[data_offset as int] as int);
    lemma_mod_add2(upper_word as int, adler_b(a0, b0, data@.take(data_offset as int)), lower_word as int + data@[data_offset as int], adler_a(a0, data@.take(data_offset as int + 1)));
}
@@endfn
