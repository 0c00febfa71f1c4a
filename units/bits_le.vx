@@raw
// bits of a stream of bytes, least significant first; zeros behind its end
spec fn bit(d: Seq<u8>, p: int) -> int { if 0 <= p < 8 * d.len() { (d[p / 8] as int / hf_pow(p % 8)) % 2 } else { 0 } }
spec fn byte(d: Seq<u8>, i: int) -> int { if 0 <= i < d.len() { d[i] as int } else { 0 } }
spec fn bits(d: Seq<u8>, p: int, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { bit(d, p) + 2 * bits(d, p + 1, n - 1) }
}
proof fn lemma_bits(d: Seq<u8>, p: int, n: int)
    requires 0 <= n,
    ensures 0 <= bits(d, p, n) < hf_pow(n),
    decreases n
{
    if n > 0 { lemma_bits(d, p + 1, n - 1); }
}
proof fn lemma_pow_add(a: int, b: int)
    requires 0 <= a, 0 <= b,
    ensures hf_pow(a + b) == hf_pow(a) * hf_pow(b), hf_pow(a) >= 1,
    decreases a
{
    if a > 0 {
        lemma_pow_add(a - 1, b);
        let (x, y) = (hf_pow(a - 1), hf_pow(b));
        assert(2 * (x * y) == (2 * x) * y) by (nonlinear_arith);
    }
}
proof fn lemma_bits_split(d: Seq<u8>, p: int, a: int, b: int)
    requires 0 <= a, 0 <= b,
    ensures bits(d, p, a + b) == bits(d, p, a) + hf_pow(a) * bits(d, p + a, b),
    decreases a
{
    if a > 0 {
        lemma_bits_split(d, p + 1, a - 1, b);
        let (x, y) = (hf_pow(a - 1), bits(d, p + a, b));
        assert(2 * (x * y) == (2 * x) * y) by (nonlinear_arith);
    }
}
proof fn lemma_bit(d: Seq<u8>, i: int, j: int)
    requires 0 <= i, 0 <= j < 8,
    ensures bit(d, 8 * i + j) == (byte(d, i) / hf_pow(j)) % 2,
{
    lemma_hf_pow(j);
    assert((8 * i + j) / 8 == i && (8 * i + j) % 8 == j);
    if i >= d.len() {
        let x = hf_pow(j);
        assert(0int / x == 0) by (nonlinear_arith) requires x > 0;
    }
}
proof fn lemma_bits_byte(d: Seq<u8>, i: int)
    requires 0 <= i,
    ensures bits(d, 8 * i, 8) == byte(d, i),
{
    let p = 8 * i;
    lemma_bit(d, i, 0); lemma_bit(d, i, 1); lemma_bit(d, i, 2); lemma_bit(d, i, 3);
    lemma_bit(d, i, 4); lemma_bit(d, i, 5); lemma_bit(d, i, 6); lemma_bit(d, i, 7);
    assert(hf_pow(0) == 1 && hf_pow(1) == 2 && hf_pow(2) == 4 && hf_pow(3) == 8 && hf_pow(4) == 16 && hf_pow(5) == 32 && hf_pow(6) == 64 && hf_pow(7) == 128)
        by { reveal_with_fuel(hf_pow, 9); }
    assert(bits(d, p + 8, 0) == 0);
    assert(bits(d, p + 7, 1) == bit(d, p + 7));
    assert(bits(d, p + 6, 2) == bit(d, p + 6) + 2 * bits(d, p + 7, 1));
    assert(bits(d, p + 5, 3) == bit(d, p + 5) + 2 * bits(d, p + 6, 2));
    assert(bits(d, p + 4, 4) == bit(d, p + 4) + 2 * bits(d, p + 5, 3));
    assert(bits(d, p + 3, 5) == bit(d, p + 3) + 2 * bits(d, p + 4, 4));
    assert(bits(d, p + 2, 6) == bit(d, p + 2) + 2 * bits(d, p + 3, 5));
    assert(bits(d, p + 1, 7) == bit(d, p + 1) + 2 * bits(d, p + 2, 6));
    let x = byte(d, i) as u8;
    assert(x == x % 2 + 2 * (x / 2 % 2) + 4 * (x / 4 % 2) + 8 * (x / 8 % 2) + 16 * (x / 16 % 2) + 32 * (x / 32 % 2) + 64 * (x / 64 % 2) + 128 * (x / 128 % 2)) by (bit_vector);
}
proof fn lemma_pow_eq(n: nat)
    ensures hf_pow(n as int) == vstd::arithmetic::power2::pow2(n),
    decreases n
{
    if n == 0 { vstd::arithmetic::power2::lemma2_to64(); }
    else { lemma_pow_eq((n - 1) as nat); vstd::arithmetic::power2::lemma_pow2_unfold(n); }
}
// v holds the bits from p on: the first n of them, and those that follow
proof fn lemma_bits_take(d: Seq<u8>, p: int, nb: int, n: int, v: u32)
    requires 0 <= n <= nb, n <= 24, v == bits(d, p, nb),
    ensures v & !(0xffffffffu32 << (n as usize)) == bits(d, p, n), v >> (n as usize) == bits(d, p + n, nb - n),
{
    lemma_bits_split(d, p, n, nb - n);
    lemma_bits(d, p, n);
    lemma_bits(d, p + n, nb - n);
    lemma_pow_eq(n as nat);
    let k = n as u32;
    let q = n as usize;
    assert(k < 32 ==> v & !(0xffffffffu32 << k) == v - ((v >> k) << k) && (v >> k) << k <= v) by (bit_vector);
    assert(q < 32 ==> 0xffffffffu32 << q == 0xffffffffu32 << (q as u32) && v >> q == v >> (q as u32)) by (bit_vector);
    vstd::bits::lemma_u32_shr_is_div(v, k);
    let (a, b, c) = (bits(d, p, n), hf_pow(n), bits(d, p + n, nb - n));
    assert(v as int / b == c) by (nonlinear_arith) requires v == a + b * c, 0 <= a < b;
    assert(c * b <= v as int) by (nonlinear_arith) requires v == a + b * c, 0 <= a < b;
    vstd::bits::lemma_u32_shl_is_mul(v >> k, k);
    assert(v - c * b == a) by (nonlinear_arith) requires v == a + b * c;
}
// a value of k bits from p on, and x behind it
proof fn lemma_bits_put(d: Seq<u8>, p: int, k: int, n: int, v: u32, x: u32)
    requires 0 <= k <= 31, 0 <= n, k + n <= 32, v == bits(d, p, k), x == bits(d, p + k, n),
    ensures v | (x << (k as usize)) == bits(d, p, k + n),
{
    lemma_bits_split(d, p, k, n);
    lemma_bits(d, p, k);
    lemma_bits(d, p + k, n);
    lemma_bits(d, p, k + n);
    lemma_pow_add(k + n, 32 - k - n);
    lemma_pow_eq(32);
    vstd::arithmetic::power2::lemma2_to64();
    lemma_pow_eq(k as nat);
    let q = k as u32;
    let z = k as usize;
    let (a, b, c) = (bits(d, p, k), hf_pow(k), bits(d, p + k, n));
    let (e, f) = (hf_pow(k + n), hf_pow(32 - k - n));
    lemma_pow_add(32 - k - n, 0);
    assert(e <= 0x100000000) by (nonlinear_arith) requires e * f == 0x100000000, f >= 1, e >= 0;
    assert(c * b == b * c) by (nonlinear_arith);
    vstd::bits::lemma_u32_shl_is_mul(x, q);
    vstd::bits::lemma_u32_shl_is_mul(1, q);
    assert(z < 32 ==> x << z == x << (z as u32)) by (bit_vector);
    assert(q < 32 && v < (1u32 << q) ==> v & (x << q) == 0) by (bit_vector);
    let y = x << q;
    assert(v & y == 0 ==> v | y == v + y) by (bit_vector);
}
