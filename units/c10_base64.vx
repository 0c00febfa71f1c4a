@@include std.vx
@@raw
#[verifier::external_body]
proof fn kx_slice_bound_t<T>(s: &[T]) ensures s@.len() <= isize::MAX as int {}
// ---------------------------------------------------------------------------
// RFC 4648 section 4: the alphabet.
spec fn sextet(b: u8) -> int {
    if 0x41 <= b <= 0x5a { b - 0x41 }
    else if 0x61 <= b <= 0x7a { 26 + (b - 0x61) }
    else if 0x30 <= b <= 0x39 { 52 + (b - 0x30) }
    else if b == 0x2b { 62 } else if b == 0x2f { 63 } else { -1 }
}
spec fn white(b: u8) -> bool { b == 0x09 || b == 0x0a || b == 0x0b || b == 0x0d || b == 0x20 }
// the sextets from i up to the first byte that is neither in the alphabet nor skipped
spec fn sextets(s: Seq<u8>, i: int, skip: bool) -> Seq<int>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { Seq::empty() }
    else if sextet(s[i]) >= 0 { seq![sextet(s[i])] + sextets(s, i + 1, skip) }
    else if skip && white(s[i]) { sextets(s, i + 1, skip) }
    else { Seq::empty() }
}
// index of that byte, or the length
spec fn stop(s: Seq<u8>, i: int, skip: bool) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { i }
    else if sextet(s[i]) >= 0 || (skip && white(s[i])) { stop(s, i + 1, skip) }
    else { i }
}
spec fn well_formed_stop(s: Seq<u8>, p: int) -> bool { p >= s.len() || s[p] == 0x3d }
// the bytes that n leftover bits (value `bits`) followed by sextets give, most significant bit first
spec fn bytes_of(bits: int, n: int, q: Seq<int>) -> Seq<u8>
    decreases q.len()
{
    if n >= 8 {
        Seq::empty()
    } else if q.len() == 0 {
        Seq::empty()
    } else if n + 6 < 8 {
        bytes_of(bits * 64 + q[0], n + 6, q.skip(1))
    } else {
        let v = bits * 64 + q[0];
        seq![(v / pow2_of(n - 2)) as u8] + bytes_of(v % pow2_of(n - 2), n - 2, q.skip(1))
    }
}
spec fn pow2_of(n: int) -> int {
    if n == 0 { 1 } else if n == 2 { 4 } else if n == 4 { 16 } else { 64 }
}
// Encoding: RFC 4648 groups of three bytes, without and with padding.
spec fn enc6(v: int) -> u8 {
    if v < 26 { (0x41 + v) as u8 } else if v < 52 { (0x61 + v - 26) as u8 } else if v < 62 { (0x30 + v - 52) as u8 }
    else if v == 62 { 0x2b } else { 0x2f }
}
spec fn encode(d: Seq<u8>) -> Seq<u8>
    decreases d.len()
{
    if d.len() == 0 { Seq::empty() }
    else if d.len() == 1 { seq![enc6(d[0] as int / 4), enc6((d[0] as int % 4) * 16), 0x3du8, 0x3du8] }
    else if d.len() == 2 { seq![enc6(d[0] as int / 4), enc6((d[0] as int % 4) * 16 + d[1] as int / 16), enc6((d[1] as int % 16) * 4), 0x3du8] }
    else {
        seq![enc6(d[0] as int / 4), enc6((d[0] as int % 4) * 16 + d[1] as int / 16), enc6((d[1] as int % 16) * 4 + d[2] as int / 64), enc6(d[2] as int % 64)]
            + encode(d.skip(3))
    }
}
proof fn lemma_enc6(v: int)
    requires 0 <= v < 64,
    ensures sextet(enc6(v)) == v,
{
}
proof fn lemma_shift(s: Seq<u8>, t: Seq<u8>, i: int, skip: bool)
    requires 0 <= i <= t.len(),
    ensures
        sextets(s + t, s.len() + i, skip) =~= sextets(t, i, skip),
        stop(s + t, s.len() + i, skip) == s.len() + stop(t, i, skip),
    decreases t.len() - i
{
    if i < t.len() {
        assert((s + t)[s.len() + i] == t[i]);
        lemma_shift(s, t, i + 1, skip);
    }
}
// Decoding the encoding of any bytes gives the bytes back.
proof fn theorem_roundtrip(d: Seq<u8>)
    ensures
        bytes_of(0, 0, sextets(encode(d), 0, false)) =~= d,
        well_formed_stop(encode(d), stop(encode(d), 0, false)),
        encode(d).len() % 4 == 0,
        forall|k: int| stop(encode(d), 0, false) <= k < encode(d).len() ==> encode(d)[k] == 0x3d,
    decreases d.len()
{
    let e = encode(d);
    if d.len() == 0 {
    } else if d.len() == 1 {
        let (a, b) = (d[0] as int / 4, (d[0] as int % 4) * 16);
        lemma_enc6(a);
        lemma_enc6(b);
        assert(sextets(e, 2, false) =~= Seq::empty());
        assert(sextets(e, 1, false) =~= seq![b]);
        assert(sextets(e, 0, false) =~= seq![a, b]);
        let q = seq![a, b];
        assert(q.skip(1) =~= seq![b]);
        assert(seq![b].skip(1) =~= Seq::<int>::empty());
        let v1 = a * 64 + b;
        assert(v1 / 16 == d[0] && v1 % 16 == 0);
        assert(bytes_of(0, 4, Seq::empty()) =~= Seq::<u8>::empty());
        assert(bytes_of(a, 6, seq![b]) =~= seq![d[0]]);
        assert(stop(e, 0, false) == 2) by { reveal_with_fuel(stop, 4); }
    } else if d.len() == 2 {
        let (a, b, c) = (d[0] as int / 4, (d[0] as int % 4) * 16 + d[1] as int / 16, (d[1] as int % 16) * 4);
        lemma_enc6(a);
        lemma_enc6(b);
        lemma_enc6(c);
        assert(sextets(e, 3, false) =~= Seq::empty());
        assert(sextets(e, 2, false) =~= seq![c]);
        assert(sextets(e, 1, false) =~= seq![b, c]);
        assert(sextets(e, 0, false) =~= seq![a, b, c]);
        assert(seq![a, b, c].skip(1) =~= seq![b, c]);
        assert(seq![b, c].skip(1) =~= seq![c]);
        assert(seq![c].skip(1) =~= Seq::<int>::empty());
        let v1 = a * 64 + b;
        assert(v1 / 16 == d[0] && v1 % 16 == d[1] as int / 16);
        let v2 = (d[1] as int / 16) * 64 + c;
        assert(v2 / 4 == d[1] && v2 % 4 == 0);
        assert(bytes_of(0, 2, Seq::empty()) =~= Seq::<u8>::empty());
        assert(bytes_of(d[1] as int / 16, 4, seq![c]) =~= seq![d[1]]);
        assert(bytes_of(a, 6, seq![b, c]) =~= seq![d[0]] + seq![d[1]]);
        assert(bytes_of(0, 0, seq![a, b, c]) =~= seq![d[0], d[1]]);
        assert(stop(e, 0, false) == 3) by { reveal_with_fuel(stop, 5); }
    } else {
        let r = d.skip(3);
        theorem_roundtrip(r);
        let (a, b, c, f) = (d[0] as int / 4, (d[0] as int % 4) * 16 + d[1] as int / 16, (d[1] as int % 16) * 4 + d[2] as int / 64, d[2] as int % 64);
        lemma_enc6(a);
        lemma_enc6(b);
        lemma_enc6(c);
        lemma_enc6(f);
        let g = seq![enc6(a), enc6(b), enc6(c), enc6(f)];
        lemma_shift(g, encode(r), 0, false);
        assert(e =~= g + encode(r));
        let q = sextets(encode(r), 0, false);
        assert(sextets(e, 4, false) =~= q);
        assert(sextets(e, 3, false) =~= seq![f] + q);
        assert(sextets(e, 2, false) =~= seq![c, f] + q);
        assert(sextets(e, 1, false) =~= seq![b, c, f] + q);
        assert(sextets(e, 0, false) =~= seq![a, b, c, f] + q);
        assert((seq![a, b, c, f] + q).skip(1) =~= seq![b, c, f] + q);
        assert((seq![b, c, f] + q).skip(1) =~= seq![c, f] + q);
        assert((seq![c, f] + q).skip(1) =~= seq![f] + q);
        assert((seq![f] + q).skip(1) =~= q);
        let v1 = a * 64 + b;
        assert(v1 / 16 == d[0] && v1 % 16 == d[1] as int / 16);
        let v2 = (d[1] as int / 16) * 64 + c;
        assert(v2 / 4 == d[1] && v2 % 4 == d[2] as int / 64);
        let v3 = (d[2] as int / 64) * 64 + f;
        assert(v3 == d[2]);
        assert(bytes_of(d[2] as int / 64, 2, seq![f] + q) =~= seq![d[2]] + bytes_of(0, 0, q));
        assert(bytes_of(d[1] as int / 16, 4, seq![c, f] + q) =~= seq![d[1]] + (seq![d[2]] + r));
        assert(bytes_of(a, 6, seq![b, c, f] + q) =~= seq![d[0]] + (seq![d[1]] + (seq![d[2]] + r)));
        assert(bytes_of(0, 0, seq![a, b, c, f] + q) =~= d);
        assert(stop(e, 0, false) == stop(e, 4, false)) by { reveal_with_fuel(stop, 6); }
        assert forall|k: int| stop(e, 0, false) <= k < e.len() implies e[k] == 0x3d by {
            assert(stop(encode(r), 0, false) >= 0) by { lemma_stop(encode(r), 0, false); }
            assert(e[k] == encode(r)[k - 4]);
        }
        let p = stop(encode(r), 0, false);
        lemma_stop(encode(r), 0, false);
        if p < encode(r).len() { assert(e[p + 4] == encode(r)[p]); }
    }
}
proof fn lemma_stop(s: Seq<u8>, i: int, skip: bool)
    requires 0 <= i <= s.len(),
    ensures i <= stop(s, i, skip) <= s.len(),
    decreases s.len() - i
{
    if i < s.len() { lemma_stop(s, i + 1, skip); }
}
spec fn pad_size(p: int) -> int { (4 - p % 4) % 4 }
spec fn padded(s: Seq<u8>, p: int) -> bool {
    p >= s.len() || (p + pad_size(p) <= s.len() && forall|k: int| p <= k < p + pad_size(p) ==> #[trigger] s[k] == 0x3d)
}
impl<'a> Base64Stream<'a> {
    spec fn inv(&self) -> bool {
        &&& self.data_size == self.data@.len()
        &&& self.data_offset <= self.data_size
        &&& self.number_of_bits == 0 || self.number_of_bits == 2 || self.number_of_bits == 4 || self.number_of_bits == 6
        &&& self.bits < pow2_of(self.number_of_bits as int)
        &&& self.found_padding ==> self.data_offset < self.data_size && self.data@[self.data_offset as int] == 0x3d
    }
    // the bytes still to come
    spec fn rest(&self) -> Seq<u8> {
        bytes_of(self.bits as int, self.number_of_bits as int, sextets(self.data@, self.data_offset as int, self.skip_white_space))
    }
    spec fn end(&self) -> int { stop(self.data@, self.data_offset as int, self.skip_white_space) }
    spec fn midway(&self, rest: Seq<u8>) -> bool {
        let q = sextets(self.data@, self.data_offset as int, self.skip_white_space);
        let n = self.number_of_bits as int;
        &&& n == 0 || n == 2 || n == 4 || n == 6 || n == 8 || n == 10 || n == 12
        &&& n < 8 ==> self.bits < pow2_of(n) && rest =~= bytes_of(self.bits as int, n, q)
        &&& n >= 8 ==> self.bits as int / pow2_of(n - 8) < 256 && rest =~= seq![(self.bits as int / pow2_of(n - 8)) as u8] + bytes_of(self.bits as int % pow2_of(n - 8), n - 8, q)
    }
}
proof fn lemma_b64_bits(bits: u32, six: u8, n: usize)
    ensures
        bits < 64 && six < 64 ==> ((bits << 6) | (six as u32)) == bits * 64 + six,
        n == 0 ==> bits >> n == bits,
        n == 2 ==> bits >> n == bits / 4 && bits & (0xffffffffu32 >> ((32 - n) as usize)) == bits % 4,
        n == 4 ==> bits >> n == bits / 16 && bits & (0xffffffffu32 >> ((32 - n) as usize)) == bits % 16,
{
    assert(bits < 64 && six < 64 ==> ((bits << 6) | (six as u32)) == bits * 64 + (six as u32)) by (bit_vector);
    assert(n == 0 ==> bits >> n == bits) by (bit_vector);
    assert(n == 2 ==> bits >> n == bits / 4 && bits & (0xffffffffu32 >> ((32 - n) as usize)) == bits % 4) by (bit_vector);
    assert(n == 4 ==> bits >> n == bits / 16 && bits & (0xffffffffu32 >> ((32 - n) as usize)) == bits % 16) by (bit_vector);
}
@@file keramics-encodings/src/base64.rs
@@item Base64Stream
@@item Base64Context
@@fn Base64Stream::new
    ensures r.data@ == data@, r.data_offset == data_offset, r.data_size == data@.len(), r.bits == 0, r.number_of_bits == 0,
        r.skip_white_space == skip_white_space, !r.found_padding,
@@fn Base64Stream::get_value
@@isolate
    requires old(self).inv(),
    ensures
        final(self).data@ == old(self).data@, final(self).skip_white_space == old(self).skip_white_space,
        final(self).inv(), final(self).end() == old(self).end(),
        match r {
            Ok(Some(b)) => old(self).rest() =~= seq![b] + final(self).rest(),
            Ok(None) => old(self).rest().len() == 0 && well_formed_stop(old(self).data@, old(self).end())
                && final(self).data_offset == old(self).end() && final(self).found_padding == (old(self).end() < old(self).data@.len()),
            Err(_) => old(self).rest().len() == 0 && !well_formed_stop(old(self).data@, old(self).end()),
        },
@@at start
let ghost rest0 = self.rest();
let ghost end0 = self.end();
let ghost data0 = self.data@;
let ghost skip0 = self.skip_white_space;
let ghost mut b1 = self.bits;
let ghost mut n1 = 0int;
@@loop 0
    invariant_except_break
        true,
    invariant
        data0 == old(self).data@, skip0 == old(self).skip_white_space, end0 == old(self).end(), rest0 == old(self).rest(),
        self.data@ == data0, self.skip_white_space == skip0, self.data_size == self.data@.len(), self.data_offset <= self.data_size,
        self.found_padding ==> self.data_offset < self.data_size && self.data@[self.data_offset as int] == 0x3d && self.number_of_bits < 8,
        self.end() == end0, self.midway(rest0),
    ensures
        self.number_of_bits < 8 ==> rest0.len() == 0 && well_formed_stop(data0, end0) && self.data_offset == end0
            && self.found_padding == (end0 < data0.len()),
    decreases self.data_size - self.data_offset,
@@at loop 0 begin
proof {
    lemma_stop(data0, self.data_offset as int, skip0);
    let q = sextets(data0, self.data_offset as int, skip0);
    if self.data_offset < self.data_size && sextet(data0[self.data_offset as int]) >= 0 {
        let q1 = sextets(data0, self.data_offset + 1, skip0);
        assert(q.skip(1) =~= q1);
        assert(q[0] == sextet(data0[self.data_offset as int]));
        lemma_b64_bits(self.bits, q[0] as u8, 0);
    }
}
@@at loop 0 after
proof {
    b1 = self.bits;
    n1 = self.number_of_bits as int;
    if self.number_of_bits >= 8 {
        lemma_b64_bits(self.bits, 0, (self.number_of_bits - 8) as usize);
    }
}
@@at end
proof {
    assert(n1 == 8 || n1 == 10 || n1 == 12);
    assert(self.bits as int == b1 as int % pow2_of(n1 - 8));
    assert(rest0 =~= seq![(b1 as int / pow2_of(n1 - 8)) as u8] + self.rest());
    assert((b1 >> self.number_of_bits) as int == b1 as int / pow2_of(n1 - 8));
    assert((b1 >> self.number_of_bits) as u8 == (b1 as int / pow2_of(n1 - 8)) as u8);
}
@@fn Base64Context::new
    ensures r.data_size == 0,
@@fn Base64Context::decode
@@isolate
    ensures
        final(data)@.len() == old(data)@.len(),
        ({
            let out = bytes_of(0, 0, sextets(encoded_data@, 0, false));
            let p = stop(encoded_data@, 0, false);
            match r {
                Ok(_) => well_formed_stop(encoded_data@, p) && padded(encoded_data@, p) && out.len() <= old(data)@.len()
                    && final(self).data_size == out.len() && final(data)@ =~= out + old(data)@.skip(out.len() as int),
                Err(_) => !well_formed_stop(encoded_data@, p) || !padded(encoded_data@, p) || out.len() > old(data)@.len(),
            }
        }),
@@at start
let ghost out = bytes_of(0, 0, sextets(encoded_data@, 0, false));
let ghost p = stop(encoded_data@, 0, false);
proof {
    kx_slice_bound_t(data);
    kx_slice_bound_t(encoded_data);
}
@@loop 0
    invariant
        data@.len() == old(data)@.len(), data@.len() <= isize::MAX,
        base64_stream.inv(), base64_stream.data@ == encoded_data@, !base64_stream.skip_white_space,
        base64_stream.end() == p, p == stop(encoded_data@, 0, false), out == bytes_of(0, 0, sextets(encoded_data@, 0, false)),
        data_offset <= data@.len(), data_offset + base64_stream.rest().len() == out.len(),
        base64_stream.rest() =~= out.skip(data_offset as int),
        data@ =~= out.take(data_offset as int) + old(data)@.skip(data_offset as int),
    ensures
        data_offset == out.len(),
        well_formed_stop(encoded_data@, p), base64_stream.data_offset == p, base64_stream.found_padding == (p < encoded_data@.len()),
    decreases base64_stream.rest().len(),
@@at loop 0 begin
proof {
    let k = data_offset as int;
    let q = base64_stream.rest();
    let o = out.skip(k);
    assert(o.len() == q.len() + 1);
    assert forall|j: int| 0 <= j < q.len() implies q[j] == #[trigger] out.skip(k + 1)[j] by {
        assert(o[j + 1] == q[j]);
    }
    assert(q =~= out.skip(k + 1));
    assert(o[0] == out[k]);
}
@@loop 1
    invariant
        data@.len() == old(data)@.len(), data@ =~= out + old(data)@.skip(out.len() as int), self.data_size == out.len(),
        base64_stream.data@ == encoded_data@, p == base64_stream.data_offset, p < encoded_data@.len(), p == stop(encoded_data@, 0, false),
        out == bytes_of(0, 0, sextets(encoded_data@, 0, false)), well_formed_stop(encoded_data@, p), out.len() <= data@.len(),
        padding_size == pad_size(p), p + padding_size <= encoded_data@.len(), lo1 == 0, hi1 == padding_size, it1 <= hi1,
        padding_offset == p + it1,
        forall|k: int| p <= k < p + it1 ==> #[trigger] encoded_data@[k] == 0x3d,
    decreases hi1 - it1,
@@endfn
