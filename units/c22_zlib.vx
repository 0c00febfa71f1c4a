@@include c01_adler32.vx
@@include lz.vx
@@opt dyn Bitstream DeflateBitstream
@@include huff.vx
@@include bits_le.vx
@@raw
impl<'a> DeflateBitstream<'a> {
    // nb buffered bits in front of data_offset; the next bit is the one at p
    #[verifier::opaque]
    spec fn buffers(self, p: int) -> bool {
        let q = p + self.number_of_bits;
        &&& 0 <= p
        &&& self.data_size == self.data@.len() && self.data_offset <= self.data_size
        &&& self.number_of_bits <= 31
        &&& self.bits == bits(self.data@, p, self.number_of_bits as int)
        &&& q % 8 == 0 && (q == 8 * self.data_offset || (q >= 8 * self.data_size && self.data_offset == self.data_size))
    }
    #[verifier::opaque]
    spec fn at(self, p: int) -> bool { self.buffers(p) && self.number_of_bits < 8 }
    spec fn same(self, o: DeflateBitstream<'a>) -> bool { self.data@ == o.data@ && self.data_size == o.data_size }
}
proof fn lemma_buffers(s: DeflateBitstream, p: int)
    requires s.buffers(p),
    ensures 0 <= p, s.data_size == s.data@.len(), s.data_offset <= s.data_size, s.number_of_bits <= 31, s.bits == bits(s.data@, p, s.number_of_bits as int),
        s.at(p) == (s.number_of_bits < 8),
        s.number_of_bits == 0 ==> p % 8 == 0,
        p % 8 == 0 && s.number_of_bits < 8 ==> s.number_of_bits == 0,
        s.number_of_bits < 8 ==> s.data_offset == (if (p + 7) / 8 < s.data_size { (p + 7) / 8 } else { s.data_size as int }),
        (p + s.number_of_bits) % 8 == 0,
{
    reveal(DeflateBitstream::at);
    reveal(DeflateBitstream::buffers);
}
proof fn lemma_at(s: DeflateBitstream, p: int)
    requires s.at(p),
    ensures s.buffers(p), s.number_of_bits < 8,
{
    reveal(DeflateBitstream::at);
}
proof fn lemma_read(s: DeflateBitstream, s2: DeflateBitstream, p: int)
    requires s.buffers(p), s2.data@ == s.data@, s2.data_size == s.data_size, s.number_of_bits < 24, s2.number_of_bits == s.number_of_bits + 8,
        s.data_offset < s.data_size ==> s2.data_offset == s.data_offset + 1 && s2.bits == s.bits | ((s.data@[s.data_offset as int] as u32) << s.number_of_bits),
        s.data_offset >= s.data_size ==> s2.data_offset == s.data_offset && s2.bits == s.bits,
    ensures s2.buffers(p),
{
    reveal(DeflateBitstream::buffers);
    let q = p + s.number_of_bits;
    lemma_bits_byte(s.data@, q / 8);
    let x = byte(s.data@, q / 8) as u32;
    lemma_bits_put(s.data@, p, s.number_of_bits as int, 8, s.bits, x);
    let k = s.number_of_bits;
    let v = s.bits;
    assert(k < 32 ==> v | (0u32 << k) == v) by (bit_vector);
}
proof fn lemma_take(s: DeflateBitstream, s2: DeflateBitstream, p: int, n: int)
    requires s.buffers(p), s2.data@ == s.data@, s2.data_size == s.data_size, 0 <= n <= s.number_of_bits, n <= 24, s2.number_of_bits == s.number_of_bits - n,
        s2.data_offset == s.data_offset, s2.bits == s.bits >> (n as usize),
    ensures s2.buffers(p + n), s.bits & !(0xffffffffu32 << (n as usize)) == bits(s.data@, p, n),
{
    reveal(DeflateBitstream::buffers);
    lemma_bits_take(s.data@, p, s.number_of_bits as int, n, s.bits);
}
// ---- RFC 1951 ----
spec fn infl_pow(k: int) -> int {
    if k == 0 { 1 } else if k == 1 { 2 } else if k == 2 { 4 } else if k == 3 { 8 } else if k == 4 { 16 } else if k == 5 { 32 } else if k == 6 { 64 }
    else if k == 7 { 128 } else if k == 8 { 256 } else if k == 9 { 512 } else if k == 10 { 1024 } else if k == 11 { 2048 } else if k == 12 { 4096 } else { 8192 }
}
spec fn infl_size(i: int) -> (int, int) {
    if i < 8 { (3 + i, 0) } else if i < 28 { ((4 + i % 4) * infl_pow(i / 4 - 1) + 3, i / 4 - 1) } else { (258, 0) }
}
spec fn infl_distance(i: int) -> (int, int) {
    if i < 4 { (1 + i, 0) } else { (if i % 2 == 0 { 2 * infl_pow(i / 2 - 1) + 1 } else { 3 * infl_pow(i / 2 - 1) + 1 }, i / 2 - 1) }
}
spec fn infl_order() -> Seq<int> { seq![16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15] }
// one symbol with what belongs to it: output, position, end of the block
spec fn infl_token(d: Seq<u8>, lit: spec_fn(int) -> Option<(int, int)>, dist: spec_fn(int) -> Option<(int, int)>, p: int, out: Seq<u8>, cap: int) -> Option<(Seq<u8>, int, bool)> {
    match lit(p) {
        None => None,
        Some((sym, q)) =>
            if sym == 256 { Some((out, q, true)) }
            else if sym < 256 { if out.len() >= cap { None } else { Some((out.push(sym as u8), q, false)) } }
            else if sym < 286 {
                let (base, extra) = infl_size(sym - 257);
                let n = base + bits(d, q, extra);
                match dist(q + extra) {
                    None => None,
                    Some((sym2, q2)) => {
                        let (base2, extra2) = infl_distance(sym2);
                        let m = base2 + bits(d, q2, extra2);
                        if m > out.len() || out.len() + n > cap { None } else { Some((lz_copy(out, m, n as nat), q2 + extra2, false)) }
                    },
                }
            }
            else { None },
    }
}
#[verifier::opaque]
spec fn infl_codes(d: Seq<u8>, lit: spec_fn(int) -> Option<(int, int)>, dist: spec_fn(int) -> Option<(int, int)>, p: int, out: Seq<u8>, cap: int) -> Option<(Seq<u8>, int)>
    decreases cap - out.len()
{
    match infl_token(d, lit, dist, p, out, cap) {
        None => None,
        Some((o, q, end)) => if end { Some((o, q)) } else if o.len() <= out.len() || o.len() > cap { None } else { infl_codes(d, lit, dist, q, o, cap) },
    }
}
// the code sizes of the code size symbols, i of them read
spec fn infl_sizes(d: Seq<u8>, p: int, i: int) -> Seq<u8>
    decreases i
{
    if i <= 0 { Seq::new(19, |j: int| 0u8) } else { infl_sizes(d, p, i - 1).update(infl_order()[i - 1], bits(d, p + 3 * (i - 1), 3) as u8) }
}
spec fn infl_run(d: Seq<u8>, f: spec_fn(int) -> Option<(int, int)>, p: int, out: Seq<u8>, total: int) -> Option<(Seq<u8>, int)> {
    match f(p) {
        None => None,
        Some((sym, q)) =>
            if sym < 16 { Some((out.push(sym as u8), q)) }
            else if sym == 16 && out.len() == 0 { None }
            else {
                let x = if sym == 16 { out.last() } else { 0u8 };
                let (n, k) = if sym == 16 { (3 + bits(d, q, 2), 2int) } else if sym == 17 { (3 + bits(d, q, 3), 3int) } else { (11 + bits(d, q, 7), 7int) };
                if out.len() + n > total { None } else { Some((out + Seq::new(n as nat, |j: int| x), q + k)) }
            },
    }
}
#[verifier::opaque]
spec fn infl_runs(d: Seq<u8>, f: spec_fn(int) -> Option<(int, int)>, p: int, out: Seq<u8>, total: int) -> Option<(Seq<u8>, int)>
    decreases if out.len() < total { total - out.len() } else { 0 }
{
    if out.len() >= total { Some((out, p)) }
    else {
        match infl_run(d, f, p, out, total) { None => None, Some((o, q)) => if o.len() <= out.len() { None } else { infl_runs(d, f, q, o, total) } }
    }
}
// code sizes of the literals and of the distances, and the position behind them
#[verifier::opaque]
spec fn infl_trees(d: Seq<u8>, p: int) -> Option<(Seq<u8>, Seq<u8>, int)> {
    let v = bits(d, p, 14);
    let nlit = v % 32 + 257;
    let ndist = v / 32 % 32 + 1;
    let n = v / 1024 + 4;
    let s = infl_sizes(d, p + 14, n);
    if nlit > 286 || ndist > 30 || !hf_valid(s, 15) { None }
    else {
        infl_split(infl_runs(d, hf_symbols(d, s, 15), p + 14 + 3 * n, seq![], nlit + ndist), nlit, nlit + ndist)
    }
}
spec fn infl_split(r: Option<(Seq<u8>, int)>, nlit: int, total: int) -> Option<(Seq<u8>, Seq<u8>, int)> {
    match r {
        None => None,
        Some((o, q)) => {
            let (ls, ds) = (o.subrange(0, nlit), o.subrange(nlit, total));
            if o[256] == 0 || !hf_valid(ls, 15) || !(hf_valid(ds, 15) || hf_none(ds)) { None } else { Some((ls, ds, q)) }
        },
    }
}
spec fn hf_none(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0 }
spec fn infl_fixed_literals() -> Seq<u8> { Seq::new(288, |i: int| if i < 144 { 8u8 } else if i < 256 { 9u8 } else if i < 280 { 7u8 } else { 8u8 }) }
spec fn infl_fixed_distances() -> Seq<u8> { Seq::new(30, |i: int| 5u8) }
// one block: output, position, last block
#[verifier::opaque]
spec fn infl_block(d: Seq<u8>, p: int, out: Seq<u8>, cap: int) -> Option<(Seq<u8>, int, bool)> {
    let h = bits(d, p, 3);
    let last = h % 2 == 1;
    if h / 2 == 0 {
        let q = (p + 3 + 7) / 8 * 8;
        let v = bits(d, q, 32);
        let n = v % 65536;
        let k = q / 8 + 4;
        if v / 65536 != 65535 - n { None }
        else if n == 0 { Some((out, q + 32, last)) }
        else if k + n > d.len() || out.len() + n > cap { None }
        else { Some((out + d.subrange(k, k + n), 8 * (k + n), last)) }
    } else if h / 2 == 1 {
        match infl_codes(d, hf_symbols(d, infl_fixed_literals(), 15), hf_symbols(d, infl_fixed_distances(), 15), p + 3, out, cap) {
            None => None, Some((o, q)) => Some((o, q, last)) }
    } else if h / 2 == 2 {
        match infl_trees(d, p + 3) {
            None => None,
            Some((ls, ds, q)) => match infl_codes(d, hf_symbols(d, ls, 15), hf_symbols(d, ds, 15), q, out, cap) {
                None => None, Some((o, q)) => Some((o, q, last)) },
        }
    } else { None }
}
// blocks up to the last one, or to the end of the data
#[verifier::opaque]
spec fn inflate(d: Seq<u8>, p: int, out: Seq<u8>, cap: int) -> Option<(Seq<u8>, int)>
    decreases if p < 8 * d.len() { 8 * d.len() - p } else { 0 }
{
    if (p + 7) / 8 >= d.len() { Some((out, p)) }
    else {
        match infl_block(d, p, out, cap) {
            None => None,
            Some((o, q, last)) => if last { Some((o, q)) } else if q <= p { None } else { inflate(d, q, o, cap) },
        }
    }
}
proof fn lemma_infl_codes(d: Seq<u8>, lit: spec_fn(int) -> Option<(int, int)>, dist: spec_fn(int) -> Option<(int, int)>, p: int, out: Seq<u8>, cap: int)
    ensures infl_codes(d, lit, dist, p, out, cap) == (match infl_token(d, lit, dist, p, out, cap) {
            None => None,
            Some((o, q, end)) => if end { Some((o, q)) } else if o.len() <= out.len() || o.len() > cap { None } else { infl_codes(d, lit, dist, q, o, cap) },
        }),
{
    reveal(infl_codes);
}
proof fn lemma_infl_runs(d: Seq<u8>, f: spec_fn(int) -> Option<(int, int)>, p: int, out: Seq<u8>, total: int)
    ensures infl_runs(d, f, p, out, total) == (if out.len() >= total { Some((out, p)) } else {
        match infl_run(d, f, p, out, total) { None => None, Some((o, q)) => if o.len() <= out.len() { None } else { infl_runs(d, f, q, o, total) } } }),
{
    reveal(infl_runs);
}
proof fn lemma_inflate(d: Seq<u8>, p: int, out: Seq<u8>, cap: int)
    ensures inflate(d, p, out, cap) == (if (p + 7) / 8 >= d.len() { Some((out, p)) } else {
        match infl_block(d, p, out, cap) {
            None => None,
            Some((o, q, last)) => if last { Some((o, q)) } else if q <= p { None } else { inflate(d, q, o, cap) },
        } }),
{
    reveal(inflate);
}
proof fn lemma_lz_take(b: Seq<u8>, b0: Seq<u8>, o: Seq<u8>, b2: Seq<u8>, o2: Seq<u8>)
    requires lz_buf(b, b0, o), lz_buf(b2, b, o2), o2.len() >= o.len(),
    ensures lz_buf(b2, b0, o2), b2.len() == b0.len(),
{
    assert(b2 =~= o2 + b0.skip(o2.len() as int)) by {
        assert forall|i: int| o2.len() <= i < b2.len() implies b2[i] == b0[i] by { assert(b2[i] == b[i]); }
    }
}
proof fn lemma_lz_front(b: Seq<u8>, n: int)
    requires 0 <= n <= b.len(),
    ensures lz_buf(b, b, b.take(n)), b.take(n).len() == n,
{
    assert(b =~= b.take(n) + b.skip(n));
}
proof fn lemma_lz_is_front(b: Seq<u8>, b0: Seq<u8>, o: Seq<u8>)
    requires lz_buf(b, b0, o),
    ensures b.take(o.len() as int) == o, b.len() == b0.len(),
{
    assert(b.take(o.len() as int) =~= o);
}
@@file keramics-compression/src/deflate.rs
@@item DeflateBitstream
@@fn DeflateBitstream::new
    requires data_offset <= data@.len(),
    ensures r.data@ == data@, r.at(8 * data_offset), r.data_size == data@.len(),
@@at start
proof { reveal(DeflateBitstream::at); reveal(DeflateBitstream::buffers); }
@@fn DeflateBitstream::read_data
    requires exists|p: int| old(self).buffers(p), old(self).number_of_bits < number_of_bits <= 24,
    ensures final(self).same(*old(self)), forall|p: int| #[trigger] old(self).buffers(p) ==> final(self).buffers(p),
        number_of_bits <= final(self).number_of_bits < number_of_bits + 8,
@@at start
let ghost s0 = *self;
let ghost p0 = choose|p: int| s0.buffers(p);
@@loop 0
    invariant
        self.same(s0), s0 == *old(self), number_of_bits <= 24, s0.buffers(p0), self.number_of_bits < number_of_bits + 8,
        forall|p: int| #[trigger] s0.buffers(p) ==> self.buffers(p),
    decreases number_of_bits + 8 - self.number_of_bits
@@at loop 0 begin
let ghost s1 = *self;
proof { lemma_buffers(*self, p0); }
@@at loop 0 end
proof {
    assert forall|p: int| #[trigger] s0.buffers(p) implies self.buffers(p) by { lemma_read(s1, *self, p); }
}
@@fn DeflateBitstream::get_value for Bitstream
    requires exists|p: int| old(self).at(p), number_of_bits <= 32,
    ensures final(self).same(*old(self)), forall|p: int| #[trigger] old(self).at(p) ==> final(self).at(p + number_of_bits) && r == bits(old(self).data@, p, number_of_bits as int),
@@at start
let ghost s0 = *self;
let ghost p0 = choose|p: int| s0.at(p);
@@loop 0
    invariant
        self.same(s0), s0 == *old(self), number_of_bits <= 32, s0.at(p0),
        bit_offset <= number_of_bits, bit_offset == 0 || bit_offset == 24 || bit_offset == number_of_bits,
        forall|p: int| #[trigger] s0.at(p) ==> self.at(p + bit_offset) && bit_value == bits(s0.data@, p, bit_offset as int),
    decreases number_of_bits - bit_offset
@@at loop 0 begin
let ghost s1 = *self;
let ghost v1 = bit_value;
let ghost k = bit_offset;
proof { lemma_at(s1, p0 + k); lemma_buffers(s1, p0 + k); }
@@at let:value_32bit after
let ghost s2 = *self;
proof {
    assert(s2.buffers(p0 + k));
    lemma_buffers(s2, p0 + k);
}
@@at loop 0 end
proof {
    assert forall|p: int| #[trigger] s0.at(p) implies self.at(p + bit_offset) && bit_value == bits(s0.data@, p, bit_offset as int) by {
        lemma_at(s1, p + k);
        assert(s2.buffers(p + k));
        lemma_take(s2, *self, p + k, read_size as int);
        lemma_buffers(*self, p + bit_offset);
        let x = bits(s0.data@, p + k, read_size as int) as u32;
        if k == 0 { assert(0u32 | x == x) by (bit_vector); } else { lemma_bits_put(s0.data@, p, k as int, read_size as int, v1, x); }
    }
}
@@fn DeflateBitstream::skip_bits for Bitstream
    requires exists|p: int| old(self).at(p), number_of_bits <= 32,
    ensures final(self).same(*old(self)), forall|p: int| #[trigger] old(self).at(p) ==> final(self).at(p + number_of_bits),
@@at start
let ghost s0 = *self;
let ghost p0 = choose|p: int| s0.at(p);
@@loop 0
    invariant
        self.same(s0), s0 == *old(self), number_of_bits <= 32, s0.at(p0), bit_offset <= number_of_bits,
        forall|p: int| #[trigger] s0.at(p) ==> self.at(p + bit_offset),
    decreases number_of_bits - bit_offset
@@at loop 0 begin
let ghost s1 = *self;
let ghost k = bit_offset;
proof { lemma_at(s1, p0 + k); lemma_buffers(s1, p0 + k); }
@@at if:1 after
let ghost s2 = *self;
proof {
    assert(s2.buffers(p0 + k));
    lemma_buffers(s2, p0 + k);
}
@@at loop 0 end
proof {
    assert forall|p: int| #[trigger] s0.at(p) implies self.at(p + bit_offset) by {
        lemma_at(s1, p + k);
        assert(s2.buffers(p + k));
        lemma_take(s2, *self, p + k, read_size as int);
        lemma_buffers(*self, p + bit_offset);
    }
}
@@fn DeflateBitstream::unread_data
    requires exists|p: int| old(self).at(p),
    ensures *final(self) == *old(self),
@@at start
let ghost s0 = *self;
let ghost p0 = choose|p: int| s0.at(p);
proof { lemma_at(s0, p0); }
@@loop 0
    invariant *self == s0, s0.number_of_bits < 8,
    decreases self.number_of_bits
@@fn DeflateBitstream::copy_bytes
    requires output_data_offset + read_size <= usize::MAX, old(self).data_offset + read_size <= usize::MAX,
        output_data_size == old(output_data)@.len(), exists|p: int| old(self).at(p), output_data_offset <= output_data_size,
    ensures
        final(self).same(*old(self)),
        r is Ok == (old(self).data_offset + read_size <= old(self).data_size && output_data_offset + read_size <= output_data_size),
        r is Ok ==> final(self).at(8 * (old(self).data_offset + read_size)),
        final(output_data)@.len() == old(output_data)@.len(),
        r is Ok ==> forall|i: int| 0 <= i < old(output_data)@.len() ==> #[trigger] final(output_data)@[i] == (if output_data_offset <= i < output_data_offset + read_size {
            old(self).data@[old(self).data_offset + i - output_data_offset] } else { old(output_data)@[i] }),
@@at start
proof { reveal(DeflateBitstream::at); reveal(DeflateBitstream::buffers); }
@@item DEFLATE_LITERAL_CODES_BASE
@@itemexec forall|i: int| 0 <= i < 29 ==> #[trigger] DEFLATE_LITERAL_CODES_BASE@[i] == infl_size(i).0,
@@item DEFLATE_LITERAL_CODES_NUMBER_OF_EXTRA_BITS
@@itemexec forall|i: int| 0 <= i < 29 ==> #[trigger] DEFLATE_LITERAL_CODES_NUMBER_OF_EXTRA_BITS@[i] == infl_size(i).1,
@@item DEFLATE_DISTANCE_CODES_BASE
@@itemexec forall|i: int| 0 <= i < 30 ==> #[trigger] DEFLATE_DISTANCE_CODES_BASE@[i] == infl_distance(i).0,
@@item DEFLATE_DISTANCE_CODES_NUMBER_OF_EXTRA_BITS
@@itemexec forall|i: int| 0 <= i < 30 ==> #[trigger] DEFLATE_DISTANCE_CODES_NUMBER_OF_EXTRA_BITS@[i] == infl_distance(i).1,
@@item DEFLATE_CODE_SIZES_SEQUENCE
@@itemexec forall|i: int| 0 <= i < 19 ==> #[trigger] DEFLATE_CODE_SIZES_SEQUENCE@[i] == infl_order()[i],
@@item DeflateBlockHeader
@@fn DeflateBlockHeader::new
@@fn DeflateBlockHeader::read_from_bitstream
    requires exists|p: int| old(bitstream).at(p),
    ensures final(bitstream).same(*old(bitstream)), r is Ok,
        forall|p: int| #[trigger] old(bitstream).at(p) ==> final(bitstream).at(p + 3)
            && final(self).last_block_flag == bits(old(bitstream).data@, p, 3) % 2 && final(self).block_type == bits(old(bitstream).data@, p, 3) / 2,
@@at let:value_32bit after
proof { let v = value_32bit; assert(v & 1 == v % 2 && v >> 1 == v / 2) by (bit_vector); }
@@item DeflateContext
@@raw
spec fn infl_context(c: DeflateContext) -> bool {
    let (l, d) = (c.fixed_literals_huffman_tree, c.fixed_distances_huffman_tree);
    &&& hf_shape(l) && l.largest_code_size == 15 && l.symbols@.len() == 288 && hf_shape(d) && d.largest_code_size == 15 && d.symbols@.len() == 30
    &&& c.build_fixed_huffman_trees ==> hf_tree(l, infl_fixed_literals()) && hf_tree(d, infl_fixed_distances())
}
spec fn infl_is_tree(t: HuffmanTree, n: int) -> bool { t.largest_code_size == 15 && exists|s: Seq<u8>| hf_tree(t, s) && s.len() <= n }
// number of fixed code sizes of size l below symbol n
proof fn lemma_infl_fixed(n: int, l: int)
    requires 0 <= n <= 288,
    ensures hf_rank(infl_fixed_literals(), n, l) == (
        if l == 8 { (if n < 144 { n } else { 144 }) + (if n > 280 { n - 280 } else { 0 }) }
        else if l == 9 { if n < 144 { 0 } else if n > 256 { 112 } else { n - 144 } }
        else if l == 7 { if n < 256 { 0 } else if n > 280 { 24 } else { n - 256 } }
        else { 0 }),
        n <= 30 ==> hf_rank(infl_fixed_distances(), n, l) == (if l == 5 { n } else { 0 }),
    decreases n
{
    if n > 0 { lemma_infl_fixed(n - 1, l); }
}
proof fn lemma_infl_fixed_left(l: int)
    requires 0 <= l <= 15,
    ensures hf_left(infl_fixed_literals(), l) == (if l == 0 { 1int } else if l == 1 { 2 } else if l == 2 { 4 } else if l == 3 { 8 } else if l == 4 { 16 } else if l == 5 { 32 }
            else if l == 6 { 64 } else if l == 7 { 104 } else if l == 8 { 56 } else { 0 }),
        hf_left(infl_fixed_distances(), l) == (if l == 0 { 1int } else if l == 1 { 2 } else if l == 2 { 4 } else if l == 3 { 8 } else if l == 4 { 16 } else if l == 5 { 2 }
            else if l == 6 { 4 } else if l == 7 { 8 } else if l == 8 { 16 } else if l == 9 { 32 } else if l == 10 { 64 } else if l == 11 { 128 } else if l == 12 { 256 }
            else if l == 13 { 512 } else if l == 14 { 1024 } else { 2048 }),
    decreases l
{
    if l > 0 { lemma_infl_fixed_left(l - 1); lemma_infl_fixed(288, l); lemma_infl_fixed(30, l); }
}
proof fn lemma_infl_fixed_valid()
    ensures hf_valid(infl_fixed_literals(), 15), hf_valid(infl_fixed_distances(), 15),
{
    lemma_infl_fixed(288, 0);
    lemma_infl_fixed(30, 0);
    assert forall|l: int| 1 <= l <= 15 implies #[trigger] hf_left(infl_fixed_literals(), l) >= 0 by { lemma_infl_fixed_left(l); }
    assert forall|l: int| 1 <= l <= 15 implies #[trigger] hf_left(infl_fixed_distances(), l) >= 0 by { lemma_infl_fixed_left(l); }
}
proof fn lemma_infl_extra(i: int)
    requires 0 <= i < 30,
    ensures 0 <= infl_distance(i).1 <= 13, 1 <= infl_distance(i).0 <= 24577, i < 29 ==> 0 <= infl_size(i).1 <= 5 && 3 <= infl_size(i).0 <= 258,
{
}
proof fn lemma_bits_small(d: Seq<u8>, p: int, n: int)
    requires 0 <= n <= 24,
    ensures 0 <= bits(d, p, n) < hf_pow(n), hf_pow(n) <= 0x1000000, hf_pow(2) == 4, hf_pow(3) == 8, hf_pow(5) == 32, hf_pow(7) == 128, hf_pow(13) == 8192, hf_pow(14) == 16384,
        n <= 13 ==> bits(d, p, n) < 8192, n <= 14 ==> bits(d, p, n) < 16384,
{
    lemma_bits(d, p, n);
    lemma_hf_pow(n);
    assert(hf_pow(2) == 4 && hf_pow(3) == 8 && hf_pow(5) == 32 && hf_pow(7) == 128 && hf_pow(13) == 8192 && hf_pow(14) == 16384) by { reveal_with_fuel(hf_pow, 16); }
    if n <= 13 { lemma_pow_add(n, 13 - n); assert(hf_pow(n) <= 8192) by (nonlinear_arith) requires hf_pow(n) * hf_pow(13 - n) == 8192, hf_pow(13 - n) >= 1, hf_pow(n) >= 1; lemma_pow_add(13 - n, 0); }
}
@@fn DeflateContext::new
    ensures infl_context(r),
@@fn DeflateContext::build_fixed_huffman_trees
    requires infl_context(*old(self)),
    ensures infl_context(*final(self)), r is Ok, final(self).build_fixed_huffman_trees,
@@at start
proof { lemma_infl_fixed_valid(); }
@@loop 0
    invariant
        lo0 == 0, hi0 == 318, code_sizes@.len() == 318,
        forall|i: int| 0 <= i < it0 ==> #[trigger] code_sizes@[i] == (if i < 288 { infl_fixed_literals()[i] } else { 5u8 }),
@@at loop 0 after
proof {
    assert(code_sizes@.subrange(0, 288) =~= infl_fixed_literals());
    assert(code_sizes@.subrange(288, 318) =~= infl_fixed_distances());
}
@@fn DeflateContext::decompress_huffmann_encoded_block
    requires
        infl_is_tree(*literals_huffman_tree, 65535), infl_is_tree(*distances_huffman_tree, 30),
        exists|p: int| old(bitstream).at(p), uncompressed_data_size == old(uncompressed_data)@.len(), *old(uncompressed_data_offset) <= uncompressed_data_size,
    ensures
        final(bitstream).same(*old(bitstream)), final(uncompressed_data)@.len() == old(uncompressed_data)@.len(),
        forall|p: int| #[trigger] old(bitstream).at(p) ==> match infl_codes(old(bitstream).data@, hf_reader(old(bitstream).data@, *literals_huffman_tree), hf_reader(old(bitstream).data@, *distances_huffman_tree), p,
                old(uncompressed_data)@.take(*old(uncompressed_data_offset) as int), uncompressed_data_size as int) {
            Some((o, q)) => r is Ok && final(bitstream).at(q) && *final(uncompressed_data_offset) == o.len() && lz_buf(final(uncompressed_data)@, old(uncompressed_data)@, o)
                && o.len() >= *old(uncompressed_data_offset),
            None => r is Err,
        },
@@isolate
@@attr #[verifier::rlimit(80)]
@@at start
let ghost d = bitstream.data@;
let ghost buf0 = uncompressed_data@;
let ghost b0 = *bitstream;
let ghost cap = uncompressed_data_size as int;
let ghost out0 = uncompressed_data@.take(*uncompressed_data_offset as int);
let ghost mut out = out0;
let ghost mut pos: spec_fn(int) -> int = |p: int| p;
let ghost lit = hf_reader(d, *literals_huffman_tree);
let ghost dist = hf_reader(d, *distances_huffman_tree);
let ghost ls = choose|s: Seq<u8>| hf_tree(*literals_huffman_tree, s);
let ghost ds = choose|s: Seq<u8>| hf_tree(*distances_huffman_tree, s) && s.len() <= 30;
let ghost p0 = choose|p: int| b0.at(p);
proof {
    kx_slice_bound(uncompressed_data);
    lemma_lz_front(buf0, *uncompressed_data_offset as int);
    lemma_hf_reader(d, *literals_huffman_tree, ls, 15);
    lemma_hf_reader(d, *distances_huffman_tree, ds, 15);
}
@@loop 0
    invariant_except_break
        forall|p: int| #[trigger] b0.at(p) ==> bitstream.at(pos(p)) && infl_codes(d, lit, dist, p, out0, cap) == infl_codes(d, lit, dist, pos(p), out, cap),
    invariant
        b0.at(p0), d == b0.data@, bitstream.same(b0), b0 == *old(bitstream),
        cap == uncompressed_data_size, cap == buf0.len(), cap <= isize::MAX, buf0 == old(uncompressed_data)@,
        out0 == old(uncompressed_data)@.take(*old(uncompressed_data_offset) as int), out0.len() == *old(uncompressed_data_offset),
        lit == hf_reader(d, *literals_huffman_tree), dist == hf_reader(d, *distances_huffman_tree),
        hf_tree(*literals_huffman_tree, ls), hf_tree(*distances_huffman_tree, ds), ds.len() <= 30,
        infl_is_tree(*literals_huffman_tree, 65535), infl_is_tree(*distances_huffman_tree, 30),
        lit == hf_symbols(d, ls, 15), dist == hf_symbols(d, ds, 15),
        literals_huffman_tree.largest_code_size == 15, distances_huffman_tree.largest_code_size == 15,
        data_offset == out.len(), out.len() <= cap, out.len() >= out0.len(),
        lz_buf(uncompressed_data@, buf0, out), uncompressed_data@.len() == cap,
    ensures
        forall|p: int| #[trigger] b0.at(p) ==> match infl_codes(d, lit, dist, p, out0, cap) { Some((o, q)) => bitstream.at(q) && o == out, None => false },
    decreases cap - data_offset
@@at loop 0 begin
let ghost o1 = out;
let ghost bd1 = uncompressed_data@;
let ghost pos1 = pos;
proof {
    assert(bitstream.at(pos(p0)));
    lemma_hf_symbol(d, pos(p0), *literals_huffman_tree, ls);
    lemma_infl_codes(d, lit, dist, pos(p0), out, cap);
    assert forall|p: int| #[trigger] b0.at(p) implies infl_codes(d, lit, dist, p, out0, cap) == (match infl_token(d, lit, dist, pos1(p), o1, cap) {
            None => None,
            Some((o, q, end)) => if end { Some((o, q)) } else if o.len() <= o1.len() || o.len() > cap { None } else { infl_codes(d, lit, dist, q, o, cap) },
        }) by { lemma_infl_codes(d, lit, dist, pos1(p), o1, cap); }
}
@@at let:symbol:0 after
let ghost sym = symbol as int;
let ghost pos2 = |p: int| (lit(pos1(p))->0).1;
proof {
    assert forall|p: int| #[trigger] b0.at(p) implies bitstream.at(pos2(p)) && lit(pos1(p)) == Some((sym, pos2(p))) by { assert(b0.at(p)); }
    if sym < 256 && out.len() < cap { lemma_lz_push(bd1, buf0, o1, sym as u8); }
    if 257 <= sym < 286 { lemma_infl_extra(sym - 257); assert(bitstream.at(pos2(p0))); lemma_bits_small(d, pos2(p0), infl_size(sym - 257).1); }
}
@@at assign:data_offset:0 after
proof { out = o1.push(sym as u8); pos = pos2; }
@@at let:extra_bits:0 after
let ghost e1 = infl_size(sym - 257).1;
let ghost n = infl_size(sym - 257).0 + extra_bits;
let ghost pos3 = |p: int| pos2(p) + e1;
proof {
    assert forall|p: int| #[trigger] b0.at(p) implies bitstream.at(pos3(p)) && n == infl_size(sym - 257).0 + bits(d, pos2(p), e1) by { assert(b0.at(p)); }
    assert(bitstream.at(pos3(p0)));
    lemma_hf_symbol(d, pos3(p0), *distances_huffman_tree, ds);
}
@@at assign:symbol:1 after
let ghost sym2 = symbol as int;
let ghost pos4 = |p: int| (dist(pos3(p))->0).1;
proof {
    assert forall|p: int| #[trigger] b0.at(p) implies bitstream.at(pos4(p)) && dist(pos3(p)) == Some((sym2, pos4(p))) by { assert(b0.at(p)); }
    assert(bitstream.at(pos4(p0)));
    lemma_infl_extra(sym2);
    lemma_bits_small(d, pos4(p0), infl_distance(sym2).1);
}
@@at let:extra_bits:1 after
let ghost e2 = infl_distance(sym2).1;
let ghost m = infl_distance(sym2).0 + extra_bits;
let ghost pos5 = |p: int| pos4(p) + e2;
proof {
    assert forall|p: int| #[trigger] b0.at(p) implies bitstream.at(pos5(p)) && m == infl_distance(sym2).0 + bits(d, pos4(p), e2) by { assert(b0.at(p)); }
    assert forall|p: int| #[trigger] b0.at(p) implies infl_token(d, lit, dist, pos1(p), o1, cap)
        == (if m > o1.len() || o1.len() + n > cap { None } else { Some((lz_copy(o1, m, n as nat), pos5(p), false)) }) by { assert(b0.at(p)); }
}
@@loop 1
    invariant
        lo1 == 0, hi1 == n, compression_size == n, compression_offset == m, 0 < m <= o1.len(), o1.len() + n <= cap, 0 < n,
        uncompressed_data@.len() == cap, cap == buf0.len(), cap <= isize::MAX, 
        data_offset == o1.len() + it1, compression_data_offset == data_offset - m,
        lz_buf(uncompressed_data@, buf0, lz_copy(o1, m, it1 as nat)),
@@at loop 1 begin
proof {
    lemma_lz_copy(o1, m, (it1 - 1) as nat);
    lemma_lz_copy(o1, m, it1 as nat);
    let o = lz_copy(o1, m, (it1 - 1) as nat);
    lemma_lz_push(uncompressed_data@, buf0, o, o[compression_data_offset as int]);
}
@@at loop 1 after
proof {
    lemma_lz_copy(o1, m, n as nat);
    out = lz_copy(o1, m, n as nat);
    pos = pos5;
}
@@at loop 0 end
proof {
    assert forall|p: int| #[trigger] b0.at(p) implies bitstream.at(pos(p)) && infl_codes(d, lit, dist, p, out0, cap) == infl_codes(d, lit, dist, pos(p), out, cap) by { assert(b0.at(p)); }
}
@@raw
spec fn infl_in_order(k: int, i: int) -> bool { exists|j: int| 0 <= j < i && #[trigger] infl_order()[j] == k }
// no index occurs twice in the sequence
proof fn lemma_infl_order(i: int, j: int)
    requires 0 <= i < 19, 0 <= j < 19,
    ensures 0 <= infl_order()[i] < 19, infl_order()[i] == infl_order()[j] ==> i == j,
{
}
// the sizes that are not read are 0
proof fn lemma_infl_sizes(d: Seq<u8>, p: int, i: int, j: int)
    requires 0 <= i <= j < 19,
    ensures infl_sizes(d, p, i)[infl_order()[j]] == 0,
    decreases i
{
    lemma_infl_order(j, j);
    lemma_infl_sizes_len(d, p, i);
    if i > 0 { lemma_infl_sizes(d, p, i - 1, j); lemma_infl_order(i - 1, j); lemma_infl_sizes_len(d, p, i - 1); }
}
proof fn lemma_infl_sizes_len(d: Seq<u8>, p: int, i: int)
    ensures infl_sizes(d, p, i).len() == 19,
    decreases i
{
    if i > 0 { lemma_infl_sizes_len(d, p, i - 1); }
}
// without code sizes the tree stays the one without codes
proof fn lemma_infl_none(t: HuffmanTree, ds: Seq<u8>)
    requires hf_tree(t, seq![]), hf_none(ds), ds.len() <= 65535,
    ensures hf_tree(t, ds),
{
    reveal(hf_tree);
    assert forall|l: int| 1 <= l <= t.largest_code_size implies #[trigger] t.code_size_counts@[l] == hf_count(ds, l) by {
        lemma_hf_none(ds, ds.len() as int, l);
        assert(hf_count(seq![], l) == 0);
    }
    assert forall|l: int| 1 <= l <= t.largest_code_size implies #[trigger] hf_left(ds, l) >= 0 by { lemma_infl_none_left(ds, l); }
}
proof fn lemma_infl_none_left(ds: Seq<u8>, l: int)
    requires hf_none(ds),
    ensures hf_left(ds, l) >= 1,
    decreases l
{
    if l > 0 { lemma_infl_none_left(ds, l - 1); lemma_hf_none(ds, ds.len() as int, l); }
}
// the three numbers in front of the code sizes
proof fn lemma_infl_numbers(v: u32)
    ensures v & 0x1f == v % 32, v >> 5 == v / 32, v < 16384 ==> v / 32 / 32 == v / 1024 && v / 1024 < 16,
{
    assert(v & 0x1f == v % 32 && v >> 5 == v / 32) by (bit_vector);
}
@@fn DeflateContext::build_dynamic_huffman_trees
    requires
        exists|p: int| old(bitstream).at(p),
        hf_shape(*old(literals_huffman_tree)), old(literals_huffman_tree).largest_code_size == 15, old(literals_huffman_tree).symbols@.len() == 288,
        hf_tree(*old(distances_huffman_tree), seq![]), hf_shape(*old(distances_huffman_tree)), old(distances_huffman_tree).largest_code_size == 15, old(distances_huffman_tree).symbols@.len() == 30,
    ensures
        *final(self) == *old(self), final(bitstream).same(*old(bitstream)),
        r is Ok ==> final(literals_huffman_tree).largest_code_size == 15 && final(distances_huffman_tree).largest_code_size == 15,
        forall|p: int| #[trigger] old(bitstream).at(p) ==> match infl_trees(old(bitstream).data@, p) {
            Some((ls, ds, q)) => r is Ok && final(bitstream).at(q) && hf_tree(*final(literals_huffman_tree), ls) && hf_tree(*final(distances_huffman_tree), ds) && ds.len() <= 30,
            None => r is Err,
        },
@@isolate
@@attr #[verifier::rlimit(60)]
@@at start
let ghost d = bitstream.data@;
let ghost b0 = *bitstream;
let ghost p0 = choose|p: int| b0.at(p);
let ghost mut pos: spec_fn(int) -> int = |p: int| p;
let ghost mut out: Seq<u8> = seq![];
proof { reveal(infl_trees); }
@@at let:number_of_literal_codes before
let ghost v0 = value_32bit;
proof {
    assert(b0.at(p0));
    lemma_bits_small(d, p0, 14);
    lemma_infl_numbers(v0);
    lemma_infl_numbers(v0 / 32);
    assert forall|p: int| #[trigger] b0.at(p) implies bitstream.at(p + 14) && bits(d, p, 14) == v0 by { }
}
@@loop 0
    invariant
        lo0 == 0, hi0 == number_of_code_sizes, hi0 <= 19, code_sizes@.len() == 316, b0.at(p0), bitstream.same(b0), d == b0.data@,
        forall|p: int| #[trigger] b0.at(p) ==> bitstream.at(p + 14 + 3 * it0) && code_sizes@.subrange(0, 19) == infl_sizes(d, p + 14, it0 as int),
@@at loop 0 begin
let ghost cs0 = code_sizes@;
proof { assert(bitstream.at(p0 + 14 + 3 * (it0 - 1))); lemma_infl_order(it0 - 1, it0 - 1); }
@@at loop 0 end
proof {
    assert forall|p: int| #[trigger] b0.at(p) implies bitstream.at(p + 14 + 3 * it0) && code_sizes@.subrange(0, 19) == infl_sizes(d, p + 14, it0 as int) by {
        lemma_bits_small(d, p + 14 + 3 * (it0 - 1), 3);
        assert(code_sizes@.subrange(0, 19) =~= cs0.subrange(0, 19).update(infl_order()[it0 - 1], bits(d, p + 14 + 3 * (it0 - 1), 3) as u8));
    }
}
@@loop 1
    invariant
        lo1 == number_of_code_sizes, hi1 == 19, lo1 <= 19, code_sizes@.len() == 316, b0.at(p0), d == b0.data@,
        forall|p: int| #[trigger] b0.at(p) ==> code_sizes@.subrange(0, 19) == infl_sizes(d, p + 14, number_of_code_sizes as int),
@@at loop 1 begin
let ghost cs1 = code_sizes@;
proof { lemma_infl_order(it1 - 1, it1 - 1); }
@@at loop 1 end
proof {
    assert(b0.at(p0));
    lemma_infl_sizes(d, p0 + 14, number_of_code_sizes as int, it1 - 1);
    assert(cs1.subrange(0, 19)[code_size_index as int] == 0);
    assert(code_sizes@ =~= cs1);
}
@@at let:code_size_index:2 after
let ghost s = code_sizes@.subrange(0, 19);
let ghost f = hf_symbols(d, s, 15);
let ghost total = number_of_codes as int;
let ghost nlit = number_of_literal_codes as int;
let ghost posn = 14 + 3 * number_of_code_sizes;
let ghost mut ls: Seq<u8> = seq![];
let ghost mut ds: Seq<u8> = seq![];
proof {
    pos = |p: int| p + posn;
    lemma_hf_reader(d, codes_huffman_tree, s, 15);
    assert forall|p: int| #[trigger] b0.at(p) implies bitstream.at(pos(p)) && infl_trees(d, p) == infl_split(infl_runs(d, f, pos(p), out, total), nlit, total) by {
        assert(infl_sizes(d, p + 14, number_of_code_sizes as int) == s);
    }
    assert(code_sizes@.subrange(0, 0) =~= out);
}
@@loop 2
    invariant
        *self == *old(self), b0 == *old(bitstream),
        b0.at(p0), bitstream.same(b0), d == b0.data@, code_sizes@.len() == 316, 258 <= total <= 316, total == number_of_codes, 257 <= nlit < total,
        hf_tree(codes_huffman_tree, s), codes_huffman_tree.largest_code_size == 15, f == hf_symbols(d, s, 15), hf_reader(d, codes_huffman_tree) == f, s.len() == 19,
        code_size_index == out.len(), out.len() <= total, code_sizes@.subrange(0, out.len() as int) == out,
        forall|p: int| #[trigger] b0.at(p) ==> bitstream.at(pos(p)) && infl_trees(d, p) == infl_split(infl_runs(d, f, pos(p), out, total), nlit, total),
    decreases total - code_size_index
@@at loop 2 begin
let ghost o1 = out;
let ghost pos1 = pos;
proof {
    assert(bitstream.at(pos(p0)));
    lemma_hf_symbol(d, pos(p0), codes_huffman_tree, s);
    assert forall|p: int| #[trigger] b0.at(p) implies infl_trees(d, p)
        == infl_split(match infl_run(d, f, pos1(p), o1, total) { None => None, Some((o, q)) => if o.len() <= o1.len() { None } else { infl_runs(d, f, q, o, total) } }, nlit, total) by {
        lemma_infl_runs(d, f, pos1(p), o1, total);
    }
}
@@at let:symbol after
let ghost sym = symbol as int;
let ghost pos2 = |p: int| (f(pos1(p))->0).1;
proof {
    assert forall|p: int| #[trigger] b0.at(p) implies bitstream.at(pos2(p)) && f(pos1(p)) == Some((sym, pos2(p))) by { assert(b0.at(p)); }
    assert(bitstream.at(pos2(p0)));
    lemma_bits_small(d, pos2(p0), 2);
    lemma_bits_small(d, pos2(p0), 3);
    lemma_bits_small(d, pos2(p0), 7);
}
@@at assign:code_size_index:0 after
proof {
    out = o1.push(sym as u8);
    pos = pos2;
    assert(code_sizes@.subrange(0, out.len() as int) =~= out);
}
@@at let:times_to_repeat after
let ghost k = if sym == 16 { 2int } else if sym == 17 { 3int } else { 7int };
let ghost n = times_to_repeat as int;
let ghost x = code_size;
let ghost pos3 = |p: int| pos2(p) + k;
let ghost cs2 = code_sizes@;
proof {
    assert(sym == 16 ==> x == o1.last()) by { if sym == 16 { assert(o1.last() == code_sizes@.subrange(0, o1.len() as int)[o1.len() - 1]); } }
    assert forall|p: int| #[trigger] b0.at(p) implies bitstream.at(pos3(p)) && n == (if sym == 18 { 11int } else { 3int }) + bits(d, pos2(p), k) by { assert(b0.at(p)); }
    assert forall|p: int| #[trigger] b0.at(p) implies infl_run(d, f, pos1(p), o1, total)
        == (if o1.len() + n > total { None } else { Some((o1 + Seq::new(n as nat, |j: int| x), pos3(p))) }) by { assert(b0.at(p)); }
}
@@loop 3
    invariant
        code_sizes@.len() == 316, total <= 316, 0 <= times_to_repeat <= n, code_size_index == o1.len() + n - times_to_repeat, o1.len() + n <= total,
        forall|i: int| 0 <= i < 316 ==> #[trigger] code_sizes@[i] == (if o1.len() <= i < code_size_index { x } else { cs2[i] }),
        code_size == x,
    decreases times_to_repeat
@@at loop 3 after
proof {
    out = o1 + Seq::new(n as nat, |j: int| x);
    pos = pos3;
    assert(code_sizes@.subrange(0, out.len() as int) =~= out) by { assert forall|i: int| 0 <= i < o1.len() implies cs2[i] == o1[i] by { assert(cs2.subrange(0, o1.len() as int)[i] == o1[i]); } }
}
@@at loop 2 after
proof {
    ls = out.subrange(0, nlit);
    ds = out.subrange(nlit, total);
    assert(out[256] == code_sizes@[256]) by { assert(code_sizes@.subrange(0, total)[256] == code_sizes@[256]); }
    assert(code_sizes@.subrange(0, nlit) =~= ls) by { assert forall|i: int| 0 <= i < nlit implies code_sizes@[i] == out[i] by { assert(code_sizes@.subrange(0, total)[i] == code_sizes@[i]); } }
    assert(code_sizes@.subrange(nlit, total) =~= ds) by { assert forall|i: int| nlit <= i < total implies code_sizes@[i] == out[i] by { assert(code_sizes@.subrange(0, total)[i] == code_sizes@[i]); } }
    assert forall|p: int| #[trigger] b0.at(p) implies bitstream.at(pos(p)) && infl_trees(d, p)
        == (if out[256] == 0 || !hf_valid(ls, 15) || !(hf_valid(ds, 15) || hf_none(ds)) { None } else { Some((ls, ds, pos(p))) }) by {
        lemma_infl_runs(d, f, pos(p), out, total);
    }
}
@@loop 4
    invariant
        lo4 == 0, hi4 == ds.len(), distance_code_sizes@ == ds, kx_b ==> !hf_none(ds), !kx_b ==> forall|i: int| 0 <= i < it4 ==> #[trigger] ds[i] == 0,
    ensures
        kx_b == !hf_none(ds),
@@at end
proof {
    if hf_none(ds) { lemma_infl_none(*old(distances_huffman_tree), ds); }
}
@@raw
proof fn lemma_infl_nth(s: Seq<u8>, n: int, l: int, k: int)
    ensures hf_nth(s, n, l, k) >= 0,
    decreases n
{
    if n > 0 { lemma_infl_nth(s, n - 1, l, k); }
}
// reading goes forward
proof fn lemma_infl_decode(d: Seq<u8>, p: int, s: Seq<u8>, max: int, l: int, c: int)
    ensures match hf_decode(d, p, s, max, l, c) { Some(x) => x.0 >= 0 && p < x.1, None => true },
    decreases max - l
{
    if l < max {
        let c2 = 2 * c + bit(d, p);
        lemma_infl_nth(s, s.len() as int, l + 1, c2 - hf_first(s, l + 1));
        lemma_infl_decode(d, p + 1, s, max, l + 1, c2);
    }
}
proof fn lemma_infl_codes_on(d: Seq<u8>, ls: Seq<u8>, ds: Seq<u8>, p: int, out: Seq<u8>, cap: int)
    ensures match infl_codes(d, hf_symbols(d, ls, 15), hf_symbols(d, ds, 15), p, out, cap) { Some((o, q)) => p < q && out.len() <= o.len(), None => true },
    decreases cap - out.len()
{
    let (lit, dist) = (hf_symbols(d, ls, 15), hf_symbols(d, ds, 15));
    lemma_infl_codes(d, lit, dist, p, out, cap);
    lemma_infl_decode(d, p, ls, 15, 0, 0);
    if let Some((sym, q)) = lit(p) {
        if 256 < sym < 286 {
            let q1 = q + infl_size(sym - 257).1;
            lemma_infl_extra(sym - 257);
            lemma_infl_decode(d, q1, ds, 15, 0, 0);
        }
        if let Some((o, q2, end)) = infl_token(d, lit, dist, p, out, cap) {
            assert(p < q2) by { if let Some((sym2, q3)) = dist(q + infl_size(sym - 257).1) { assert(infl_distance(sym2).1 >= 0); } }
            if !end && out.len() < o.len() && o.len() <= cap { lemma_infl_codes_on(d, ls, ds, q2, o, cap); }
        }
    }
}
proof fn lemma_infl_runs_on(d: Seq<u8>, s: Seq<u8>, p: int, out: Seq<u8>, total: int)
    ensures match infl_runs(d, hf_symbols(d, s, 15), p, out, total) { Some((o, q)) => p <= q, None => true },
    decreases (if out.len() < total { total - out.len() } else { 0 })
{
    let f = hf_symbols(d, s, 15);
    lemma_infl_runs(d, f, p, out, total);
    lemma_infl_decode(d, p, s, 15, 0, 0);
    if let Some((o, q)) = infl_run(d, f, p, out, total) {
        if out.len() < total && out.len() < o.len() { lemma_infl_runs_on(d, s, q, o, total); }
    }
}
proof fn lemma_infl_block_on(d: Seq<u8>, p: int, out: Seq<u8>, cap: int)
    requires 0 <= p,
    ensures match infl_block(d, p, out, cap) { Some((o, q, last)) => p < q && out.len() <= o.len(), None => true },
{
    reveal(infl_block);
    reveal(infl_trees);
    lemma_bits_small(d, p, 3);
    lemma_infl_codes_on(d, infl_fixed_literals(), infl_fixed_distances(), p + 3, out, cap);
    let v = bits(d, p + 3, 14);
    lemma_bits_small(d, p + 3, 14);
    let n = v / 1024 + 4;
    let s = infl_sizes(d, p + 3 + 14, n);
    lemma_infl_runs_on(d, s, p + 3 + 14 + 3 * n, seq![], (v % 32 + 257) + (v / 32 % 32 + 1));
    if let Some((ls, ds, q)) = infl_trees(d, p + 3) { lemma_infl_codes_on(d, ls, ds, q, out, cap); }
    lemma_bits(d, (p + 3 + 7) / 8 * 8, 32);
}
@@raw
proof fn lemma_infl_stored(d: Seq<u8>, p: int, out: Seq<u8>, cap: int, n: int, m: int, k: int)
    requires bits(d, p, 3) / 2 == 0, n == bits(d, (p + 10) / 8 * 8, 32) % 65536, m == 65535 - bits(d, (p + 10) / 8 * 8, 32) / 65536,
        k == (if (p + 10) / 8 + 4 < d.len() { (p + 10) / 8 + 4 } else { d.len() as int }),
    ensures infl_block(d, p, out, cap) == (if n != m { None } else if n == 0 { Some((out, (p + 10) / 8 * 8 + 32, bits(d, p, 3) % 2 == 1)) }
        else if k + n > d.len() || out.len() + n > cap { None } else { Some((out + d.subrange(k, k + n), 8 * (k + n), bits(d, p, 3) % 2 == 1)) }),
{
    reveal(infl_block);
    lemma_bits(d, (p + 10) / 8 * 8, 32);
}
proof fn lemma_infl_coded(d: Seq<u8>, p: int, out: Seq<u8>, cap: int)
    ensures bits(d, p, 3) / 2 == 1 ==> infl_block(d, p, out, cap)
            == (match infl_codes(d, hf_symbols(d, infl_fixed_literals(), 15), hf_symbols(d, infl_fixed_distances(), 15), p + 3, out, cap) { None => None, Some((o, q)) => Some((o, q, bits(d, p, 3) % 2 == 1)) }),
        bits(d, p, 3) / 2 == 2 ==> infl_block(d, p, out, cap) == (match infl_trees(d, p + 3) {
            None => None,
            Some((ls, ds, q)) => match infl_codes(d, hf_symbols(d, ls, 15), hf_symbols(d, ds, 15), q, out, cap) { None => None, Some((o, q)) => Some((o, q, bits(d, p, 3) % 2 == 1)) },
        }),
        bits(d, p, 3) / 2 >= 3 ==> infl_block(d, p, out, cap) is None,
{
    reveal(infl_block);
}
@@fn DeflateContext::decompress_bitstream
    requires infl_context(*old(self)), exists|p: int| old(bitstream).at(p),
    ensures
        infl_context(*final(self)), final(bitstream).same(*old(bitstream)), final(uncompressed_data)@.len() == old(uncompressed_data)@.len(),
        forall|p: int| #[trigger] old(bitstream).at(p) ==> match inflate(old(bitstream).data@, p, seq![], old(uncompressed_data)@.len() as int) {
            Some((o, q)) => r is Ok && final(bitstream).at(q) && final(self).uncompressed_data_size == o.len() && lz_buf(final(uncompressed_data)@, old(uncompressed_data)@, o),
            None => r is Err,
        },
@@isolate
@@attr #[verifier::rlimit(60)]
@@at start
let ghost d = bitstream.data@;
let ghost b0 = *bitstream;
let ghost buf0 = uncompressed_data@;
let ghost cap = uncompressed_data@.len() as int;
let ghost p0 = choose|p: int| b0.at(p);
let ghost mut pos: spec_fn(int) -> int = |p: int| p;
let ghost mut out: Seq<u8> = seq![];
proof {
    lemma_lz_start(buf0); kx_slice_bound(uncompressed_data);
    lemma_at(b0, p0); lemma_buffers(b0, p0);
    assert forall|p: int| #[trigger] b0.at(p) && b0.data_offset >= d.len() implies inflate(d, p, out, cap) == Some((out, p)) by {
        lemma_at(b0, p); lemma_buffers(b0, p); lemma_inflate(d, p, out, cap);
    }
}
@@loop 0
    invariant_except_break
        forall|p: int| #[trigger] b0.at(p) ==> bitstream.at(pos(p)) && inflate(d, p, seq![], cap) == inflate(d, pos(p), out, cap)
            && (bitstream.data_offset >= d.len() ==> inflate(d, pos(p), out, cap) == Some((out, pos(p)))),
    invariant
        infl_context(*self), b0 == *old(bitstream), b0.at(p0), bitstream.same(b0), d == b0.data@, buf0 == old(uncompressed_data)@,
        cap == buf0.len(), cap == uncompressed_data_size, cap <= isize::MAX,
        uncompressed_data_offset == out.len(), out.len() <= cap, lz_buf(uncompressed_data@, buf0, out), uncompressed_data@.len() == cap,
        b0.data_size == d.len(),
    ensures
        forall|p: int| #[trigger] b0.at(p) ==> match inflate(d, p, seq![], cap) { Some((o, q)) => bitstream.at(q) && o == out, None => false },
    decreases (if pos(p0) < 8 * d.len() { 8 * d.len() - pos(p0) } else { 0 })
@@at loop 0 begin
let ghost o1 = out;
let ghost pos1 = pos;
let ghost buf1 = uncompressed_data@;
proof {
    assert(bitstream.at(pos(p0)));
    lemma_at(*bitstream, pos(p0)); lemma_buffers(*bitstream, pos(p0));
    lemma_lz_is_front(buf1, buf0, o1);
    assert forall|p: int| #[trigger] b0.at(p) implies inflate(d, p, seq![], cap)
        == (match infl_block(d, pos1(p), o1, cap) { None => None, Some((o, q, last)) => if last { Some((o, q)) } else { inflate(d, q, o, cap) } }) by {
        assert(bitstream.at(pos(p)));
        lemma_at(*bitstream, pos(p)); lemma_buffers(*bitstream, pos(p));
        lemma_inflate(d, pos1(p), o1, cap);
        lemma_infl_block_on(d, pos1(p), o1, cap);
    }
}
@@at match before
let ghost last = block_header.last_block_flag != 0;
let ghost ty = block_header.block_type;
let ghost mut bsb = *bitstream;
let ghost mut posb = pos1;
proof {
    assert forall|p: int| #[trigger] b0.at(p) implies bitstream.at(pos1(p) + 3) && last == (bits(d, pos1(p), 3) % 2 == 1) && ty == bits(d, pos1(p), 3) / 2
        && (ty >= 3 ==> infl_block(d, pos1(p), o1, cap) is None) by { assert(b0.at(p)); lemma_bits_small(d, pos1(p), 3); lemma_infl_coded(d, pos1(p), o1, cap); }
    assert(bitstream.at(pos1(p0) + 3));
}
@@at let:skip_bits after
let ghost bs1 = *bitstream;
let ghost aligned = |p: int| (pos1(p) + 10) / 8 * 8;
proof {
    let x = bitstream.number_of_bits;
    assert(x & 7 == x % 8) by (bit_vector);
    assert forall|p: int| #[trigger] b0.at(p) implies pos1(p) + 3 + skip_bits == aligned(p) && bs1.at(pos1(p) + 3) by {
        lemma_at(bs1, pos1(p) + 3); lemma_buffers(bs1, pos1(p) + 3);
    }
    assert(bs1.at(pos1(p0) + 3));
}
@@at let:value_32bit before
proof {
    assert forall|p: int| #[trigger] b0.at(p) implies bitstream.at(aligned(p)) by { assert(bs1.at(pos1(p) + 3)); }
    assert(bitstream.at(aligned(p0)));
}
@@at let:block_size before
let ghost bs2 = *bitstream;
let ghost v = value_32bit;
proof {
    assert(v & 0xffff == v % 65536 && (v >> 16) ^ 0xffff == 65535 - v / 65536) by (bit_vector);
    assert forall|p: int| #[trigger] b0.at(p) implies bs2.at(aligned(p) + 32) && v == bits(d, aligned(p), 32)
        && bs2.data_offset == (if aligned(p) / 8 + 4 < d.len() { aligned(p) / 8 + 4 } else { d.len() as int }) by {
        assert(b0.at(p));
        lemma_at(bs2, aligned(p) + 32); lemma_buffers(bs2, aligned(p) + 32);
    }
    assert(bs2.at(aligned(p0) + 32));
}
@@at let:block_size_copy after
let ghost n = block_size as int;
let ghost k = bs2.data_offset as int;
proof {
    assert forall|p: int| #[trigger] b0.at(p) implies infl_block(d, pos1(p), o1, cap) == (if n != block_size_copy { None } else if n == 0 { Some((o1, aligned(p) + 32, last)) }
        else if k + n > d.len() || o1.len() + n > cap { None } else { Some((o1 + d.subrange(k, k + n), 8 * (k + n), last)) }) by {
        assert(bs2.at(aligned(p) + 32));
        lemma_infl_stored(d, pos1(p), o1, cap, n, block_size_copy as int, k);
    }
    kx_slice_bound(bitstream.data);
    bsb = bs2;
    posb = |p: int| aligned(p) + 32;
}
@@at assign:uncompressed_data_offset:0 after
proof {
    lemma_lz_append(buf1, buf0, o1, d.subrange(k, k + n), uncompressed_data@);
}
@@at call:decompress_huffmann_encoded_block:0 before
let ghost bs3 = *bitstream;
proof {
    let (l, r) = (self.fixed_literals_huffman_tree, self.fixed_distances_huffman_tree);
    lemma_hf_reader(d, l, infl_fixed_literals(), 15);
    lemma_hf_reader(d, r, infl_fixed_distances(), 15);
    assert forall|p: int| #[trigger] b0.at(p) implies bs3.at(pos1(p) + 3) && infl_block(d, pos1(p), o1, cap)
        == (match infl_codes(d, hf_reader(d, l), hf_reader(d, r), pos1(p) + 3, o1, cap) { None => None, Some((o, q)) => Some((o, q, last)) }) by { lemma_infl_coded(d, pos1(p), o1, cap); }
    bsb = bs3;
    posb = |p: int| pos1(p) + 3;
}
@@at call:build_dynamic_huffman_trees before
let ghost bs4 = *bitstream;
proof {
    assert forall|p: int| #[trigger] b0.at(p) implies bs4.at(pos1(p) + 3) && (infl_trees(d, pos1(p) + 3) is None ==> infl_block(d, pos1(p), o1, cap) is None) by { lemma_infl_coded(d, pos1(p), o1, cap); }
}
@@at call:decompress_huffmann_encoded_block:1 before
let ghost bs5 = *bitstream;
let ghost pos5 = |p: int| (infl_trees(d, pos1(p) + 3)->0).2;
proof {
    let (l, r) = (dynamic_literals_huffman_tree, dynamic_distances_huffman_tree);
    assert forall|p: int| #[trigger] b0.at(p) implies bs5.at(pos5(p)) && infl_block(d, pos1(p), o1, cap)
        == (match infl_codes(d, hf_reader(d, l), hf_reader(d, r), pos5(p), o1, cap) { None => None, Some((o, q)) => Some((o, q, last)) }) by {
        assert(bs4.at(pos1(p) + 3));
        lemma_infl_coded(d, pos1(p), o1, cap);
        let (ls, ds, q) = infl_trees(d, pos1(p) + 3)->0;
        lemma_hf_reader(d, l, ls, 15);
        lemma_hf_reader(d, r, ds, 15);
    }
    assert(bs4.at(pos1(p0) + 3));
    assert(bs5.at(pos5(p0)));
    let (ls, ds, q) = infl_trees(d, pos1(p0) + 3)->0;
    lemma_hf_size(l, ls, 1);
    bsb = bs5;
    posb = pos5;
}
@@at match after
proof {
    let o2 = uncompressed_data@.take(uncompressed_data_offset as int);
    pos = |p: int| (infl_block(d, pos1(p), o1, cap)->0).1;
    out = o2;
    assert forall|p: int| #[trigger] b0.at(p) implies infl_block(d, pos1(p), o1, cap) == Some((o2, pos(p), last)) && bitstream.at(pos(p))
        && lz_buf(uncompressed_data@, buf0, o2) && o2.len() == uncompressed_data_offset by {
        assert(bsb.at(posb(p)));
        let o = (infl_block(d, pos1(p), o1, cap)->0).0;
        if ty != 0 { lemma_lz_take(buf1, buf0, o1, uncompressed_data@, o); }
        lemma_lz_is_front(uncompressed_data@, buf0, o);
    }
    assert(b0.at(p0));
    lemma_infl_block_on(d, pos1(p0), o1, cap);
    let b2 = *bitstream;
    assert forall|p: int| #[trigger] b0.at(p) && b2.data_offset >= d.len() implies inflate(d, pos(p), out, cap) == Some((out, pos(p))) by {
        assert(b2.at(pos(p)));
        lemma_at(b2, pos(p)); lemma_buffers(b2, pos(p)); lemma_inflate(d, pos(p), out, cap);
    }
}
@@fn DeflateContext::decompress
    requires infl_context(*old(self)),
    ensures infl_context(*final(self)),
        lz_result(match inflate(compressed_data@, 0, seq![], old(uncompressed_data)@.len() as int) { Some((o, q)) => Some(o), None => None }, r is Ok,
            final(self).uncompressed_data_size as int, old(uncompressed_data)@, final(uncompressed_data)@),
@@at call:decompress_bitstream before
proof { assert(bitstream.at(0)); }
@@raw
// ---- RFC 1950 ----
spec fn zlib_header(d: Seq<u8>) -> Option<int> {
    if d.len() < 2 || d[0] % 16 != 8 || d[0] / 16 > 7 || (256 * d[0] + d[1]) % 31 != 0 { None }
    else if d[1] / 32 % 2 == 0 { Some(2int) }
    else if d.len() < 6 { None }
    else { Some(6int) }
}
spec fn zlib_be(d: Seq<u8>, i: int) -> int { d[i] * 16777216 + d[i + 1] * 65536 + d[i + 2] * 256 + d[i + 3] }
// the decompressed data; a checksum that is there is that of the data
spec fn zlib(d: Seq<u8>, cap: int) -> Option<Seq<u8>> {
    match zlib_header(d) {
        None => None,
        Some(h) => match inflate(d, 8 * h, seq![], cap) {
            None => None,
            Some((o, p)) => { let q = (p + 7) / 8; if q + 4 <= d.len() && zlib_be(d, q) != adler(1, o) { None } else { Some(o) } },
        },
    }
}
proof fn lemma_zlib_be(d: Seq<u8>, i: int)
    requires 0 <= i, i + 4 <= d.len(),
    ensures kx_u32_be(d.subrange(i, i + 4)) == zlib_be(d, i),
{
    let b = d.subrange(i, i + 4);
    let (b0, b1, b2, b3) = (b[0] as u32, b[1] as u32, b[2] as u32, b[3] as u32);
    assert((b3 | (b2 << 8u32) | (b1 << 16u32) | (b0 << 24u32)) == b3 + b2 * 256 + b1 * 65536 + b0 * 16777216) by (bit_vector) requires b0 < 256, b1 < 256, b2 < 256, b3 < 256;
}
proof fn lemma_zlib_header(x: u8, y: u8)
    ensures x & 0x0f == x % 16, x >> 4 == x / 16, (y & 0x20 != 0) == (y / 32 % 2 == 1),
        forall|k: u8| 8 <= k <= 23 ==> (1u32 << k) > 0 && (((#[trigger] (1u32 << k)) > 32768) == (k > 15)),
{
    assert(x & 0x0f == x % 16 && x >> 4 == x / 16 && ((y & 0x20 != 0) == (y / 32 % 2 == 1))) by (bit_vector);
    assert forall|k: u8| 8 <= k <= 23 implies (1u32 << k) > 0 && (((#[trigger] (1u32 << k)) > 32768) == (k > 15)) by {
        assert(8 <= k <= 23 ==> (1u32 << k) > 0 && (((1u32 << k) > 32768) == (k > 15))) by (bit_vector);
    }
}
@@file keramics-compression/src/zlib.rs
@@item ZlibDataHeader
@@fn ZlibDataHeader::new
@@fn ZlibDataHeader::read_data
    ensures match zlib_header(data@) { Some(h) => r is Ok && final(self).header_size == h, None => r is Err },
@@at start
proof { if data@.len() >= 2 { lemma_zlib_header(data@[0], data@[1]); } }
@@item ZlibContext
@@fn ZlibContext::new
@@fn ZlibContext::decompress
    ensures lz_result(zlib(compressed_data@, old(uncompressed_data)@.len() as int), r is Ok,
            final(self).uncompressed_data_size as int, old(uncompressed_data)@, final(uncompressed_data)@),
@@at let:deflate_context after
let ghost d = compressed_data@;
let ghost b0 = bitstream;
let ghost p0 = 8 * data_header.header_size;
proof { assert(b0.at(p0)); }
@@at call:unread_data before
let ghost (o, p) = inflate(d, p0, seq![], uncompressed_data@.len() as int)->0;
proof {
    assert(bitstream.at(p));
    lemma_at(bitstream, p); lemma_buffers(bitstream, p);
    lemma_lz_is_front(uncompressed_data@, old(uncompressed_data)@, o);
    if (p + 7) / 8 + 4 <= d.len() { lemma_zlib_be(d, (p + 7) / 8); }
}
@@endfn
