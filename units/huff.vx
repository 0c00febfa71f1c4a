@@raw
// Canonical Huffman codes (RFC 1951, 3.2.2): codes of the same size are consecutive
// numbers in the order of their symbols; s[i] is the code size of symbol i (0: no code).
// number of symbols below n with code size l
spec fn hf_rank(s: Seq<u8>, n: int, l: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { hf_rank(s, n - 1, l) + (if s[n - 1] == l { 1int } else { 0 }) }
}
// the symbol below n with code size l that has k such symbols before it
spec fn hf_nth(s: Seq<u8>, n: int, l: int, k: int) -> int
    decreases n
{
    if n <= 0 { 0 } else if s[n - 1] == l && hf_rank(s, n - 1, l) == k { n - 1 } else { hf_nth(s, n - 1, l, k) }
}
spec fn hf_count(s: Seq<u8>, l: int) -> int { hf_rank(s, s.len() as int, l) }
// the first code of size l
spec fn hf_first(s: Seq<u8>, l: int) -> int
    decreases l
{
    if l <= 1 { 0 } else { 2 * (hf_first(s, l - 1) + hf_count(s, l - 1)) }
}
// number of codes smaller than size l
spec fn hf_offset(s: Seq<u8>, l: int) -> int
    decreases l
{
    if l <= 1 { 0 } else { hf_offset(s, l - 1) + hf_count(s, l - 1) }
}
// codes of size l that are left
spec fn hf_left(s: Seq<u8>, l: int) -> int
    decreases l
{
    if l <= 0 { 1 } else { 2 * hf_left(s, l - 1) - hf_count(s, l) }
}
spec fn hf_valid(s: Seq<u8>, max: int) -> bool {
    &&& s.len() <= 65535
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= max
    &&& hf_count(s, 0) < s.len()
    &&& forall|l: int| 1 <= l <= max ==> #[trigger] hf_left(s, l) >= 0
}
// the symbol whose code is at bit position p, and the position behind it; l bits with the value c are read
spec fn hf_decode(d: Seq<u8>, p: int, s: Seq<u8>, max: int, l: int, c: int) -> Option<(int, int)>
    decreases max - l
{
    if l >= max { None }
    else {
        let c2 = 2 * c + bit(d, p);
        if c2 < hf_first(s, l + 1) + hf_count(s, l + 1) { Some((hf_nth(s, s.len() as int, l + 1, c2 - hf_first(s, l + 1)), p + 1)) }
        else { hf_decode(d, p + 1, s, max, l + 1, c2) }
    }
}
spec fn hf_symbol(d: Seq<u8>, p: int, s: Seq<u8>, max: int) -> Option<(int, int)> { hf_decode(d, p, s, max, 0, 0) }

proof fn lemma_hf_rank(s: Seq<u8>, n: int, l: int)
    ensures 0 <= hf_rank(s, n, l) <= (if n < 0 { 0 } else { n }),
    decreases n
{
    if n > 0 { lemma_hf_rank(s, n - 1, l); }
}
proof fn lemma_hf_rank_mono(s: Seq<u8>, m: int, n: int, l: int)
    requires m <= n,
    ensures hf_rank(s, m, l) <= hf_rank(s, n, l),
        0 <= m < n && s[m] == l ==> hf_rank(s, m, l) < hf_rank(s, n, l),
    decreases n
{
    if n > m && n > 0 { lemma_hf_rank_mono(s, m, n - 1, l); lemma_hf_rank(s, m, l); }
    if n <= 0 { lemma_hf_rank(s, m, l); }
}
proof fn lemma_hf_nth(s: Seq<u8>, n: int, l: int, k: int)
    requires 0 <= n <= s.len(), 0 <= k < hf_rank(s, n, l),
    ensures 0 <= hf_nth(s, n, l, k) < n, s[hf_nth(s, n, l, k)] == l, hf_rank(s, hf_nth(s, n, l, k), l) == k,
    decreases n
{
    if n > 0 { if !(s[n - 1] == l && hf_rank(s, n - 1, l) == k) { lemma_hf_nth(s, n - 1, l, k); } }
}
// two symbols with the same code size and rank are one
proof fn lemma_hf_unique(s: Seq<u8>, m: int, n: int, l: int, k: int)
    requires 0 <= m < n <= s.len(), s[m] == l, hf_rank(s, m, l) == k,
    ensures hf_nth(s, n, l, k) == m,
    decreases n
{
    if n - 1 > m { lemma_hf_rank_mono(s, m, n - 1, l); lemma_hf_unique(s, m, n - 1, l, k); }
}
spec fn hf_pow(l: int) -> int
    decreases l
{
    if l <= 0 { 1 } else { 2 * hf_pow(l - 1) }
}
proof fn lemma_hf_pow(l: int)
    requires 0 <= l <= 24,
    ensures 1 <= hf_pow(l) <= 0x1000000,
    decreases l
{
    reveal_with_fuel(hf_pow, 26);
}
proof fn lemma_hf_first(s: Seq<u8>, l: int)
    requires 1 <= l,
    ensures hf_first(s, l) + hf_count(s, l) + hf_left(s, l) == hf_pow(l), 0 <= hf_first(s, l),
    decreases l
{
    reveal_with_fuel(hf_pow, 3);
    reveal_with_fuel(hf_left, 3);
    lemma_hf_rank(s, s.len() as int, l);
    if l > 1 { lemma_hf_first(s, l - 1); lemma_hf_rank(s, s.len() as int, l - 1); }
}
// number of symbols below n with a code size up to l
spec fn hf_upto(s: Seq<u8>, n: int, l: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { hf_upto(s, n - 1, l) + (if 1 <= s[n - 1] <= l { 1int } else { 0 }) }
}
proof fn lemma_hf_upto(s: Seq<u8>, n: int, l: int)
    ensures 0 <= hf_upto(s, n, l) <= (if n < 0 { 0 } else { n }), l >= 1 ==> hf_upto(s, n, l) == hf_upto(s, n, l - 1) + hf_rank(s, n, l),
        hf_upto(s, n, 0) == 0,
    decreases n
{
    if n > 0 { lemma_hf_upto(s, n - 1, l); }
}
proof fn lemma_hf_offset(s: Seq<u8>, l: int)
    requires 1 <= l,
    ensures hf_offset(s, l) == hf_upto(s, s.len() as int, l - 1), 0 <= hf_offset(s, l), hf_offset(s, l) + hf_count(s, l) <= s.len(),
    decreases l
{
    let n = s.len() as int;
    lemma_hf_upto(s, n, l);
    lemma_hf_upto(s, n, l - 1);
    if l > 1 { lemma_hf_offset(s, l - 1); }
}
proof fn lemma_hf_offset_mono(s: Seq<u8>, l: int, m: int)
    requires 1 <= l <= m,
    ensures l < m ==> hf_offset(s, l) + hf_count(s, l) <= hf_offset(s, m), hf_offset(s, l) <= hf_offset(s, m),
    decreases m
{
    if l < m { lemma_hf_offset_mono(s, l, m - 1); lemma_hf_rank(s, s.len() as int, m - 1); }
}
// no code sizes: no codes
proof fn lemma_hf_none(s: Seq<u8>, n: int, l: int)
    requires n <= s.len(), l != 0, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0,
    ensures hf_rank(s, n, l) == 0,
    decreases n
{
    if n > 0 { lemma_hf_none(s, n - 1, l); }
}
proof fn lemma_hf_all(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(),
    ensures (hf_rank(s, n, 0) == n) == (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == 0),
    decreases n
{
    if n > 0 {
        lemma_hf_all(s, n - 1);
        lemma_hf_rank(s, n - 1, 0);
        if hf_rank(s, n, 0) == n {
            assert forall|i: int| 0 <= i < n implies #[trigger] s[i] == 0 by { if i < n - 1 {} }
        }
    }
}
proof fn lemma_hf_empty(l: int)
    ensures hf_left(seq![], l) >= 1,
    decreases l
{
    if l > 0 { lemma_hf_empty(l - 1); }
}
// the tree is that of the code sizes s
#[verifier::opaque]
spec fn hf_tree(t: HuffmanTree, s: Seq<u8>) -> bool {
    &&& hf_shape(t)
    &&& s.len() <= 65535
    &&& forall|l: int| 1 <= l <= t.largest_code_size ==> #[trigger] t.code_size_counts@[l] == hf_count(s, l)
    &&& forall|l: int| 1 <= l <= t.largest_code_size ==> #[trigger] hf_left(s, l) >= 0
    &&& forall|i: int| 0 <= i < s.len() && s[i] != 0 ==> {
            let l = #[trigger] s[i] as int;
            &&& l <= t.largest_code_size
            &&& 0 <= hf_offset(s, l) + hf_rank(s, i, l) < t.symbols@.len()
            &&& t.symbols@[hf_offset(s, l) + hf_rank(s, i, l)] == i
        }
}
spec fn hf_shape(t: HuffmanTree) -> bool {
    1 <= t.largest_code_size <= 24 && t.maximum_code_size == t.largest_code_size + 1 && t.code_size_counts@.len() == t.maximum_code_size
}
proof fn lemma_hf_size(t: HuffmanTree, s: Seq<u8>, l: int)
    requires hf_tree(t, s),
    ensures hf_shape(t), s.len() <= 65535, 1 <= l <= t.largest_code_size ==> t.code_size_counts@[l] == hf_count(s, l) && hf_left(s, l) >= 0,
{
    reveal(hf_tree);
    if 1 <= l <= t.largest_code_size { assert(t.code_size_counts@[l] == hf_count(s, l)); }
}
proof fn lemma_hf_lookup(t: HuffmanTree, s: Seq<u8>, l: int, k: int)
    requires hf_tree(t, s), 1 <= l <= t.largest_code_size, 0 <= k < hf_count(s, l),
    ensures 0 <= hf_offset(s, l) + k < t.symbols@.len(), t.symbols@[hf_offset(s, l) + k] == hf_nth(s, s.len() as int, l, k),
        0 <= hf_nth(s, s.len() as int, l, k) < s.len(),
{
    reveal(hf_tree);
    lemma_hf_nth(s, s.len() as int, l, k);
    let i = hf_nth(s, s.len() as int, l, k);
    assert(s[i] != 0);
}
// decoding with the counts and the sorted symbols of a tree
#[verifier::opaque]
spec fn hf_table(d: Seq<u8>, p: int, t: HuffmanTree, l: int, c: int, first: int, index: int) -> Option<(int, int)>
    decreases t.largest_code_size - l
{
    if l >= t.largest_code_size { None }
    else {
        let c2 = 2 * c + bit(d, p);
        let n = t.code_size_counts@[l + 1] as int;
        if c2 - n < first { Some((t.symbols@[index + c2 - first] as int, p + 1)) }
        else { hf_table(d, p + 1, t, l + 1, c2, 2 * (first + n), index + n) }
    }
}
// with the bit at position p - 1 read
spec fn hf_table_step(d: Seq<u8>, p: int, t: HuffmanTree, l: int, c: int, first: int, index: int) -> Option<(int, int)> {
    let n = t.code_size_counts@[l] as int;
    if c - n < first { Some((t.symbols@[index + c - first] as int, p)) }
    else { hf_table(d, p, t, l, c, 2 * (first + n), index + n) }
}
proof fn lemma_hf_step(d: Seq<u8>, p: int, t: HuffmanTree, l: int, c: int, first: int, index: int)
    requires l < t.largest_code_size,
    ensures hf_table(d, p, t, l, c, first, index) == hf_table_step(d, p + 1, t, l + 1, 2 * c + bit(d, p), first, index),
{
    reveal(hf_table);
}
proof fn lemma_hf_table(d: Seq<u8>, p: int, t: HuffmanTree, s: Seq<u8>, l: int, c: int)
    requires hf_tree(t, s), 0 <= l, hf_first(s, l + 1) <= 2 * c,
    ensures hf_table(d, p, t, l, c, hf_first(s, l + 1), hf_offset(s, l + 1)) == hf_decode(d, p, s, t.largest_code_size as int, l, c),
        match hf_decode(d, p, s, t.largest_code_size as int, l, c) { Some(x) => 0 <= x.0 < s.len() && p < x.1, None => true },
    decreases t.largest_code_size - l
{
    reveal(hf_table);
    if l < t.largest_code_size {
        let c2 = 2 * c + bit(d, p);
        lemma_hf_size(t, s, l + 1);
        if c2 - hf_count(s, l + 1) < hf_first(s, l + 1) {
            lemma_hf_lookup(t, s, l + 1, c2 - hf_first(s, l + 1));
        } else {
            lemma_hf_table(d, p + 1, t, s, l + 1, c2);
        }
    }
}
proof fn lemma_hf_symbol(d: Seq<u8>, p: int, t: HuffmanTree, s: Seq<u8>)
    requires hf_tree(t, s),
    ensures hf_table(d, p, t, 0, 0, 0, 0) == hf_symbol(d, p, s, t.largest_code_size as int),
        match hf_symbol(d, p, s, t.largest_code_size as int) { Some(x) => 0 <= x.0 < s.len() && p < x.1, None => true },
{
    lemma_hf_table(d, p, t, s, 0, 0);
}
spec fn hf_reader(d: Seq<u8>, t: HuffmanTree) -> spec_fn(int) -> Option<(int, int)> { |p: int| hf_table(d, p, t, 0, 0, 0, 0) }
spec fn hf_symbols(d: Seq<u8>, s: Seq<u8>, max: int) -> spec_fn(int) -> Option<(int, int)> { |p: int| hf_symbol(d, p, s, max) }
proof fn lemma_hf_reader(d: Seq<u8>, t: HuffmanTree, s: Seq<u8>, max: int)
    requires hf_tree(t, s), t.largest_code_size == max,
    ensures hf_reader(d, t) == hf_symbols(d, s, max),
{
    assert forall|p: int| #[trigger] hf_reader(d, t)(p) == hf_symbols(d, s, max)(p) by { lemma_hf_symbol(d, p, t, s); }
    assert(hf_reader(d, t) =~= hf_symbols(d, s, max));
}
proof fn lemma_hf_bit(d: Seq<u8>, p: int)
    ensures bits(d, p, 1) == bit(d, p), bit(d, p) == 0 || bit(d, p) == 1,
{
    assert(bits(d, p + 1, 0) == 0);
}
// the bounds of the codes of size l, and the machine operations on them
proof fn lemma_hf_code(s: Seq<u8>, l: int, first: int, c: isize)
    requires 1 <= l <= 24, s.len() <= 65535, hf_left(s, l) >= 0, 0 <= c < hf_pow(l - 1), first == hf_first(s, l), first <= 2 * c,
    ensures (c << 1usize) | 0isize == 2 * c, (c << 1usize) | 1isize == 2 * c + 1, 2 * c + 1 < hf_pow(l), hf_pow(l) <= 0x1000000,
        0 <= first, 0 <= hf_count(s, l), first + hf_count(s, l) <= hf_pow(l), 0 <= hf_offset(s, l), hf_offset(s, l) + hf_count(s, l) <= s.len(),
        (((first + hf_count(s, l)) as isize) << 1usize) == hf_first(s, l + 1), hf_offset(s, l + 1) == hf_offset(s, l) + hf_count(s, l),
        hf_first(s, l + 1) == 2 * (first + hf_count(s, l)),
{
    lemma_hf_pow(l);
    lemma_hf_pow(l - 1);
    lemma_hf_first(s, l);
    lemma_hf_offset(s, l);
    lemma_hf_rank(s, s.len() as int, l);
    let x = c;
    assert(0 <= x <= 0x1000000 ==> (x << 1usize) | 0isize == 2 * x && (x << 1usize) | 1isize == 2 * x + 1) by (bit_vector);
    let y = (first + hf_count(s, l)) as isize;
    assert(0 <= y <= 0x1000000 ==> (y << 1usize) == 2 * y) by (bit_vector);
}
@@file keramics-compression/src/huffman.rs
@@item HuffmanTree
@@fn HuffmanTree::new
    requires 1 <= largest_code_size <= 24,
    ensures hf_shape(r), r.largest_code_size == largest_code_size, r.symbols@.len() == number_of_symbols, hf_tree(r, seq![]),
@@at start
proof { reveal(hf_tree); assert forall|l: int| 1 <= l implies #[trigger] hf_left(seq![], l) >= 0 by { lemma_hf_empty(l); } }
@@fn HuffmanTree::build
    requires hf_shape(*old(self)), code_sizes@.len() <= old(self).symbols@.len(),
    ensures hf_shape(*final(self)), final(self).largest_code_size == old(self).largest_code_size,
        final(self).symbols@.len() == old(self).symbols@.len(),
        r is Ok == hf_valid(code_sizes@, old(self).largest_code_size as int),
        r is Ok ==> hf_tree(*final(self), code_sizes@),
@@at start
let ghost s = code_sizes@;
let ghost max = self.largest_code_size as int;
let ghost nsym = self.symbols@.len();
proof {
    reveal(hf_tree);
    kx_slice_bound(code_sizes);
    lemma_hf_all(s, s.len() as int);
    lemma_hf_rank(s, s.len() as int, 0);
}
@@loop 0
    invariant
        s == code_sizes@, lo0 == 0, hi0 == s.len(), s.len() <= 65535, number_of_code_sizes == s.len(),
        hf_shape(*self), self.largest_code_size == max, self.symbols@.len() == nsym,
        forall|i: int| 0 <= i < it0 ==> #[trigger] s[i] <= max,
        forall|l: int| 0 <= l <= max ==> #[trigger] self.code_size_counts@[l] == hf_rank(s, it0 as int, l),
@@at loop 0 begin
proof { lemma_hf_rank(s, it0 - 1, s[it0 - 1] as int); }
@@loop 1
    invariant
        s == code_sizes@, lo1 == 1, hi1 == max + 1, s.len() <= 65535, number_of_code_sizes == s.len(),
        hf_shape(*self), self.largest_code_size == max, self.symbols@.len() == nsym, 
        forall|l: int| 0 <= l <= max ==> #[trigger] self.code_size_counts@[l] == hf_count(s, l),
        forall|l: int| 1 <= l < it1 ==> #[trigger] hf_left(s, l) >= 0,
        left_value == hf_left(s, it1 - 1), 0 <= left_value <= hf_pow(it1 - 1),
@@at loop 1 begin
proof {
    lemma_hf_rank(s, s.len() as int, it1 - 1);
    lemma_hf_pow(it1 - 2);
    let x = left_value;
    assert(0 <= x <= 0x1000000 ==> x << 1usize == 2 * x) by (bit_vector);
}
@@at assign:left_value after
proof { assert(left_value == hf_left(s, it1 - 1)); }
@@loop 2
    invariant
        s == code_sizes@, lo2 == 1, hi2 == max,
        symbol_offsets@.len() == it2 + 1, s.len() <= 65535,
        hf_shape(*self), self.largest_code_size == max,
        forall|l: int| 0 <= l <= max ==> #[trigger] self.code_size_counts@[l] == hf_count(s, l),
        forall|l: int| 1 <= l <= it2 ==> #[trigger] symbol_offsets@[l] == hf_offset(s, l),
@@at loop 2 begin
proof {
    lemma_hf_offset(s, it2 - 1);
    lemma_hf_rank(s, s.len() as int, it2 - 1);
}
@@loop 3
    invariant
        s == code_sizes@, lo3 == 0, hi3 == s.len(), s.len() <= 65535, number_of_code_sizes == s.len(),
        s.len() <= nsym, hf_shape(*self), self.largest_code_size == max, self.symbols@.len() == nsym,
        forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= max,
        forall|l: int| 0 <= l <= max ==> #[trigger] self.code_size_counts@[l] == hf_count(s, l),
        symbol_offsets@.len() == max + 1,
        forall|l: int| 1 <= l <= max ==> #[trigger] symbol_offsets@[l] == hf_offset(s, l) + hf_rank(s, it3 as int, l),
        forall|i: int| 0 <= i < it3 && s[i] != 0 ==> {
            let l = #[trigger] s[i] as int;
            &&& 0 <= hf_offset(s, l) + hf_rank(s, i, l) < nsym
            &&& self.symbols@[hf_offset(s, l) + hf_rank(s, i, l)] == i
        },
@@at loop 3 begin
let ghost sym0 = self.symbols@;
proof {
    let i0 = it3 - 1;
    let l0 = s[i0] as int;
    if l0 > 0 {
        lemma_hf_offset(s, l0);
        lemma_hf_rank_mono(s, i0, s.len() as int, l0);
        lemma_hf_rank(s, i0, l0);
        assert forall|i: int| 0 <= i < i0 && s[i] != 0 implies
            hf_offset(s, #[trigger] s[i] as int) + hf_rank(s, i, s[i] as int) != hf_offset(s, l0) + hf_rank(s, i0, l0) by {
            let l = s[i] as int;
            lemma_hf_rank(s, i, l);
            lemma_hf_rank_mono(s, i, s.len() as int, l);
            if l < l0 { lemma_hf_offset_mono(s, l, l0); }
            else if l > l0 { lemma_hf_offset_mono(s, l0, l); }
            else { lemma_hf_rank_mono(s, i, i0, l); }
        }
    }
}
@@fn HuffmanTree::decode_symbol
    requires exists|s: Seq<u8>| hf_tree(*self, s), exists|p: int| old(bitstream).at(p),
    ensures final(bitstream).same(*old(bitstream)),
        forall|p: int| #[trigger] old(bitstream).at(p) ==>
            match hf_reader(old(bitstream).data@, *self)(p) {
                Some(x) => r is Ok && r->Ok_0 == x.0 && final(bitstream).at(x.1),
                None => r is Err,
            },
@@at start
let ghost d = bitstream.data@;
let ghost b0 = *bitstream;
let ghost s = choose|s: Seq<u8>| hf_tree(*self, s);
let ghost p0 = choose|p: int| bitstream.at(p);
let ghost max = self.largest_code_size as int;
proof { lemma_hf_size(*self, s, 1); }
@@loop 0
    invariant
        hf_shape(*self),
        lo0 == 1, hi0 == max + 1, hf_tree(*self, s), b0.at(p0), bitstream.same(b0), d == b0.data@, b0 == *old(bitstream),
        max == self.largest_code_size,
        forall|p: int| #[trigger] b0.at(p) ==> bitstream.at(p + it0 - 1)
            && hf_reader(d, *self)(p) == hf_table(d, p + it0 - 1, *self, it0 - 1, huffman_code as int, first_huffman_code as int, first_index as int),
        first_huffman_code == hf_first(s, it0 as int), first_index == hf_offset(s, it0 as int),
        first_huffman_code <= 2 * huffman_code, 0 <= huffman_code < hf_pow(it0 - 1),
@@at loop 0 begin
let ghost c0 = huffman_code as int;
let ghost l = it0 - 1;
let ghost b1 = *bitstream;
proof {
    assert(bitstream.at(p0 + l - 1));
    lemma_hf_size(*self, s, l);
    lemma_hf_code(s, l, first_huffman_code as int, huffman_code);
}
@@at let:code_size_count before
let ghost b2 = *bitstream;
@@at let:code_size_count after
let ghost n = code_size_count as int;
proof {
    assert(b1.at(p0 + l - 1));
    lemma_hf_bit(d, p0 + l - 1);
    assert(n == hf_count(s, l));
    assert forall|p: int| #[trigger] b0.at(p) implies bitstream.at(p + l)
        && hf_reader(d, *self)(p) == hf_table_step(d, p + l, *self, l, huffman_code as int, first_huffman_code as int, first_index as int) by {
        assert(b1.at(p + l - 1));
        lemma_hf_bit(d, p + l - 1);
        lemma_hf_step(d, p + l - 1, *self, l - 1, c0, first_huffman_code as int, first_index as int);
    }
    if huffman_code - n < first_huffman_code {
        lemma_hf_lookup(*self, s, l, huffman_code - first_huffman_code);
    }
}
@@at loop 0 end
proof {
    assert forall|p: int| #[trigger] b0.at(p) implies bitstream.at(p + l)
        && hf_reader(d, *self)(p) == hf_table(d, p + l, *self, l, huffman_code as int, first_huffman_code as int, first_index as int) by {
        assert(n == self.code_size_counts@[l]);
    }
}
@@at end
proof { assert forall|p: int| #[trigger] b0.at(p) implies hf_reader(d, *self)(p) is None by { reveal(hf_table); } }
@@endfn
