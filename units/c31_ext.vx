@@include std.vx
@@include dstream.vx
@@include partition.vx
@@include sliceeq.vx
@@include num.vx
@@file keramics-formats/src/ext/constants.rs
@@item EXT_EXTENTS_HEADER_SIGNATURE
@@file keramics-formats/src/ext/block_range.rs
@@item ExtBlockRangeType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@item ExtBlockRange
@@fn ExtBlockRange::new
    ensures r == (ExtBlockRange { logical_block_number, physical_block_number, number_of_blocks, range_type }),
@@raw
spec fn le16(d: Seq<u8>, o: int) -> u16 { kx_u16_le(d.subrange(o, o + 2)) }
spec fn le32(d: Seq<u8>, o: int) -> u32 { kx_u32_le(d.subrange(o, o + 4)) }
// ---- the parts of an extents tree node ----
spec fn head_ok(s: Seq<u8>) -> bool { s.len() == 12 && s.subrange(0, 2) == seq![0x0au8, 0xf3u8] && le16(s, 6) <= 5 }
spec fn phys(hi: u16, lo: u32) -> u64 { (((hi as u64) << 32) | (lo as u64)) as u64 }
@@file keramics-formats/src/ext/extents_header.rs
@@item ExtExtentsHeader
@@fn ExtExtentsHeader::new
@@fn ExtExtentsHeader::read_data
    ensures r is Ok <==> head_ok(data@), r is Ok ==> final(self).number_of_entries == le16(data@, 2) && final(self).depth == le16(data@, 6),
@@at start
proof { assert(EXT_EXTENTS_HEADER_SIGNATURE@ =~= seq![0x0au8, 0xf3u8]); }
@@file keramics-formats/src/ext/extents_footer.rs
@@item ExtExtentsFooter
@@fn ExtExtentsFooter::new
@@fn ExtExtentsFooter::read_data
    ensures r is Ok <==> data@.len() == 4,
@@file keramics-formats/src/ext/extent_index.rs
@@item ExtExtentIndex
@@fn ExtExtentIndex::new
@@fn ExtExtentIndex::read_data
    ensures r is Ok <==> data@.len() == 12, r is Ok ==> final(self).physical_block_number == phys(le16(data@, 8), le32(data@, 4)),
@@file keramics-formats/src/ext/extent_descriptor.rs
@@item ExtExtentDescriptor
@@fn ExtExtentDescriptor::new
@@fn ExtExtentDescriptor::read_data
    ensures r is Ok <==> data@.len() == 12, r is Ok ==> final(self).logical_block_number == le32(data@, 0) && final(self).number_of_blocks == le16(data@, 4) && final(self).physical_block_number == phys(le16(data@, 6), le32(data@, 8)),
@@raw
// ---- an extents tree ----
// the block ranges so far, and the logical block that comes after them
struct St { v: Seq<ExtBlockRange>, at: int }
spec fn part(s: Seq<u8>, k: int) -> Seq<u8> { s.subrange(12 + 12 * k, 24 + 12 * k) }
spec fn sparse(from: int, n: int) -> ExtBlockRange { ExtBlockRange { logical_block_number: from as u64, physical_block_number: 0, number_of_blocks: n as u64, range_type: ExtBlockRangeType::Sparse } }
// the range of an extent: more than 32768 blocks stands for that many less, which were not written
spec fn xrange(e: Seq<u8>) -> ExtBlockRange {
    let n = le16(e, 4);
    let p = phys(le16(e, 6), le32(e, 8));
    ExtBlockRange {
        logical_block_number: le32(e, 0) as u64, physical_block_number: p,
        number_of_blocks: (if n > 32768 { n - 32768 } else { n as int }) as u64,
        range_type: if p == 0 || n > 32768 { ExtBlockRangeType::Sparse } else { ExtBlockRangeType::InFile },
    }
}
// an extent comes after a hole when it does not start where the previous one ends
spec fn add_extent(st: St, e: Seq<u8>) -> St {
    let x = xrange(e);
    let v = if x.logical_block_number > st.at { st.v.push(sparse(st.at, x.logical_block_number - st.at)) } else { st.v };
    St { v: v.push(x), at: x.logical_block_number + x.number_of_blocks }
}
spec fn leaf(s: Seq<u8>, k: int, st: St) -> St decreases k
{ if k <= 0 { st } else { add_extent(leaf(s, k - 1, st), part(s, k - 1)) } }
spec fn node(c: Seq<u8>, bs: int, s: Seq<u8>, limit: int, st: St) -> Option<St> decreases limit, 0int
{
    let h = s.subrange(0, 12);
    let d = le16(h, 6) as int;
    let n = le16(h, 2) as int;
    if !head_ok(h) || d >= limit || 12 + 12 * n > s.len() { None }
    else if d == 0 { Some(leaf(s, n, st)) }
    else { kids(c, bs, s, d, n, st) }
}
spec fn kids(c: Seq<u8>, bs: int, s: Seq<u8>, d: int, k: int, st: St) -> Option<St> decreases d, k
{
    if k <= 0 { Some(st) } else {
        let e = part(s, k - 1);
        let o = phys(le16(e, 8), le32(e, 4)) * bs;
        match kids(c, bs, s, d, k - 1, st) {
            Some(t) => if o + bs <= c.len() && d >= 0 { node(c, bs, c.subrange(o, o + bs), d, t) } else { None },
            None => None,
        }
    }
}
proof fn lemma_kids(c: Seq<u8>, bs: int, s: Seq<u8>, d: int, k: int, n: int, st: St)
    requires kids(c, bs, s, d, k, st) is None, 0 <= k <= n
    ensures kids(c, bs, s, d, n, st) is None
    decreases n
{ if k < n { lemma_kids(c, bs, s, d, k, n - 1, st); } }
spec fn state(v: Seq<ExtBlockRange>, at: u64) -> St { St { v, at: at as int } }
// the ranges of a whole tree for a file of n blocks: a hole comes after the last extent
spec fn extents(c: Seq<u8>, bs: int, s: Seq<u8>, n: int) -> Option<Seq<ExtBlockRange>> {
    match node(c, bs, s, 6, St { v: Seq::empty(), at: 0 }) {
        Some(st) => Some(if st.at < n { st.v.push(sparse(st.at, n - st.at)) } else { st.v }),
        None => None,
    }
}
@@file keramics-formats/src/ext/extents_tree.rs
@@item ExtExtentsTree
@@fn ExtExtentsTree::new
    ensures r.block_size == block_size, r.number_of_blocks == number_of_blocks,
@@fn ExtExtentsTree::read_data_reference
    requires old(block_ranges)@.len() == 0, data_reference@.len() >= 12, old(self).block_size >= 12,
    ensures
        ({
            let want = extents(data_stream.content(), old(self).block_size as int, data_reference@, old(self).number_of_blocks as int);
            &&& r is Ok ==> want is Some && final(block_ranges)@ == want->0
            &&& data_stream.sound() && data_stream.content().len() <= u64::MAX && want is Some ==> r is Ok
        }),
@@at start
proof { assert(block_ranges@ =~= Seq::empty()); }
@@fn ExtExtentsTree::read_node_data
    requires data@.len() >= 12, old(self).block_size >= 12,
    ensures
        *final(self) == *old(self),
        ({
            let want = node(data_stream.content(), old(self).block_size as int, data@, parent_depth as int, state(old(block_ranges)@, *old(logical_block_number)));
            &&& r is Ok ==> want is Some && state(final(block_ranges)@, *final(logical_block_number)) == want->0
            &&& data_stream.sound() && data_stream.content().len() <= u64::MAX && want is Some ==> r is Ok
        }),
    decreases parent_depth, 0int
@@at start
    let ghost c = data_stream.content();
    let ghost bs = self.block_size as int;
    let ghost s = data@;
    let ghost st = state(block_ranges@, *logical_block_number);
    let ghost want = node(c, bs, s, parent_depth as int, st);
@@loop 0
    invariant
        *self == *old(self), self.block_size == bs, bs >= 12, data@ == s, c == data_stream.content(), data_size == s.len(), data_offset == 12 + 12 * it0, hi0 == extents_header.number_of_entries, 12 + 12 * hi0 <= s.len(),
        0 < extents_header.depth < parent_depth, want == kids(c, bs, s, extents_header.depth as int, hi0 as int, st),
        kids(c, bs, s, extents_header.depth as int, it0 as int, st) == Some(state(block_ranges@, *logical_block_number)),
@@at let:data_end_offset:0 after
    proof {
        assert(data@.subrange(data_offset as int, data_end_offset as int) =~= part(s, it0 - 1));
        if kids(c, bs, s, extents_header.depth as int, it0 as int, st) is None { lemma_kids(c, bs, s, extents_header.depth as int, it0 as int, hi0 as int, st); }
    }
@@loop 1
    invariant
        *self == *old(self), data@ == s, data_size == s.len(), data_offset == 12 + 12 * it1, hi1 == extents_header.number_of_entries, 12 + 12 * hi1 <= s.len(),
        leaf(s, it1 as int, st) == state(block_ranges@, *logical_block_number),
@@at let:data_end_offset:1 after
    proof { assert(data@.subrange(data_offset as int, data_end_offset as int) =~= part(s, it1 - 1)); }
@@fn ExtExtentsTree::read_node_at_position
    requires position is Start, old(self).block_size >= 12,
    ensures
        *final(self) == *old(self),
        ({
            let c = data_stream.content();
            let bs = old(self).block_size as int;
            let o = (match position { SeekFrom::Start(o) => o, _ => 0 }) as int;
            let want = node(c, bs, c.subrange(o, o + bs), parent_depth as int, state(old(block_ranges)@, *old(logical_block_number)));
            &&& r is Ok ==> o + bs <= c.len() && want is Some && state(final(block_ranges)@, *final(logical_block_number)) == want->0
            &&& data_stream.sound() && o + bs <= c.len() <= u64::MAX && want is Some ==> r is Ok
        }),
    decreases parent_depth, 1int
@@at let:offset after
proof { let p = (match position { SeekFrom::Start(o) => o, _ => 0 }) as int; assert(data@ =~= data_stream.content().subrange(p, p + self.block_size)); }
@@raw
// ---- block numbers: the pointer of each block of a file, directly or through up to three levels ----
spec fn pw(p: int, d: int) -> int decreases d { if d <= 0 { 1 } else { p * pw(p, d - 1) } }
spec fn blk(c: Seq<u8>, bs: int, b: int) -> Seq<u8> { c.subrange(b * bs, b * bs + bs) }
spec fn ptr(s: Seq<u8>, i: int) -> int { le32(s, 4 * i) as int }
// the pointer of block k below the pointers s, each d levels above the blocks; 0 is a hole
spec fn below(c: Seq<u8>, bs: int, s: Seq<u8>, d: int, k: int) -> int decreases d, 1int
{ let w = pw(bs / 4, d); under(c, bs, ptr(s, k / w), d, k % w) }
spec fn under(c: Seq<u8>, bs: int, b: int, d: int, k: int) -> int decreases d, 0int
{ if b == 0 || d <= 0 { b } else { below(c, bs, blk(c, bs, b), d - 1, k) } }
// of the first i pointers, those needed for the first n blocks name blocks of the image
spec fn there(c: Seq<u8>, bs: int, s: Seq<u8>, d: int, i: int, n: int) -> bool decreases d, i
{
    i <= 0 || {
        let o = (i - 1) * pw(bs / 4, d);
        let b = ptr(s, i - 1);
        &&& there(c, bs, s, d, i - 1, n)
        &&& o >= n || b == 0 || d <= 0 || (b * bs + bs <= c.len() && there(c, bs, blk(c, bs, b), d - 1, bs / 4, n - o))
    }
}
proof fn lemma_there(c: Seq<u8>, bs: int, s: Seq<u8>, d: int, i: int, m: int, n: int)
    requires !there(c, bs, s, d, i, n), 0 <= i <= m
    ensures !there(c, bs, s, d, m, n)
    decreases m
{ if i < m { lemma_there(c, bs, s, d, i, m - 1, n); } }
proof fn lemma_there_rest(c: Seq<u8>, bs: int, s: Seq<u8>, d: int, i: int, m: int, n: int)
    requires there(c, bs, s, d, i, n), i <= m, i * pw(bs / 4, d) >= n, bs >= 4
    ensures there(c, bs, s, d, m, n)
    decreases m - i
{
    if i < m {
        lemma_pw(bs / 4, d);
        assert((i + 1) * pw(bs / 4, d) == i * pw(bs / 4, d) + pw(bs / 4, d)) by (nonlinear_arith);
        assert(i + 1 <= 0 || i >= 0);
        lemma_there_rest(c, bs, s, d, i + 1, m, n);
    }
}
proof fn lemma_pw(p: int, d: int)
    requires p >= 1
    ensures pw(p, d) >= 1, d >= 0 ==> pw(p, d + 1) == p * pw(p, d)
    decreases d
{
    if d > 0 { lemma_pw(p, d - 1); let x = pw(p, d - 1); assert(p * x >= 1) by (nonlinear_arith) requires p >= 1, x >= 1; }
}
proof fn lemma_clip(x: int, p: int, m: int)
    requires x >= 1, p >= 1, m >= 1
    ensures clip(clip(x, m) * p, m) == clip(p * x, m)
{ assert(x >= m ==> p * x >= m && m * p >= m) by (nonlinear_arith) requires x >= 1, p >= 1, m >= 1; assert(x * p == p * x) by (nonlinear_arith); }
spec fn clip(a: int, n: int) -> int { if a < n { a } else { n } }
// ranges that follow each other, from block 0 up to the block at
spec fn follows(v: Seq<ExtBlockRange>, i: int) -> bool { v[i].logical_block_number + v[i].number_of_blocks == v[i + 1].logical_block_number }
spec fn fine(x: ExtBlockRange) -> bool { x.number_of_blocks > 0 && (x.range_type == ExtBlockRangeType::InFile ==> x.physical_block_number > 0 && x.physical_block_number + x.number_of_blocks <= 0x1_0000_0000) }
#[verifier::opaque]
spec fn lined(v: Seq<ExtBlockRange>, at: int) -> bool {
    &&& v.len() == 0 ==> at == 0
    &&& v.len() > 0 ==> v[0].logical_block_number == 0 && v.last().logical_block_number + v.last().number_of_blocks == at
    &&& forall|i: int| 0 <= i < v.len() - 1 ==> #[trigger] follows(v, i)
    &&& forall|i: int| 0 <= i < v.len() ==> fine(#[trigger] v[i])
}
// the block that the ranges give for a block of the file: 0 is a hole
spec fn rat(v: Seq<ExtBlockRange>, k: int) -> int decreases v.len()
{
    if v.len() == 0 { 0 }
    else if k >= v.last().logical_block_number { if v.last().range_type == ExtBlockRangeType::Sparse { 0 } else { v.last().physical_block_number + k - v.last().logical_block_number } }
    else { rat(v.drop_last(), k) }
}
proof fn lemma_below(c: Seq<u8>, bs: int, s: Seq<u8>, d: int, j: int, q: int)
    requires bs >= 4, 0 <= q < pw(bs / 4, d), 0 <= j
    ensures below(c, bs, s, d, j * pw(bs / 4, d) + q) == under(c, bs, ptr(s, j), d, q)
{
    let w = pw(bs / 4, d);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(j * w + q, w, j, q);
}
// one more range
proof fn lemma_push(v: Seq<ExtBlockRange>, at: int, x: ExtBlockRange)
    requires lined(v, at), x.logical_block_number == at, fine(x)
    ensures
        lined(v.push(x), at + x.number_of_blocks), forall|k: int| k < at ==> #[trigger] rat(v.push(x), k) == rat(v, k),
        forall|k: int| k >= at ==> #[trigger] rat(v.push(x), k) == (if x.range_type == ExtBlockRangeType::Sparse { 0 } else { x.physical_block_number + k - at }),
{
    reveal(lined);
    let u = v.push(x);
    assert(u.drop_last() =~= v);
    assert(u.last() == x);
    assert forall|i: int| 0 <= i < u.len() - 1 implies #[trigger] follows(u, i) by {
        if i < v.len() - 1 { assert(follows(v, i)); assert(u[i] == v[i] && u[i + 1] == v[i + 1]); } else { assert(u[i] == v.last()); }
    }
}
// a longer last range
proof fn lemma_grow(v: Seq<ExtBlockRange>, at: int, u: Seq<ExtBlockRange>, n: int)
    requires
        lined(v, at), v.len() > 0, n > 0, v.last().number_of_blocks + n <= u64::MAX,
        u =~= v.update(v.len() - 1, ExtBlockRange { number_of_blocks: (v.last().number_of_blocks + n) as u64, ..v.last() }),
        v.last().range_type == ExtBlockRangeType::InFile ==> v.last().physical_block_number + v.last().number_of_blocks + n <= 0x1_0000_0000,
    ensures
        lined(u, at + n), forall|k: int| #[trigger] rat(u, k) == rat(v, k),
{
    reveal(lined);
    assert(u.drop_last() =~= v.drop_last());
    assert(fine(v.last()));
    assert forall|i: int| 0 <= i < u.len() - 1 implies #[trigger] follows(u, i) by { assert(follows(v, i)); assert(u[i] == v[i]); }
    assert forall|i: int| 0 <= i < u.len() implies fine(#[trigger] u[i]) by { assert(fine(v[i])); }
    assert forall|k: int| #[trigger] rat(u, k) == rat(v, k) by { assert(u.last().logical_block_number == v.last().logical_block_number); }
}
proof fn lemma_lined_last(v: Seq<ExtBlockRange>, at: int)
    requires lined(v, at), v.len() > 0
    ensures fine(v.last()), v.last().logical_block_number + v.last().number_of_blocks == at, forall|k: int| k >= at ==> #[trigger] rat(v, k) == (if v.last().range_type == ExtBlockRangeType::Sparse { 0 } else { v.last().physical_block_number + v.last().number_of_blocks + k - at }),
{ reveal(lined); assert(fine(v[v.len() - 1])); }
@@file keramics-formats/src/ext/block_numbers_tree.rs
@@item ExtBlockNumbersTree
@@fn ExtBlockNumbersTree::new
    ensures r.block_size == block_size, r.number_of_blocks == number_of_blocks, r.number_of_blocks_per_block == block_size / 4,
@@raw
proof fn lemma_direct(c: Seq<u8>, bs: int, s: Seq<u8>, i: int, n: int)
    requires i >= 0
    ensures there(c, bs, s, 0, i, n)
    decreases i
{ if i > 0 { lemma_direct(c, bs, s, i - 1, n); } }
proof fn lemma_dir(c: Seq<u8>, bs: int, s: Seq<u8>, k: int)
    requires s.len() == 60, 0 <= k < 12, bs >= 4
    ensures below(c, bs, s.subrange(0, 48), 0, k) == ptr(s, k)
{ assert(pw(bs / 4, 0) == 1); assert(k / 1 == k); assert(s.subrange(0, 48).subrange(4 * k, 4 * k + 4) =~= s.subrange(4 * k, 4 * k + 4)); }
proof fn lemma_sub(c: Seq<u8>, bs: int, s: Seq<u8>, d: int, q: int)
    requires s.len() == 60, 1 <= d <= 3, 0 <= q < pw(bs / 4, d), bs >= 4
    ensures below(c, bs, s.subrange(44 + 4 * d, 48 + 4 * d), d, q) == under(c, bs, ptr(s, 11 + d), d, q)
{
    let t = s.subrange(44 + 4 * d, 48 + 4 * d);
    lemma_below(c, bs, t, d, 0, q);
    assert(t.subrange(0, 4) =~= s.subrange(4 * (11 + d), 4 * (11 + d) + 4));
}
// the pointer of block k of a file: 12 pointers, then one, two and three levels of them
spec fn numbered(c: Seq<u8>, bs: int, s: Seq<u8>, k: int) -> int {
    let p = bs / 4;
    let q = 12 + p;
    let r = q + pw(p, 2);
    if k < 12 { ptr(s, k) }
    else if k < q { under(c, bs, ptr(s, 12), 1, k - 12) }
    else if k < r { under(c, bs, ptr(s, 13), 2, k - q) }
    else if k < r + pw(p, 3) { under(c, bs, ptr(s, 14), 3, k - r) }
    else { 0 }
}
spec fn up_to(bs: int, d: int) -> int { let p = bs / 4; if d <= 0 { 12 } else if d == 1 { 12 + p } else if d == 2 { 12 + p + pw(p, 2) } else { 12 + p + pw(p, 2) + pw(p, 3) } }
spec fn one_there(c: Seq<u8>, bs: int, s: Seq<u8>, d: int, n: int) -> bool {
    there(c, bs, s.subrange(44 + 4 * d, 48 + 4 * d), d, 1, n - clip(up_to(bs, d - 1), n))
}
spec fn numbered_there(c: Seq<u8>, bs: int, s: Seq<u8>, n: int) -> bool { one_there(c, bs, s, 1, n) && one_there(c, bs, s, 2, n) && one_there(c, bs, s, 3, n) }
@@fn ExtBlockNumbersTree::read_data_reference
    requires
        data_reference@.len() == 60, old(block_ranges)@.len() == 0, old(self).block_size >= 4, old(self).block_size % 4 == 0, old(self).number_of_blocks_per_block == old(self).block_size / 4,
    ensures
        ({
            let c = data_stream.content();
            let bs = old(self).block_size as int;
            let n = old(self).number_of_blocks as int;
            &&& r is Ok ==> numbered_there(c, bs, data_reference@, n) && lined(final(block_ranges)@, n) && forall|k: int| 0 <= k < n ==> #[trigger] rat(final(block_ranges)@, k) == numbered(c, bs, data_reference@, k)
            &&& data_stream.sound() && c.len() <= u64::MAX && numbered_there(c, bs, data_reference@, n) ==> r is Ok
        }),
@@at start
    let ghost c = data_stream.content();
    let ghost bs = self.block_size as int;
    let ghost n = self.number_of_blocks as int;
    let ghost s = data_reference@;
    let ghost mut vp = block_ranges@;
    let ghost mut lp: int = 0;
    proof { reveal(lined); lemma_direct(c, bs, s.subrange(0, 48), 12, n); lemma_pw(bs / 4, 0); lemma_pw(bs / 4, 1); lemma_pw(bs / 4, 2); }
@@at match:0 before
    proof { assert(data_reference@.subrange(0, 48) =~= s.subrange(0, 48)); }
@@at match:0 after
    proof {
        assert(12 * pw(bs / 4, 0) == 12);
        assert(logical_block_number == clip(12, n));
        assert forall|k: int| 0 <= k < logical_block_number implies #[trigger] rat(block_ranges@, k) == numbered(c, bs, s, k) by { lemma_dir(c, bs, s, k); }
    }
@@at match:1 before
    proof { vp = block_ranges@; lp = logical_block_number as int; }
@@at match:1 after
    proof {
        assert(1 * pw(bs / 4, 1) == pw(bs / 4, 1));
        assert(logical_block_number == clip(up_to(bs, 1), n));
        assert forall|k: int| 0 <= k < logical_block_number implies #[trigger] rat(block_ranges@, k) == numbered(c, bs, s, k) by {
            if k >= lp { lemma_sub(c, bs, s, 1, k - lp); } else { assert(rat(block_ranges@, k) == rat(vp, k)); }
        }
    }
@@at match:2 before
    proof { vp = block_ranges@; lp = logical_block_number as int; }
@@at match:2 after
    proof {
        assert(1 * pw(bs / 4, 2) == pw(bs / 4, 2));
        assert(logical_block_number == clip(up_to(bs, 2), n));
        assert forall|k: int| 0 <= k < logical_block_number implies #[trigger] rat(block_ranges@, k) == numbered(c, bs, s, k) by {
            if k >= lp { lemma_sub(c, bs, s, 2, k - lp); } else { assert(rat(block_ranges@, k) == rat(vp, k)); }
        }
    }
@@at match:3 before
    proof { vp = block_ranges@; lp = logical_block_number as int; }
@@at match:3 after
    proof {
        assert(1 * pw(bs / 4, 3) == pw(bs / 4, 3));
        assert(logical_block_number == clip(up_to(bs, 3), n));
        assert forall|k: int| 0 <= k < logical_block_number implies #[trigger] rat(block_ranges@, k) == numbered(c, bs, s, k) by {
            if k >= lp { lemma_sub(c, bs, s, 3, k - lp); } else { assert(rat(block_ranges@, k) == rat(vp, k)); }
        }
    }
@@at if:0 before
    proof { vp = block_ranges@; lp = logical_block_number as int; }
@@at if:0 after
    proof {
        if lp < n {
            assert(block_ranges@ =~= vp.push(block_ranges@.last()));
            lemma_push(vp, lp, block_ranges@.last());
        }
    }
@@fn ExtBlockNumbersTree::read_node_data
    requires
        data@.len() % 4 == 0, old(self).block_size >= 4, old(self).block_size % 4 == 0, old(self).number_of_blocks_per_block == old(self).block_size / 4,
        *old(logical_block_number) <= old(self).number_of_blocks, lined(old(block_ranges)@, *old(logical_block_number) as int),
    ensures
        *final(self) == *old(self),
        ({
            let c = data_stream.content();
            let bs = old(self).block_size as int;
            let n = old(self).number_of_blocks as int;
            let a = *old(logical_block_number) as int;
            let m = data@.len() / 4;
            let v = final(block_ranges)@;
            &&& r is Ok ==> {
                &&& there(c, bs, data@, depth as int, m as int, n - a)
                &&& *final(logical_block_number) == clip(a + m * pw(bs / 4, depth as int), n)
                &&& lined(v, *final(logical_block_number) as int)
                &&& forall|k: int| k < a ==> #[trigger] rat(v, k) == rat(old(block_ranges)@, k)
                &&& forall|k: int| a <= k < *final(logical_block_number) ==> #[trigger] rat(v, k) == below(c, bs, data@, depth as int, k - a)
            }
            &&& data_stream.sound() && c.len() <= u64::MAX && there(c, bs, data@, depth as int, m as int, n - a) ==> r is Ok
        }),
    decreases depth, 2int
@@at start
    let ghost c = data_stream.content();
    let ghost bs = self.block_size as int;
    let ghost n = self.number_of_blocks as int;
    let ghost a = *logical_block_number as int;
    let ghost s = data@;
    let ghost d = depth as int;
    let ghost w = pw(bs / 4, d);
    let ghost v0 = block_ranges@;
    let ghost mut v1 = block_ranges@;
    let ghost mut b1 = a;
    let ghost mut j: int = 0;
    proof { lemma_pw(bs / 4, d); lemma_pw(bs / 4, d - 1); }
@@isolate
@@loop 0
    invariant
        *self == *old(self), c == data_stream.content(), bs == self.block_size, n == self.number_of_blocks, s == data@, d == depth, w == pw(bs / 4, d), w >= 1, d > 0 ==> w == (bs / 4) * pw(bs / 4, d - 1), bs >= 4, bs % 4 == 0, self.number_of_blocks_per_block == bs / 4,
        a == *old(logical_block_number), v0 == old(block_ranges)@, a <= n, lo0 == 0, hi0 == s.len(), s.len() % 4 == 0, st0 == 4, it0 % 4 == 0, data_size == s.len(),
        *logical_block_number == clip(a + (it0 as int / 4) * w, n), lined(block_ranges@, *logical_block_number as int), there(c, bs, s, d, it0 as int / 4, n - a),
        forall|k: int| k < a ==> #[trigger] rat(block_ranges@, k) == rat(v0, k),
        forall|k: int| a <= k < *logical_block_number ==> #[trigger] rat(block_ranges@, k) == below(c, bs, s, d, k - a),
    ensures
        it0 == hi0 || *logical_block_number == n,
@@at loop 0 begin
    proof {
        j = it0 as int / 4 - 1; v1 = block_ranges@; b1 = *logical_block_number as int;
        assert(data_offset == 4 * j && 0 <= j);
        assert((j + 1) * w == j * w + w) by (nonlinear_arith);
        assert(there(c, bs, s, d, j, n - a));
    }
@@at let:block_number after
    proof {
        assert(b1 == a + j * w);
        assert(block_number as int * bs <= u64::MAX) by (nonlinear_arith) requires 0 <= block_number <= u32::MAX, 0 <= bs <= u32::MAX;
        assert(block_number == ptr(s, j)) by { assert(data@.subrange(data_offset as int, data_offset + 4) =~= s.subrange(4 * j, 4 * j + 4)); }
        assert forall|q: int| 0 <= q < w implies #[trigger] below(c, bs, s, d, j * w + q) == under(c, bs, block_number as int, d, q) by { lemma_below(c, bs, s, d, j, q); }
    }
@@at match:0 before
    proof { if !there(c, bs, s, d, j + 1, n - a) { lemma_there(c, bs, s, d, j + 1, s.len() as int / 4, n - a); } }
@@at match:0 after
    proof {
        assert forall|k: int| a <= k < *logical_block_number implies #[trigger] rat(block_ranges@, k) == below(c, bs, s, d, k - a) by {
            if k >= b1 { assert(k - a == j * w + (k - b1)); assert(below(c, bs, s, d, j * w + (k - b1)) == under(c, bs, block_number as int, d, k - b1)); } else { assert(rat(block_ranges@, k) == rat(v1, k)); }
        }
    }
@@loop 1
    invariant number_of_blocks == clip(pw(bs / 4, it1 as int), u64::MAX as int), self.number_of_blocks_per_block == bs / 4, bs >= 4,
@@at loop 1 end
    proof { lemma_pw(bs / 4, it1 - 1); lemma_clip(pw(bs / 4, it1 - 1), bs / 4, u64::MAX as int); }
@@at let:number_of_ranges after
    proof {
        assert(number_of_blocks == clip(w, n - b1));
        assert(block_number != 0 ==> number_of_blocks == 1);
        if v1.len() > 0 { lemma_lined_last(v1, b1); }
    }
@@at loop 0 end
    proof {
        if create_new_block_range {
            assert(block_ranges@ =~= v1.push(block_ranges@.last()));
            lemma_push(v1, b1, block_ranges@.last());
        } else {
            lemma_grow(v1, b1, block_ranges@, number_of_blocks as int);
        }
        assert forall|k: int| a <= k < *logical_block_number implies #[trigger] rat(block_ranges@, k) == below(c, bs, s, d, k - a) by {
            if k >= b1 { assert(k - a == j * w + (k - b1)); assert(below(c, bs, s, d, j * w + (k - b1)) == under(c, bs, block_number as int, d, k - b1)); } else { assert(rat(block_ranges@, k) == rat(v1, k)); }
        }
    }
@@at loop 0 after
    proof {
        if *logical_block_number == n { 
            assert(a + (it0 as int / 4) * w >= n);
            assert(s.len() as int / 4 * w >= it0 as int / 4 * w) by (nonlinear_arith) requires s.len() as int / 4 >= it0 as int / 4, w >= 1;
            lemma_there_rest(c, bs, s, d, it0 as int / 4, s.len() as int / 4, n - a);
        }
    }
@@fn ExtBlockNumbersTree::read_node_at_position
    requires
        position is Start, depth > 0, old(self).block_size >= 4, old(self).block_size % 4 == 0, old(self).number_of_blocks_per_block == old(self).block_size / 4,
        *old(logical_block_number) <= old(self).number_of_blocks, lined(old(block_ranges)@, *old(logical_block_number) as int),
    ensures
        *final(self) == *old(self),
        ({
            let c = data_stream.content();
            let bs = old(self).block_size as int;
            let n = old(self).number_of_blocks as int;
            let a = *old(logical_block_number) as int;
            let o = (match position { SeekFrom::Start(o) => o, _ => 0 }) as int;
            let s = c.subrange(o, o + bs);
            let v = final(block_ranges)@;
            &&& r is Ok ==> {
                &&& o + bs <= c.len() && there(c, bs, s, depth - 1, bs / 4, n - a)
                &&& *final(logical_block_number) == clip(a + (bs / 4) * pw(bs / 4, depth - 1), n)
                &&& lined(v, *final(logical_block_number) as int)
                &&& forall|k: int| k < a ==> #[trigger] rat(v, k) == rat(old(block_ranges)@, k)
                &&& forall|k: int| a <= k < *final(logical_block_number) ==> #[trigger] rat(v, k) == below(c, bs, s, depth - 1, k - a)
            }
            &&& data_stream.sound() && o + bs <= c.len() <= u64::MAX && there(c, bs, s, depth - 1, bs / 4, n - a) ==> r is Ok
        }),
    decreases depth, 1int
@@at let:offset after
proof { let p = (match position { SeekFrom::Start(o) => o, _ => 0 }) as int; assert(data@ =~= data_stream.content().subrange(p, p + self.block_size)); }
@@raw
// ---- an inode: which of the two maps it has, and for how many blocks ----
#[verifier::external_body]
pub struct DateTime { x: u8 }
#[verifier::external_body]
pub struct ExtAttribute { x: u8 }
spec fn blocks_of(i: ExtInode, bs: int) -> int { let d = if i.data_size as int % bs == 0 { i.data_size as int / bs } else { i.data_size as int / bs + 1 }; if d < i.number_of_blocks { i.number_of_blocks as int } else { d } }
@@file keramics-formats/src/ext/constants.rs
@@item EXT_INODE_FLAG_HAS_EXTENTS
@@item EXT_INODE_FLAG_INLINE_DATA
@@item EXT_FILE_MODE_TYPE_CHARACTER_DEVICE
@@item EXT_FILE_MODE_TYPE_BLOCK_DEVICE
@@item EXT_FILE_MODE_TYPE_SYMBOLIC_LINK
@@file keramics-formats/src/ext/inode.rs
@@item ExtInode
@@fn ExtInode::read_data_reference
    requires old(self).block_ranges@.len() == 0, block_size >= 12, block_size % 4 == 0,
    ensures
        *final(self) == (ExtInode { block_ranges: final(self).block_ranges, ..*old(self) }),
        ({
            let c = data_stream.content();
            let bs = block_size as int;
            let s = old(self).data_reference@;
            let n = blocks_of(*old(self), bs);
            let v = final(self).block_ranges@;
            if old(self).file_mode & 0xf000 == 0x2000 || old(self).file_mode & 0xf000 == 0x6000 {
                // a device has no blocks
                r is Ok && v.len() == 0
            } else if format_version == 4 && old(self).flags & 0x80000 != 0 {
                &&& r is Ok ==> extents(c, bs, s, n) is Some && v == extents(c, bs, s, n)->0
                &&& data_stream.sound() && c.len() <= u64::MAX && extents(c, bs, s, n) is Some ==> r is Ok
            } else {
                &&& r is Ok ==> numbered_there(c, bs, s, n) && lined(v, n) && forall|k: int| 0 <= k < n ==> #[trigger] rat(v, k) == numbered(c, bs, s, k)
                &&& data_stream.sound() && c.len() <= u64::MAX && numbered_there(c, bs, s, n) ==> r is Ok
            }
        }),
