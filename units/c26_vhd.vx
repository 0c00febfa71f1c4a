@@opt default
@@include std.vx
@@include dstream.vx
@@include partition.vx
@@include sliceeq.vx
@@include uuidle.vx
@@include ucs2be.vx
@@include blocktree.vx proved=c25_tree
@@include diskimage.vx
@@raw
// a lock around another disk: its content is what its reads yield (a VhdFile is a DataStream)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct RwLock<T> { _p: core::marker::PhantomData<T> }
impl<T> RwLock<T> {
    uninterp spec fn content(&self) -> Seq<u8>;
    uninterp spec fn sound(&self) -> bool;
    uninterp spec fn value(&self) -> T;
    #[verifier::external_body]
    fn write(&self) -> (r: Result<KxStreamGuard, KxPoison>)
        ensures self.sound() ==> r is Ok && r->Ok_0.sound(),
            r is Ok ==> r->Ok_0.content() == self.content() && self.content().len() <= u64::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    fn read(&self) -> (r: Result<&T, KxPoison>)
        ensures self.sound() ==> r is Ok, r is Ok ==> *r->Ok_0 == self.value(),
    { unimplemented!() }
}
spec fn uuid_be(d: Seq<u8>) -> Uuid {
    Uuid { part1: kx_u32_be(d), part2: kx_u16_be(d.skip(4)), part3: kx_u16_be(d.skip(6)), part4: kx_u16_be(d.skip(8)), part5: (kx_u16_be(d.skip(10)) * 0x1_0000_0000 + kx_u32_be(d.skip(12))) as u64 }
}
@@file keramics-types/src/uuid.rs
@@fn Uuid::from_be_bytes
    requires data@.len() >= 16,
    ensures r == uuid_be(data@),
@@at start
proof {
    let t = data@;
    lemma_part5(kx_u16_be(t.skip(10)), kx_u32_be(t.skip(12)));
}
@@file keramics-formats/src/vhd/constants.rs
@@item VHD_DISK_TYPE_FIXED
@@item VHD_DISK_TYPE_DYNAMIC
@@item VHD_DISK_TYPE_DIFFERENTIAL
@@item VHD_DISK_TYPES
@@item VHD_DYNAMIC_DISK_HEADER_SIGNATURE
@@item VHD_FILE_FOOTER_SIGNATURE
@@raw
#[verifier::external_body]
fn kx_contains(s: [u32; 3], x: &u32) -> (r: bool)
    ensures r == s@.contains(*x),
{ s.contains(x) }
@@mapmethod contains kx_contains
@@file keramics-formats/src/vhd/enums.rs
@@item VhdDiskType #[derive(PartialEq, Eq, Structural)]
@@file keramics-formats/src/vhd/file_footer.rs
@@item VhdFileFooter
@@raw
spec fn footer_ok(s: Seq<u8>) -> bool {
    &&& s.len() == 512 && s.subrange(0, 8) == seq![0x63u8, 0x6fu8, 0x6eu8, 0x65u8, 0x63u8, 0x74u8, 0x69u8, 0x78u8]
    &&& be32(s, 12) == 0x00010000 && 2 <= be32(s, 60) <= 4
    &&& be32(s, 60) == 2 ==> be64(s, 16) == 0xffff_ffff_ffff_ffff
    &&& be32(s, 60) != 2 ==> be64(s, 16) >= 512
}
spec fn footer_is(f: VhdFileFooter, s: Seq<u8>) -> bool {
    f.next_offset == be64(s, 16) && f.data_size == be64(s, 48) && f.disk_type == be32(s, 60) && f.identifier == uuid_be(s.subrange(68, 84))
}
@@fn VhdFileFooter::new
@@fn VhdFileFooter::read_data
    ensures r is Ok <==> footer_ok(data@), r is Ok ==> footer_is(*final(self), data@),
@@at start
proof {
    assert(VHD_FILE_FOOTER_SIGNATURE@ =~= seq![0x63u8, 0x6fu8, 0x6eu8, 0x65u8, 0x63u8, 0x74u8, 0x69u8, 0x78u8]);
    assert(VHD_DISK_TYPES@ =~= seq![2u32, 3u32, 4u32]);
}
@@fn VhdFileFooter::read_at_position
    requires !(position is Current),
    ensures
        ({
            let d = data_stream.content();
            let p = kx_target(position, 0, d.len() as int);
            &&& r is Ok ==> d.len() <= u64::MAX && 0 <= p <= d.len() - 512 && footer_ok(d.subrange(p, p + 512)) && footer_is(*final(self), d.subrange(p, p + 512))
            &&& data_stream.sound() && 0 <= p <= d.len() - 512 && footer_ok(d.subrange(p, p + 512)) ==> r is Ok
        }),
@@at let:offset after
proof {
    let d0 = data_stream.content();
    let p = kx_target(position, 0, d0.len() as int);
    assert(data@ =~= d0.subrange(p, p + 512));
}
@@file keramics-formats/src/vhd/dynamic_disk_header.rs
@@item VhdDynamicDiskHeader
@@raw
spec fn header_ok(s: Seq<u8>) -> bool {
    &&& s.len() == 1024 && s.subrange(0, 8) == seq![0x63u8, 0x78u8, 0x73u8, 0x70u8, 0x61u8, 0x72u8, 0x73u8, 0x65u8]
    &&& be32(s, 24) == 0x00010000 && be64(s, 8) == 0xffff_ffff_ffff_ffff
    &&& be32(s, 32) > 0 && be32(s, 32) % 512 == 0
}
spec fn header_is(h: VhdDynamicDiskHeader, s: Seq<u8>) -> bool {
    &&& h.block_table_offset == be64(s, 16) && h.number_of_blocks == be32(s, 28) && h.block_size == be32(s, 32)
    &&& h.parent_identifier == uuid_be(s.subrange(40, 56)) && h.parent_name.elements@ == until_nul16(words_be(s.subrange(64, 576)))
}
@@fn VhdDynamicDiskHeader::new
@@fn VhdDynamicDiskHeader::read_data
    ensures r is Ok <==> header_ok(data@), r is Ok ==> header_is(*final(self), data@),
@@at start
proof { assert(VHD_DYNAMIC_DISK_HEADER_SIGNATURE@ =~= seq![0x63u8, 0x78u8, 0x73u8, 0x70u8, 0x61u8, 0x72u8, 0x73u8, 0x65u8]); }
@@fn VhdDynamicDiskHeader::read_at_position
    requires !(position is Current),
    ensures
        ({
            let d = data_stream.content();
            let p = kx_target(position, 0, d.len() as int);
            &&& r is Ok ==> 0 <= p <= d.len() - 1024 && header_ok(d.subrange(p, p + 1024)) && header_is(*final(self), d.subrange(p, p + 1024))
            &&& data_stream.sound() && 0 <= p <= d.len() - 1024 && header_ok(d.subrange(p, p + 1024)) ==> r is Ok
        }),
@@at let:offset after
proof {
    let d0 = data_stream.content();
    let p = kx_target(position, 0, d0.len() as int);
    assert(data@ =~= d0.subrange(p, p + 1024));
}
@@file keramics-formats/src/vhd/block_allocation_table.rs
@@item VhdBlockAllocationTableEntry
@@fn VhdBlockAllocationTableEntry::new
@@fn VhdBlockAllocationTableEntry::read_data
    ensures r is Ok <==> data@.len() == 4, r is Ok ==> final(self).sector_number == be32(data@, 0),
@@item VhdBlockAllocationTable
@@fn VhdBlockAllocationTable::new
    ensures r.offset == offset, r.number_of_entries == number_of_entries,
@@fn VhdBlockAllocationTable::read_entry
    ensures
        ({
            let d = data_stream.content();
            let p = self.offset + 4 * entry_index;
            &&& r is Ok ==> entry_index < self.number_of_entries && p + 4 <= d.len() && r->Ok_0.sector_number == be32(d, p)
            &&& data_stream.sound() && entry_index < self.number_of_entries && p + 4 <= d.len() && p <= u64::MAX ==> r is Ok
        }),
@@file keramics-formats/src/vhd/block_range.rs
@@item VhdBlockRangeType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@item VhdBlockRange
@@raw
impl Clone for VhdBlockRange {
    fn clone(&self) -> (r: Self) ensures r == *self { VhdBlockRange { media_offset: self.media_offset, data_offset: self.data_offset, size: self.size, range_type: self.range_type } }
}
@@fn VhdBlockRange::new
    ensures r.media_offset == media_offset, r.data_offset == data_offset, r.size == size, r.range_type == range_type,
@@file keramics-formats/src/vhd/sector_bitmap.rs
@@item VhdSectorBitmapRange
@@raw
// bit k of a bitmap: the most significant bit of a byte is the first
spec fn bit(d: Seq<u8>, k: int) -> bool { (d[k / 8] >> ((7 - k % 8) as u8)) & 1 == 1 }
spec fn total(rs: Seq<VhdSectorBitmapRange>) -> int
    decreases rs.len()
{
    if rs.len() == 0 { 0 } else { total(rs.drop_last()) + rs.last().size }
}
// the ranges are whole bits, none is empty, and each has the value of all its bits
spec fn spans(rs: Seq<VhdSectorBitmapRange>, d: Seq<u8>, bpb: int) -> bool
    decreases rs.len()
{
    rs.len() == 0 || {
        &&& spans(rs.drop_last(), d, bpb)
        &&& rs.last().size > 0 && rs.last().size as int % bpb == 0
        &&& forall|o: int| #![trigger bit(d, o / bpb)] total(rs.drop_last()) <= o < total(rs) ==> rs.last().is_set == bit(d, o / bpb)
    }
}
proof fn lemma_bit0(x: u8)
    ensures (x >> 7) <= 1, (x >> 7) == (x >> 7) & 1, (x << 0u8) == x,
{
    assert((x >> 7) <= 1 && (x >> 7) == (x >> 7) & 1 && (x << 0u8) == x) by (bit_vector);
}
proof fn lemma_bit(x: u8, i: u8)
    requires i < 8,
    ensures ((x << i) >> 7) <= 1, ((x << i) >> 7) == (x >> ((7 - i) as u8)) & 1, ((x << i) << 1) == (x << ((i + 1) as u8)),
{
    assert(i < 8 ==> ((x << i) >> 7) <= 1 && ((x << i) >> 7) == (x >> sub(7, i)) & 1 && ((x << i) << 1) == (x << add(i, 1))) by (bit_vector);
}
proof fn lemma_unit(o: int, s: int, k: int, bpb: int)
    requires bpb > 0, s * bpb <= o < k * bpb,
    ensures s <= o / bpb < k,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(o, bpb);
    assert(s <= o / bpb < k) by (nonlinear_arith) requires s * bpb <= o < k * bpb, o == bpb * (o / bpb) + o % bpb, 0 <= o % bpb < bpb, bpb > 0;
}
proof fn lemma_diff(s: int, k: int, bpb: int)
    requires bpb > 0,
    ensures (k * bpb - s * bpb) % bpb == 0,
{
    assert(k * bpb - s * bpb == (k - s) * bpb) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k - s, bpb);
}
@@fn VhdSectorBitmapRange::new
    requires start_offset <= end_offset,
    ensures r.size == end_offset - start_offset, r.is_set == is_set,
@@item VhdSectorBitmap
@@fn VhdSectorBitmap::new
    ensures r.size == size, r.bytes_per_bit == bytes_per_bit, r.ranges@.len() == 0,
@@fn VhdSectorBitmap::read_data
    requires 0 < data@.len() <= 0xffff_ffff, old(self).bytes_per_bit > 0, old(self).ranges@.len() == 0,
    ensures r is Ok, spans(final(self).ranges@, data@, old(self).bytes_per_bit as int), total(final(self).ranges@) == 8 * data@.len() * old(self).bytes_per_bit,
@@at start
    let ghost d = data@;
    let ghost bpb = self.bytes_per_bit as int;
    let ghost mut k: int = 0;
    let ghost mut s: int = 0;
    let ghost mut rs0 = self.ranges@;
    proof { lemma_bit0(d[0]); }
@@loop 0
    invariant
        self.size == old(self).size, self.bytes_per_bit == old(self).bytes_per_bit, k == 8 * it0,
        0 <= s <= k, k > 0 ==> s < k, offset == k * bpb, range_offset == s * bpb,
        range_bit_value <= 1, forall|i: int| s <= i < k ==> (range_bit_value == 1) == #[trigger] bit(d, i), k == 0 ==> (range_bit_value == 1) == bit(d, 0),
        spans(self.ranges@, d, bpb), total(self.ranges@) == range_offset,
@@loop 1
    invariant
        self.size == old(self).size, self.bytes_per_bit == old(self).bytes_per_bit, k == 8 * data_offset + it1,
        byte_value == ((d[data_offset as int] << (it1 as u8)) as u8),
        0 <= s <= k, k > 0 ==> s < k, offset == k * bpb, range_offset == s * bpb,
        range_bit_value <= 1, forall|i: int| s <= i < k ==> (range_bit_value == 1) == #[trigger] bit(d, i), k == 0 ==> (range_bit_value == 1) == bit(d, 0),
        spans(self.ranges@, d, bpb), total(self.ranges@) == range_offset,
@@at let:byte_value after
    proof { lemma_bit0(d[data_offset as int]); }
@@at let:bit_value before
    proof {
        let i = it1 - 1;
        lemma_bit(d[data_offset as int], i as u8);
        assert(k / 8 == data_offset && k % 8 == i);
        rs0 = self.ranges@;
        assert(k * bpb <= 8 * 0xffff_ffff * 0xffff) by (nonlinear_arith) requires 0 <= k <= 8 * 0xffff_ffff, 0 < bpb <= 0xffff;
        assert((k + 1) * bpb == k * bpb + bpb) by (nonlinear_arith);
        assert(s * bpb <= k * bpb) by (nonlinear_arith) requires s <= k, bpb > 0;
        if s < k { assert(s * bpb < k * bpb) by (nonlinear_arith) requires s < k, bpb > 0; }
    }
@@at let:bit_value after
    proof {
        assert((bit_value == 1) == bit(d, k) && bit_value <= 1);
        if bit_value != range_bit_value {
            assert forall|o: int| #![trigger bit(d, o / bpb)] s * bpb <= o < k * bpb implies (range_bit_value != 0) == bit(d, o / bpb) by { lemma_unit(o, s, k, bpb); }
            lemma_diff(s, k, bpb);
        }
    }
@@at loop 1 end
    proof {
        if s * bpb != range_offset {
            assert(self.ranges@.drop_last() =~= rs0);
            s = k;
        }
        k = k + 1;
    }
@@at loop 0 after
    proof {
        rs0 = self.ranges@;
        assert(k == 8 * d.len());
        assert(s * bpb < k * bpb) by (nonlinear_arith) requires s < k, bpb > 0;
        assert forall|o: int| #![trigger bit(d, o / bpb)] s * bpb <= o < k * bpb implies (range_bit_value != 0) == bit(d, o / bpb) by { lemma_unit(o, s, k, bpb); }
        lemma_diff(s, k, bpb);
    }
@@at tail
    proof { assert(self.ranges@.drop_last() =~= rs0); }
@@fn VhdSectorBitmap::read_at_position
    requires !(position is Current), 0 < old(self).size <= 0xffff_ffff, old(self).bytes_per_bit > 0, old(self).ranges@.len() == 0,
    ensures
        ({
            let d = data_stream.content();
            let p = kx_target(position, 0, d.len() as int);
            let n = old(self).size as int;
            &&& r is Ok ==> 0 <= p <= d.len() - n && spans(final(self).ranges@, d.subrange(p, p + n), old(self).bytes_per_bit as int) && total(final(self).ranges@) == 8 * n * old(self).bytes_per_bit
            &&& data_stream.sound() && 0 <= p <= d.len() - n ==> r is Ok
        }),
@@at let:offset after
proof {
    let d0 = data_stream.content();
    let p = kx_target(position, 0, d0.len() as int);
    assert(data@ =~= d0.subrange(p, p + self.size));
}
@@file keramics-formats/src/vhd/file.rs
@@item VhdFile
@@raw
spec fn ceil(x: int, y: int) -> int { if x % y == 0 { x / y } else { x / y + 1 } }
// the size of the sector bitmap of a block: a bit per sector, in whole sectors
spec fn bitmap_size(bs: int) -> int { ceil(ceil(bs / 512, 8), 512) * 512 }
spec fn table_entry(c: Seq<u8>, bat: int, b: int) -> int { be32(c, bat + 4 * b) as int }
// byte o of a dynamic or differential disk with blocks of bs bytes and its block table at bat: the
// table gives the sector of the bitmap of the block; a sector whose bit is set follows the bitmap
#[verifier::opaque]
spec fn vhd_byte(c: Seq<u8>, bat: int, bs: int, dynamic: bool, o: int) -> DByte {
    let e = table_entry(c, bat, o / bs);
    let other = if dynamic { DByte::Zero } else { DByte::Parent };
    if e == 0xffff_ffff { other }
    else if bit(c.subrange(e * 512, e * 512 + bitmap_size(bs)), (o % bs) / 512) { DByte::Mapped(e * 512 + bitmap_size(bs) + o % bs) }
    else { other }
}
spec fn in_range(v: VhdBlockRange, o: int) -> bool { v.media_offset <= o < v.media_offset + v.size }
spec fn range_byte(v: VhdBlockRange, o: int) -> DByte {
    match v.range_type {
        VhdBlockRangeType::InFile => DByte::Mapped(v.data_offset + o - v.media_offset),
        VhdBlockRangeType::InParent => DByte::Parent,
        VhdBlockRangeType::Sparse => DByte::Zero,
    }
}
// the range agrees with the disk on all its bytes
spec fn agrees(v: VhdBlockRange, c: Seq<u8>, bat: int, bs: int, dynamic: bool, end: int) -> bool {
    &&& v.media_offset + v.size <= end && v.data_offset + v.size <= u64::MAX
    &&& forall|q: int| in_range(v, q) ==> range_byte(v, q) == #[trigger] vhd_byte(c, bat, bs, dynamic, q)
}
#[verifier::opaque]
spec fn tree_ok(t: BlockTree<VhdBlockRange>, c: Seq<u8>, bat: int, bs: int, dynamic: bool) -> bool {
    &&& t.wf()
    &&& forall|o: int| (#[trigger] t.at(o)) is Some ==> in_range(t.at(o)->0, o) && agrees(t.at(o)->0, c, bat, bs, dynamic, t.data_size as int)
    // a block is in the tree as a whole or not at all
    &&& forall|o: int, q: int| 0 <= o && 0 <= q && o / bs == q / bs && (#[trigger] t.at(o)) is Some ==> (#[trigger] t.at(q)) is Some
}
proof fn lemma_no_parent(c: Seq<u8>, bat: int, bs: int, o: int)
    ensures !(vhd_byte(c, bat, bs, true, o) is Parent), !(vhd_byte(c, bat, bs, true, o) is Missing), !(vhd_byte(c, bat, bs, false, o) is Missing),
{
    reveal(vhd_byte);
}
proof fn lemma_tree(t: BlockTree<VhdBlockRange>, c: Seq<u8>, bat: int, bs: int, dynamic: bool, m: int)
    requires tree_ok(t, c, bat, bs, dynamic),
    ensures t.wf(), t.at(m) is Some ==> in_range(t.at(m)->0, m) && agrees(t.at(m)->0, c, bat, bs, dynamic, t.data_size as int),
        0 <= m && t.at(m) is None ==> forall|o: int| 0 <= o && o / bs == m / bs ==> (#[trigger] t.at(o)) is None,
{
    reveal(tree_ok);
    if 0 <= m && t.at(m) is None { assert forall|o: int| 0 <= o && o / bs == m / bs implies (#[trigger] t.at(o)) is None by { if t.at(o) is Some { assert(t.at(m) is Some); } } }
}
impl VhdFile {
    spec fn image(self) -> Seq<u8> { if self.data_stream is Some { self.data_stream->0.content() } else { Seq::empty() } }
    spec fn parent(self) -> Seq<u8> { if self.parent_file is Some { self.parent_file->0.content() } else { Seq::empty() } }
    spec fn bat(self) -> int { self.block_allocation_table->0.offset as int }
    spec fn dynamic(self) -> bool { self.disk_type == VhdDiskType::Dynamic }
    spec fn map(self, o: int) -> DByte {
        if self.disk_type == VhdDiskType::Fixed { DByte::Mapped(o) } else { vhd_byte(self.image(), self.bat(), self.block_size as int, self.dynamic(), o) }
    }
    // an opened file
    spec fn wf(self) -> bool {
        &&& self.data_stream is Some
        &&& self.disk_type != VhdDiskType::Fixed ==> {
            &&& self.block_allocation_table is Some && self.bytes_per_sector == 512 && self.block_size > 0 && self.block_size % 512 == 0
            &&& self.sector_bitmap_size == bitmap_size(self.block_size as int)
            &&& self.block_tree.data_size == self.block_allocation_table->0.number_of_entries * self.block_size && self.media_size <= self.block_tree.data_size
            &&& self.block_tree.leaf_value_size == 512 && self.block_tree.wf()
            &&& tree_ok(self.block_tree, self.image(), self.bat(), self.block_size as int, self.dynamic())
        }
    }
    // what may change when the disk is read
    spec fn same(self, o: Self) -> bool { self == (VhdFile { block_tree: self.block_tree, media_offset: self.media_offset, ..o }) && self.block_tree.sizes(o.block_tree) }
    spec fn block_present(self, b: int) -> bool { block_present(self.image(), self.bat(), self.block_size as int, b) }
}
// the entry of block b and its bitmap are in the image
#[verifier::opaque]
spec fn block_present(c: Seq<u8>, bat: int, bs: int, b: int) -> bool {
    let e = table_entry(c, bat, b);
    bat + 4 * b + 4 <= c.len() <= u64::MAX && (e == 0xffff_ffff || e * 512 + bitmap_size(bs) <= c.len())
}
proof fn lemma_block(b: int, nb: int, bs: int)
    requires 0 <= b < nb <= 0xffff_ffff, 0 < bs <= 0xffff_ffff, bs % 512 == 0,
    ensures 0 <= b * bs, b * bs + bs <= nb * bs, nb * bs <= 0xffff_ffff * 0xffff_ffff, (b * bs) % 512 == 0,
        forall|o: int| #![trigger o / bs] b * bs <= o < b * bs + bs <==> o / bs == b,
        forall|o: int| #![trigger o % bs] b * bs <= o < b * bs + bs ==> o % bs == o - b * bs,
{
    assert(0 <= b * bs && b * bs + bs <= nb * bs && nb * bs <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= b < nb <= 0xffff_ffff, 0 < bs <= 0xffff_ffff;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(bs, 512);
    assert(b * bs == (b * (bs / 512)) * 512) by (nonlinear_arith) requires bs == 512 * (bs / 512);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(b * (bs / 512), 512);
    assert forall|o: int| #![trigger o / bs] b * bs <= o < b * bs + bs <==> o / bs == b by { lemma_in_block(b, bs, o); }
    assert forall|o: int| #![trigger o % bs] b * bs <= o < b * bs + bs implies o % bs == o - b * bs by { lemma_in_block(b, bs, o); }
}
proof fn lemma_in_block(b: int, bs: int, o: int)
    requires bs > 0,
    ensures b * bs <= o < b * bs + bs <==> o / bs == b, b * bs <= o < b * bs + bs ==> o % bs == o - b * bs,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(o, bs);
    assert(bs * (o / bs) == (o / bs) * bs) by (nonlinear_arith);
    if b * bs <= o < b * bs + bs { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(o, bs, b, o - b * bs); }
}
proof fn lemma_bitmap_size(bs: int)
    requires 0 < bs <= 0xffff_ffff, bs % 512 == 0,
    ensures 0 < bitmap_size(bs) <= 0x10_0200, 8 * 512 * bitmap_size(bs) >= bs,
{
    let s = bs / 512;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(bs, 512);
    lemma_ceil_up(s, 8);
    let x = ceil(s, 8);
    lemma_ceil_up(x, 512);
    let y = ceil(x, 512) * 512;
    assert(bitmap_size(bs) == y && y >= x && x * 8 >= s && bs == 512 * s);
    assert(4096 * y >= bs);
}
proof fn lemma_ceil_up(x: int, y: int)
    requires x >= 0, y == 8 || y == 512,
    ensures ceil(x, y) * y >= x,
{
}
proof fn lemma_take(rs: Seq<VhdSectorBitmapRange>, d: Seq<u8>, bpb: int, i: int)
    requires spans(rs, d, bpb), 0 <= i <= rs.len(),
    ensures spans(rs.take(i), d, bpb), i < rs.len() ==> rs.take(i + 1).drop_last() =~= rs.take(i) && rs.take(i + 1).last() == rs[i],
    decreases rs.len(),
{
    if i < rs.len() { lemma_take(rs.drop_last(), d, bpb, i); assert(rs.drop_last().take(i) =~= rs.take(i)); assert(rs.take(i + 1).drop_last() =~= rs.take(i)); }
    else { assert(rs.take(i) =~= rs); }
}
proof fn lemma_total_mod(rs: Seq<VhdSectorBitmapRange>, d: Seq<u8>)
    requires spans(rs, d, 512),
    ensures total(rs) >= 0, total(rs) % 512 == 0,
    decreases rs.len(),
{
    if rs.len() > 0 { lemma_total_mod(rs.drop_last(), d); }
}
proof fn lemma_number(m: int, nb: int, bs: int)
    requires 0 <= m, bs > 0,
    ensures 0 <= m / bs, m < nb * bs ==> m / bs < nb,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, bs);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(m, bs);
    if m < nb * bs { assert(m / bs < nb) by (nonlinear_arith) requires m < nb * bs, m == bs * (m / bs) + m % bs, 0 <= m % bs, bs > 0; }
}
// the footer in the last sector of the image and, but for a fixed disk, the header it gives the offset of
spec fn footer(c: Seq<u8>) -> Seq<u8> { c.subrange(c.len() - 512, c.len() as int) }
spec fn header(c: Seq<u8>) -> Seq<u8> { c.subrange(be64(footer(c), 16) as int, be64(footer(c), 16) + 1024) }
spec fn is_fixed(c: Seq<u8>) -> bool { be32(footer(c), 60) == 2 }
spec fn image_ok(c: Seq<u8>) -> bool {
    &&& 512 <= c.len() <= u64::MAX && footer_ok(footer(c))
    &&& is_fixed(c) || (be64(footer(c), 16) + 1024 <= c.len() && header_ok(header(c)) && be64(footer(c), 48) <= be32(header(c), 28) * be32(header(c), 32))
}
impl VhdFile {
    spec fn reads(self, c: Seq<u8>, o: Self) -> bool {
        let f = footer(c);
        let h = header(c);
        &&& image_ok(c) && self.bytes_per_sector == 512 && self.media_size == be64(f, 48)
        &&& self.disk_type == (if be32(f, 60) == 2 { VhdDiskType::Fixed } else if be32(f, 60) == 3 { VhdDiskType::Dynamic } else { VhdDiskType::Differential })
        &&& self.identifier == (if is_nil(uuid_be(f.subrange(68, 84))) { o.identifier } else { uuid_be(f.subrange(68, 84)) })
        &&& !is_fixed(c) ==> self.block_size == be32(h, 32) && self.block_allocation_table is Some && self.bat() == be64(h, 16) && self.block_allocation_table->0.number_of_entries == be32(h, 28)
        &&& is_fixed(c) || is_nil(uuid_be(h.subrange(40, 56))) ==> self.parent_identifier == o.parent_identifier && self.parent_name == o.parent_name
        &&& !is_fixed(c) && !is_nil(uuid_be(h.subrange(40, 56))) ==> self.parent_identifier == Some(uuid_be(h.subrange(40, 56))) && self.parent_name is Some && self.parent_name->0.elements@ == until_nul16(words_be(h.subrange(64, 576)))
    }
    // streams that do not fail, a parent where one is needed, and a table and bitmaps that are all there
    spec fn complete(self) -> bool {
        &&& self.data_stream is Some && self.data_stream->0.sound()
        &&& self.disk_type == VhdDiskType::Differential ==> self.parent_file is Some && self.parent_file->0.sound()
        &&& self.disk_type == VhdDiskType::Differential || self.disk_type == VhdDiskType::Dynamic || self.disk_type == VhdDiskType::Fixed
        &&& self.disk_type != VhdDiskType::Fixed ==> forall|b: int| 0 <= b < self.block_allocation_table->0.number_of_entries ==> #[trigger] block_present(self.image(), self.bat(), self.block_size as int, b)
    }
}
@@fn VhdFile::new
    ensures r.data_stream is None, r.parent_file is None, r.media_offset == 0,
@@fn VhdFile::read_block_allocation_entry
    requires old(self).wf(), old(self).disk_type != VhdDiskType::Fixed, block_number < old(self).block_allocation_table->0.number_of_entries,
        forall|o: int| 0 <= o && o / (old(self).block_size as int) == block_number ==> (#[trigger] old(self).block_tree.at(o)) is None,
    ensures final(self).wf(), final(self).same(*old(self)), final(self).media_offset == old(self).media_offset,
        r is Ok ==> forall|o: int| 0 <= o && o / (old(self).block_size as int) == block_number ==> (#[trigger] final(self).block_tree.at(o)) is Some,
        old(self).data_stream->0.sound() && old(self).block_present(block_number as int) ==> r is Ok,
@@at start
    let ghost bs = self.block_size as int;
    let ghost nb = self.block_allocation_table->0.number_of_entries as int;
    let ghost b = block_number as int;
    proof { reveal(tree_ok); reveal(vhd_byte); reveal(block_present); lemma_block(b, nb, bs); }
@@at tail
    proof {
        let t = self.block_tree; let t0 = old(self).block_tree;
        if table_entry(self.image(), self.bat(), b) == 0xffff_ffff {
            assert forall|o: int| (#[trigger] t.at(o)) is Some implies in_range(t.at(o)->0, o) && agrees(t.at(o)->0, self.image(), self.bat(), bs, self.dynamic(), t.data_size as int) by {
                if b * bs <= o < b * bs + bs { } else { assert(t0.at(o) == t.at(o)); }
            }
            assert forall|o: int, q: int| 0 <= o && 0 <= q && o / bs == q / bs && (#[trigger] t.at(o)) is Some implies (#[trigger] t.at(q)) is Some by {
                if o / bs != b { assert(t0.at(o) == t.at(o) && t0.at(q) == t.at(q)); }
            }
        }
    }
@@fn VhdFile::read_sector_bitmap
    requires old(self).wf(), old(self).disk_type != VhdDiskType::Fixed, block_number < old(self).block_allocation_table->0.number_of_entries,
        sector_number == table_entry(old(self).image(), old(self).bat(), block_number as int), sector_number != 0xffff_ffff,
        forall|o: int| 0 <= o && o / (old(self).block_size as int) == block_number ==> (#[trigger] old(self).block_tree.at(o)) is None,
    ensures final(self).wf(), final(self).same(*old(self)), final(self).media_offset == old(self).media_offset,
        r is Ok ==> forall|o: int| 0 <= o && o / (old(self).block_size as int) == block_number ==> (#[trigger] final(self).block_tree.at(o)) is Some,
        old(self).data_stream->0.sound() && old(self).block_present(block_number as int) ==> r is Ok,
@@at start
    let ghost bs = self.block_size as int;
    let ghost nb = self.block_allocation_table->0.number_of_entries as int;
    let ghost b = block_number as int;
    let ghost bms = self.sector_bitmap_size as int;
    let ghost c = self.image();
    let ghost bd = c.subrange(sector_number * 512, sector_number * 512 + bms);
    let ghost dynamic = self.dynamic();
    let ghost bat = self.bat();
    let ghost t0 = self.block_tree;
    let ghost mut t1 = self.block_tree;
    let ghost mut done: int = 0;
    let ghost mut rs: Seq<VhdSectorBitmapRange> = Seq::empty();
    proof { reveal(tree_ok); reveal(vhd_byte); reveal(block_present); lemma_block(b, nb, bs); lemma_bitmap_size(bs); }
@@at let:range_media_offset after
    proof { rs = sector_bitmap.ranges@; assert(rs.take(0) =~= Seq::empty()); }
@@loop 0
    invariant
        *self == (VhdFile { block_tree: self.block_tree, ..*old(self) }), self.block_tree.sizes(t0), self.block_tree.wf(),
        sl0@ == rs, spans(rs, bd, 512), total(rs) == 8 * bms * 512,
        done == kx_min(total(rs.take(it0 as int)), bs), 0 <= done <= bs, done % 512 == 0,
        range_media_offset == b * bs + done, range_data_offset == sector_number * 512 + bms + done, block_end_offset == b * bs + bs,
        forall|o: int| b * bs <= o < b * bs + done ==> (#[trigger] self.block_tree.at(o)) is Some,
        forall|o: int| b * bs + done <= o < b * bs + bs ==> (#[trigger] self.block_tree.at(o)) is None,
        forall|o: int| !(b * bs <= o < b * bs + bs) ==> #[trigger] self.block_tree.at(o) == t0.at(o),
        forall|o: int| (#[trigger] self.block_tree.at(o)) is Some ==> in_range(self.block_tree.at(o)->0, o) && agrees(self.block_tree.at(o)->0, c, bat, bs, dynamic, t0.data_size as int),
@@at let:range_size before
    proof {
        t1 = self.block_tree;
        lemma_take(rs, bd, 512, it0 - 1);
        lemma_take(rs, bd, 512, it0 as int);
        lemma_total_mod(rs.take(it0 - 1), bd);
    }
@@at loop 0 end
    proof {
        let tot = total(rs.take(it0 - 1));
        assert(done == tot);
        assert forall|q: int| #![trigger q % bs] b * bs + done <= q < b * bs + done + range_size implies q % bs == q - b * bs && bitmap_range.is_set == bit(bd, (q - b * bs) / 512) by {
            assert(b * bs <= q < b * bs + bs);
            let o = q - b * bs;
            assert(tot <= o < tot + bitmap_range.size);
            assert(bitmap_range.is_set == bit(bd, o / 512));
        }
        assert forall|o: int| (#[trigger] self.block_tree.at(o)) is Some implies in_range(self.block_tree.at(o)->0, o) && agrees(self.block_tree.at(o)->0, c, bat, bs, dynamic, t0.data_size as int) by {
            if b * bs + done <= o < b * bs + done + range_size {
                let v = self.block_tree.at(o)->0;
                assert forall|q: int| in_range(v, q) implies range_byte(v, q) == #[trigger] vhd_byte(c, bat, bs, dynamic, q) by { assert(q / bs == b); }
            } else { assert(t1.at(o) == self.block_tree.at(o)); }
        }
        done = done + range_size;
    }
@@at loop 0 after
    proof {
        if done < bs { assert(rs.take(rs.len() as int) =~= rs); assert(false); }
        let t = self.block_tree;
        assert forall|o: int, q: int| 0 <= o && 0 <= q && o / bs == q / bs && (#[trigger] t.at(o)) is Some implies (#[trigger] t.at(q)) is Some by {
            if o / bs != b { assert(t0.at(o) == t.at(o) && t0.at(q) == t.at(q)); } else { assert(b * bs <= q < b * bs + bs); }
        }
    }
@@fn VhdFile::read_metadata
    ensures
        final(self).data_stream == old(self).data_stream, final(self).media_offset == old(self).media_offset, final(self).parent_file == old(self).parent_file,
        r is Ok ==> (VhdFile { data_stream: Some(*data_stream), ..*final(self) }).wf() && final(self).reads(data_stream.content(), *old(self)),
        data_stream.sound() && image_ok(data_stream.content()) ==> r is Ok,
@@at start
    let ghost c = data_stream.content();
    let ghost mut nb: int = 0;
    let ghost mut bs: int = 0;
    proof { reveal(tree_ok); }
@@at let:block_tree_data_size before
    proof {
        nb = dynamic_disk_header.number_of_blocks as int; bs = block_size as int;
        assert(0 <= nb * bs <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= nb <= 0xffff_ffff, 0 <= bs <= 0xffff_ffff;
        lemma_bitmap_size(bs);
    }
@@fn VhdFile::read_data_stream
    ensures
        final(self).media_offset == old(self).media_offset, final(self).parent_file == old(self).parent_file,
        r is Ok ==> final(self).wf() && final(self).image() == data_stream.content() && final(self).data_stream->0.sound() == data_stream.sound() && final(self).reads(data_stream.content(), *old(self)),
        r is Err ==> final(self).data_stream == old(self).data_stream,
        data_stream.sound() && image_ok(data_stream.content()) ==> r is Ok,
@@fn VhdFile::set_parent
    ensures
        *final(self) == (VhdFile { parent_file: final(self).parent_file, ..*old(self) }),
        r is Ok ==> old(self).parent_identifier is Some && final(self).parent_file == Some(*parent_file) && parent_file.value().identifier == old(self).parent_identifier->0,
        r is Err ==> final(self).parent_file == old(self).parent_file,
        parent_file.sound() && old(self).parent_identifier is Some && parent_file.value().identifier == old(self).parent_identifier->0 ==> r is Ok,
@@fn VhdFile::read_data_from_blocks
@@attr #[verifier::rlimit(60)]
    requires old(self).wf(), old(self).disk_type != VhdDiskType::Fixed, old(data)@.len() <= kx_left(old(self).media_size as int, old(self).media_offset as int),
    ensures final(self).wf(), final(self).same(*old(self)), final(self).media_offset == old(self).media_offset, final(data)@.len() == old(data)@.len(),
        r is Ok ==> disk_bytes(true, |o: int| old(self).map(o), old(self).image(), old(self).parent(), old(self).media_size as int, old(self).media_offset as int, old(data)@, r->Ok_0 as int, final(data)@),
        old(self).complete() ==> r is Ok,
@@isolate
@@at start
    let ghost p = self.media_offset as int;
    let ghost c = self.image();
    let ghost pc = self.parent();
    let ghost bs = self.block_size as int;
    let ghost nb = self.block_allocation_table->0.number_of_entries as int;
    let ghost d0 = data@;
    let ghost mut d1 = data@;
    let ghost mut v: VhdBlockRange = arbitrary();
@@loop 0
    invariant
        old(self).wf(), old(self).disk_type != VhdDiskType::Fixed,
        self.wf(), self.same(*old(self)), p == self.media_offset, p == old(self).media_offset, c == old(self).image(), pc == old(self).parent(), bs == old(self).block_size, d0 == old(data)@,
        nb == old(self).block_allocation_table->0.number_of_entries,
        read_size == d0.len(), data@.len() == read_size, data_offset <= read_size, read_size <= kx_left(old(self).media_size as int, p), media_offset == p + data_offset,
        forall|i: int| 0 <= i < data_offset ==> disk_byte_ok(old(self).map(p + i), c, pc, p + i, #[trigger] data@[i]),
        forall|i: int| data_offset <= i < read_size ==> #[trigger] data@[i] == d0[i],
    ensures
        data_offset < read_size ==> disk_byte_out(old(self).map(p + data_offset), c, pc, p + data_offset),
    decreases read_size - data_offset,
@@at loop 0 begin
    proof {
        d1 = data@;
        let m = media_offset as int;
        lemma_number(m, nb, bs);
        if old(self).complete() { assert(block_present(c, old(self).bat(), bs, m / bs)); }
        lemma_tree(self.block_tree, c, old(self).bat(), bs, old(self).dynamic(), m);
    }
@@at let:block_range after
    proof {
        v = *block_range;
        assert(self.block_tree.at(media_offset as int) == Some(v));
        lemma_tree(self.block_tree, c, old(self).bat(), bs, old(self).dynamic(), media_offset as int);
        lemma_no_parent(c, old(self).bat(), bs, media_offset as int);
        assert(agrees(v, c, self.bat(), bs, self.dynamic(), self.block_tree.data_size as int));
        assert(in_range(v, media_offset as int));
        assert(range_byte(v, media_offset as int) == vhd_byte(c, self.bat(), bs, self.dynamic(), media_offset as int));
    }
@@at let:range_read_count after
    proof {
        let n = range_read_count as int;
        assert forall|i: int| 0 <= i < data_offset + n implies disk_byte_ok(old(self).map(p + i), c, pc, p + i, #[trigger] data@[i]) by {
            if i < data_offset { assert(data@[i] == d1[i]); }
            else {
                assert(in_range(v, p + i));
                assert(range_byte(v, p + i) == vhd_byte(c, self.bat(), bs, self.dynamic(), p + i));
            }
        }
        assert forall|i: int| data_offset + n <= i < read_size implies #[trigger] data@[i] == d0[i] by { assert(d1[i] == d0[i]); }
    }
@@fn VhdFile::get_size for DataStream
    ensures r is Ok, r->Ok_0 == old(self).media_size, *final(self) == *old(self),
@@fn VhdFile::read for DataStream
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same(*old(self)), final(buf)@.len() == old(buf)@.len(),
        r is Ok ==> disk_bytes(old(self).disk_type != VhdDiskType::Fixed, |o: int| old(self).map(o), old(self).image(), old(self).parent(), old(self).media_size as int, old(self).media_offset as int, old(buf)@, r->Ok_0 as int, final(buf)@),
        r is Ok ==> final(self).media_offset == old(self).media_offset + r->Ok_0,
        r is Err ==> final(self).media_offset == old(self).media_offset,
        old(self).complete() ==> r is Ok,
@@fn VhdFile::seek for DataStream
    ensures *final(self) == (VhdFile { media_offset: final(self).media_offset, ..*old(self) }), seeks(pos, old(self).media_offset as int, old(self).media_size as int, r, final(self).media_offset as int),
@@endfn
