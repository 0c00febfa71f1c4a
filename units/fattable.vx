@@file keramics-formats/src/fat/enums.rs
@@item FatFormat #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@file keramics-formats/src/fat/block_allocation_table.rs
@@item FatBlockAllocationTable
@@raw
// ---- the file allocation table: FAT-12 entries are 12 bits each, packed two to three bytes,
// FAT-16 and FAT-32 entries are 2 and 4 bytes, of the latter the upper 4 bits are reserved ----
spec fn le16(c: Seq<u8>, p: int) -> int { c[p] + c[p + 1] * 256 }
spec fn le32(c: Seq<u8>, p: int) -> int { c[p] + c[p + 1] * 256 + c[p + 2] * 65536 + c[p + 3] * 16777216 }
spec fn fat_entry(f: FatFormat, c: Seq<u8>, offset: int, i: int) -> int {
    if f == FatFormat::Fat12 { let w = le16(c, offset + i + i / 2); if i % 2 == 0 { w % 4096 } else { w / 16 } }
    else if f == FatFormat::Fat16 { le16(c, offset + 2 * i) }
    else { le32(c, offset + 4 * i) % 0x10000000 }
}
// the first value that is no cluster: bad cluster and end of chain markers
spec fn fat_largest(f: FatFormat) -> int {
    if f == FatFormat::Fat12 { 0xff0 } else if f == FatFormat::Fat16 { 0xfff0 } else { 0xffffff0 }
}
spec fn fat_is_cluster(f: FatFormat, n: int) -> bool { 2 <= n < fat_largest(f) }
impl FatBlockAllocationTable {
    spec fn me(&self) -> Self { *self }
    spec fn bounded(self) -> bool { self.offset <= 0x1000_0000_0000_0000 && self.first_cluster_offset <= 0x1000_0000_0000_0000 }
    spec fn entry(self, c: Seq<u8>, i: int) -> int { fat_entry(self.format, c, self.offset as int, i) }
    spec fn cluster_offset(self, n: int) -> int { self.first_cluster_offset + (n - 2) * self.cluster_block_size }
}
proof fn lemma_le16(a: u8, b: u8)
    ensures (a as u16) | ((b as u16) << 8u16) == a + b * 256,
        ((a as u16) | ((b as u16) << 8u16)) & 0x0fff == (a + b * 256) % 4096, ((a as u16) | ((b as u16) << 8u16)) >> 4 == (a + b * 256) / 16,
{
    let w = (a as u16) | ((b as u16) << 8u16);
    assert(w == a as u16 + (b as u16) * 256) by (bit_vector) requires w == (a as u16) | ((b as u16) << 8u16);
    assert(w & 0x0fff == w % 4096) by (bit_vector);
    assert(w >> 4 == w / 16) by (bit_vector);
}
proof fn lemma_le32(a: u8, b: u8, c: u8, d: u8)
    ensures
        ((a as u32) | ((b as u32) << 8u32) | ((c as u32) << 16u32) | ((d as u32) << 24u32)) == a + b * 256 + c * 65536 + d * 16777216,
        ((a as u32) | ((b as u32) << 8u32) | ((c as u32) << 16u32) | ((d as u32) << 24u32)) & 0x0fffffff == (a + b * 256 + c * 65536 + d * 16777216) % 0x10000000,
{
    let w = (a as u32) | ((b as u32) << 8u32) | ((c as u32) << 16u32) | ((d as u32) << 24u32);
    assert(w == a as u32 + (b as u32) * 256 + (c as u32) * 65536 + (d as u32) * 16777216) by (bit_vector) requires w == (a as u32) | ((b as u32) << 8u32) | ((c as u32) << 16u32) | ((d as u32) << 24u32);
    assert(w & 0x0fffffff == w % 0x10000000) by (bit_vector);
}
@@fn FatBlockAllocationTable::new
    ensures r.format == *format, r.offset == offset, r.number_of_entries == number_of_entries, r.first_cluster_offset == first_cluster_offset, r.cluster_block_size == cluster_block_size,
@@fn FatBlockAllocationTable::get_largest_cluster_block_number
    ensures r == fat_largest(self.format),
@@fn FatBlockAllocationTable::read_entry
    requires self.bounded(),
    ensures r is Ok ==> entry_index < self.number_of_entries && r->Ok_0 == self.entry(data_stream.content(), entry_index as int),
@@at let:entry before
    proof {
        let c = data_stream.content(); let i = entry_index as int; let o = self.offset as int;
        assert(o + entry_offset + entry_size <= c.len());
        assert(forall|k: int| 0 <= k < entry_size ==> #[trigger] data@[k] == c[o + entry_offset + k]);
        if self.format == FatFormat::Fat12 {
            lemma_le16(data@[0], data@[1]); lemma_le16(data@[1], data@[2]);
            assert(data@.subrange(0, 2) =~= seq![data@[0], data@[1]]);
            assert(data@.subrange(1, 3) =~= seq![data@[1], data@[2]]);
        } else if self.format == FatFormat::Fat16 {
            lemma_le16(data@[0], data@[1]);
            assert(data@.subrange(0, 2) =~= seq![data@[0], data@[1]]);
        } else {
            lemma_le32(data@[0], data@[1], data@[2], data@[3]);
            assert(data@.subrange(0, 4) =~= seq![data@[0], data@[1], data@[2], data@[3]]);
        }
    }
