@@opt default
@@include std.vx
@@include dstream.vx
@@include partition.vx
@@include sliceeq.vx
@@include uuidle.vx
@@include crc32r.vx
@@include ucs2le.vx
@@include blocktree.vx proved=c25_tree
@@include diskimage.vx
@@mapmethod get .kx_get
@@mapmethod insert .kx_insert
@@raw
pub open spec fn is_pow2(x: u32) -> bool { x != 0 && x & sub(x, 1) == 0 }
pub assume_specification[ u32::is_power_of_two ](x: u32) -> (r: bool) ensures r == is_pow2(x);
use std::collections::HashMap;
broadcast use vstd::std_specs::hash::group_hash_axioms;
impl core::hash::Hash for Uuid {
    #[verifier::external_body]
    fn hash<H: core::hash::Hasher>(&self, state: &mut H) { unimplemented!() }
}
// a Uuid can be the key of a map: its Eq and Hash are derived
#[verifier::external_body]
proof fn axiom_uuid_key() ensures vstd::std_specs::hash::obeys_key_model::<Uuid>() {}
// a lock around another disk: its content is what its reads yield (a VhdxFile is a DataStream)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct RwLock<T> { _p: core::marker::PhantomData<T> }
impl<T> RwLock<T> {
    uninterp spec fn content(&self) -> Seq<u8>;
    uninterp spec fn sound(&self) -> bool;
    uninterp spec fn value(&self) -> T;
    #[verifier::external_body]
    fn write(&self) -> (r: Result<KxStreamGuard, KxPoison>)
        ensures self.sound() ==> r is Ok && r->Ok_0.sound(),
            r is Ok ==> r->Ok_0.content() == self.content() && self.content().len() <= u64::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    fn read(&self) -> (r: Result<&T, KxPoison>)
        ensures self.sound() ==> r is Ok, r is Ok ==> *r->Ok_0 == self.value(),
    { unimplemented!() }
}
// maps: to values by identifier and by text
trait KxGet<Q: ?Sized, V> {
    spec fn kx_found(&self, k: &Q) -> Option<V>;
    fn kx_get<'a>(&'a self, k: &Q) -> (r: Option<&'a V>) ensures r is Some <==> self.kx_found(k) is Some, r is Some ==> *r->0 == self.kx_found(k)->0;
}
impl<V> KxGet<Uuid, V> for HashMap<Uuid, V> {
    spec fn kx_found(&self, k: &Uuid) -> Option<V> { if self@.contains_key(*k) { Some(self@[*k]) } else { None } }
    fn kx_get<'a>(&'a self, k: &Uuid) -> (r: Option<&'a V>) { proof { axiom_uuid_key(); } self.get(k) }
}
uninterp spec fn text_map<V>(m: HashMap<String, V>) -> Map<Seq<char>, V>;
#[verifier::external_body]
proof fn axiom_text_map<V>(m: HashMap<String, V>) requires m@ == Map::<String, V>::empty() ensures text_map(m) == Map::<Seq<char>, V>::empty() {}
impl<V> KxGet<str, V> for HashMap<String, V> {
    spec fn kx_found(&self, k: &str) -> Option<V> { if text_map(*self).contains_key(k@) { Some(text_map(*self)[k@]) } else { None } }
    #[verifier::external_body]
    fn kx_get<'a>(&'a self, k: &str) -> (r: Option<&'a V>) { self.get(k) }
}
trait KxInsert<K, V> {
    spec fn kx_put(&self, k: K, v: V, n: &Self) -> bool;
    fn kx_insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures old(self).kx_put(k, v, final(self));
}
impl<V> KxInsert<Uuid, V> for HashMap<Uuid, V> {
    spec fn kx_put(&self, k: Uuid, v: V, n: &Self) -> bool { n@ == self@.insert(k, v) }
    fn kx_insert(&mut self, k: Uuid, v: V) -> (r: Option<V>) { proof { axiom_uuid_key(); } self.insert(k, v) }
}
impl<V> KxInsert<String, V> for HashMap<String, V> {
    spec fn kx_put(&self, k: String, v: V, n: &Self) -> bool { text_map(*n) == text_map(*self).insert(k@, v) }
    #[verifier::external_body]
    fn kx_insert(&mut self, k: String, v: V) -> (r: Option<V>) { self.insert(k, v) }
}
struct ParseError { _p: u8 }
uninterp spec fn uuid_parses(s: Seq<char>) -> bool;
uninterp spec fn uuid_parse(s: Seq<char>) -> Uuid;
impl Uuid {
    // what it accepts and yields is proved in C12
    #[verifier::external_body]
    fn from_string(&mut self, string: &str) -> (r: Result<(), ParseError>)
        ensures r is Ok <==> uuid_parses(string@), r is Ok ==> *final(self) == uuid_parse(string@),
    { unimplemented!() }
}
spec fn crc32c(x: Seq<u8>) -> u32 { rcrc_fold(0x82f63b78, 0xffffffff, x) ^ 0xffffffffu32 }
// the checksum of a structure whose checksum is at offset 4
spec fn sum4(s: Seq<u8>) -> u32 { crc32c(s.subrange(0, 4) + seq![0u8, 0u8, 0u8, 0u8] + s.subrange(8, s.len() as int)) }
spec fn le16(d: Seq<u8>, o: int) -> u16 { kx_u16_le(d.subrange(o, o + 2)) }
spec fn le32(d: Seq<u8>, o: int) -> u32 { kx_u32_le(d.subrange(o, o + 4)) }
spec fn le64(d: Seq<u8>, o: int) -> u64 { kx_u64_le(d.subrange(o, o + 8)) }
proof fn lemma_sum4(s: Seq<u8>, z: Seq<u8>)
    requires s.len() >= 8, z.len() == 4, z[0] == 0, z[1] == 0, z[2] == 0, z[3] == 0,
    ensures rcrc_fold(0x82f63b78, rcrc_fold(0x82f63b78, rcrc_fold(0x82f63b78, 0xffffffff, s.subrange(0, 4)), z), s.subrange(8, s.len() as int)) ^ 0xffffffffu32 == sum4(s),
        0u32 ^ 0xffffffffu32 == 0xffffffffu32,
{
    assert(0u32 ^ 0xffffffffu32 == 0xffffffffu32) by (bit_vector);
    assert(z =~= seq![0u8, 0u8, 0u8, 0u8]);
    theorem_split(0x82f63b78, 0xffffffff, s.subrange(0, 4), z);
    theorem_split(0x82f63b78, 0xffffffff, s.subrange(0, 4) + z, s.subrange(8, s.len() as int));
}
// the entry of 32 bytes with an identifier; of more than one, the last
spec fn last32(d: Seq<u8>, from: int, n: int, id: Uuid) -> Option<Seq<u8>>
    decreases n
{
    if n <= 0 { None } else {
        let e = d.subrange(from + 32 * (n - 1), from + 32 * n);
        if uuid_le(e.subrange(0, 16)) == id { Some(e) } else { last32(d, from, n - 1, id) }
    }
}
proof fn lemma_last32_len(d: Seq<u8>, from: int, n: int, id: Uuid)
    ensures last32(d, from, n, id) is Some ==> exists|i: int| 0 <= i < n && last32(d, from, n, id)->0 == #[trigger] entry32(d, from, i),
    decreases n,
{
    if n > 0 && last32(d, from, n, id) is Some {
        if uuid_le(entry32(d, from, n - 1).subrange(0, 16)) == id { } else { lemma_last32_len(d, from, n - 1, id); }
    }
}
spec fn entry32(d: Seq<u8>, from: int, i: int) -> Seq<u8> { d.subrange(from + 32 * i, from + 32 * (i + 1)) }
@@file keramics-formats/src/vhdx/constants.rs
@@item VHDX_FILE_HEADER_SIGNATURE
@@item VHDX_IMAGE_HEADER_SIGNATURE
@@item VHDX_REGION_TABLE_HEADER_SIGNATURE
@@item VHDX_METADATA_TABLE_HEADER_SIGNATURE
@@item VHDX_PARENT_LOCATOR_TYPE_INDICATOR
@@item VHDX_BLOCK_ALLOCATION_TABLE_REGION_IDENTIFIER
@@item VHDX_METADATA_REGION_IDENTIFIER
@@item VHDX_VIRTUAL_DISK_SIZE_METADATA_IDENTIFIER
@@item VHDX_LOGICAL_SECTOR_SIZE_METADATA_IDENTIFIER
@@item VHDX_PARENT_LOCATOR_METADATA_IDENTIFIER
@@item VHDX_VIRTUAL_DISK_IDENTIFIER_METADATA_IDENTIFIER
@@item VHDX_FILE_PARAMETERS_METADATA_IDENTIFIER
@@item VHDX_PHYSICAL_SECTOR_SIZE_METADATA_IDENTIFIER
@@file keramics-formats/src/vhdx/enums.rs
@@item VhdxDiskType #[derive(PartialEq, Eq, Structural)]
@@file keramics-formats/src/vhdx/file_header.rs
@@item VhdxFileHeader
@@raw
spec fn file_header_ok(s: Seq<u8>) -> bool { s.len() == 65536 && s.subrange(0, 8) == seq![0x76u8, 0x68u8, 0x64u8, 0x78u8, 0x66u8, 0x69u8, 0x6cu8, 0x65u8] }
@@fn VhdxFileHeader::new
@@fn VhdxFileHeader::read_data
    ensures r is Ok <==> file_header_ok(data@),
@@at start
proof { assert(VHDX_FILE_HEADER_SIGNATURE@ =~= seq![0x76u8, 0x68u8, 0x64u8, 0x78u8, 0x66u8, 0x69u8, 0x6cu8, 0x65u8]); }
@@fn VhdxFileHeader::read_at_position
    requires !(position is Current),
    ensures
        ({
            let d = data_stream.content();
            let p = kx_target(position, 0, d.len() as int);
            &&& r is Ok ==> d.len() <= u64::MAX && 0 <= p <= d.len() - 65536 && file_header_ok(d.subrange(p, p + 65536))
            &&& data_stream.sound() && 0 <= p <= d.len() - 65536 && file_header_ok(d.subrange(p, p + 65536)) ==> r is Ok
        }),
@@at let:offset after
proof {
    let d0 = data_stream.content();
    let p = kx_target(position, 0, d0.len() as int);
    assert(data@ =~= d0.subrange(p, p + 65536));
}
@@file keramics-formats/src/vhdx/image_header.rs
@@item VhdxImageHeader
@@raw
spec fn image_header_ok(s: Seq<u8>) -> bool {
    &&& s.len() == 4096 && s.subrange(0, 4) == seq![0x68u8, 0x65u8, 0x61u8, 0x64u8]
    &&& le32(s, 4) == 0 || le32(s, 4) == sum4(s)
}
spec fn image_header_is(h: VhdxImageHeader, s: Seq<u8>) -> bool {
    h.sequence_number == le64(s, 8) && h.data_write_identifier == uuid_le(s.subrange(32, 48)) && h.format_version == le16(s, 66)
}
@@fn VhdxImageHeader::new
@@fn VhdxImageHeader::read_data
    ensures r is Ok <==> image_header_ok(data@), r is Ok ==> image_header_is(*final(self), data@),
@@at start
proof {
    assert(VHDX_IMAGE_HEADER_SIGNATURE@ =~= seq![0x68u8, 0x65u8, 0x61u8, 0x64u8]);
    assert(0u32 ^ 0xffffffffu32 == 0xffffffffu32) by (bit_vector);
}
@@at let:calculated_checksum after
proof {
    assert forall|z: Seq<u8>| z.len() == 4 && z[0] == 0 && z[1] == 0 && z[2] == 0 && z[3] == 0 implies
        #[trigger] rcrc_fold(0x82f63b78, rcrc_fold(0x82f63b78, 0xffffffff, data@.subrange(0, 4)), z) == rcrc_fold(0x82f63b78, rcrc_fold(0x82f63b78, 0xffffffff, data@.subrange(0, 4)), seq![0u8, 0u8, 0u8, 0u8]) by { assert(z =~= seq![0u8, 0u8, 0u8, 0u8]); }
    lemma_sum4(data@, seq![0u8, 0u8, 0u8, 0u8]);
}
@@fn VhdxImageHeader::read_at_position
    requires !(position is Current),
    ensures
        ({
            let d = data_stream.content();
            let p = kx_target(position, 0, d.len() as int);
            &&& r is Ok ==> 0 <= p <= d.len() - 4096 && image_header_ok(d.subrange(p, p + 4096)) && image_header_is(*final(self), d.subrange(p, p + 4096))
            &&& data_stream.sound() && 0 <= p <= d.len() - 4096 && image_header_ok(d.subrange(p, p + 4096)) ==> r is Ok
        }),
@@at let:offset after
proof {
    let d0 = data_stream.content();
    let p = kx_target(position, 0, d0.len() as int);
    assert(data@ =~= d0.subrange(p, p + 4096));
}
@@file keramics-formats/src/vhdx/region_table_header.rs
@@item VhdxRegionTableHeader
@@raw
spec fn region_header_ok(s: Seq<u8>) -> bool { s.len() >= 16 && s.subrange(0, 4) == seq![0x72u8, 0x65u8, 0x67u8, 0x69u8] && le32(s, 8) <= 2047 }
@@fn VhdxRegionTableHeader::new
@@fn VhdxRegionTableHeader::read_data
    ensures r is Ok <==> region_header_ok(data@), r is Ok ==> final(self).checksum == le32(data@, 4) && final(self).number_of_entries == le32(data@, 8),
@@at start
proof { assert(VHDX_REGION_TABLE_HEADER_SIGNATURE@ =~= seq![0x72u8, 0x65u8, 0x67u8, 0x69u8]); }
@@file keramics-formats/src/vhdx/region_table_entry.rs
@@item VhdxRegionTableEntry
@@raw
spec fn region_is(e: VhdxRegionTableEntry, s: Seq<u8>) -> bool {
    e.type_identifier == uuid_le(s.subrange(0, 16)) && e.data_offset == le64(s, 16) && e.data_size == le32(s, 24)
}
@@fn VhdxRegionTableEntry::new
@@fn VhdxRegionTableEntry::read_data
    ensures r is Ok <==> data@.len() == 32, r is Ok ==> region_is(*final(self), data@),
@@file keramics-formats/src/vhdx/region_table.rs
@@item VhdxRegionTable
@@raw
spec fn region_table_ok(s: Seq<u8>) -> bool { s.len() == 65536 && region_header_ok(s) && (le32(s, 4) == 0 || le32(s, 4) == sum4(s)) }
spec fn region_table_is(t: VhdxRegionTable, s: Seq<u8>, n: int) -> bool {
    &&& forall|id: Uuid| #[trigger] t.entries@.contains_key(id) <==> last32(s, 16, n, id) is Some
    &&& forall|id: Uuid| #[trigger] t.entries@.contains_key(id) ==> region_is(t.entries@[id], last32(s, 16, n, id)->0)
}
@@fn VhdxRegionTable::new
    ensures r.entries@ == Map::<Uuid, VhdxRegionTableEntry>::empty(),
@@fn VhdxRegionTable::read_data
    requires data@.len() == 65536, old(self).entries@ == Map::<Uuid, VhdxRegionTableEntry>::empty(),
    ensures r is Ok <==> region_table_ok(data@), r is Ok ==> region_table_is(*final(self), data@, le32(data@, 8) as int),
@@at start
proof { axiom_uuid_key(); assert(0u32 ^ 0xffffffffu32 == 0xffffffffu32) by (bit_vector); }
@@at let:calculated_checksum after
proof {
    assert forall|z: Seq<u8>| z.len() == 4 && z[0] == 0 && z[1] == 0 && z[2] == 0 && z[3] == 0 implies
        #[trigger] rcrc_fold(0x82f63b78, rcrc_fold(0x82f63b78, 0xffffffff, data@.subrange(0, 4)), z) == rcrc_fold(0x82f63b78, rcrc_fold(0x82f63b78, 0xffffffff, data@.subrange(0, 4)), seq![0u8, 0u8, 0u8, 0u8]) by { assert(z =~= seq![0u8, 0u8, 0u8, 0u8]); }
    lemma_sum4(data@, seq![0u8, 0u8, 0u8, 0u8]);
}
@@loop 0
    invariant
        data@.len() == 65536, data_offset == 16 + 32 * it0, region_table_is(*self, data@, it0 as int),
@@fn VhdxRegionTable::read_at_position
    requires !(position is Current), old(self).entries@ == Map::<Uuid, VhdxRegionTableEntry>::empty(),
    ensures
        ({
            let d = data_stream.content();
            let p = kx_target(position, 0, d.len() as int);
            let s = d.subrange(p, p + 65536);
            &&& r is Ok ==> 0 <= p <= d.len() - 65536 && region_table_ok(s) && region_table_is(*final(self), s, le32(s, 8) as int)
            &&& data_stream.sound() && 0 <= p <= d.len() - 65536 && region_table_ok(s) ==> r is Ok
        }),
@@at let:offset after
proof {
    let d0 = data_stream.content();
    let p = kx_target(position, 0, d0.len() as int);
    assert(data@ =~= d0.subrange(p, p + 65536));
}
@@file keramics-formats/src/vhdx/metadata_table_header.rs
@@item VhdxMetadataTableHeader
@@raw
spec fn metadata_header_ok(s: Seq<u8>) -> bool { s.len() >= 32 && s.subrange(0, 8) == seq![0x6du8, 0x65u8, 0x74u8, 0x61u8, 0x64u8, 0x61u8, 0x74u8, 0x61u8] && le16(s, 10) <= 2047 }
@@fn VhdxMetadataTableHeader::new
@@fn VhdxMetadataTableHeader::read_data
    ensures r is Ok <==> metadata_header_ok(data@), r is Ok ==> final(self).number_of_entries == le16(data@, 10),
@@at start
proof { assert(VHDX_METADATA_TABLE_HEADER_SIGNATURE@ =~= seq![0x6du8, 0x65u8, 0x74u8, 0x61u8, 0x64u8, 0x61u8, 0x74u8, 0x61u8]); }
@@file keramics-formats/src/vhdx/metadata_table_entry.rs
@@item VhdxMetadataTableEntry
@@raw
spec fn metadata_is(e: VhdxMetadataTableEntry, s: Seq<u8>) -> bool {
    e.item_identifier == uuid_le(s.subrange(0, 16)) && e.item_offset == le32(s, 16) && e.item_size == le32(s, 20)
}
@@fn VhdxMetadataTableEntry::new
@@fn VhdxMetadataTableEntry::read_data
    ensures r is Ok <==> data@.len() == 32 && le32(data@, 16) >= 65536, r is Ok ==> metadata_is(*final(self), data@),
@@file keramics-formats/src/vhdx/metadata_table.rs
@@item VhdxMetadataTable
@@raw
spec fn metadata_table_ok(s: Seq<u8>) -> bool { s.len() == 65536 && metadata_header_ok(s) && forall|i: int| 0 <= i < le16(s, 10) ==> le32(#[trigger] entry32(s, 32, i), 16) >= 65536 }
spec fn metadata_table_is(t: VhdxMetadataTable, s: Seq<u8>, n: int) -> bool {
    &&& forall|id: Uuid| #[trigger] t.entries@.contains_key(id) <==> last32(s, 32, n, id) is Some
    &&& forall|id: Uuid| #[trigger] t.entries@.contains_key(id) ==> metadata_is(t.entries@[id], last32(s, 32, n, id)->0)
}
@@fn VhdxMetadataTable::new
    ensures r.entries@ == Map::<Uuid, VhdxMetadataTableEntry>::empty(),
@@fn VhdxMetadataTable::read_data
    requires data@.len() == 65536, old(self).entries@ == Map::<Uuid, VhdxMetadataTableEntry>::empty(),
    ensures r is Ok <==> metadata_table_ok(data@), r is Ok ==> metadata_table_is(*final(self), data@, le16(data@, 10) as int),
@@at start
proof { axiom_uuid_key(); }
@@loop 0
    invariant
        data@.len() == 65536, data_offset == 32 + 32 * it0, metadata_table_is(*self, data@, it0 as int),
        forall|i: int| 0 <= i < it0 ==> le32(#[trigger] entry32(data@, 32, i), 16) >= 65536,
@@at let:metadata_table_entry after
proof { assert(data@.subrange(data_offset as int, data_end_offset as int) == entry32(data@, 32, it0 - 1)); }
@@fn VhdxMetadataTable::read_at_position
    requires !(position is Current), old(self).entries@ == Map::<Uuid, VhdxMetadataTableEntry>::empty(),
    ensures
        ({
            let d = data_stream.content();
            let p = kx_target(position, 0, d.len() as int);
            let s = d.subrange(p, p + 65536);
            &&& r is Ok ==> 0 <= p <= d.len() - 65536 && metadata_table_ok(s) && metadata_table_is(*final(self), s, le16(s, 10) as int)
            &&& data_stream.sound() && 0 <= p <= d.len() - 65536 && metadata_table_ok(s) ==> r is Ok
        }),
@@at let:offset after
proof {
    let d0 = data_stream.content();
    let p = kx_target(position, 0, d0.len() as int);
    assert(data@ =~= d0.subrange(p, p + 65536));
}
@@file keramics-formats/src/vhdx/block_allocation_table.rs
@@item VhdxBlockAllocationTableEntry
@@raw
// the low 3 bits of an entry are the state of the block, the high 44 bits its offset
spec fn state_of(v: u64) -> int { v as int % 8 }
spec fn offset_of(v: u64) -> int { v as int - v as int % 0x10_0000 }
proof fn lemma_bat_entry(v: u64)
    ensures (v & 7) as u8 == state_of(v), v & 0xfffffffffff00000 == offset_of(v), offset_of(v) <= u64::MAX - 0xf_ffff,
{
    assert(v & 7 == v % 8 && v & 0xfffffffffff00000 == sub(v, v % 0x10_0000) && v & 0xfffffffffff00000 <= 0xfffffffffff00000) by (bit_vector);
}
@@fn VhdxBlockAllocationTableEntry::new
@@fn VhdxBlockAllocationTableEntry::read_data
    ensures r is Ok <==> data@.len() == 8, r is Ok ==> final(self).block_state == state_of(le64(data@, 0)) && final(self).block_offset == offset_of(le64(data@, 0)),
@@at start
proof { if data@.len() == 8 { lemma_bat_entry(le64(data@, 0)); } }
@@item VhdxBlockAllocationTable
@@fn VhdxBlockAllocationTable::new
    ensures r.offset == offset, r.number_of_entries == number_of_entries,
@@fn VhdxBlockAllocationTable::read_entry
    ensures
        ({
            let d = data_stream.content();
            let p = self.offset + 8 * entry_index;
            &&& r is Ok ==> entry_index < self.number_of_entries && p + 8 <= d.len() && r->Ok_0.block_state == state_of(le64(d, p)) && r->Ok_0.block_offset == offset_of(le64(d, p))
            &&& data_stream.sound() && entry_index < self.number_of_entries && p + 8 <= d.len() && p <= u64::MAX ==> r is Ok
        }),
@@file keramics-formats/src/vhdx/block_range.rs
@@item VhdxBlockRangeType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@item VhdxBlockRange
@@raw
impl Clone for VhdxBlockRange {
    fn clone(&self) -> (r: Self) ensures r == *self { VhdxBlockRange { media_offset: self.media_offset, data_offset: self.data_offset, size: self.size, range_type: self.range_type } }
}
@@fn VhdxBlockRange::new
    ensures r.media_offset == media_offset, r.data_offset == data_offset, r.size == size, r.range_type == range_type,
@@file keramics-formats/src/vhdx/sector_bitmap.rs
@@item VhdxSectorBitmapRange
@@raw
// bit k of a bitmap: the least significant bit of a byte is the first
spec fn bit(d: Seq<u8>, k: int) -> bool { (d[k / 8] >> ((k % 8) as u8)) & 1 == 1 }
spec fn total(rs: Seq<VhdxSectorBitmapRange>) -> int
    decreases rs.len()
{
    if rs.len() == 0 { 0 } else { total(rs.drop_last()) + rs.last().size }
}
// the ranges are whole bits, none is empty, and each has the value of all its bits
spec fn spans(rs: Seq<VhdxSectorBitmapRange>, d: Seq<u8>, bpb: int) -> bool
    decreases rs.len()
{
    rs.len() == 0 || {
        &&& spans(rs.drop_last(), d, bpb)
        &&& rs.last().size > 0 && rs.last().size as int % bpb == 0
        &&& forall|o: int| #![trigger bit(d, o / bpb)] total(rs.drop_last()) <= o < total(rs) ==> rs.last().is_set == bit(d, o / bpb)
    }
}
proof fn lemma_bit0(x: u8)
    ensures (x & 1) <= 1, (x & 1) == ((x >> 0u8) & 1), (x >> 0u8) == x,
{
    assert((x & 1) <= 1 && (x & 1) == ((x >> 0u8) & 1) && (x >> 0u8) == x) by (bit_vector);
}
proof fn lemma_bit(x: u8, i: u8)
    requires i < 8,
    ensures ((x >> i) & 1) <= 1, ((x >> i) >> 1) == (x >> ((i + 1) as u8)),
{
    assert(i < 8 ==> ((x >> i) & 1) <= 1 && ((x >> i) >> 1) == (x >> add(i, 1))) by (bit_vector);
}
proof fn lemma_unit(o: int, s: int, k: int, bpb: int)
    requires bpb > 0, s * bpb <= o < k * bpb,
    ensures s <= o / bpb < k,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(o, bpb);
    assert(s <= o / bpb < k) by (nonlinear_arith) requires s * bpb <= o < k * bpb, o == bpb * (o / bpb) + o % bpb, 0 <= o % bpb < bpb, bpb > 0;
}
proof fn lemma_diff(s: int, k: int, bpb: int)
    requires bpb > 0,
    ensures (k * bpb - s * bpb) % bpb == 0,
{
    assert(k * bpb - s * bpb == (k - s) * bpb) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k - s, bpb);
}
@@fn VhdxSectorBitmapRange::new
    requires start_offset <= end_offset,
    ensures r.size == end_offset - start_offset, r.is_set == is_set,
@@item VhdxSectorBitmap
@@fn VhdxSectorBitmap::new
    ensures r.size == size, r.bytes_per_bit == bytes_per_bit, r.ranges@.len() == 0,
@@fn VhdxSectorBitmap::read_data
    requires 0 < data@.len() <= 0xffff_ffff, old(self).bytes_per_bit > 0, old(self).ranges@.len() == 0,
    ensures r is Ok, spans(final(self).ranges@, data@, old(self).bytes_per_bit as int), total(final(self).ranges@) == 8 * data@.len() * old(self).bytes_per_bit,
@@at start
    let ghost d = data@;
    let ghost bpb = self.bytes_per_bit as int;
    let ghost mut k: int = 0;
    let ghost mut s: int = 0;
    let ghost mut rs0 = self.ranges@;
    proof { lemma_bit0(d[0]); }
@@loop 0
    invariant
        self.size == old(self).size, self.bytes_per_bit == old(self).bytes_per_bit, k == 8 * it0,
        0 <= s <= k, k > 0 ==> s < k, offset == k * bpb, range_offset == s * bpb,
        range_bit_value <= 1, forall|i: int| s <= i < k ==> (range_bit_value == 1) == #[trigger] bit(d, i), k == 0 ==> (range_bit_value == 1) == bit(d, 0),
        spans(self.ranges@, d, bpb), total(self.ranges@) == range_offset,
@@loop 1
    invariant
        self.size == old(self).size, self.bytes_per_bit == old(self).bytes_per_bit, k == 8 * data_offset + it1,
        byte_value == (d[data_offset as int] >> (it1 as u8)),
        0 <= s <= k, k > 0 ==> s < k, offset == k * bpb, range_offset == s * bpb,
        range_bit_value <= 1, forall|i: int| s <= i < k ==> (range_bit_value == 1) == #[trigger] bit(d, i), k == 0 ==> (range_bit_value == 1) == bit(d, 0),
        spans(self.ranges@, d, bpb), total(self.ranges@) == range_offset,
@@at let:byte_value after
    proof { lemma_bit0(d[data_offset as int]); }
@@at let:bit_value before
    proof {
        let i = it1 - 1;
        lemma_bit(d[data_offset as int], i as u8);
        assert(k / 8 == data_offset && k % 8 == i);
        rs0 = self.ranges@;
        assert(k * bpb <= 8 * 0xffff_ffff * 0xffff) by (nonlinear_arith) requires 0 <= k <= 8 * 0xffff_ffff, 0 < bpb <= 0xffff;
        assert((k + 1) * bpb == k * bpb + bpb) by (nonlinear_arith);
        assert(s * bpb <= k * bpb) by (nonlinear_arith) requires s <= k, bpb > 0;
        if s < k { assert(s * bpb < k * bpb) by (nonlinear_arith) requires s < k, bpb > 0; }
    }
@@at let:bit_value after
    proof {
        assert((bit_value == 1) == bit(d, k) && bit_value <= 1);
        if bit_value != range_bit_value {
            assert forall|o: int| #![trigger bit(d, o / bpb)] s * bpb <= o < k * bpb implies (range_bit_value != 0) == bit(d, o / bpb) by { lemma_unit(o, s, k, bpb); }
            lemma_diff(s, k, bpb);
        }
    }
@@at loop 1 end
    proof {
        if s * bpb != range_offset {
            assert(self.ranges@.drop_last() =~= rs0);
            s = k;
        }
        k = k + 1;
    }
@@at loop 0 after
    proof {
        rs0 = self.ranges@;
        assert(k == 8 * d.len());
        assert(s * bpb < k * bpb) by (nonlinear_arith) requires s < k, bpb > 0;
        assert forall|o: int| #![trigger bit(d, o / bpb)] s * bpb <= o < k * bpb implies (range_bit_value != 0) == bit(d, o / bpb) by { lemma_unit(o, s, k, bpb); }
        lemma_diff(s, k, bpb);
    }
@@at tail
    proof { assert(self.ranges@.drop_last() =~= rs0); }
@@fn VhdxSectorBitmap::read_at_position
    requires !(position is Current), 0 < old(self).size <= 0xffff_ffff, old(self).bytes_per_bit > 0, old(self).ranges@.len() == 0,
    ensures
        ({
            let d = data_stream.content();
            let p = kx_target(position, 0, d.len() as int);
            let n = old(self).size as int;
            &&& r is Ok ==> 0 <= p <= d.len() - n && spans(final(self).ranges@, d.subrange(p, p + n), old(self).bytes_per_bit as int) && total(final(self).ranges@) == 8 * n * old(self).bytes_per_bit
            &&& data_stream.sound() && 0 <= p <= d.len() - n ==> r is Ok
        }),
@@at let:offset after
proof {
    let d0 = data_stream.content();
    let p = kx_target(position, 0, d0.len() as int);
    assert(data@ =~= d0.subrange(p, p + self.size));
}
@@raw
uninterp spec fn ucs2_text(s: Seq<u16>) -> Seq<char>;
impl Ucs2String {
    // the text is proved in C13
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) ensures r@ == ucs2_text(self.elements@) { unimplemented!() }
    // the derived Clone
    #[verifier::external_body]
    fn clone(&self) -> (r: Ucs2String) ensures r.elements@ == self.elements@ { unimplemented!() }
}
@@file keramics-formats/src/vhdx/parent_locator_header.rs
@@item VhdxParentLocatorHeader
@@raw
spec fn locator_type() -> Seq<u8> { seq![0xb7u8, 0xefu8, 0x4au8, 0xb0u8, 0x9eu8, 0xd1u8, 0x81u8, 0x4au8, 0xb7u8, 0x89u8, 0x25u8, 0xb8u8, 0xe9u8, 0x44u8, 0x59u8, 0x13u8] }
@@fn VhdxParentLocatorHeader::new
@@fn VhdxParentLocatorHeader::read_data
    ensures r is Ok <==> data@.len() >= 20 && data@.subrange(0, 16) == locator_type(), r is Ok ==> final(self).number_of_entries == le16(data@, 18),
@@at start
proof { assert(VHDX_PARENT_LOCATOR_TYPE_INDICATOR@ =~= locator_type()); }
@@file keramics-formats/src/vhdx/parent_locator_entry.rs
@@item VhdxParentLocatorEntry
@@fn VhdxParentLocatorEntry::new
@@fn VhdxParentLocatorEntry::read_data
    ensures r is Ok <==> data@.len() == 12,
        r is Ok ==> final(self).key_data_offset == le32(data@, 0) && final(self).value_data_offset == le32(data@, 4) && final(self).key_data_size == le16(data@, 8) && final(self).value_data_size == le16(data@, 10),
@@file keramics-formats/src/vhdx/parent_locator.rs
@@item VhdxParentLocator
@@raw
spec fn entry12(s: Seq<u8>, i: int) -> Seq<u8> { s.subrange(20 + 12 * i, 20 + 12 * (i + 1)) }
spec fn within(s: Seq<u8>, offset: int, size: int) -> bool { 20 <= offset < s.len() && offset + size <= s.len() }
spec fn locator_entry_ok(s: Seq<u8>, i: int) -> bool {
    let e = entry12(s, i);
    20 + 12 * (i + 1) <= s.len() && within(s, le32(e, 0) as int, le16(e, 8) as int) && within(s, le32(e, 4) as int, le16(e, 10) as int)
}
spec fn locator_ok(s: Seq<u8>) -> bool { s.len() >= 20 && s.subrange(0, 16) == locator_type() && forall|i: int| 0 <= i < le16(s, 18) ==> #[trigger] locator_entry_ok(s, i) }
spec fn text_at(s: Seq<u8>, offset: int, size: int) -> Seq<u16> { until_nul16(words_le(s.subrange(offset, offset + size))) }
// the value of a key; of more than one, the last
spec fn locator_value(s: Seq<u8>, n: int, k: Seq<char>) -> Option<Seq<u16>>
    decreases n
{
    if n <= 0 { None } else {
        let e = entry12(s, n - 1);
        if ucs2_text(text_at(s, le32(e, 0) as int, le16(e, 8) as int)) == k { Some(text_at(s, le32(e, 4) as int, le16(e, 10) as int)) } else { locator_value(s, n - 1, k) }
    }
}
spec fn locator_is(t: VhdxParentLocator, s: Seq<u8>, n: int) -> bool {
    &&& forall|k: Seq<char>| #[trigger] text_map(t.entries).contains_key(k) <==> locator_value(s, n, k) is Some
    &&& forall|k: Seq<char>| #[trigger] text_map(t.entries).contains_key(k) ==> text_map(t.entries)[k].elements@ == locator_value(s, n, k)->0
}
@@fn VhdxParentLocator::new
    ensures text_map(r.entries) == Map::<Seq<char>, Ucs2String>::empty(),
@@at start
proof { assert forall|m: HashMap<String, Ucs2String>| m@ == Map::<String, Ucs2String>::empty() implies #[trigger] text_map(m) == Map::<Seq<char>, Ucs2String>::empty() by { axiom_text_map(m); } }
@@fn VhdxParentLocator::read_data
    requires text_map(old(self).entries) == Map::<Seq<char>, Ucs2String>::empty(),
    ensures r is Ok <==> locator_ok(data@), r is Ok ==> locator_is(*final(self), data@, le16(data@, 18) as int),
@@loop 0
    invariant
        data_size == data@.len(), data_offset == 20 + 12 * it0, locator_is(*self, data@, it0 as int),
        forall|i: int| 0 <= i < it0 ==> #[trigger] locator_entry_ok(data@, i),
@@at let:data_end_offset after
proof { if locator_ok(data@) { assert(locator_entry_ok(data@, it0 - 1)); } if data_end_offset <= data_size { assert(data@.subrange(data_offset as int, data_end_offset as int) == entry12(data@, it0 - 1)); } }
@@fn VhdxParentLocator::read_at_position
    requires !(position is Current), text_map(old(self).entries) == Map::<Seq<char>, Ucs2String>::empty(),
    ensures
        ({
            let d = data_stream.content();
            let p = kx_target(position, 0, d.len() as int);
            let s = d.subrange(p, p + data_size);
            &&& r is Ok ==> 20 <= data_size <= 65536 && 0 <= p <= d.len() - data_size && locator_ok(s) && locator_is(*final(self), s, le16(s, 18) as int)
            &&& data_stream.sound() && 20 <= data_size <= 65536 && 0 <= p <= d.len() - data_size && locator_ok(s) ==> r is Ok
        }),
@@at let:offset after
proof {
    let d0 = data_stream.content();
    let p = kx_target(position, 0, d0.len() as int);
    assert(data@ =~= d0.subrange(p, p + data_size));
}
@@file keramics-formats/src/vhdx/file.rs
@@item VhdxFile
@@raw
// the sizes of a block: 1 to 256 MiB, a power of 2
spec fn is_bs(x: int) -> bool { x == 0x10_0000 || x == 0x20_0000 || x == 0x40_0000 || x == 0x80_0000 || x == 0x100_0000 || x == 0x200_0000 || x == 0x400_0000 || x == 0x800_0000 || x == 0x1000_0000 }
spec fn is_bps(x: int) -> bool { x == 512 || x == 4096 }
proof fn lemma_is_bs(x: u32)
    ensures 0x10_0000 <= x <= 0x1000_0000 && is_pow2(x) <==> is_bs(x as int),
{
    assert((0x10_0000 <= x <= 0x1000_0000 && x != 0 && x & sub(x, 1) == 0) <==> (x == 0x10_0000 || x == 0x20_0000 || x == 0x40_0000 || x == 0x80_0000 || x == 0x100_0000 || x == 0x200_0000 || x == 0x400_0000 || x == 0x800_0000 || x == 0x1000_0000)) by (bit_vector);
}
// a chunk is the blocks of 2^23 sectors; its sector bitmaps together are a block of 1 MiB
spec fn chunk(bs: int, bps: int) -> int { (0x80_0000 * bps) / bs }
spec fn bitmap_size(bs: int, bps: int) -> int { 0x10_0000int / chunk(bs, bps) }
proof fn lemma_chunk(bs: int, bps: int)
    requires is_bs(bs), is_bps(bps),
    ensures 16 <= chunk(bs, bps) <= 32768, 32 <= bitmap_size(bs, bps) <= 65536, 8 * bitmap_size(bs, bps) * bps == bs, chunk(bs, bps) * bitmap_size(bs, bps) == 0x10_0000, bs % bps == 0,
{
    assert(chunk(1048576, 512) == 4096 && bitmap_size(1048576, 512) == 256 && chunk(1048576, 512) * bitmap_size(1048576, 512) == 0x10_0000) by (compute);
    assert(chunk(1048576, 4096) == 32768 && bitmap_size(1048576, 4096) == 32 && chunk(1048576, 4096) * bitmap_size(1048576, 4096) == 0x10_0000) by (compute);
    assert(chunk(2097152, 512) == 2048 && bitmap_size(2097152, 512) == 512 && chunk(2097152, 512) * bitmap_size(2097152, 512) == 0x10_0000) by (compute);
    assert(chunk(2097152, 4096) == 16384 && bitmap_size(2097152, 4096) == 64 && chunk(2097152, 4096) * bitmap_size(2097152, 4096) == 0x10_0000) by (compute);
    assert(chunk(4194304, 512) == 1024 && bitmap_size(4194304, 512) == 1024 && chunk(4194304, 512) * bitmap_size(4194304, 512) == 0x10_0000) by (compute);
    assert(chunk(4194304, 4096) == 8192 && bitmap_size(4194304, 4096) == 128 && chunk(4194304, 4096) * bitmap_size(4194304, 4096) == 0x10_0000) by (compute);
    assert(chunk(8388608, 512) == 512 && bitmap_size(8388608, 512) == 2048 && chunk(8388608, 512) * bitmap_size(8388608, 512) == 0x10_0000) by (compute);
    assert(chunk(8388608, 4096) == 4096 && bitmap_size(8388608, 4096) == 256 && chunk(8388608, 4096) * bitmap_size(8388608, 4096) == 0x10_0000) by (compute);
    assert(chunk(16777216, 512) == 256 && bitmap_size(16777216, 512) == 4096 && chunk(16777216, 512) * bitmap_size(16777216, 512) == 0x10_0000) by (compute);
    assert(chunk(16777216, 4096) == 2048 && bitmap_size(16777216, 4096) == 512 && chunk(16777216, 4096) * bitmap_size(16777216, 4096) == 0x10_0000) by (compute);
    assert(chunk(33554432, 512) == 128 && bitmap_size(33554432, 512) == 8192 && chunk(33554432, 512) * bitmap_size(33554432, 512) == 0x10_0000) by (compute);
    assert(chunk(33554432, 4096) == 1024 && bitmap_size(33554432, 4096) == 1024 && chunk(33554432, 4096) * bitmap_size(33554432, 4096) == 0x10_0000) by (compute);
    assert(chunk(67108864, 512) == 64 && bitmap_size(67108864, 512) == 16384 && chunk(67108864, 512) * bitmap_size(67108864, 512) == 0x10_0000) by (compute);
    assert(chunk(67108864, 4096) == 512 && bitmap_size(67108864, 4096) == 2048 && chunk(67108864, 4096) * bitmap_size(67108864, 4096) == 0x10_0000) by (compute);
    assert(chunk(134217728, 512) == 32 && bitmap_size(134217728, 512) == 32768 && chunk(134217728, 512) * bitmap_size(134217728, 512) == 0x10_0000) by (compute);
    assert(chunk(134217728, 4096) == 256 && bitmap_size(134217728, 4096) == 4096 && chunk(134217728, 4096) * bitmap_size(134217728, 4096) == 0x10_0000) by (compute);
    assert(chunk(268435456, 512) == 16 && bitmap_size(268435456, 512) == 65536 && chunk(268435456, 512) * bitmap_size(268435456, 512) == 0x10_0000) by (compute);
    assert(chunk(268435456, 4096) == 128 && bitmap_size(268435456, 4096) == 8192 && chunk(268435456, 4096) * bitmap_size(268435456, 4096) == 0x10_0000) by (compute);
}
// in the table the entries of the blocks of a chunk are followed by the entry of its bitmaps
spec fn entry_index(b: int, epc: int) -> int { (b / epc) * (epc + 1) + b % epc }
spec fn bitmap_index(b: int, epc: int) -> int { (b / epc) * (epc + 1) + epc }
spec fn bat_entry(c: Seq<u8>, bat: int, i: int) -> u64 { le64(c, bat + 8 * i) }
spec fn bitmap_offset(c: Seq<u8>, bat: int, bs: int, bps: int, b: int) -> int {
    offset_of(bat_entry(c, bat, bitmap_index(b, chunk(bs, bps)))) + (b % chunk(bs, bps)) * bitmap_size(bs, bps)
}
proof fn lemma_index(b: int, epc: int, k: int)
    requires 0 <= b < 0x2000_0000, 16 <= epc <= 32768, k > 0, epc * k == 0x10_0000,
    ensures 0 <= b / epc <= b, 0 <= b % epc < epc, 0 <= entry_index(b, epc) <= 2 * b, 0 <= bitmap_index(b, epc) <= 2 * b + 32769, (1 + b / epc) * (epc + 1) - 1 == bitmap_index(b, epc),
        0 <= (b / epc) * (epc + 1), 0 <= (b % epc) * k <= 0x10_0000 - k,
{
    let q = b / epc;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, epc);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(b, epc);
    assert(q <= q * epc && q * (epc + 1) == q * epc + q && (1 + q) * (epc + 1) == q * (epc + 1) + epc + 1 && epc * q == q * epc) by (nonlinear_arith) requires q >= 0, epc >= 16;
    let m = b % epc;
    assert(0 <= m * k <= 0x10_0000 - k) by (nonlinear_arith) requires 0 <= m <= epc - 1, epc * k == 0x10_0000, k > 0;
}
// byte o of a disk with blocks of bs bytes, sectors of bps bytes and its table at bat: a block of
// state 6 or 7 is in the image; a sector of a differential disk only when its bit in the bitmap of
// the block is set, otherwise (and when the block is not present) it is in the parent
#[verifier::opaque]
spec fn vhdx_byte(c: Seq<u8>, bat: int, bs: int, bps: int, diff: bool, o: int) -> DByte {
    let b = o / bs;
    let e = bat_entry(c, bat, entry_index(b, chunk(bs, bps)));
    let bm = bitmap_offset(c, bat, bs, bps, b);
    if diff && state_of(e) == 7 && !bit(c.subrange(bm, bm + bitmap_size(bs, bps)), (o % bs) / bps) { DByte::Parent }
    else if diff && state_of(e) == 0 { DByte::Parent }
    else if state_of(e) < 6 { DByte::Zero }
    else { DByte::Mapped(offset_of(e) + o % bs) }
}
spec fn in_range(v: VhdxBlockRange, o: int) -> bool { v.media_offset <= o < v.media_offset + v.size }
spec fn range_byte(v: VhdxBlockRange, o: int) -> DByte {
    match v.range_type {
        VhdxBlockRangeType::InFile => DByte::Mapped(v.data_offset + o - v.media_offset),
        VhdxBlockRangeType::InParent => DByte::Parent,
        VhdxBlockRangeType::Sparse => DByte::Zero,
    }
}
// the range agrees with the disk on all its bytes
spec fn agrees(v: VhdxBlockRange, c: Seq<u8>, bat: int, bs: int, bps: int, diff: bool, end: int) -> bool {
    &&& v.media_offset + v.size <= end && v.data_offset + v.size <= u64::MAX
    &&& forall|q: int| in_range(v, q) ==> range_byte(v, q) == #[trigger] vhdx_byte(c, bat, bs, bps, diff, q)
}
#[verifier::opaque]
spec fn tree_ok(t: BlockTree<VhdxBlockRange>, c: Seq<u8>, bat: int, bs: int, bps: int, diff: bool) -> bool {
    &&& t.wf()
    &&& forall|o: int| (#[trigger] t.at(o)) is Some ==> in_range(t.at(o)->0, o) && agrees(t.at(o)->0, c, bat, bs, bps, diff, t.data_size as int)
    // a block is in the tree as a whole or not at all
    &&& forall|o: int, q: int| 0 <= o && 0 <= q && o / bs == q / bs && (#[trigger] t.at(o)) is Some ==> (#[trigger] t.at(q)) is Some
}
proof fn lemma_no_parent(c: Seq<u8>, bat: int, bs: int, bps: int, diff: bool, o: int)
    ensures !diff ==> !(vhdx_byte(c, bat, bs, bps, diff, o) is Parent), !(vhdx_byte(c, bat, bs, bps, diff, o) is Missing),
{
    reveal(vhdx_byte);
}
proof fn lemma_tree(t: BlockTree<VhdxBlockRange>, c: Seq<u8>, bat: int, bs: int, bps: int, diff: bool, m: int)
    requires tree_ok(t, c, bat, bs, bps, diff),
    ensures t.wf(), t.at(m) is Some ==> in_range(t.at(m)->0, m) && agrees(t.at(m)->0, c, bat, bs, bps, diff, t.data_size as int),
        0 <= m && t.at(m) is None ==> forall|o: int| 0 <= o && o / bs == m / bs ==> (#[trigger] t.at(o)) is None,
{
    reveal(tree_ok);
    if 0 <= m && t.at(m) is None { assert forall|o: int| 0 <= o && o / bs == m / bs implies (#[trigger] t.at(o)) is None by { if t.at(o) is Some { assert(t.at(m) is Some); } } }
}
impl VhdxFile {
    spec fn image(self) -> Seq<u8> { if self.data_stream is Some { self.data_stream->0.content() } else { Seq::empty() } }
    spec fn parent(self) -> Seq<u8> { if self.parent_file is Some { self.parent_file->0.content() } else { Seq::empty() } }
    spec fn bat(self) -> int { self.block_allocation_table->0.offset as int }
    spec fn diff(self) -> bool { self.disk_type == VhdxDiskType::Differential }
    spec fn map(self, o: int) -> DByte { vhdx_byte(self.image(), self.bat(), self.block_size as int, self.bytes_per_sector as int, self.diff(), o) }
    // an opened file
    spec fn wf(self) -> bool {
        &&& self.data_stream is Some && self.block_allocation_table is Some && self.block_allocation_table->0.number_of_entries < 0x2000_0000
        &&& is_bps(self.bytes_per_sector as int) && is_bs(self.block_size as int)
        &&& self.entries_per_chunk == chunk(self.block_size as int, self.bytes_per_sector as int)
        &&& self.sector_bitmap_size == bitmap_size(self.block_size as int, self.bytes_per_sector as int)
        &&& self.block_tree.data_size == self.block_allocation_table->0.number_of_entries * self.block_size && self.media_size <= self.block_tree.data_size
        &&& self.block_tree.leaf_value_size == self.bytes_per_sector && self.block_tree.wf()
        &&& tree_ok(self.block_tree, self.image(), self.bat(), self.block_size as int, self.bytes_per_sector as int, self.diff())
    }
    // what may change when the disk is read
    spec fn same(self, o: Self) -> bool { self == (VhdxFile { block_tree: self.block_tree, media_offset: self.media_offset, ..o }) && self.block_tree.sizes(o.block_tree) }
    spec fn block_present(self, b: int) -> bool { block_present(self.image(), self.bat(), self.block_allocation_table->0.number_of_entries as int, self.block_size as int, self.bytes_per_sector as int, self.diff(), b) }
    // streams that do not fail, a parent where one is needed, and a table and bitmaps that are all there
    spec fn complete(self) -> bool {
        &&& self.data_stream is Some && self.data_stream->0.sound()
        &&& self.diff() ==> self.parent_file is Some && self.parent_file->0.sound()
        &&& forall|b: int| 0 <= b && b * self.block_size < self.media_size ==> #[trigger] block_present(self.image(), self.bat(), self.block_allocation_table->0.number_of_entries as int, self.block_size as int, self.bytes_per_sector as int, self.diff(), b)
    }
}
// the entry of block b and, where it needs one, its bitmap are in the image
#[verifier::opaque]
spec fn block_present(c: Seq<u8>, bat: int, n: int, bs: int, bps: int, diff: bool, b: int) -> bool {
    let i = entry_index(b, chunk(bs, bps));
    let j = bitmap_index(b, chunk(bs, bps));
    let e = bat_entry(c, bat, i);
    &&& i < n && bat + 8 * i + 8 <= c.len() <= u64::MAX
    &&& state_of(e) >= 6 ==> offset_of(e) + bs <= u64::MAX
    &&& diff && state_of(e) == 7 ==> j < n && bat + 8 * j + 8 <= c.len() && bitmap_offset(c, bat, bs, bps, b) + bitmap_size(bs, bps) <= c.len()
}
proof fn lemma_block(b: int, nb: int, bs: int, bps: int)
    requires 0 <= b < nb < 0x2000_0000, is_bs(bs), is_bps(bps),
    ensures 0 <= b * bs, b * bs + bs <= nb * bs, nb * bs <= 0x2000_0000 * 0x1000_0000, (b * bs) % bps == 0,
        forall|o: int| #![trigger o / bs] b * bs <= o < b * bs + bs <==> o / bs == b,
        forall|o: int| #![trigger o % bs] b * bs <= o < b * bs + bs ==> o % bs == o - b * bs,
{
    assert(0 <= b * bs && b * bs + bs <= nb * bs && nb * bs <= 0x2000_0000 * 0x1000_0000) by (nonlinear_arith) requires 0 <= b < nb < 0x2000_0000, 0 < bs <= 0x1000_0000;
    lemma_scaled_mod(b, bs, bps);
    assert forall|o: int| #![trigger o / bs] b * bs <= o < b * bs + bs <==> o / bs == b by { lemma_in_block(b, bs, o); }
    assert forall|o: int| #![trigger o % bs] b * bs <= o < b * bs + bs implies o % bs == o - b * bs by { lemma_in_block(b, bs, o); }
}
proof fn lemma_in_block(b: int, bs: int, o: int)
    requires bs > 0,
    ensures b * bs <= o < b * bs + bs <==> o / bs == b, b * bs <= o < b * bs + bs ==> o % bs == o - b * bs,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(o, bs);
    assert(bs * (o / bs) == (o / bs) * bs) by (nonlinear_arith);
    if b * bs <= o < b * bs + bs { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(o, bs, b, o - b * bs); }
}
proof fn lemma_take(rs: Seq<VhdxSectorBitmapRange>, d: Seq<u8>, bpb: int, i: int)
    requires spans(rs, d, bpb), 0 <= i <= rs.len(),
    ensures spans(rs.take(i), d, bpb), i < rs.len() ==> rs.take(i + 1).drop_last() =~= rs.take(i) && rs.take(i + 1).last() == rs[i],
    decreases rs.len(),
{
    if i < rs.len() { lemma_take(rs.drop_last(), d, bpb, i); assert(rs.drop_last().take(i) =~= rs.take(i)); assert(rs.take(i + 1).drop_last() =~= rs.take(i)); }
    else { assert(rs.take(i) =~= rs); }
}
proof fn lemma_total_mod(rs: Seq<VhdxSectorBitmapRange>, d: Seq<u8>, bpb: int)
    requires spans(rs, d, bpb), bpb > 0,
    ensures total(rs) >= 0, total(rs) % bpb == 0,
    decreases rs.len(),
{
    if rs.len() > 0 { lemma_total_mod(rs.drop_last(), d, bpb); lemma_mul_mod(total(rs.drop_last()), rs.last().size as int, bpb); }
    else { vstd::arithmetic::div_mod::lemma_small_mod(0, bpb as nat); }
}
proof fn lemma_number(m: int, nb: int, bs: int)
    requires 0 <= m, bs > 0,
    ensures 0 <= m / bs, m < nb * bs ==> m / bs < nb,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, bs);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(m, bs);
    if m < nb * bs { assert(m / bs < nb) by (nonlinear_arith) requires m < nb * bs, m == bs * (m / bs) + m % bs, 0 <= m % bs, bs > 0; }
}
@@fn VhdxFile::new
    ensures r.data_stream is None, r.parent_file is None, r.media_offset == 0, r.parent_identifier is None, r.parent_name is None,
@@fn VhdxFile::read_sector_bitmap
@@attr #[verifier::rlimit(80)]
    requires old(self).wf(), old(self).diff(), block_number < old(self).block_allocation_table->0.number_of_entries,
        ({
            let e = bat_entry(old(self).image(), old(self).bat(), entry_index(block_number as int, old(self).entries_per_chunk as int));
            state_of(e) == 7 && block_offset == offset_of(e) && block_offset + old(self).block_size <= u64::MAX
        }),
        forall|o: int| 0 <= o && o / (old(self).block_size as int) == block_number ==> (#[trigger] old(self).block_tree.at(o)) is None,
    ensures final(self).wf(), final(self).same(*old(self)), final(self).media_offset == old(self).media_offset,
        r is Ok ==> forall|o: int| 0 <= o && o / (old(self).block_size as int) == block_number ==> (#[trigger] final(self).block_tree.at(o)) is Some,
        old(self).data_stream->0.sound() && old(self).block_present(block_number as int) ==> r is Ok,
@@at start
    let ghost bs = self.block_size as int;
    let ghost bps = self.bytes_per_sector as int;
    let ghost nb = self.block_allocation_table->0.number_of_entries as int;
    let ghost b = block_number as int;
    let ghost bms = self.sector_bitmap_size as int;
    let ghost c = self.image();
    let ghost bat = self.bat();
    let ghost bmo = bitmap_offset(c, bat, bs, bps, b);
    let ghost bd = c.subrange(bmo, bmo + bms);
    let ghost t0 = self.block_tree;
    let ghost mut t1 = self.block_tree;
    let ghost mut done: int = 0;
    let ghost mut rs: Seq<VhdxSectorBitmapRange> = Seq::empty();
    proof { reveal(tree_ok); reveal(vhdx_byte); reveal(block_present); lemma_chunk(bs, bps); lemma_block(b, nb, bs, bps); lemma_index(b, self.entries_per_chunk as int, bms); }
@@at let:range_media_offset after
    proof { rs = sector_bitmap.ranges@; assert(rs.take(0) =~= Seq::empty()); assert(rs.take(rs.len() as int) =~= rs); }
@@loop 0
    invariant
        *self == (VhdxFile { block_tree: self.block_tree, ..*old(self) }), self.block_tree.sizes(t0), self.block_tree.wf(),
        sl0@ == rs, spans(rs, bd, bps), total(rs) == bs,
        done == total(rs.take(it0 as int)), 0 <= done <= bs, done % bps == 0,
        range_media_offset == b * bs + done, range_data_offset == block_offset + done,
        forall|o: int| b * bs <= o < b * bs + done ==> (#[trigger] self.block_tree.at(o)) is Some,
        forall|o: int| b * bs + done <= o < b * bs + bs ==> (#[trigger] self.block_tree.at(o)) is None,
        forall|o: int| !(b * bs <= o < b * bs + bs) ==> #[trigger] self.block_tree.at(o) == t0.at(o),
        forall|o: int| (#[trigger] self.block_tree.at(o)) is Some ==> in_range(self.block_tree.at(o)->0, o) && agrees(self.block_tree.at(o)->0, c, bat, bs, bps, true, t0.data_size as int),
@@at loop 0 begin
    proof {
        t1 = self.block_tree;
        lemma_take(rs, bd, bps, it0 - 1);
        lemma_take(rs, bd, bps, it0 as int);
        lemma_total_mod(rs.take(it0 as int), bd, bps);
        lemma_rest(rs, bd, bps, it0 as int);
        lemma_mul_mod(b * bs, done, bps);
    }
@@at loop 0 end
    proof {
        let tot = total(rs.take(it0 - 1));
        assert(done == tot);
        assert forall|q: int| #![trigger q % bs] b * bs + done <= q < b * bs + done + bitmap_range.size implies q % bs == q - b * bs && bitmap_range.is_set == bit(bd, (q - b * bs) / bps) by {
            assert(b * bs <= q < b * bs + bs);
            let o = q - b * bs;
            assert(tot <= o < tot + bitmap_range.size);
            assert(bitmap_range.is_set == bit(bd, o / bps));
        }
        assert forall|o: int| (#[trigger] self.block_tree.at(o)) is Some implies in_range(self.block_tree.at(o)->0, o) && agrees(self.block_tree.at(o)->0, c, bat, bs, bps, true, t0.data_size as int) by {
            if b * bs + done <= o < b * bs + done + bitmap_range.size {
                let v = self.block_tree.at(o)->0;
                assert forall|q: int| in_range(v, q) implies range_byte(v, q) == #[trigger] vhdx_byte(c, bat, bs, bps, true, q) by { assert(q / bs == b); }
            } else { assert(t1.at(o) == self.block_tree.at(o)); }
        }
        done = done + bitmap_range.size;
    }
@@at loop 0 after
    proof {
        let t = self.block_tree;
        assert forall|o: int, q: int| 0 <= o && 0 <= q && o / bs == q / bs && (#[trigger] t.at(o)) is Some implies (#[trigger] t.at(q)) is Some by {
            if o / bs != b { assert(t0.at(o) == t.at(o) && t0.at(q) == t.at(q)); } else { assert(b * bs <= q < b * bs + bs); }
        }
    }
@@raw
proof fn lemma_rest(rs: Seq<VhdxSectorBitmapRange>, d: Seq<u8>, bpb: int, i: int)
    requires spans(rs, d, bpb), 0 <= i <= rs.len(),
    ensures total(rs.take(i)) <= total(rs),
    decreases rs.len(),
{
    if i < rs.len() { lemma_rest(rs.drop_last(), d, bpb, i); assert(rs.drop_last().take(i) =~= rs.take(i)); } else { assert(rs.take(i) =~= rs); }
}
@@fn VhdxFile::read_block_allocation_entry
    requires old(self).wf(), block_number < old(self).block_allocation_table->0.number_of_entries,
        forall|o: int| 0 <= o && o / (old(self).block_size as int) == block_number ==> (#[trigger] old(self).block_tree.at(o)) is None,
    ensures final(self).wf(), final(self).same(*old(self)), final(self).media_offset == old(self).media_offset,
        r is Ok ==> forall|o: int| 0 <= o && o / (old(self).block_size as int) == block_number ==> (#[trigger] final(self).block_tree.at(o)) is Some,
        old(self).data_stream->0.sound() && old(self).block_present(block_number as int) ==> r is Ok,
@@at start
    let ghost bs = self.block_size as int;
    let ghost bps = self.bytes_per_sector as int;
    let ghost nb = self.block_allocation_table->0.number_of_entries as int;
    let ghost b = block_number as int;
    proof { reveal(tree_ok); reveal(vhdx_byte); reveal(block_present); lemma_chunk(bs, bps); lemma_block(b, nb, bs, bps); lemma_index(b, self.entries_per_chunk as int, self.sector_bitmap_size as int); }
@@at tail
    proof {
        let t = self.block_tree; let t0 = old(self).block_tree;
        let e = bat_entry(self.image(), self.bat(), entry_index(b, self.entries_per_chunk as int));
        if !(self.diff() && state_of(e) == 7) {
            assert forall|o: int| (#[trigger] t.at(o)) is Some implies in_range(t.at(o)->0, o) && agrees(t.at(o)->0, self.image(), self.bat(), bs, bps, self.diff(), t.data_size as int) by {
                if b * bs <= o < b * bs + bs { } else { assert(t0.at(o) == t.at(o)); }
            }
            assert forall|o: int, q: int| 0 <= o && 0 <= q && o / bs == q / bs && (#[trigger] t.at(o)) is Some implies (#[trigger] t.at(q)) is Some by {
                if o / bs != b { assert(t0.at(o) == t.at(o) && t0.at(q) == t.at(q)); }
            }
        }
    }
@@raw
// ---- where the values of the image are ----
spec fn rt(c: Seq<u8>) -> Seq<u8> { c.subrange(0x3_0000, 0x4_0000) }
spec fn region(c: Seq<u8>, id: Uuid) -> Option<Seq<u8>> { last32(rt(c), 16, le32(rt(c), 8) as int, id) }
spec fn meta(c: Seq<u8>) -> int { le64(region(c, VHDX_METADATA_REGION_IDENTIFIER)->0, 16) as int }
spec fn mt(c: Seq<u8>) -> Seq<u8> { c.subrange(meta(c), meta(c) + 65536) }
spec fn item(c: Seq<u8>, id: Uuid) -> Option<Seq<u8>> { last32(mt(c), 32, le16(mt(c), 10) as int, id) }
spec fn item_size(c: Seq<u8>, id: Uuid) -> int { le32(item(c, id)->0, 20) as int }
spec fn item_data(c: Seq<u8>, id: Uuid) -> Seq<u8> { let p = meta(c) + le32(item(c, id)->0, 16); c.subrange(p, p + item_size(c, id)) }
spec fn item_ok(c: Seq<u8>, id: Uuid) -> bool { item(c, id) is Some && meta(c) + le32(item(c, id)->0, 16) + item_size(c, id) <= c.len() }
spec fn linkage(s: Seq<u8>) -> Option<Seq<u16>> { locator_value(s, le16(s, 18) as int, "parent_linkage"@) }
spec fn parent_ok(s: Seq<u8>) -> bool { 20 <= s.len() <= 65536 && locator_ok(s) && (linkage(s) is Some ==> uuid_parses(ucs2_text(linkage(s)->0))) }
#[verifier::opaque]
spec fn metadata_ok(c: Seq<u8>) -> bool {
    let (fp, sz, ls, ps, vi, pl) = (VHDX_FILE_PARAMETERS_METADATA_IDENTIFIER, VHDX_VIRTUAL_DISK_SIZE_METADATA_IDENTIFIER, VHDX_LOGICAL_SECTOR_SIZE_METADATA_IDENTIFIER,
        VHDX_PHYSICAL_SECTOR_SIZE_METADATA_IDENTIFIER, VHDX_VIRTUAL_DISK_IDENTIFIER_METADATA_IDENTIFIER, VHDX_PARENT_LOCATOR_METADATA_IDENTIFIER);
    &&& meta(c) + 65536 <= c.len() && meta(c) + u32::MAX <= u64::MAX && metadata_table_ok(mt(c))
    &&& item_ok(c, fp) && item_size(c, fp) == 8 && is_bs(le32(item_data(c, fp), 0) as int)
    &&& item_ok(c, sz) && item_size(c, sz) == 8
    &&& item_ok(c, ls) && item_size(c, ls) == 4 && is_bps(le32(item_data(c, ls), 0) as int)
    &&& item(c, ps) is Some ==> item_ok(c, ps) && item_size(c, ps) == 4 && is_bps(le32(item_data(c, ps), 0) as int)
    &&& item_ok(c, vi) && item_size(c, vi) == 16
    &&& item(c, pl) is Some ==> item_ok(c, pl) && parent_ok(item_data(c, pl))
}
proof fn lemma_sizes(c: Seq<u8>)
    requires metadata_ok(c),
    ensures is_bs(le32(item_data(c, VHDX_FILE_PARAMETERS_METADATA_IDENTIFIER), 0) as int), is_bps(le32(item_data(c, VHDX_LOGICAL_SECTOR_SIZE_METADATA_IDENTIFIER), 0) as int),
{
    reveal(metadata_ok);
}
spec fn texts(f: Option<Ucs2String>) -> Option<Seq<u16>> { match f { Some(t) => Some(t.elements@), None => None } }
// the first of the paths that is there
spec fn path_of(s: Seq<u8>, name: Option<Seq<u16>>) -> Option<Seq<u16>> {
    let n = le16(s, 18) as int;
    if locator_value(s, n, "absolute_win32_path"@) is Some { locator_value(s, n, "absolute_win32_path"@) }
    else if name is Some { name }
    else if locator_value(s, n, "volume_path"@) is Some { locator_value(s, n, "volume_path"@) }
    else { locator_value(s, n, "relative_path"@) }
}
spec fn disk_type(v: u32) -> VhdxDiskType {
    if v % 4 == 0 { VhdxDiskType::Fixed } else if v % 4 == 1 { VhdxDiskType::Dynamic } else if v % 4 == 2 { VhdxDiskType::Differential } else { VhdxDiskType::Unknown }
}
impl VhdxFile {
    spec fn values(self, c: Seq<u8>, o: Self) -> bool {
        let (fp, sz, ls, pl) = (item_data(c, VHDX_FILE_PARAMETERS_METADATA_IDENTIFIER), item_data(c, VHDX_VIRTUAL_DISK_SIZE_METADATA_IDENTIFIER), item_data(c, VHDX_LOGICAL_SECTOR_SIZE_METADATA_IDENTIFIER), item_data(c, VHDX_PARENT_LOCATOR_METADATA_IDENTIFIER));
        let locator = item(c, VHDX_PARENT_LOCATOR_METADATA_IDENTIFIER) is Some;
        &&& self.block_size == le32(fp, 0) && self.disk_type == disk_type(le32(fp, 4)) && self.media_size == le64(sz, 0) && self.bytes_per_sector == le32(ls, 0)
        &&& self.parent_identifier == (if locator && linkage(pl) is Some { Some(uuid_parse(ucs2_text(linkage(pl)->0))) } else { o.parent_identifier })
        &&& texts(self.parent_name) == (if locator { path_of(pl, texts(o.parent_name)) } else { texts(o.parent_name) })
    }
}
spec fn header1(c: Seq<u8>) -> Seq<u8> { c.subrange(0x1_0000, 0x1_1000) }
spec fn header2(c: Seq<u8>) -> Seq<u8> { c.subrange(0x2_0000, 0x2_1000) }
// the header in use is the one with the greater sequence number
spec fn header(c: Seq<u8>) -> Seq<u8> { if le64(header1(c), 8) > le64(header2(c), 8) { header1(c) } else { header2(c) } }
spec fn table_region(c: Seq<u8>) -> Seq<u8> { region(c, VHDX_BLOCK_ALLOCATION_TABLE_REGION_IDENTIFIER)->0 }
spec fn image_ok(c: Seq<u8>) -> bool {
    &&& 0x5_0000 <= c.len() <= u64::MAX && file_header_ok(c.subrange(0, 65536))
    &&& image_header_ok(header1(c)) && image_header_ok(header2(c)) && region_table_ok(rt(c)) && region_table_ok(c.subrange(0x4_0000, 0x5_0000))
    &&& region(c, VHDX_METADATA_REGION_IDENTIFIER) is Some && le32(region(c, VHDX_METADATA_REGION_IDENTIFIER)->0, 24) >= 65536
    &&& metadata_ok(c)
    &&& region(c, VHDX_BLOCK_ALLOCATION_TABLE_REGION_IDENTIFIER) is Some
    &&& le64(item_data(c, VHDX_VIRTUAL_DISK_SIZE_METADATA_IDENTIFIER), 0) <= (le32(table_region(c), 24) / 8) * le32(item_data(c, VHDX_FILE_PARAMETERS_METADATA_IDENTIFIER), 0)
}
impl VhdxFile {
    spec fn reads(self, c: Seq<u8>, o: Self) -> bool {
        &&& image_ok(c) && self.values(c, o)
        &&& self.identifier == uuid_le(header(c).subrange(32, 48)) && self.format_version == le16(header(c), 66)
        &&& self.block_allocation_table is Some && self.bat() == le64(table_region(c), 16) && self.block_allocation_table->0.number_of_entries == le32(table_region(c), 24) / 8
    }
}
@@fn VhdxFile::read_metadata_values
@@attr #[verifier::rlimit(60)]
    requires metadata_region.data_offset == meta(data_stream.content()),
    ensures
        *final(self) == (VhdxFile { block_size: final(self).block_size, disk_type: final(self).disk_type, media_size: final(self).media_size, bytes_per_sector: final(self).bytes_per_sector, parent_identifier: final(self).parent_identifier, parent_name: final(self).parent_name, ..*old(self) }),
        r is Ok ==> metadata_ok(data_stream.content()) && final(self).values(data_stream.content(), *old(self)),
        data_stream.sound() && data_stream.content().len() <= u64::MAX && metadata_ok(data_stream.content()) ==> r is Ok,
@@at start
proof { reveal(metadata_ok); }
@@at assign:self.disk_type after
proof { let f = file_parameters_flags; assert(f & 3 == f % 4) by (bit_vector); lemma_is_bs(self.block_size); }
@@fn VhdxFile::read_metadata
@@attr #[verifier::rlimit(60)]
    ensures
        final(self).data_stream == old(self).data_stream, final(self).media_offset == old(self).media_offset, final(self).parent_file == old(self).parent_file,
        r is Ok ==> (VhdxFile { data_stream: Some(*data_stream), ..*final(self) }).wf() && final(self).reads(data_stream.content(), *old(self)),
        data_stream.sound() && image_ok(data_stream.content()) ==> r is Ok,
@@at start
    let ghost c = data_stream.content();
    proof { reveal(tree_ok); }
@@at let:metadata_region after
    proof { assert(metadata_region.data_offset == meta(c)); }
@@at let:block_allocation_table_region before
    proof { assert(1u64 << 23 == 0x80_0000u64) by (bit_vector); lemma_sizes(c); assert(is_bs(self.block_size as int) && is_bps(self.bytes_per_sector as int)); lemma_chunk(self.block_size as int, self.bytes_per_sector as int); }
@@at let:block_tree_data_size before
    proof {
        let (nb, bs) = (number_of_entries as int, self.block_size as int);
        lemma_chunk(bs, self.bytes_per_sector as int);
        assert(0 <= nb * bs <= 0x2000_0000 * 0x1000_0000) by (nonlinear_arith) requires 0 <= nb <= 0x2000_0000, 0 <= bs <= 0x1000_0000;
    }
@@fn VhdxFile::read_data_stream
    ensures
        final(self).media_offset == old(self).media_offset, final(self).parent_file == old(self).parent_file,
        r is Ok ==> final(self).wf() && final(self).image() == data_stream.content() && final(self).data_stream->0.sound() == data_stream.sound() && final(self).reads(data_stream.content(), *old(self)),
        r is Err ==> final(self).data_stream == old(self).data_stream,
        data_stream.sound() && image_ok(data_stream.content()) ==> r is Ok,
@@fn VhdxFile::set_parent
    ensures
        *final(self) == (VhdxFile { parent_file: final(self).parent_file, ..*old(self) }),
        r is Ok ==> old(self).parent_identifier is Some && final(self).parent_file == Some(*parent_file) && parent_file.value().identifier == old(self).parent_identifier->0,
        r is Err ==> final(self).parent_file == old(self).parent_file,
        parent_file.sound() && old(self).parent_identifier is Some && parent_file.value().identifier == old(self).parent_identifier->0 ==> r is Ok,
@@fn VhdxFile::read_data_from_blocks
@@attr #[verifier::rlimit(60)]
    requires old(self).wf(), old(data)@.len() <= kx_left(old(self).media_size as int, old(self).media_offset as int),
    ensures final(self).wf(), final(self).same(*old(self)), final(self).media_offset == old(self).media_offset, final(data)@.len() == old(data)@.len(),
        r is Ok ==> disk_bytes(true, |o: int| old(self).map(o), old(self).image(), old(self).parent(), old(self).media_size as int, old(self).media_offset as int, old(data)@, r->Ok_0 as int, final(data)@),
        old(self).complete() ==> r is Ok,
@@isolate
@@at start
    let ghost p = self.media_offset as int;
    let ghost c = self.image();
    let ghost pc = self.parent();
    let ghost bs = self.block_size as int;
    let ghost bps = self.bytes_per_sector as int;
    let ghost diff = self.diff();
    let ghost nb = self.block_allocation_table->0.number_of_entries as int;
    let ghost d0 = data@;
    let ghost mut d1 = data@;
    let ghost mut v: VhdxBlockRange = arbitrary();
@@loop 0
    invariant
        old(self).wf(),
        self.wf(), self.same(*old(self)), p == self.media_offset, p == old(self).media_offset, c == old(self).image(), pc == old(self).parent(), bs == old(self).block_size, bps == old(self).bytes_per_sector, diff == old(self).diff(), d0 == old(data)@,
        nb == old(self).block_allocation_table->0.number_of_entries,
        read_size == d0.len(), data@.len() == read_size, data_offset <= read_size, read_size <= kx_left(old(self).media_size as int, p), media_offset == p + data_offset,
        forall|i: int| 0 <= i < data_offset ==> disk_byte_ok(old(self).map(p + i), c, pc, p + i, #[trigger] data@[i]),
        forall|i: int| data_offset <= i < read_size ==> #[trigger] data@[i] == d0[i],
    ensures
        data_offset < read_size ==> disk_byte_out(old(self).map(p + data_offset), c, pc, p + data_offset),
    decreases read_size - data_offset,
@@at loop 0 begin
    proof {
        d1 = data@;
        let m = media_offset as int;
        lemma_number(m, nb, bs);
        if old(self).complete() { lemma_elem(m, 0, bs); assert((m / bs) * bs < self.media_size); assert(block_present(c, old(self).bat(), nb, bs, bps, diff, m / bs)); }
        lemma_tree(self.block_tree, c, old(self).bat(), bs, bps, diff, m);
    }
@@at let:block_range after
    proof {
        v = *block_range;
        assert(self.block_tree.at(media_offset as int) == Some(v));
        lemma_tree(self.block_tree, c, old(self).bat(), bs, bps, diff, media_offset as int);
        lemma_no_parent(c, old(self).bat(), bs, bps, diff, media_offset as int);
        assert(agrees(v, c, self.bat(), bs, bps, diff, self.block_tree.data_size as int));
        assert(in_range(v, media_offset as int));
        assert(range_byte(v, media_offset as int) == vhdx_byte(c, self.bat(), bs, bps, diff, media_offset as int));
    }
@@at let:range_read_count after
    proof {
        let n = range_read_count as int;
        assert forall|i: int| 0 <= i < data_offset + n implies disk_byte_ok(old(self).map(p + i), c, pc, p + i, #[trigger] data@[i]) by {
            if i < data_offset { assert(data@[i] == d1[i]); }
            else {
                assert(in_range(v, p + i));
                assert(range_byte(v, p + i) == vhdx_byte(c, self.bat(), bs, bps, diff, p + i));
            }
        }
        assert forall|i: int| data_offset + n <= i < read_size implies #[trigger] data@[i] == d0[i] by { assert(d1[i] == d0[i]); }
    }
@@fn VhdxFile::get_size for DataStream
    ensures r is Ok, r->Ok_0 == old(self).media_size, *final(self) == *old(self),
@@fn VhdxFile::read for DataStream
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same(*old(self)), final(buf)@.len() == old(buf)@.len(),
        r is Ok ==> disk_bytes(true, |o: int| old(self).map(o), old(self).image(), old(self).parent(), old(self).media_size as int, old(self).media_offset as int, old(buf)@, r->Ok_0 as int, final(buf)@),
        r is Ok ==> final(self).media_offset == old(self).media_offset + r->Ok_0,
        r is Err ==> final(self).media_offset == old(self).media_offset,
        old(self).complete() ==> r is Ok,
@@fn VhdxFile::seek for DataStream
    ensures *final(self) == (VhdxFile { media_offset: final(self).media_offset, ..*old(self) }), seeks(pos, old(self).media_offset as int, old(self).media_size as int, r, final(self).media_offset as int),
@@endfn
