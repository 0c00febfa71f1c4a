@@include p_mbr.vx
@@include sliceeq.vx
@@raw
use std::collections::VecDeque;
spec fn le32(d: Seq<u8>, o: int) -> u32 { kx_u32_le(d.skip(o)) }
spec fn signed(s: Seq<u8>) -> bool { s[510] == 0x55 && s[511] == 0xaa }
@@file keramics-formats/src/mbr/partition_entry.rs
@@item MbrPartitionEntry
@@raw
// the fields of the partition entry at an offset in a boot record
spec fn entry(s: Seq<u8>, k: int, index: int, base: int) -> MbrPartitionEntry {
    let o = 446 + 16 * k;
    MbrPartitionEntry { index: index as usize, boot_record_offset: base as u64, flags: s[o], partition_type: s[o + 4], start_address_lba: le32(s, o + 8), number_of_sectors: le32(s, o + 12) }
}
spec fn etype(s: Seq<u8>, k: int) -> u8 { s[446 + 16 * k + 4] }
@@fn MbrPartitionEntry::new
    ensures r.index == 0, r.boot_record_offset == 0,
@@fn MbrPartitionEntry::read_data
    ensures r is Ok <==> data@.len() == 16,
        r is Ok ==> final(self).flags == data@[0] && final(self).partition_type == data@[4] && final(self).start_address_lba == le32(data@, 8) && final(self).number_of_sectors == le32(data@, 12),
        final(self).index == old(self).index && final(self).boot_record_offset == old(self).boot_record_offset,
@@file keramics-formats/src/mbr/constants.rs
@@item MBR_BOOT_SIGNATURE
@@file keramics-formats/src/mbr/master_boot_record.rs
@@item MbrMasterBootRecord
@@fn MbrMasterBootRecord::new
    ensures r.partition_entries@.len() == 0,
@@fn MbrMasterBootRecord::read_data
    ensures
        r is Ok <==> data@.len() >= 512 && signed(data@),
        r is Ok ==> final(self).disk_identity == le32(data@, 440) && final(self).partition_entries@ =~= old(self).partition_entries@ + Seq::new(4, |k: int| entry(data@, k, 0, 0)),
@@at start
proof { if data@.len() >= 512 { assert(data@.subrange(510, 512) =~= seq![data@[510], data@[511]]); assert(MBR_BOOT_SIGNATURE@ =~= seq![0x55u8, 0xaau8]); if signed(data@) { assert(data@.subrange(510, 512) =~= MBR_BOOT_SIGNATURE@); } else { assert(data@.subrange(510, 512)[0] == data@[510] && data@.subrange(510, 512)[1] == data@[511]); } } }
let ghost e0 = self.partition_entries@;
let ghost mut n = 0int;
@@loop 0
invariant
    0 <= n <= 4, it0 == 446 + 16 * n, data@.len() >= 512, signed(data@),
    self.disk_identity == le32(data@, 440),
    self.partition_entries@ =~= e0 + Seq::new(n as nat, |k: int| entry(data@, k, 0, 0)),
@@at loop 0 end
proof {
    let t = data@.subrange(data_offset as int, data_offset + 16);
    assert(t.skip(8).take(4) =~= data@.skip(data_offset + 8).take(4));
    assert(t.skip(12).take(4) =~= data@.skip(data_offset + 12).take(4));
    n = n + 1;
}
@@fn MbrMasterBootRecord::read_at_position
    requires !(position is Current),
    ensures
        r is Ok ==> ({
            let d = data_stream.content();
            let s = d.skip(kx_target(position, 0, d.len() as int)).take(512);
            &&& 0 <= kx_target(position, 0, d.len() as int) <= d.len() - 512 && s.len() == 512 && signed(s)
            &&& final(self).disk_identity == le32(s, 440) && final(self).partition_entries@ =~= old(self).partition_entries@ + Seq::new(4, |k: int| entry(s, k, 0, 0))
        }),
@@file keramics-formats/src/mbr/extended_boot_record.rs
@@item MbrExtendedBootRecord
@@fn MbrExtendedBootRecord::new
    ensures r.partition_entries@.len() == 0,
@@fn MbrExtendedBootRecord::read_data
    ensures
        r is Ok <==> data@.len() == 512 && signed(data@),
        r is Ok ==> final(self).partition_entries@ =~= old(self).partition_entries@ + Seq::new(4, |k: int| entry(data@, k, 0, 0)),
@@at start
proof { if data@.len() >= 512 { assert(data@.subrange(510, 512) =~= seq![data@[510], data@[511]]); assert(MBR_BOOT_SIGNATURE@ =~= seq![0x55u8, 0xaau8]); if signed(data@) { assert(data@.subrange(510, 512) =~= MBR_BOOT_SIGNATURE@); } else { assert(data@.subrange(510, 512)[0] == data@[510] && data@.subrange(510, 512)[1] == data@[511]); } } }
let ghost e0 = self.partition_entries@;
let ghost mut n = 0int;
@@loop 0
invariant
    0 <= n <= 4, it0 == 446 + 16 * n, data@.len() >= 512, signed(data@),
    self.disk_identity == le32(data@, 440),
    self.partition_entries@ =~= e0 + Seq::new(n as nat, |k: int| entry(data@, k, 0, 0)),
@@at loop 0 end
proof {
    let t = data@.subrange(data_offset as int, data_offset + 16);
    assert(t.skip(8).take(4) =~= data@.skip(data_offset + 8).take(4));
    assert(t.skip(12).take(4) =~= data@.skip(data_offset + 12).take(4));
    n = n + 1;
}
@@fn MbrExtendedBootRecord::read_at_position
    requires !(position is Current),
    ensures
        r is Ok ==> ({
            let d = data_stream.content();
            let s = d.skip(kx_target(position, 0, d.len() as int)).take(512);
            &&& 0 <= kx_target(position, 0, d.len() as int) <= d.len() - 512 && s.len() == 512 && signed(s)
            &&& final(self).partition_entries@ =~= old(self).partition_entries@ + Seq::new(4, |k: int| entry(s, k, 0, 0))
        }),
@@raw
spec fn is_ext(t: u8) -> bool { t == 5 || t == 15 }
// ---- the partitions of the first k entries of the master boot record ----
spec fn primary(s: Seq<u8>, k: int) -> Seq<MbrPartitionEntry>
    decreases k
{
    if k <= 0 { seq![] }
    else if etype(s, k - 1) != 0 && !is_ext(etype(s, k - 1)) { primary(s, k - 1).push(entry(s, k - 1, k - 1, 0)) }
    else { primary(s, k - 1) }
}
// the start of the extended partition, 0 if there is none
spec fn extended(s: Seq<u8>, k: int) -> u32
    decreases k
{
    if k <= 0 { 0 } else if is_ext(etype(s, k - 1)) { le32(s, 446 + 16 * (k - 1) + 8) } else { extended(s, k - 1) }
}
spec fn has_extended(s: Seq<u8>) -> bool { is_ext(etype(s, 0)) || is_ext(etype(s, 1)) || is_ext(etype(s, 2)) || is_ext(etype(s, 3)) }
// ---- the same for an extended boot record at offset o ----
spec fn used(s: Seq<u8>, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else { used(s, k - 1) + if etype(s, k - 1) != 0 { 1int } else { 0int } }
}
spec fn logical(s: Seq<u8>, k: int, index: int, o: int) -> Seq<MbrPartitionEntry>
    decreases k
{
    if k <= 0 { seq![] }
    else if etype(s, k - 1) != 0 && etype(s, k - 1) != 5 { logical(s, k - 1, index, o).push(entry(s, k - 1, index + used(s, k - 1), o)) }
    else { logical(s, k - 1, index, o) }
}
spec fn links(s: Seq<u8>, k: int) -> Seq<u32>
    decreases k
{
    if k <= 0 { seq![] } else if etype(s, k - 1) == 5 { links(s, k - 1).push(le32(s, 446 + 16 * (k - 1) + 8)) } else { links(s, k - 1) }
}
// the partitions of the extended boot record at offset o and those it links to
spec fn chain(d: Seq<u8>, first: int, b: int, o: int, index: int) -> Option<Seq<MbrPartitionEntry>>
    decreases 1028 - index
{
    let s = d.skip(o).take(512);
    if index >= 1024 || o + 512 > d.len() || !signed(s) || links(s, 4).len() > 1 { None }
    else if links(s, 4).len() == 0 { Some(logical(s, 4, index, o)) }
    else {
        match chain(d, first, b, first + links(s, 4)[0] * b, index + 4) {
            Some(x) => Some(logical(s, 4, index, o) + x),
            None => None,
        }
    }
}
// ---- the sector size, where it follows from the size of the image ----
spec fn is_last(es: Seq<MbrPartitionEntry>, i: int) -> bool {
    &&& 0 <= i < es.len()
    &&& forall|j: int| 0 <= j < es.len() ==> (#[trigger] es[j]).start_address_lba <= es[i].start_address_lba
}
spec fn supported(b: u16) -> bool { b == 512 || b == 1024 || b == 2048 || b == 4096 }
spec fn largest(end: int, size: int) -> u16 {
    if end <= size / 4096 { 4096 } else if end <= size / 2048 { 2048 } else if end <= size / 1024 { 1024 } else if end <= size / 512 { 512 } else { 0 }
}
spec fn by_size(es: Seq<MbrPartitionEntry>, size: int, b: u16) -> bool {
    if es.len() == 0 { b == 0 } else { exists|i: int| #[trigger] is_last(es, i) && b == largest(es[i].start_address_lba + es[i].number_of_sectors, size) }
}
spec fn by_record(d: Seq<u8>, lba: u32, b: u16) -> bool { supported(b) && lba * b + 510 < d.len() && d[lba * b + 510] == 0x55 }
proof fn lemma_lba(lba: u32, b: u16)
    ensures 0 <= lba * b <= 0xffff_ffff * 0xffff,
{
    assert(0 <= lba * b <= 0xffff_ffff * 0xffff) by (nonlinear_arith) requires lba <= 0xffff_ffff, b <= 0xffff;
}
#[verifier::external_body]
fn kx_contains(s: [u16; 4], x: &u16) -> (r: bool)
    ensures r == s@.contains(*x),
{ s.contains(x) }
@@mapmethod contains kx_contains
@@file keramics-formats/src/mbr/volume_system.rs
@@item MbrVolumeSystem
@@raw
impl MbrVolumeSystem {
    // start sectors are relative to a boot record within the first 2^49 bytes
    spec fn wf(self) -> bool { forall|i: int| 0 <= i < self.partition_entries@.len() ==> #[trigger] self.partition_entries@[i].boot_record_offset <= 2 * 0xffff_ffff * 0xffff }
}
@@fn MbrVolumeSystem::new
    ensures r.wf(), r.partition_entries@.len() == 0, r.bytes_per_sector == 0, r.data_stream is None,
@@fn MbrVolumeSystem::get_number_of_partitions
    ensures r == self.partition_entries@.len(),
@@fn MbrVolumeSystem::get_partition_by_index
    requires self.wf(),
    ensures
        r is Ok <==> partition_index < self.partition_entries@.len() && self.data_stream is Some && self.bytes_per_sector != 0,
        r is Ok ==> ({
            let e = self.partition_entries@[partition_index as int];
            let p = r->Ok_0;
            &&& p.data_stream is Some && p.data_stream->Some_0.content() == self.data_stream->Some_0.content() && p.current_offset == 0
            &&& p.offset == e.boot_record_offset + e.start_address_lba * self.bytes_per_sector
            &&& p.size == e.number_of_sectors * self.bytes_per_sector
            &&& p.offset + p.size <= u64::MAX
            &&& p.entry_index == e.index && p.partition_type == e.partition_type && p.flags == e.flags
        }),
@@at start
proof {
    if partition_index < self.partition_entries@.len() {
        lemma_lba(self.partition_entries@[partition_index as int].start_address_lba, self.bytes_per_sector);
        lemma_lba(self.partition_entries@[partition_index as int].number_of_sectors, self.bytes_per_sector);
    }
}
@@raw
spec fn table(v0: MbrVolumeSystem, v: MbrVolumeSystem, d: Seq<u8>) -> bool {
    let s = d.take(512);
    let b = v.bytes_per_sector as int;
    &&& s.len() == 512 && signed(s)
    &&& v.disk_identity == le32(s, 440)
    &&& extended(s, 4) * b != 0 ==> chain(d, extended(s, 4) * b, b, extended(s, 4) * b, 4) is Some
    &&& v.partition_entries@ =~= v0.partition_entries@ + primary(s, 4) + (if extended(s, 4) * b != 0 { chain(d, extended(s, 4) * b, b, extended(s, 4) * b, 4)->Some_0 } else { seq![] })
    &&& v0.bytes_per_sector != 0 ==> v.bytes_per_sector == v0.bytes_per_sector
    &&& v0.bytes_per_sector == 0 && has_extended(s) ==> exists|k: int| 0 <= k < 4 && #[trigger] is_ext(etype(s, k)) && by_record(d, le32(s, 446 + 16 * k + 8), v.bytes_per_sector)
    &&& v0.bytes_per_sector == 0 && !has_extended(s) ==> by_size(v.partition_entries@, d.len() as int, v.bytes_per_sector)
}
@@fn MbrVolumeSystem::read_data_stream
    requires old(self).wf(),
    ensures final(self).wf(),
        r is Ok ==> table(*old(self), *final(self), data_stream.content()) && final(self).data_stream is Some && final(self).data_stream->Some_0.content() == data_stream.content(),
        r is Err ==> final(self).data_stream == old(self).data_stream,
@@fn MbrVolumeSystem::read_boot_records
    requires old(self).wf(),
    ensures final(self).wf(), final(self).data_stream == old(self).data_stream,
        r is Ok ==> table(*old(self), *final(self), data_stream.content()),
@@attr #[verifier::rlimit(60)]
@@isolate
@@at start
let ghost d = data_stream.content();
let ghost s = d.take(512);
let ghost p0 = self.partition_entries@;
let ghost mut k = 0int;
let ghost mut q = 0int;
let ghost mut b1 = 0u16;
let ghost mut lj = 0int;
proof { assert(d.skip(0) =~= d); assert(MBR_BOOT_SIGNATURE@ =~= seq![0x55u8, 0xaau8]); }
@@loop 0
invariant_except_break
    self.bytes_per_sector == 0,
invariant
    d == data_stream.content(), s == d.take(512), p0 == old(self).partition_entries@, old(self).wf(),
    self.wf(), self.data_stream == old(self).data_stream, self.partition_entries@ == p0, old(self).bytes_per_sector == 0,
    s.len() == 512, signed(s), master_boot_record.disk_identity == le32(s, 440), sl0 == &master_boot_record.partition_entries,
    master_boot_record.partition_entries@ =~= Seq::new(4, |j: int| entry(s, j, 0, 0)),
ensures
    self.bytes_per_sector == 0 || (0 <= q < 4 && is_ext(etype(s, q)) && by_record(d, le32(s, 446 + 16 * q + 8), self.bytes_per_sector)),
@@at loop 0 begin
proof { q = it0 - 1; }
@@loop 1
invariant_except_break
    self.bytes_per_sector == 0, boot_signature@ != MBR_BOOT_SIGNATURE@,
invariant
    d == data_stream.content(), s == d.take(512), p0 == old(self).partition_entries@, old(self).wf(),
    self.wf(), self.data_stream == old(self).data_stream, self.partition_entries@ == p0, old(self).bytes_per_sector == 0,
    s.len() == 512, sl1@ == seq![512u16, 1024u16, 2048u16, 4096u16], master_boot_record.partition_entries@ =~= Seq::new(4, |j: int| entry(s, j, 0, 0)), master_boot_record.disk_identity == le32(s, 440), sl0 == &master_boot_record.partition_entries,
    0 <= q < 4, is_ext(etype(s, q)), partition_entry.start_address_lba == le32(s, 446 + 16 * q + 8),
ensures
    self.bytes_per_sector == 0 || by_record(d, le32(s, 446 + 16 * q + 8), self.bytes_per_sector),
@@at loop 1 begin
let ghost b0 = boot_signature@;
proof { lemma_lba(partition_entry.start_address_lba, *bytes_per_sector); }
@@at if:2 before
proof {
    let p = partition_entry.start_address_lba * *bytes_per_sector + 510;
    assert(d.skip(p).take(0) + b0.skip(0) =~= b0);
    if boot_signature@ == MBR_BOOT_SIGNATURE@ { assert(boot_signature@[0] == 0x55); assert(boot_signature@ != b0); assert(d[p] == 0x55); assert(p < d.len()); assert(supported(*bytes_per_sector)); assert(by_record(d, partition_entry.start_address_lba, *bytes_per_sector)); }
}
@@at assign:self.bytes_per_sector before
proof { broadcast use vstd::laws_eq::group_laws_eq; assert(boot_signature@ =~= MBR_BOOT_SIGNATURE@); }
@@loop 2
invariant
    d == data_stream.content(), s == d.take(512), p0 == old(self).partition_entries@, old(self).wf(),
    0 <= k <= 4, self.wf(), self.data_stream == old(self).data_stream, self.bytes_per_sector == b1,
    s.len() == 512, signed(s),
    master_boot_record.partition_entries@ =~= Seq::new((4 - k) as nat, |j: int| entry(s, k + j, 0, 0)),
    entry_index == k,
    self.partition_entries@ =~= p0 + primary(s, k),
    extended_boot_record_offset == extended(s, k) * self.bytes_per_sector,
    forall|j: int| 0 <= j < k && #[trigger] is_ext(etype(s, j)) ==> self.bytes_per_sector != 0,
    master_boot_record.disk_identity == le32(s, 440),
ensures
    k == 4,
decreases 4 - k,
@@at loop 2 before
proof { b1 = self.bytes_per_sector; }
@@at loop 2 begin
proof { k = k + 1; lemma_lba(partition_entry.start_address_lba, self.bytes_per_sector); }
@@at loop 2 after
proof { lemma_lba(extended(s, 4), b1); }
@@loop 3
invariant
    d == data_stream.content(), s == d.take(512), p0 == old(self).partition_entries@, old(self).wf(),
    self.wf(), self.data_stream == old(self).data_stream, lo3 == 0, hi3 == self.partition_entries@.len(),
    match kx_m { Some(j) => j < it3 && forall|i: int| 0 <= i < it3 ==> (#[trigger] self.partition_entries@[i]).start_address_lba <= self.partition_entries@[j as int].start_address_lba, None => it3 == 0 },
@@at loop 3 after
proof { if kx_m is Some { lj = kx_m->Some_0 as int; assert(is_last(self.partition_entries@, lj)); } }
@@at loop 4 before
let ghost v1 = *self;
@@loop 4
invariant_except_break
    *self == (MbrVolumeSystem { bytes_per_sector: if it4 == 0 { 0 } else { sl4@[it4 - 1] }, ..v1 }),
    it4 == 0 || end_address_lba <= data_stream_size / (sl4@[it4 - 1] as u64),
invariant
    sl4@ == seq![512u16, 1024u16, 2048u16, 4096u16],
ensures
    *self == (MbrVolumeSystem { bytes_per_sector: self.bytes_per_sector, ..v1 }),
    self.bytes_per_sector == largest(end_address_lba as int, data_stream_size as int),
@@at end
proof {
    reveal_with_fuel(extended, 5);
    assert(self.partition_entries@ =~= p0 + primary(s, 4) + (if extended(s, 4) * b1 != 0 { chain(d, extended(s, 4) * b1, b1 as int, extended(s, 4) * b1, 4)->Some_0 } else { seq![] }));
    if old(self).bytes_per_sector == 0 && has_extended(s) { assert(b1 != 0); assert(by_record(d, le32(s, 446 + 16 * q + 8), self.bytes_per_sector)); }
    if old(self).bytes_per_sector == 0 && !has_extended(s) { assert(extended(s, 4) == 0); assert(b1 == 0); assert(self.partition_entries@.len() > 0 ==> is_last(self.partition_entries@, lj)); assert(by_size(self.partition_entries@, d.len() as int, self.bytes_per_sector)); }
}
@@fn MbrVolumeSystem::read_extended_boot_record
    requires old(self).wf(), 0 < old(self).first_extended_boot_record_offset <= 0xffff_ffff * 0xffff, offset <= 2 * 0xffff_ffff * 0xffff,
    ensures final(self).wf(), final(self).data_stream == old(self).data_stream,
        final(self).first_extended_boot_record_offset == old(self).first_extended_boot_record_offset, final(self).bytes_per_sector == old(self).bytes_per_sector,
        r is Ok ==> ({
            let x = chain(data_stream.content(), old(self).first_extended_boot_record_offset as int, old(self).bytes_per_sector as int, offset as int, first_entry_index as int);
            x is Some && final(self).partition_entries@ =~= old(self).partition_entries@ + x->Some_0
        }),
    decreases 1028 - first_entry_index,
@@isolate
@@at start
let ghost d = data_stream.content();
let ghost s = d.skip(offset as int).take(512);
let ghost p0 = self.partition_entries@;
let ghost mut k = 0int;
@@loop 0
invariant
    d == data_stream.content(), s == d.skip(offset as int).take(512), p0 == old(self).partition_entries@, old(self).wf(), 0 < old(self).first_extended_boot_record_offset <= 0xffff_ffff * 0xffff, offset <= 2 * 0xffff_ffff * 0xffff,
    first_entry_index < 1024, 0 <= k <= 4, self.wf(), self.data_stream == old(self).data_stream, self.bytes_per_sector == old(self).bytes_per_sector,
    self.first_extended_boot_record_offset == old(self).first_extended_boot_record_offset,
    s.len() == 512, signed(s), offset + 512 <= d.len(),
    extended_boot_record.partition_entries@ =~= Seq::new((4 - k) as nat, |j: int| entry(s, k + j, 0, 0)),
    entry_index == used(s, k), 0 <= entry_index <= k,
    self.partition_entries@ =~= p0 + logical(s, k, first_entry_index as int, offset as int),
    links(s, k).len() <= 1,
    (extended_boot_record_offset != 0) == (links(s, k).len() == 1),
    links(s, k).len() == 1 ==> extended_boot_record_offset == self.first_extended_boot_record_offset + links(s, k)[0] * self.bytes_per_sector,
ensures
    k == 4,
decreases 4 - k,
@@at loop 0 begin
proof { k = k + 1; lemma_lba(partition_entry.start_address_lba, self.bytes_per_sector); }
@@at loop 0 after
proof { if links(s, 4).len() == 1 { lemma_lba(links(s, 4)[0], self.bytes_per_sector); } }
@@fn MbrVolumeSystem::set_bytes_per_sector
    ensures r is Ok <==> supported(bytes_per_sector),
        *final(self) == (if supported(bytes_per_sector) { MbrVolumeSystem { bytes_per_sector: bytes_per_sector, ..*old(self) } } else { *old(self) }),
@@endfn
