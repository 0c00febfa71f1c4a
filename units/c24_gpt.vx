@@include p_gpt.vx
@@include sliceeq.vx
@@include crc32r.vx
@@include utf16le.vx
@@raw
spec fn crc32(x: Seq<u8>) -> u32 { rcrc_fold(0xedb88320, 0xffffffff, x) ^ 0xffffffffu32 }
spec fn le32(d: Seq<u8>, o: int) -> u32 { kx_u32_le(d.subrange(o, o + 4)) }
spec fn le64(d: Seq<u8>, o: int) -> u64 { kx_u64_le(d.subrange(o, o + 8)) }
@@file keramics-formats/src/gpt/constants.rs
@@item GPT_PARTITION_TABLE_SIGNATURE
@@file keramics-formats/src/gpt/partition_entry.rs
@@item GptPartitionEntry
@@raw
// a partition entry of 128 bytes
spec fn is_entry(e: GptPartitionEntry, s: Seq<u8>) -> bool {
    &&& e.type_identifier == uuid_le(s.subrange(0, 16)) && e.identifier == uuid_le(s.subrange(16, 32))
    &&& e.start_block_number == le64(s, 32) && e.end_block_number == le64(s, 40) && e.attribute_flags == le64(s, 48)
    &&& e.name.elements@ == until_nul16(words_le(s.subrange(56, 128)))
}
@@fn GptPartitionEntry::new
    ensures r.index == index,
@@fn GptPartitionEntry::read_data
    ensures r is Ok <==> data@.len() == 128, r is Ok ==> is_entry(*final(self), data@), final(self).index == old(self).index,
@@file keramics-formats/src/gpt/partition_table_header.rs
@@item GptPartitionTableHeader
@@raw
spec fn header_sum(s: Seq<u8>) -> u32 { crc32(s.subrange(0, 16) + seq![0u8, 0u8, 0u8, 0u8] + s.subrange(20, 92)) }
spec fn header_ok(s: Seq<u8>) -> bool {
    &&& s.len() == 92 && s.subrange(0, 8) == seq![0x45u8, 0x46u8, 0x49u8, 0x20u8, 0x50u8, 0x41u8, 0x52u8, 0x54u8]
    &&& le32(s, 8) == 0x00010000 && le32(s, 12) == 92
    &&& le32(s, 16) == 0 || le32(s, 16) == header_sum(s)
}
spec fn header_is(h: GptPartitionTableHeader, s: Seq<u8>) -> bool {
    &&& h.backup_header_block_number == le64(s, 32) && h.area_start_block_number == le64(s, 40) && h.area_end_block_number == le64(s, 48)
    &&& h.disk_identifier == uuid_le(s.subrange(56, 72))
    &&& h.entries_start_block_number == le64(s, 72) && h.number_of_entries == le32(s, 80) && h.entry_data_size == le32(s, 84) && h.entries_data_checksum == le32(s, 88)
}
@@fn GptPartitionTableHeader::new
@@fn GptPartitionTableHeader::read_data
    ensures r is Ok <==> header_ok(data@), r is Ok ==> header_is(*final(self), data@), r is Err ==> *final(self) == *old(self),
@@at start
let ghost s = data@;
proof {
    assert(0u32 ^ 0xffffffffu32 == 0xffffffffu32) by (bit_vector);
    assert(GPT_PARTITION_TABLE_SIGNATURE@ =~= seq![0x45u8, 0x46u8, 0x49u8, 0x20u8, 0x50u8, 0x41u8, 0x52u8, 0x54u8]);
    if s.len() == 92 {
        let z = seq![0u8, 0u8, 0u8, 0u8];
        theorem_split(0xedb88320, 0xffffffff, s.subrange(0, 16), z);
        theorem_split(0xedb88320, 0xffffffff, s.subrange(0, 16) + z, s.subrange(20, 92));
    }
}
@@at let:calculated_checksum before
proof {
    let z = seq![0u8, 0u8, 0u8, 0u8];
    assert(header_data_size == 92);
    let c1 = rcrc_fold(0xedb88320, 0xffffffff, s.subrange(0, 16));
    assert forall|x: Seq<u8>| x.len() == 4 && x[0] == 0 && x[1] == 0 && x[2] == 0 && x[3] == 0 implies #[trigger] rcrc_fold(0xedb88320, c1, x) == rcrc_fold(0xedb88320, c1, z) by { assert(x =~= z); }
    assert(crc32_context.checksum == rcrc_fold(0xedb88320, 0xffffffff, s.subrange(0, 16) + z + s.subrange(20, 92)));
}
@@fn GptPartitionTableHeader::read_at_position
    requires !(position is Current),
    ensures
        r is Ok ==> ({
            let d = data_stream.content();
            let p = kx_target(position, 0, d.len() as int);
            &&& d.len() <= u64::MAX && 0 <= p <= d.len() - 92 && header_ok(d.subrange(p, p + 92)) && header_is(*final(self), d.subrange(p, p + 92))
        }),
@@at let:offset after
proof {
    let d0 = data_stream.content();
    let p = kx_target(position, 0, d0.len() as int);
    assert(data@ =~= d0.subrange(p, p + 92));
}
@@raw
spec fn supported(b: u16) -> bool { b == 512 || b == 4096 }
#[verifier::external_body]
fn kx_contains(s: [u16; 2], x: &u16) -> (r: bool)
    ensures r == s@.contains(*x),
{ s.contains(x) }
@@mapmethod contains kx_contains
@@file keramics-formats/src/gpt/volume_system.rs
@@item GptVolumeSystem
@@raw
impl GptVolumeSystem {
    spec fn wf(self) -> bool { forall|i: int| 0 <= i < self.partition_entries@.len() ==> (#[trigger] self.partition_entries@[i]).start_block_number <= self.partition_entries@[i].end_block_number }
}
@@fn GptVolumeSystem::new
    ensures r.wf(), r.partition_entries@.len() == 0, r.bytes_per_sector == 0, r.data_stream is None,
@@fn GptVolumeSystem::get_number_of_partitions
    ensures r == self.partition_entries@.len(),
@@fn GptVolumeSystem::get_partition_by_index
    requires self.wf(),
    ensures
        r is Ok <==> partition_index < self.partition_entries@.len() && self.data_stream is Some
            && (self.partition_entries@[partition_index as int].end_block_number + 1) * self.bytes_per_sector <= u64::MAX && self.partition_entries@[partition_index as int].end_block_number < u64::MAX,
        r is Ok ==> ({
            let e = self.partition_entries@[partition_index as int];
            let p = r->Ok_0;
            &&& p.data_stream is Some && p.data_stream->Some_0.content() == self.data_stream->Some_0.content() && p.current_offset == 0
            &&& p.offset == e.start_block_number * self.bytes_per_sector
            &&& p.size == (e.end_block_number - e.start_block_number + 1) * self.bytes_per_sector
            &&& p.offset + p.size <= u64::MAX
            &&& p.entry_index == e.index && p.type_identifier == e.type_identifier && p.identifier == e.identifier
        }),
@@at start
proof {
    if partition_index < self.partition_entries@.len() {
        let e = self.partition_entries@[partition_index as int];
        let (x, y, b) = (e.start_block_number as int, e.end_block_number as int, self.bytes_per_sector as int);
        assert(0 <= x * b <= (y + 1) * b && (y + 1) * b - x * b == (y - x + 1) * b) by (nonlinear_arith) requires 0 <= x <= y, 0 <= b;
    }
}
@@raw
// es are the entries in use of the first n entries at offset o
spec fn listed(es: Seq<GptPartitionEntry>, d: Seq<u8>, o: int, n: int, first: u64) -> bool
    decreases n
{
    if n <= 0 { es.len() == 0 }
    else {
        let s = d.subrange(o + 128 * (n - 1), o + 128 * n);
        if is_nil(uuid_le(s.subrange(0, 16))) { listed(es, d, o, n - 1, first) }
        else {
            &&& es.len() > 0 && is_entry(es.last(), s) && es.last().index == n - 1
            &&& first <= es.last().start_block_number <= es.last().end_block_number
            &&& listed(es.drop_last(), d, o, n - 1, first)
        }
    }
}
spec fn table(v0: GptVolumeSystem, v: GptVolumeSystem, d: Seq<u8>) -> bool {
    let b = v.bytes_per_sector as int;
    let s = d.subrange(b, b + 92);
    let n = le32(s, 80) as int;
    let o = le64(s, 72) * b;
    let h = le64(s, 32) * b;
    &&& v0.bytes_per_sector != 0 ==> v.bytes_per_sector == v0.bytes_per_sector
    &&& v0.bytes_per_sector == 0 ==> supported(v.bytes_per_sector)
    &&& b + 92 <= d.len() && header_ok(s)
    &&& h != 0 ==> (h + 92 <= d.len() && header_ok(d.subrange(h, h + 92))) || (92 <= b <= d.len() && header_ok(d.subrange(d.len() - b, d.len() - b + 92)))
    &&& le32(s, 84) == 128 && 128 * n <= 32 * b && (n > 0 ==> o + 128 * n <= d.len())
    &&& le32(s, 88) == 0 || (n > 0 && le32(s, 88) == crc32(d.subrange(o, o + 128 * n))) || (n == 0 && le32(s, 88) == crc32(seq![]))
    &&& v0.partition_entries@.len() <= v.partition_entries@.len() && v.partition_entries@.take(v0.partition_entries@.len() as int) =~= v0.partition_entries@
    &&& listed(v.partition_entries@.skip(v0.partition_entries@.len() as int), d, o, n, le64(s, 40))
    &&& v.disk_identifier == (if is_nil(uuid_le(s.subrange(56, 72))) { v0.disk_identifier } else { uuid_le(s.subrange(56, 72)) })
}
@@fn GptVolumeSystem::read_data_stream
    requires old(self).wf(),
    ensures final(self).wf(),
        r is Ok ==> table(*old(self), *final(self), data_stream.content()) && final(self).data_stream is Some && final(self).data_stream->Some_0.content() == data_stream.content(),
        r is Err ==> final(self).data_stream == old(self).data_stream,
@@fn GptVolumeSystem::read_partition_table
    requires old(self).wf(),
    ensures final(self).wf(), final(self).data_stream == old(self).data_stream,
        r is Ok ==> table(*old(self), *final(self), data_stream.content()),
@@attr #[verifier::rlimit(60)]
@@isolate
@@at start
let ghost d = data_stream.content();
let ghost p0 = self.partition_entries@;
let ghost mut b = 0int;
let ghost mut s = Seq::<u8>::empty();
let ghost mut es = Seq::<GptPartitionEntry>::empty();
proof { assert(0u32 ^ 0xffffffffu32 == 0xffffffffu32) by (bit_vector); }
@@loop 0
invariant_except_break
    self.bytes_per_sector == 0,
invariant
    d == data_stream.content(), p0 == old(self).partition_entries@, old(self).wf(), old(self).bytes_per_sector == 0,
    sl0@ == seq![512u16, 4096u16],
    *self == (GptVolumeSystem { bytes_per_sector: self.bytes_per_sector, ..*old(self) }),
ensures
    self.bytes_per_sector == 0 || supported(self.bytes_per_sector),
    self.bytes_per_sector != 0 ==> ({
        let b = self.bytes_per_sector as int;
        b + 92 <= d.len() && header_ok(d.subrange(b, b + 92)) && header_is(partition_table_header, d.subrange(b, b + 92))
    }),
@@at let:backup_partition_table_offset before
proof { b = self.bytes_per_sector as int; s = d.subrange(b, b + 92); }
@@loop 1
invariant
    d == data_stream.content(), p0 == old(self).partition_entries@, old(self).wf(), self.wf(),
    self.bytes_per_sector == b, self.data_stream == old(self).data_stream,
    header_is(partition_table_header, s), partition_table_header.entry_data_size == 128, hi1 == partition_table_header.number_of_entries, lo1 == 0,
    entry_data@.len() == 128,
    it1 > 0 ==> le64(s, 72) * b + 128 * it1 <= d.len() && d.len() <= u64::MAX,
    entry_data_offset == if it1 == 0 { if le64(s, 72) * b <= u64::MAX { le64(s, 72) * b } else { u64::MAX as int } } else { le64(s, 72) * b + 128 * it1 },
    crc32_context.wf(), crc32_context.polynomial == 0xedb88320, crc32_context.initial_value == 0,
    crc32_context.checksum == (if it1 == 0 { 0xffffffff } else { rcrc_fold(0xedb88320, 0xffffffff, d.subrange(le64(s, 72) * b, le64(s, 72) * b + 128 * it1)) }),
    self.partition_entries@ =~= p0 + es,
    listed(es, d, le64(s, 72) * b, it1 as int, le64(s, 40)),
    self.disk_identifier == dk,
@@at loop 1 before
let ghost dk = self.disk_identifier;
@@at loop 1 begin
let ghost q = le64(s, 72) * b;
let ghost k = it1 - 1;
let ghost e1 = es;
@@at loop 1 end
proof {
    es = self.partition_entries@.skip(p0.len() as int);
    assert(entry_data@ =~= d.subrange(q + 128 * k, q + 128 * (k + 1)));
    assert(d.subrange(q, q + 128 * k) + entry_data@ =~= d.subrange(q, q + 128 * (k + 1)));
    theorem_split(0xedb88320, 0xffffffff, d.subrange(q, q + 128 * k), entry_data@);
    if k == 0 { assert(d.subrange(q, q) =~= seq![]); }
    if is_nil(uuid_le(entry_data@.subrange(0, 16))) { assert(es =~= e1); } else { assert(es.drop_last() =~= e1); }
}
@@at end
proof {
    assert(self.partition_entries@.take(p0.len() as int) =~= p0);
    assert(self.partition_entries@.skip(p0.len() as int) =~= es);
    let h = le64(s, 32) * b;
    let o = le64(s, 72) * b;
    let n = le32(s, 80) as int;
    assert(b + 92 <= d.len() && header_ok(s));
    assert(h != 0 ==> (h + 92 <= d.len() && header_ok(d.subrange(h, h + 92))) || (92 <= b <= d.len() && header_ok(d.subrange(d.len() - b, d.len() - b + 92))));
    assert(128 * n <= 32 * b);
    assert(n > 0 ==> o + 128 * n <= d.len());
    if n == 0 { assert(crc32(seq![]) == 0xffffffff ^ 0xffffffffu32); }
    assert(self.disk_identifier == (if is_nil(uuid_le(s.subrange(56, 72))) { old(self).disk_identifier } else { uuid_le(s.subrange(56, 72)) }));
}
@@fn GptVolumeSystem::set_bytes_per_sector
    ensures r is Ok <==> supported(bytes_per_sector),
        *final(self) == (if supported(bytes_per_sector) { GptVolumeSystem { bytes_per_sector: bytes_per_sector, ..*old(self) } } else { *old(self) }),
@@endfn
