@@include p_apm.vx
@@include sliceeq.vx
@@raw
spec fn be32(d: Seq<u8>, o: int) -> u32 { kx_u32_be(d.subrange(o, o + 4)) }
@@file keramics-formats/src/apm/constants.rs
@@item APM_PARTITION_MAP_SIGNATURE
@@item APM_PARTITION_MAP_TYPE
@@file keramics-formats/src/apm/partition_map_entry.rs
@@item ApmPartitionMapEntry
@@raw
spec fn entry_ok(s: Seq<u8>) -> bool { s.len() == 512 && s[0] == 0x50 && s[1] == 0x4d }
spec fn is_entry(e: ApmPartitionMapEntry, s: Seq<u8>) -> bool {
    &&& e.number_of_entries == be32(s, 4) && e.start_sector == be32(s, 8) && e.number_of_sectors == be32(s, 12)
    &&& e.name.elements@ == until_nul(s.subrange(16, 48)) && e.type_identifier.elements@ == until_nul(s.subrange(48, 80))
    &&& e.status_flags == be32(s, 88)
}
// "Apple_partition_map"
spec fn map_type() -> Seq<u8> {
    seq![0x41u8, 0x70, 0x70, 0x6c, 0x65, 0x5f, 0x70, 0x61, 0x72, 0x74, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x5f, 0x6d, 0x61, 0x70]
}
@@fn ApmPartitionMapEntry::new
@@fn ApmPartitionMapEntry::read_data
    ensures r is Ok <==> entry_ok(data@), r is Ok ==> is_entry(*final(self), data@),
@@at start
proof {
    assert(APM_PARTITION_MAP_SIGNATURE@ =~= seq![0x50u8, 0x4du8]);
    if data@.len() == 512 {
        assert(data@.subrange(0, 2) =~= seq![data@[0], data@[1]]);
        assert(data@.subrange(0, 2)[0] == data@[0] && data@.subrange(0, 2)[1] == data@[1]);
    }
}
@@fn ApmPartitionMapEntry::read_at_position
    requires !(position is Current),
    ensures
        r is Ok ==> ({
            let d = data_stream.content();
            let p = kx_target(position, 0, d.len() as int);
            &&& 0 <= p <= d.len() - 512 && entry_ok(d.subrange(p, p + 512)) && is_entry(*final(self), d.subrange(p, p + 512))
        }),
@@at let:offset after
proof {
    let d0 = data_stream.content();
    let p = kx_target(position, 0, d0.len() as int);
    assert(data@ =~= d0.subrange(p, p + 512));
}
@@opt eq .type_identifier ByteString::eq_slice
@@file keramics-formats/src/apm/volume_system.rs
@@item ApmVolumeSystem
@@fn ApmVolumeSystem::new
    ensures r.partition_map_entries@.len() == 0, r.bytes_per_sector == 0, r.data_stream is None,
@@fn ApmVolumeSystem::get_number_of_partitions
    ensures r == self.partition_map_entries@.len(),
@@fn ApmVolumeSystem::get_partition_by_index
    ensures
        r is Ok <==> partition_index < self.partition_map_entries@.len() && self.data_stream is Some,
        r is Ok ==> ({
            let e = self.partition_map_entries@[partition_index as int];
            let p = r->Ok_0;
            &&& p.data_stream is Some && p.data_stream->Some_0.content() == self.data_stream->Some_0.content() && p.current_offset == 0
            &&& p.offset == e.start_sector * self.bytes_per_sector
            &&& p.size == e.number_of_sectors * self.bytes_per_sector
            &&& p.offset + p.size <= u64::MAX
            &&& text_is(p.type_identifier, e.type_identifier) && text_is(p.name, e.name) && p.status_flags == e.status_flags
        }),
@@at start
proof {
    if partition_index < self.partition_map_entries@.len() {
        let e = self.partition_map_entries@[partition_index as int];
        let (x, y, b) = (e.start_sector as int, e.number_of_sectors as int, self.bytes_per_sector as int);
        assert(0 <= x * b <= 0xffff_ffff * 0xffff && 0 <= y * b <= 0xffff_ffff * 0xffff) by (nonlinear_arith) requires 0 <= x <= 0xffff_ffff, 0 <= y <= 0xffff_ffff, 0 <= b <= 0xffff;
    }
}
@@raw
spec fn sector(d: Seq<u8>, k: int) -> Seq<u8> { d.subrange(512 * k, 512 * k + 512) }
spec fn map_size(d: Seq<u8>) -> int { if be32(sector(d, 1), 4) == 0 { 1 } else { be32(sector(d, 1), 4) as int } }
// the map is in the sectors from 1; its first entry describes the map itself
spec fn table(v0: ApmVolumeSystem, v: ApmVolumeSystem, d: Seq<u8>) -> bool {
    let n = map_size(d);
    let m = v0.partition_map_entries@.len() as int;
    &&& v.bytes_per_sector == 512
    &&& 512 * (n + 1) <= d.len()
    &&& until_nul(sector(d, 1).subrange(48, 80)) == map_type()
    &&& forall|k: int| 1 <= k <= n ==> entry_ok(#[trigger] sector(d, k)) && (k == 1 || be32(sector(d, k), 4) == be32(sector(d, 1), 4))
    &&& v.partition_map_entries@.len() == m + n - 1 && v.partition_map_entries@.take(m) =~= v0.partition_map_entries@
    &&& forall|k: int| m <= k < m + n - 1 ==> is_entry(#[trigger] v.partition_map_entries@[k], sector(d, k - m + 2))
}
@@fn ApmVolumeSystem::read_data_stream
    ensures
        r is Ok ==> table(*old(self), *final(self), data_stream.content()) && final(self).data_stream is Some && final(self).data_stream->Some_0.content() == data_stream.content(),
        r is Err ==> final(self).data_stream == old(self).data_stream,
@@fn ApmVolumeSystem::read_partition_map
    ensures final(self).data_stream == old(self).data_stream,
        r is Ok ==> table(*old(self), *final(self), data_stream.content()),
@@isolate
@@at start
let ghost d = data_stream.content();
let ghost p0 = self.partition_map_entries@;
let ghost m = p0.len() as int;
proof { assert(APM_PARTITION_MAP_TYPE@ =~= map_type()); }
@@loop 0
invariant_except_break
    partition_map_entry_index > 0 ==> partition_map_entry_index < number_of_entries,
invariant
    d == data_stream.content(), p0 == old(self).partition_map_entries@, m == p0.len(), APM_PARTITION_MAP_TYPE@ == map_type(),
    self.bytes_per_sector == 512, self.data_stream == old(self).data_stream,
    partition_map_entry_offset == 512 * (partition_map_entry_index + 1),
    partition_map_entry_index > 0 ==> number_of_entries == be32(sector(d, 1), 4) && until_nul(sector(d, 1).subrange(48, 80)) == map_type(),
    forall|k: int| 1 <= k <= partition_map_entry_index ==> entry_ok(#[trigger] sector(d, k)) && (k == 1 || be32(sector(d, k), 4) == be32(sector(d, 1), 4)),
    partition_map_entry_index > 0 ==> 512 * (partition_map_entry_index + 1) <= d.len(),
    self.partition_map_entries@.len() == m + (if partition_map_entry_index == 0 { 0 } else { partition_map_entry_index - 1 }),
    self.partition_map_entries@.take(m) =~= p0,
    forall|k: int| m <= k < self.partition_map_entries@.len() ==> is_entry(#[trigger] self.partition_map_entries@[k], sector(d, k - m + 2)),
ensures
    partition_map_entry_index == map_size(d),
decreases
    if partition_map_entry_index == 0 { 0x1_0000_0000int } else { number_of_entries - partition_map_entry_index },
@@endfn
