@@include std.vx
@@include dstream.vx
@@include partition.vx
@@file keramics-formats/src/mbr/partition.rs
@@item MbrPartition
@@raw
spec fn same(a: MbrPartition, b: MbrPartition) -> bool {
    a.data_stream == b.data_stream && a.offset == b.offset && a.size == b.size && a.entry_index == b.entry_index && a.partition_type == b.partition_type && a.flags == b.flags
}
@@fn MbrPartition::new
    ensures r.data_stream is None, r.current_offset == 0, r.entry_index == entry_index, r.offset == offset, r.size == size, r.partition_type == partition_type, r.flags == flags,
@@fn MbrPartition::open
    ensures r is Ok, final(self).data_stream is Some, final(self).data_stream->Some_0.content() == data_stream.content(),
        same(*final(self), MbrPartition { data_stream: final(self).data_stream, ..*old(self) }), final(self).current_offset == old(self).current_offset,
