@@opt default
@@include std.vx
@@include dstream.vx
@@include partition.vx
@@include uuidle.vx
@@file keramics-formats/src/gpt/partition.rs
@@item GptPartition
@@raw
spec fn same(a: GptPartition, b: GptPartition) -> bool {
    a.data_stream == b.data_stream && a.offset == b.offset && a.size == b.size && a.entry_index == b.entry_index && a.type_identifier == b.type_identifier && a.identifier == b.identifier
}
@@fn GptPartition::new
    ensures r.data_stream is None, r.current_offset == 0, r.entry_index == entry_index, r.offset == offset, r.size == size, r.type_identifier == *type_identifier, r.identifier == *identifier,
@@fn GptPartition::open
    ensures r is Ok, final(self).data_stream is Some, final(self).data_stream->Some_0.content() == data_stream.content(),
        same(*final(self), GptPartition { data_stream: final(self).data_stream, ..*old(self) }), final(self).current_offset == old(self).current_offset,
