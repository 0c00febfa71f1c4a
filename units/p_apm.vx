
@@include std.vx
@@include dstream.vx
@@include partition.vx
@@include bstr.vx
@@file keramics-formats/src/apm/partition.rs
@@item ApmPartition
@@raw
spec fn text_is(a: ByteString, b: ByteString) -> bool { a.elements@ == b.elements@ && a.encoding == b.encoding }
spec fn same(a: ApmPartition, b: ApmPartition) -> bool {
    a.data_stream == b.data_stream && a.offset == b.offset && a.size == b.size && a.type_identifier == b.type_identifier && a.name == b.name && a.status_flags == b.status_flags
}
@@fn ApmPartition::new
    ensures r.data_stream is None, r.current_offset == 0, r.offset == offset, r.size == size, text_is(r.type_identifier, *type_identifier), text_is(r.name, *name), r.status_flags == status_flags,
@@fn ApmPartition::open
    ensures r is Ok, final(self).data_stream is Some, final(self).data_stream->Some_0.content() == data_stream.content(),
        same(*final(self), ApmPartition { data_stream: final(self).data_stream, ..*old(self) }), final(self).current_offset == old(self).current_offset,
