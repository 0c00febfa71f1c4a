@@include p_mbr.vx
@@fn MbrPartition::get_size for DataStream
    ensures r is Ok, r->Ok_0 == old(self).size, *final(self) == *old(self),
@@fn MbrPartition::read for DataStream
    requires old(self).offset + old(self).size <= u64::MAX,
    ensures
        same(*final(self), *old(self)),
        part_read(old(self).data_stream, old(self).offset as int, old(self).size as int, old(self).current_offset as int, old(buf)@, r, final(buf)@, final(self).current_offset as int),
@@fn MbrPartition::seek for DataStream
    ensures same(*final(self), *old(self)), seeks(pos, old(self).current_offset as int, old(self).size as int, r, final(self).current_offset as int),
@@endfn
