@@include std.vx
@@include dstream.vx
@@include partition.vx
@@include blocktree.vx proved=c25_tree
@@include filestream.vx
@@file keramics-formats/src/ext/block_range.rs
@@item ExtBlockRangeType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@item ExtBlockRange
@@raw
impl Clone for ExtBlockRange {
    fn clone(&self) -> (r: Self) ensures r == *self { ExtBlockRange { logical_block_number: self.logical_block_number, physical_block_number: self.physical_block_number, number_of_blocks: self.number_of_blocks, range_type: self.range_type } }
}
@@file keramics-formats/src/ext/block_stream.rs
@@item ExtBlockStream
@@raw
spec fn in_range(v: ExtBlockRange, bs: int, o: int) -> bool {
    v.logical_block_number * bs <= o < v.logical_block_number * bs + v.number_of_blocks * bs
}
spec fn range_fits(v: ExtBlockRange, bs: int, end: int) -> bool {
    v.logical_block_number * bs + v.number_of_blocks * bs <= end && v.physical_block_number * bs + v.number_of_blocks * bs <= u64::MAX
}
spec fn range_byte(v: ExtBlockRange, bs: int, o: int) -> KxByte {
    if v.range_type == ExtBlockRangeType::Sparse { KxByte::Zero } else { KxByte::Mapped(v.physical_block_number * bs + o - v.logical_block_number * bs) }
}
impl ExtBlockStream {
    spec fn image(self) -> Seq<u8> { if self.data_stream is Some { self.data_stream->0.content() } else { Seq::empty() } }
    spec fn wf(self) -> bool {
        &&& self.block_tree.wf()
        &&& self.block_size > 0 || self.block_tree.root_node is None
        &&& forall|o: int| (#[trigger] self.block_tree.at(o)) is Some ==> range_fits(self.block_tree.at(o)->0, self.block_size as int, self.block_tree.data_size as int) && in_range(self.block_tree.at(o)->0, self.block_size as int, o)
        &&& forall|o: int, q: int| (#[trigger] self.block_tree.at(o)) is Some && #[trigger] in_range(self.block_tree.at(o)->0, self.block_size as int, q) ==> self.block_tree.at(q) == self.block_tree.at(o)
    }
    spec fn map(self, o: int) -> KxByte {
        if 0 <= o < self.block_tree.data_size && self.block_tree.at(o) is Some { range_byte(self.block_tree.at(o)->0, self.block_size as int, o) } else { KxByte::Missing }
    }
}
@@fn ExtBlockStream::new
    ensures r.wf(), r.block_size == block_size, r.size == size, r.current_offset == 0, r.data_stream is None, r.block_tree.root_node is None,
@@fn ExtBlockStream::open
    requires old(self).block_size > 0,
    ensures
        final(self).block_size == old(self).block_size, final(self).size == old(self).size, final(self).current_offset == old(self).current_offset,
        r is Ok ==> final(self).wf() && final(self).data_stream is Some && final(self).data_stream->0.content() == data_stream.content(),
        // each block of a range is mapped to that range, and only those are mapped
        r is Ok ==> forall|i: int, o: int| 0 <= i < block_ranges@.len() && in_range(#[trigger] block_ranges@[i], old(self).block_size as int, o) ==> #[trigger] final(self).map(o) == range_byte(block_ranges@[i], old(self).block_size as int, o),
        r is Ok ==> forall|o: int| !(#[trigger] final(self).map(o) is Missing) ==> exists|i: int| 0 <= i < block_ranges@.len() && in_range(#[trigger] block_ranges@[i], old(self).block_size as int, o),
@@at start
    let ghost bs = self.block_size as int;
    let ghost n0 = number_of_blocks as int;
    let ghost rs = block_ranges@;
    let ghost mut t1 = self.block_tree;
    let ghost mut ci: int = 0;
@@loop 0
    invariant
        *self == (ExtBlockStream { block_tree: self.block_tree, ..*old(self) }),
        self.block_tree.wf(), self.block_tree.data_size == n0 * bs, self.block_tree.leaf_value_size == bs,
        forall|i: int, o: int| 0 <= i < it0 && in_range(rs[i], bs, o) ==> #[trigger] self.block_tree.at(o) == Some(#[trigger] rs[i]),
        forall|o: int| (#[trigger] self.block_tree.at(o)) is Some ==> exists|i: int| 0 <= i < it0 && in_range(#[trigger] rs[i], bs, o) && self.block_tree.at(o) == Some(rs[i]),
        forall|i: int| 0 <= i < it0 ==> range_fits(#[trigger] rs[i], bs, n0 * bs),
@@at loop 0 begin
    proof { t1 = self.block_tree; ci = it0 as int; }
@@at let:logical_offset before
    proof {
        let v = *block_range;
        let x = v.logical_block_number as int; let y = v.number_of_blocks as int; let z = v.physical_block_number as int;
        assert(x * bs + y * bs <= n0 * bs && 0 <= x * bs && 0 <= y * bs && 0 <= z * bs) by (nonlinear_arith) requires x + y <= n0, x >= 0, y >= 0, z >= 0, bs > 0;
        assert((z + y) * bs == z * bs + y * bs) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(x, bs);
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(y, bs);
    }
@@at loop 0 end
    proof {
        let v = rs[it0 - 1];
        assert forall|i: int, o: int| 0 <= i < it0 && in_range(rs[i], bs, o) implies #[trigger] self.block_tree.at(o) == Some(#[trigger] rs[i]) by {
            if i < it0 - 1 { assert(t1.at(o) == Some(rs[i])); }
        }
        assert forall|o: int| (#[trigger] self.block_tree.at(o)) is Some implies exists|i: int| 0 <= i < it0 && in_range(#[trigger] rs[i], bs, o) && self.block_tree.at(o) == Some(rs[i]) by {
            if in_range(v, bs, o) { assert(in_range(rs[it0 - 1], bs, o)); } else { assert(t1.at(o) == self.block_tree.at(o)); }
        }
    }
@@at tail
    proof {
        assert forall|o: int, q: int| (#[trigger] self.block_tree.at(o)) is Some && #[trigger] in_range(self.block_tree.at(o)->0, bs, q) implies self.block_tree.at(q) == self.block_tree.at(o) by {
            let i = choose|i: int| 0 <= i < rs.len() && in_range(#[trigger] rs[i], bs, o) && self.block_tree.at(o) == Some(rs[i]);
            assert(in_range(rs[i], bs, q));
        }
        assert forall|i: int, o: int| 0 <= i < rs.len() && in_range(#[trigger] rs[i], bs, o) implies #[trigger] self.map(o) == range_byte(rs[i], bs, o) by {
            assert(range_fits(rs[i], bs, n0 * bs));
            assert(0 <= rs[i].logical_block_number * bs) by (nonlinear_arith) requires bs > 0, rs[i].logical_block_number >= 0;
            assert(self.block_tree.at(o) == Some(rs[i]));
        }
    }
@@fn ExtBlockStream::read_data_from_blocks
    requires old(self).wf(), old(data)@.len() <= kx_left(old(self).size as int, old(self).current_offset as int),
    ensures *final(self) == *old(self), final(data)@.len() == old(data)@.len(),
        r is Ok ==> file_bytes(|o: int| old(self).map(o), old(self).image(), old(self).size as int, old(self).current_offset as int, old(data)@, r->Ok_0 as int, final(data)@),
@@isolate
@@at start
    let ghost p = self.current_offset as int;
    let ghost c = self.image();
    let ghost bs = self.block_size as int;
    let ghost d0 = data@;
    let ghost mut d1 = data@;
    let ghost mut v: ExtBlockRange = arbitrary();
@@loop 0
    invariant
        *self == *old(self), self.wf(), p == self.current_offset, c == self.image(), bs == self.block_size, d0 == old(data)@,
        read_size == d0.len(), data@.len() == read_size, data_offset <= read_size, read_size <= kx_left(self.size as int, p), current_offset == p + data_offset,
        forall|i: int| 0 <= i < data_offset ==> kx_byte_ok(self.map(p + i), c, #[trigger] data@[i]),
        forall|i: int| data_offset <= i < read_size ==> #[trigger] data@[i] == d0[i],
    ensures
        data_offset < read_size ==> self.map(p + data_offset) is Mapped && self.map(p + data_offset)->Mapped_0 >= c.len(),
    decreases read_size - data_offset,
@@at loop 0 begin
    proof { d1 = data@; }
@@at let:block_range after
    proof {
        v = *block_range;
        let x = v.logical_block_number as int; let y = v.number_of_blocks as int; let z = v.physical_block_number as int;
        assert(self.block_tree.at(current_offset as int) == Some(v));
        assert(range_fits(v, bs, self.block_tree.data_size as int));
        assert((x + y) * bs == x * bs + y * bs) by (nonlinear_arith);
        assert((z + y) * bs == z * bs + y * bs) by (nonlinear_arith);
        assert(0 <= x * bs && 0 <= y * bs && 0 <= z * bs) by (nonlinear_arith) requires x >= 0, y >= 0, z >= 0, bs >= 0;
    }
@@at let:range_read_count after
    proof {
        let n = range_read_count as int;
        assert forall|i: int| 0 <= i < data_offset + n implies kx_byte_ok(self.map(p + i), c, #[trigger] data@[i]) by {
            if i < data_offset { assert(data@[i] == d1[i]); }
            else {
                assert(in_range(v, bs, p + i));
                assert(self.block_tree.at(p + i) == Some(v));
                assert(self.map(p + i) == range_byte(v, bs, p + i));
            }
        }
        assert forall|i: int| data_offset + n <= i < read_size implies #[trigger] data@[i] == d0[i] by { assert(d1[i] == d0[i]); }
    }
@@fn ExtBlockStream::get_size for DataStream
    ensures r is Ok, r->Ok_0 == old(self).size, *final(self) == *old(self),
@@fn ExtBlockStream::read for DataStream
    requires old(self).wf(),
    ensures
        final(self).wf(), *final(self) == (ExtBlockStream { current_offset: final(self).current_offset, ..*old(self) }),
        r is Ok ==> file_bytes(|o: int| old(self).map(o), old(self).image(), old(self).size as int, old(self).current_offset as int, old(buf)@, r->Ok_0 as int, final(buf)@),
        r is Ok ==> final(self).current_offset == old(self).current_offset + r->Ok_0,
        r is Err ==> final(self).current_offset == old(self).current_offset,
@@fn ExtBlockStream::seek for DataStream
    ensures *final(self) == (ExtBlockStream { current_offset: final(self).current_offset, ..*old(self) }), seeks(pos, old(self).current_offset as int, old(self).size as int, r, final(self).current_offset as int),
@@endfn
