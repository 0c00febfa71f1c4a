@@include std.vx
@@include dstream.vx
@@include partition.vx
@@include blocktree.vx proved=c25_tree
@@include filestream.vx
@@include fattable.vx
@@raw
use std::collections::HashSet;
@@file keramics-formats/src/fat/block_range.rs
@@item FatBlockRange
@@raw
impl Clone for FatBlockRange {
    fn clone(&self) -> (r: Self) ensures r == *self { FatBlockRange { logical_offset: self.logical_offset, physical_offset: self.physical_offset, size: self.size } }
}
@@fn FatBlockRange::new
    ensures r.logical_offset == logical_offset, r.physical_offset == physical_offset, r.size == size,
@@file keramics-formats/src/fat/block_stream.rs
@@item FatBlockStream
@@raw
// ---- the clusters of a file: each is the allocation table entry of the one before it ----
spec fn fat_chain(t: FatBlockAllocationTable, c: Seq<u8>, first: int, s: Seq<int>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> fat_is_cluster(t.format, #[trigger] s[k]) && s[k] == fat_nth(t, c, first, k as nat)
}
spec fn fat_nth(t: FatBlockAllocationTable, c: Seq<u8>, first: int, k: nat) -> int
    decreases k
{
    if k == 0 { first } else { t.entry(c, fat_nth(t, c, first, (k - 1) as nat)) }
}
spec fn in_range(v: FatBlockRange, o: int) -> bool { v.logical_offset <= o < v.logical_offset + v.size }
spec fn range_byte(v: FatBlockRange, o: int) -> KxByte { KxByte::Mapped(v.physical_offset + o - v.logical_offset) }
// the range of cluster k, with bytes of the image from where the cluster is
spec fn fat_range(t: FatBlockAllocationTable, bs: int, s: Seq<int>, k: int, v: FatBlockRange) -> bool {
    v.logical_offset == k * bs && v.physical_offset == t.cluster_offset(s[k]) && v.size == bs
}
spec fn in_cluster(bs: int, k: int, o: int) -> bool { k * bs <= o < k * bs + bs }
spec fn fat_file(t: FatBlockAllocationTable, c: Seq<u8>, bs: int, first: int, s: Seq<int>, f: FatBlockStream) -> bool {
    &&& fat_chain(t, c, first, s) && !fat_is_cluster(t.format, fat_nth(t, c, first, s.len()))
    // byte o is byte o % bs of cluster o / bs
    &&& forall|k: int, o: int| 0 <= k < s.len() && #[trigger] in_cluster(bs, k, o) ==> f.map(o) == KxByte::Mapped(t.cluster_offset(s[k]) + o - k * bs)
    &&& forall|o: int| !(#[trigger] f.map(o) is Missing) ==> 0 <= o < s.len() * bs
}
impl FatBlockStream {
    spec fn image(self) -> Seq<u8> { if self.data_stream is Some { self.data_stream->0.content() } else { Seq::empty() } }
    spec fn wf(self) -> bool {
        &&& self.block_tree.wf()
        &&& forall|o: int| (#[trigger] self.block_tree.at(o)) is Some ==> in_range(self.block_tree.at(o)->0, o) && self.block_tree.at(o)->0.physical_offset + self.block_tree.at(o)->0.size <= u64::MAX && self.block_tree.at(o)->0.logical_offset + self.block_tree.at(o)->0.size <= self.block_tree.data_size
        &&& forall|o: int, q: int| (#[trigger] self.block_tree.at(o)) is Some && #[trigger] in_range(self.block_tree.at(o)->0, q) ==> self.block_tree.at(q) == self.block_tree.at(o)
    }
    spec fn map(self, o: int) -> KxByte {
        if 0 <= o < self.block_tree.data_size && self.block_tree.at(o) is Some { range_byte(self.block_tree.at(o)->0, o) } else { KxByte::Missing }
    }
}
@@fn FatBlockStream::new
    ensures r.wf(), r.block_size == block_size, r.size == size, r.current_offset == 0, r.data_stream is None, r.block_tree.root_node is None,
@@fn FatBlockStream::open
    requires block_allocation_table.bounded(),
    ensures
        final(self).block_size == old(self).block_size, final(self).size == old(self).size, final(self).current_offset == old(self).current_offset,
        r is Ok ==> final(self).wf() && final(self).data_stream is Some && final(self).data_stream->0.content() == data_stream.content(),
        // the file is the chain of clusters up to the first entry that is no cluster, in chain order
        r is Ok ==> exists|s: Seq<int>| fat_file(**block_allocation_table, data_stream.content(), old(self).block_size as int, cluster_block_number as int, s, *final(self)),
@@at start
    let ghost bs = self.block_size as int;
    let ghost c = data_stream.content();
    let ghost t = block_allocation_table.me();
    let ghost first = cluster_block_number as int;
    let ghost mut s: Seq<int> = Seq::empty();
    let ghost mut t1 = self.block_tree;
@@at let:block_tree_data_size before
    proof {
        let z = self.size as int;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(z, bs); vstd::arithmetic::div_mod::lemma_mod_pos_bound(z, bs);
        assert((z / bs) * bs <= z && (z / bs + 1) * bs <= z + bs && 0 <= (z / bs) * bs) by (nonlinear_arith) requires z == bs * (z / bs) + z % bs, 0 <= z % bs < bs, z >= 0;
    }
@@loop 0
    invariant
        *self == (FatBlockStream { block_tree: self.block_tree, ..*old(self) }), bs == self.block_size, bs > 0,
        block_allocation_table.bounded(), t == **block_allocation_table, c == data_stream.content(), largest_cluster_block_number == fat_largest(t.format),
        self.block_tree.wf(), self.block_tree.leaf_value_size == bs, self.block_tree.data_size <= 0x2_0000_0000,
        logical_offset == s.len() * bs, logical_offset <= self.block_tree.data_size,
        cluster_block_number == fat_nth(t, c, first, s.len()), fat_chain(t, c, first, s),
        forall|k: int, o: int| 0 <= k < s.len() && #[trigger] in_cluster(bs, k, o) ==> self.block_tree.at(o) is Some && fat_range(t, bs, s, k, self.block_tree.at(o)->0),
        forall|k: int, o: int, q: int| 0 <= k < s.len() && #[trigger] in_cluster(bs, k, o) && #[trigger] in_cluster(bs, k, q) ==> self.block_tree.at(o) == self.block_tree.at(q),
        forall|o: int| (#[trigger] self.block_tree.at(o)) is Some ==> 0 <= o < s.len() * bs,
    decreases self.block_tree.data_size - logical_offset,
@@at let:physical_offset before
    proof {
        t1 = self.block_tree;
        let n = cluster_block_number as int; let z = t.cluster_block_size as int;
        assert(0 <= (n - 2) * z <= 0x10000000 * 0x1_0000_0000) by (nonlinear_arith) requires 2 <= n <= 0x0ffffff0, 0 <= z <= 0xffffffff;
    }
@@at assign:cluster_block_number before
    proof {
        let k = s.len() as int; let s0 = s;
        s = s.push(cluster_block_number as int);
        assert((k + 1) * bs == k * bs + bs) by (nonlinear_arith);
        assert forall|j: int, o: int| 0 <= j < s.len() && #[trigger] in_cluster(bs, j, o) implies self.block_tree.at(o) is Some && fat_range(t, bs, s, j, self.block_tree.at(o)->0) by {
            if j < k { assert((j + 1) * bs <= k * bs && (j + 1) * bs == j * bs + bs) by (nonlinear_arith) requires j + 1 <= k, bs > 0; assert(t1.at(o) == self.block_tree.at(o)); }
        }
        assert forall|j: int, o: int, q: int| 0 <= j < s.len() && #[trigger] in_cluster(bs, j, o) && #[trigger] in_cluster(bs, j, q) implies self.block_tree.at(o) == self.block_tree.at(q) by {
            if j < k { assert((j + 1) * bs <= k * bs && (j + 1) * bs == j * bs + bs) by (nonlinear_arith) requires j + 1 <= k, bs > 0; assert(t1.at(o) == self.block_tree.at(o)); assert(t1.at(q) == self.block_tree.at(q)); }
        }
        assert forall|o: int| (#[trigger] self.block_tree.at(o)) is Some implies 0 <= o < s.len() * bs by {
            assert(t1.at(o) is Some ==> 0 <= o < k * bs);
            if !(k * bs <= o < k * bs + bs) { assert(t1.at(o) == self.block_tree.at(o)); }
        }
    }
@@at tail
    proof {
        assert forall|o: int| (#[trigger] self.block_tree.at(o)) is Some implies in_cluster(bs, o / bs, o) && 0 <= o / bs < s.len() && fat_range(t, bs, s, o / bs, self.block_tree.at(o)->0) by {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(o, bs); vstd::arithmetic::div_mod::lemma_mod_pos_bound(o, bs); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(o, bs);
            let k = o / bs;
            assert(k * bs <= o < k * bs + bs) by (nonlinear_arith) requires o == bs * k + o % bs, 0 <= o % bs < bs;
            assert(k < s.len()) by (nonlinear_arith) requires k * bs <= o, o < s.len() * bs, bs > 0;
            assert(in_cluster(bs, k, o));
        }
        assert forall|o: int| (#[trigger] self.block_tree.at(o)) is Some implies self.block_tree.at(o)->0.physical_offset + self.block_tree.at(o)->0.size <= u64::MAX && self.block_tree.at(o)->0.logical_offset + self.block_tree.at(o)->0.size <= self.block_tree.data_size by {
            let k = o / bs; let n = s[k]; let z = t.cluster_block_size as int;
            assert(0 <= (n - 2) * z <= 0x10000000 * 0x1_0000_0000) by (nonlinear_arith) requires 2 <= n <= 0x0ffffff0, 0 <= z <= 0xffffffff;
            assert(k * bs + bs <= s.len() * bs) by (nonlinear_arith) requires k + 1 <= s.len(), bs > 0;
        }
        assert forall|o: int, q: int| (#[trigger] self.block_tree.at(o)) is Some && #[trigger] in_range(self.block_tree.at(o)->0, q) implies self.block_tree.at(q) == self.block_tree.at(o) by {
            assert(in_cluster(bs, o / bs, q));
        }
        assert(fat_file(t, c, bs, first, s, *self));
    }
@@fn FatBlockStream::read_data_from_blocks
    requires old(self).wf(), old(data)@.len() <= kx_left(old(self).size as int, old(self).current_offset as int),
    ensures *final(self) == *old(self), final(data)@.len() == old(data)@.len(),
        r is Ok ==> file_bytes(|o: int| old(self).map(o), old(self).image(), old(self).size as int, old(self).current_offset as int, old(data)@, r->Ok_0 as int, final(data)@),
@@isolate
@@at start
    let ghost p = self.current_offset as int;
    let ghost c = self.image();
    let ghost d0 = data@;
    let ghost mut d1 = data@;
    let ghost mut v: FatBlockRange = arbitrary();
@@loop 0
    invariant
        *self == *old(self), self.wf(), p == self.current_offset, c == self.image(), d0 == old(data)@,
        read_size == d0.len(), data@.len() == read_size, data_offset <= read_size, read_size <= kx_left(self.size as int, p), current_offset == p + data_offset,
        forall|i: int| 0 <= i < data_offset ==> kx_byte_ok(self.map(p + i), c, #[trigger] data@[i]),
        forall|i: int| data_offset <= i < read_size ==> #[trigger] data@[i] == d0[i],
    ensures
        data_offset < read_size ==> self.map(p + data_offset) is Mapped && self.map(p + data_offset)->Mapped_0 >= c.len(),
    decreases read_size - data_offset,
@@at loop 0 begin
    proof { d1 = data@; }
@@at let:block_range after
    proof {
        v = *block_range;
        assert(self.block_tree.at(current_offset as int) == Some(v));
    }
@@at let:range_read_count after
    proof {
        let n = range_read_count as int;
        assert forall|i: int| 0 <= i < data_offset + n implies kx_byte_ok(self.map(p + i), c, #[trigger] data@[i]) by {
            if i < data_offset { assert(data@[i] == d1[i]); }
            else {
                assert(in_range(v, p + i));
                assert(self.block_tree.at(p + i) == Some(v));
                assert(self.map(p + i) == range_byte(v, p + i));
            }
        }
        assert forall|i: int| data_offset + n <= i < read_size implies #[trigger] data@[i] == d0[i] by { assert(d1[i] == d0[i]); }
    }
@@fn FatBlockStream::get_size for DataStream
    ensures r is Ok, r->Ok_0 == old(self).size, *final(self) == *old(self),
@@fn FatBlockStream::read for DataStream
    requires old(self).wf(),
    ensures
        final(self).wf(), *final(self) == (FatBlockStream { current_offset: final(self).current_offset, ..*old(self) }),
        r is Ok ==> file_bytes(|o: int| old(self).map(o), old(self).image(), old(self).size as int, old(self).current_offset as int, old(buf)@, r->Ok_0 as int, final(buf)@),
        r is Ok ==> final(self).current_offset == old(self).current_offset + r->Ok_0,
        r is Err ==> final(self).current_offset == old(self).current_offset,
@@fn FatBlockStream::seek for DataStream
    ensures *final(self) == (FatBlockStream { current_offset: final(self).current_offset, ..*old(self) }), seeks(pos, old(self).current_offset as int, old(self).size as int, r, final(self).current_offset as int),
@@endfn
