@@include std.vx
@@include dstream.vx
@@include partition.vx
@@include blocktree.vx proved=c25_tree
@@include filestream.vx
@@mappath min kx_minz
@@raw
fn kx_minz(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
@@file keramics-formats/src/ntfs/block_range.rs
@@item NtfsBlockRangeType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@item NtfsBlockRange
@@raw
impl Clone for NtfsBlockRange {
    fn clone(&self) -> (r: Self) ensures r == *self { NtfsBlockRange { virtual_cluster_offset: self.virtual_cluster_offset, cluster_block_number: self.cluster_block_number, number_of_blocks: self.number_of_blocks, range_type: self.range_type } }
}
@@fn NtfsBlockRange::new
    ensures r == (NtfsBlockRange { virtual_cluster_offset, cluster_block_number, number_of_blocks, range_type }),
@@file keramics-formats/src/ntfs/data_run.rs
@@item NtfsDataRunType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@item NtfsDataRun
@@file keramics-formats/src/ntfs/cluster_group.rs
@@item NtfsClusterGroup
@@raw
#[verifier::external_body]
struct Ucs2String { _p: u8 }
@@file keramics-formats/src/ntfs/mft_attribute.rs
@@item NtfsMftAttribute
@@fn NtfsMftAttribute::is_compressed
    ensures r == (self.data_flags % 256 != 0),
@@at start
    proof { let f = self.data_flags; assert(f & 0x00ff == f % 256) by (bit_vector); }
@@fn NtfsMftAttribute::is_resident
    ensures r == (self.non_resident_flag % 2 == 0),
@@at start
    proof { let f = self.non_resident_flag; assert(f & 0x01 == f % 2) by (bit_vector); }
@@file keramics-formats/src/ntfs/block_stream.rs
@@item NtfsBlockStream
@@raw
// ---- the data runs of all cluster groups, in order ----
#[verifier::opaque]
spec fn all_runs(g: Seq<NtfsClusterGroup>, n: nat) -> Seq<NtfsDataRun>
    decreases n
{
    if n == 0 { Seq::empty() } else { all_runs(g, (n - 1) as nat) + g[n - 1].data_runs@ }
}
proof fn lemma_all_runs(g: Seq<NtfsClusterGroup>, n: nat)
    ensures all_runs(g, n) == if n == 0 { Seq::empty() } else { all_runs(g, (n - 1) as nat) + g[n - 1].data_runs@ }
{ reveal(all_runs); }
// the virtual cluster number of data run i
spec fn vcn(rs: Seq<NtfsDataRun>, i: int) -> int
    decreases i
{
    if i <= 0 { 0 } else { vcn(rs, i - 1) + rs[i - 1].number_of_blocks }
}
spec fn in_run(rs: Seq<NtfsDataRun>, cs: int, i: int, o: int) -> bool { vcn(rs, i) * cs <= o < vcn(rs, i) * cs + rs[i].number_of_blocks * cs }
spec fn run_byte(rs: Seq<NtfsDataRun>, cs: int, i: int, o: int) -> KxByte {
    if rs[i].run_type == NtfsDataRunType::Sparse { KxByte::Zero } else { KxByte::Mapped(rs[i].block_number * cs + o - vcn(rs, i) * cs) }
}
// the block range of a data run
spec fn run_range(rs: Seq<NtfsDataRun>, cs: int, i: int, v: NtfsBlockRange) -> bool {
    &&& v.virtual_cluster_offset == vcn(rs, i) * cs && v.number_of_blocks == rs[i].number_of_blocks
    &&& v.cluster_block_number == rs[i].block_number
    &&& (v.range_type == NtfsBlockRangeType::Sparse) == (rs[i].run_type == NtfsDataRunType::Sparse)
    &&& rs[i].run_type != NtfsDataRunType::EndOfList
}
spec fn runs_at(t: BlockTree<NtfsBlockRange>, rs: Seq<NtfsDataRun>, cs: int, i: int, o: int) -> bool { t.at(o) is Some && run_range(rs, cs, i, t.at(o)->0) }
proof fn lemma_vcn_push(rs: Seq<NtfsDataRun>, x: NtfsDataRun, i: int)
    requires i <= rs.len()
    ensures vcn(rs.push(x), i) == vcn(rs, i)
    decreases i
{
    if i > 0 { lemma_vcn_push(rs, x, i - 1); assert(rs.push(x)[i - 1] == rs[i - 1]); }
}
proof fn lemma_vcn_mono(rs: Seq<NtfsDataRun>, i: int, j: int)
    requires i <= j
    ensures 0 <= vcn(rs, i) <= vcn(rs, j)
    decreases j
{
    if j > 0 { if i < j { lemma_vcn_mono(rs, i, j - 1); } else { lemma_vcn_mono(rs, i - 1, j - 1); } }
}
// the tree holds the runs, and nothing else
#[verifier::opaque]
spec fn runs_mapped(t: BlockTree<NtfsBlockRange>, rs: Seq<NtfsDataRun>, cs: int) -> bool {
    &&& forall|i: int, o: int| 0 <= i < rs.len() && #[trigger] in_run(rs, cs, i, o) ==> runs_at(t, rs, cs, i, o)
    &&& forall|i: int, o: int, q: int| 0 <= i < rs.len() && #[trigger] in_run(rs, cs, i, o) && #[trigger] in_run(rs, cs, i, q) ==> t.at(o) == t.at(q)
    &&& forall|o: int| (#[trigger] t.at(o)) is Some ==> exists|i: int| 0 <= i < rs.len() && #[trigger] in_run(rs, cs, i, o)
    &&& forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).block_number * cs + rs[i].number_of_blocks * cs <= u64::MAX
}
// each cluster group starts where the one before it ends
#[verifier::opaque]
spec fn groups_follow(g: Seq<NtfsClusterGroup>, n: int, rs: Seq<NtfsDataRun>) -> bool {
    forall|k: int| 0 <= k < n ==> (#[trigger] g[k]).first_vcn == vcn(rs, all_runs(g, k as nat).len() as int) && all_runs(g, k as nat).len() <= rs.len()
}
proof fn lemma_mapped_push(t1: BlockTree<NtfsBlockRange>, t2: BlockTree<NtfsBlockRange>, s: Seq<NtfsDataRun>, v: NtfsDataRun, b: NtfsBlockRange, cs: int)
    requires
        cs > 0, runs_mapped(t1, s, cs),
        b.virtual_cluster_offset == vcn(s, s.len() as int) * cs, b.number_of_blocks == v.number_of_blocks, b.cluster_block_number == v.block_number,
        (b.range_type == NtfsBlockRangeType::Sparse) == (v.run_type == NtfsDataRunType::Sparse), v.run_type != NtfsDataRunType::EndOfList,
        forall|o: int| b.virtual_cluster_offset <= o < b.virtual_cluster_offset + v.number_of_blocks * cs ==> #[trigger] t2.at(o) == Some(b),
        forall|o: int| !(b.virtual_cluster_offset <= o < b.virtual_cluster_offset + v.number_of_blocks * cs) ==> #[trigger] t2.at(o) == t1.at(o),
        v.block_number * cs + v.number_of_blocks * cs <= u64::MAX,
    ensures
        runs_mapped(t2, s.push(v), cs), vcn(s.push(v), s.len() as int + 1) == vcn(s, s.len() as int) + v.number_of_blocks,
{
    reveal(runs_mapped);
    let k = s.len() as int; let rs = s.push(v);
    assert forall|i: int| i <= k implies #[trigger] vcn(rs, i) == vcn(s, i) by { lemma_vcn_push(s, v, i); }
    assert(vcn(rs, k + 1) == vcn(rs, k) + rs[k].number_of_blocks);
    let x = vcn(s, k);
    assert forall|i: int, o: int| 0 <= i < k && #[trigger] in_run(rs, cs, i, o) implies in_run(s, cs, i, o) && t1.at(o) == t2.at(o) by {
        assert(rs[i] == s[i]);
        assert(in_run(s, cs, i, o));
        lemma_vcn_mono(s, i + 1, k);
        let y = vcn(s, i); let z = s[i].number_of_blocks as int;
        assert(vcn(s, i + 1) == y + z);
        assert(y * cs + z * cs <= x * cs) by (nonlinear_arith) requires y + z <= x, cs > 0;
    }
    assert forall|i: int, o: int| 0 <= i < rs.len() && #[trigger] in_run(rs, cs, i, o) implies runs_at(t2, rs, cs, i, o) by {
        if i < k { assert(in_run(s, cs, i, o)); assert(runs_at(t1, s, cs, i, o)); assert(rs[i] == s[i]); }
    }
    assert forall|i: int, o: int, q: int| 0 <= i < rs.len() && #[trigger] in_run(rs, cs, i, o) && #[trigger] in_run(rs, cs, i, q) implies t2.at(o) == t2.at(q) by {
        if i < k { assert(in_run(s, cs, i, o) && in_run(s, cs, i, q)); }
    }
    assert forall|o: int| (#[trigger] t2.at(o)) is Some implies exists|i: int| 0 <= i < rs.len() && #[trigger] in_run(rs, cs, i, o) by {
        if x * cs <= o < x * cs + v.number_of_blocks * cs { assert(in_run(rs, cs, k, o)); }
        else {
            assert(t1.at(o) == t2.at(o));
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] in_run(s, cs, i, o);
            assert(rs[i] == s[i]);
            assert(in_run(rs, cs, i, o));
        }
    }
    assert forall|i: int| 0 <= i < rs.len() implies (#[trigger] rs[i]).block_number * cs + rs[i].number_of_blocks * cs <= u64::MAX by { if i < k { assert(rs[i] == s[i]); } }
}
proof fn lemma_follow_push(g: Seq<NtfsClusterGroup>, n: int, s: Seq<NtfsDataRun>, v: NtfsDataRun)
    requires groups_follow(g, n, s)
    ensures groups_follow(g, n, s.push(v))
{
    reveal(groups_follow);
    assert forall|k: int| 0 <= k < n implies (#[trigger] g[k]).first_vcn == vcn(s.push(v), all_runs(g, k as nat).len() as int) && all_runs(g, k as nat).len() <= s.push(v).len() by {
        assert(g[k].first_vcn == vcn(s, all_runs(g, k as nat).len() as int));
        lemma_vcn_push(s, v, all_runs(g, k as nat).len() as int);
    }
}
proof fn lemma_follow(g: Seq<NtfsClusterGroup>, n: int, rs: Seq<NtfsDataRun>)
    requires groups_follow(g, n, rs)
    ensures forall|k: int| 0 <= k < n ==> (#[trigger] g[k]).first_vcn == vcn(rs, all_runs(g, k as nat).len() as int)
{
    reveal(groups_follow);
}
proof fn lemma_none(t: BlockTree<NtfsBlockRange>, g: Seq<NtfsClusterGroup>, cs: int)
    requires t.root_node is None
    ensures runs_mapped(t, Seq::empty(), cs), groups_follow(g, 0, Seq::empty())
{
    reveal(runs_mapped); reveal(groups_follow);
}
proof fn lemma_follow_next(g: Seq<NtfsClusterGroup>, n: int, rs: Seq<NtfsDataRun>)
    requires n > 0, groups_follow(g, n - 1, rs), rs == all_runs(g, (n - 1) as nat), g[n - 1].first_vcn == vcn(rs, rs.len() as int)
    ensures groups_follow(g, n, rs)
{
    reveal(groups_follow);
}
// what the runs say of the whole tree
proof fn lemma_mapped(f: NtfsBlockStream, rs: Seq<NtfsDataRun>, n0: int)
    requires
        runs_mapped(f.block_tree, rs, f.cluster_block_size as int), f.block_tree.wf(), f.cluster_block_size > 0,
        vcn(rs, rs.len() as int) <= n0, f.block_tree.data_size == n0 * f.cluster_block_size,
    ensures
        f.wf(),
        forall|i: int, o: int| 0 <= i < rs.len() && #[trigger] in_run(rs, f.cluster_block_size as int, i, o) ==> f.run_map(o) == run_byte(rs, f.cluster_block_size as int, i, o),
        forall|o: int| !(#[trigger] f.run_map(o) is Missing) ==> 0 <= o < vcn(rs, rs.len() as int) * f.cluster_block_size,
{
    reveal(runs_mapped);
    let cs = f.cluster_block_size as int; let t = f.block_tree;
    let x = vcn(rs, rs.len() as int);
    assert(x * cs <= n0 * cs) by (nonlinear_arith) requires x <= n0, cs > 0;
    assert forall|i: int, o: int| 0 <= i < rs.len() && #[trigger] in_run(rs, cs, i, o) implies runs_at(t, rs, cs, i, o) && 0 <= o < x * cs && vcn(rs, i) * cs + rs[i].number_of_blocks * cs <= x * cs by {
        lemma_vcn_mono(rs, i + 1, rs.len() as int); lemma_vcn_mono(rs, i, i);
        let y = vcn(rs, i); let z = rs[i].number_of_blocks as int;
        assert(vcn(rs, i + 1) == y + z);
        assert(y * cs + z * cs <= x * cs && 0 <= y * cs) by (nonlinear_arith) requires y + z <= x, cs > 0, y >= 0;
    }
    assert forall|o: int| (#[trigger] t.at(o)) is Some implies exists|i: int| 0 <= i < rs.len() && #[trigger] in_run(rs, cs, i, o) by {}
    assert forall|o: int, q: int| (#[trigger] t.at(o)) is Some && #[trigger] in_range(t.at(o)->0, cs, q) implies t.at(q) == t.at(o) by {
        let i = choose|i: int| 0 <= i < rs.len() && #[trigger] in_run(rs, cs, i, o);
        assert(in_run(rs, cs, i, q));
    }
}
spec fn in_range(v: NtfsBlockRange, cs: int, o: int) -> bool { v.virtual_cluster_offset <= o < v.virtual_cluster_offset + v.number_of_blocks * cs }
spec fn range_fits(v: NtfsBlockRange, cs: int, end: int) -> bool {
    v.virtual_cluster_offset + v.number_of_blocks * cs <= end && v.cluster_block_number * cs + v.number_of_blocks * cs <= u64::MAX
}
spec fn range_byte(v: NtfsBlockRange, cs: int, o: int) -> KxByte {
    if v.range_type == NtfsBlockRangeType::Sparse { KxByte::Zero } else { KxByte::Mapped(v.cluster_block_number * cs + o - v.virtual_cluster_offset) }
}
impl NtfsBlockStream {
    spec fn image(self) -> Seq<u8> { if self.data_stream is Some { self.data_stream->0.content() } else { Seq::empty() } }
    spec fn wf(self) -> bool {
        &&& self.block_tree.wf()
        &&& self.cluster_block_size > 0 || self.block_tree.root_node is None
        &&& forall|o: int| (#[trigger] self.block_tree.at(o)) is Some ==> range_fits(self.block_tree.at(o)->0, self.cluster_block_size as int, self.block_tree.data_size as int) && in_range(self.block_tree.at(o)->0, self.cluster_block_size as int, o)
        &&& forall|o: int, q: int| (#[trigger] self.block_tree.at(o)) is Some && #[trigger] in_range(self.block_tree.at(o)->0, self.cluster_block_size as int, q) ==> self.block_tree.at(q) == self.block_tree.at(o)
    }
    spec fn run_map(self, o: int) -> KxByte {
        if 0 <= o < self.block_tree.data_size && self.block_tree.at(o) is Some { range_byte(self.block_tree.at(o)->0, self.cluster_block_size as int, o) } else { KxByte::Missing }
    }
    // past the valid data size the file is zero
    spec fn map(self, o: int) -> KxByte { if o >= self.valid_data_size { KxByte::Zero } else { self.run_map(o) } }
}
@@fn NtfsBlockStream::new
    ensures r.wf(), r.cluster_block_size == cluster_block_size, r.size == 0, r.current_offset == 0, r.data_stream is None, r.block_tree.root_node is None,
@@fn NtfsBlockStream::open
@@attr #[verifier::rlimit(40)]
@@isolate
    ensures
        final(self).cluster_block_size == old(self).cluster_block_size, final(self).current_offset == old(self).current_offset,
        r is Ok ==> final(self).wf() && final(self).data_stream is Some && final(self).data_stream->0.content() == data_stream.content(),
        r is Ok ==> data_attribute.non_resident_flag % 2 != 0,
        r is Ok ==> final(self).size == (if data_attribute.data_flags % 256 != 0 { data_attribute.allocated_data_size } else { data_attribute.data_size }),
        r is Ok ==> final(self).valid_data_size == (if data_attribute.data_flags % 256 != 0 { data_attribute.allocated_data_size } else { data_attribute.valid_data_size }),
        // the runs follow one another, each cluster of a run is mapped to that run, and only those are mapped
        r is Ok && data_attribute.allocated_data_size > 0 ==> {
            let g = data_attribute.data_cluster_groups@;
            let rs = all_runs(g, g.len());
            let cs = old(self).cluster_block_size as int;
            &&& forall|n: int| 0 <= n < g.len() ==> (#[trigger] g[n]).first_vcn == vcn(rs, all_runs(g, n as nat).len() as int)
            &&& forall|i: int, o: int| 0 <= i < rs.len() && #[trigger] in_run(rs, cs, i, o) ==> final(self).run_map(o) == run_byte(rs, cs, i, o)
            &&& forall|o: int| !(#[trigger] final(self).run_map(o) is Missing) ==> 0 <= o < vcn(rs, rs.len() as int) * cs
        },
        r is Ok && data_attribute.allocated_data_size == 0 ==> forall|o: int| #[trigger] final(self).run_map(o) is Missing,
@@at start
    let ghost cs = self.cluster_block_size as int;
    let ghost g = data_attribute.data_cluster_groups@;
    let ghost mut rs: Seq<NtfsDataRun> = Seq::empty();
    let ghost mut r0: Seq<NtfsDataRun> = Seq::empty();
    let ghost mut t1 = self.block_tree;
    let ghost mut n0: int = 0;
    let ghost mut br: NtfsBlockRange = arbitrary();
@@at let:block_tree_size after
    proof { n0 = number_of_cluster_blocks as int; }
@@at loop 0 before
    proof { lemma_none(self.block_tree, g, cs); lemma_all_runs(g, 0); }
@@loop 0
    invariant
        *self == (NtfsBlockStream { block_tree: self.block_tree, ..*old(self) }), cs == self.cluster_block_size, cs > 0, number_of_cluster_blocks == n0, g == data_attribute.data_cluster_groups@,
        self.block_tree.wf(), self.block_tree.leaf_value_size == cs, self.block_tree.data_size == n0 * cs,
        sl0@ == g, rs == all_runs(g, it0 as nat), virtual_cluster_number == vcn(rs, rs.len() as int), virtual_cluster_offset == virtual_cluster_number * cs, virtual_cluster_number <= n0,
        groups_follow(g, it0 as int, rs),
        runs_mapped(self.block_tree, rs, cs),
@@at loop 1 before
    proof { r0 = rs; assert(*cluster_group == g[it0 - 1]); lemma_follow_next(g, it0 as int, rs); assert(r0 + cluster_group.data_runs@.take(0) =~= r0); }
@@loop 1
    invariant
        *self == (NtfsBlockStream { block_tree: self.block_tree, ..*old(self) }), cs == self.cluster_block_size, cs > 0, number_of_cluster_blocks == n0, g == data_attribute.data_cluster_groups@,
        self.block_tree.wf(), self.block_tree.leaf_value_size == cs, self.block_tree.data_size == n0 * cs,
        sl0@ == g, 0 < it0 <= g.len(), *cluster_group == g[it0 - 1], sl1@ == cluster_group.data_runs@, r0 == all_runs(g, (it0 - 1) as nat),
        rs == r0 + cluster_group.data_runs@.take(it1 as int), virtual_cluster_number == vcn(rs, rs.len() as int), virtual_cluster_offset == virtual_cluster_number * cs, virtual_cluster_number <= n0,
        groups_follow(g, it0 as int, rs),
        runs_mapped(self.block_tree, rs, cs),
@@at let:block_range after
    proof { br = block_range; }
@@at let:range_size before
    proof {
        t1 = self.block_tree;
        let x = virtual_cluster_number as int; let y = data_run.number_of_blocks as int; let z = data_run.block_number as int;
        assert(x * cs + y * cs <= n0 * cs && 0 <= x * cs && 0 <= y * cs && 0 <= z * cs) by (nonlinear_arith) requires x + y <= n0, x >= 0, y >= 0, z >= 0, cs > 0;
        assert((z + y) * cs == z * cs + y * cs) by (nonlinear_arith);
        assert((x + y) * cs == x * cs + y * cs) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(x, cs);
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(y, cs);
    }
@@at loop 1 end
    proof {
        let ts = cluster_group.data_runs@;
        assert(ts.take(it1 as int) =~= ts.take(it1 - 1).push(*data_run));
        assert(rs.push(*data_run) =~= r0 + ts.take(it1 as int));
        lemma_mapped_push(t1, self.block_tree, rs, *data_run, br, cs);
        lemma_follow_push(g, it0 as int, rs, *data_run);
        rs = rs.push(*data_run);
    }
@@at loop 1 after
    proof { lemma_all_runs(g, it0 as nat); assert(cluster_group.data_runs@.take(it1 as int) =~= cluster_group.data_runs@); }
@@at tail
    proof {
        if data_attribute.allocated_data_size > 0 { lemma_mapped(*self, rs, n0); lemma_follow(g, g.len() as int, rs); }
    }
@@fn NtfsBlockStream::read_data_from_blocks
    requires old(self).wf(), old(data)@.len() <= kx_left(old(self).size as int, old(self).current_offset as int),
    ensures *final(self) == *old(self), final(data)@.len() == old(data)@.len(),
        r is Ok ==> file_bytes(|o: int| old(self).map(o), old(self).image(), old(self).size as int, old(self).current_offset as int, old(data)@, r->Ok_0 as int, final(data)@),
@@isolate
@@at start
    let ghost p = self.current_offset as int;
    let ghost c = self.image();
    let ghost cs = self.cluster_block_size as int;
    let ghost d0 = data@;
    let ghost mut d1 = data@;
    let ghost mut v: NtfsBlockRange = arbitrary();
@@loop 0
    invariant
        *self == *old(self), self.wf(), p == self.current_offset, c == self.image(), cs == self.cluster_block_size, d0 == old(data)@,
        read_size == d0.len(), data@.len() == read_size, data_offset <= read_size, read_size <= kx_left(self.size as int, p), current_offset == p + data_offset,
        forall|i: int| 0 <= i < data_offset ==> kx_byte_ok(self.map(p + i), c, #[trigger] data@[i]),
        forall|i: int| data_offset <= i < read_size ==> #[trigger] data@[i] == d0[i],
    ensures
        data_offset < read_size ==> self.map(p + data_offset) is Mapped && self.map(p + data_offset)->Mapped_0 >= c.len(),
    decreases read_size - data_offset,
@@at loop 0 begin
    proof { d1 = data@; }
@@at let:block_range after
    proof {
        v = *block_range;
        let y = v.number_of_blocks as int; let z = v.cluster_block_number as int;
        assert(self.block_tree.at(current_offset as int) == Some(v));
        assert(range_fits(v, cs, self.block_tree.data_size as int));
        assert((z + y) * cs == z * cs + y * cs) by (nonlinear_arith);
        assert(0 <= y * cs && 0 <= z * cs) by (nonlinear_arith) requires y >= 0, z >= 0, cs >= 0;
    }
@@at let:read_count after
    proof {
        let n = read_count as int;
        assert forall|i: int| 0 <= i < data_offset + n implies kx_byte_ok(self.map(p + i), c, #[trigger] data@[i]) by {
            if i < data_offset { assert(data@[i] == d1[i]); }
            else if current_offset < self.valid_data_size {
                assert(in_range(v, cs, p + i));
                assert(self.block_tree.at(p + i) == Some(v));
                assert(self.run_map(p + i) == range_byte(v, cs, p + i));
            }
        }
        assert forall|i: int| data_offset + n <= i < read_size implies #[trigger] data@[i] == d0[i] by { assert(d1[i] == d0[i]); }
    }
@@fn NtfsBlockStream::get_size for DataStream
    ensures r is Ok, r->Ok_0 == old(self).size, *final(self) == *old(self),
@@fn NtfsBlockStream::read for DataStream
    requires old(self).wf(),
    ensures
        final(self).wf(), *final(self) == (NtfsBlockStream { current_offset: final(self).current_offset, ..*old(self) }),
        r is Ok ==> file_bytes(|o: int| old(self).map(o), old(self).image(), old(self).size as int, old(self).current_offset as int, old(buf)@, r->Ok_0 as int, final(buf)@),
        r is Ok ==> final(self).current_offset == old(self).current_offset + r->Ok_0,
        r is Err ==> final(self).current_offset == old(self).current_offset,
@@fn NtfsBlockStream::seek for DataStream
    ensures *final(self) == (NtfsBlockStream { current_offset: final(self).current_offset, ..*old(self) }), seeks(pos, old(self).current_offset as int, old(self).size as int, r, final(self).current_offset as int),
@@endfn
