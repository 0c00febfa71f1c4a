@@include std.vx
@@include dstream.vx
@@include partition.vx
@@include sliceeq.vx
@@include blocktree.vx proved=c25_tree
@@include diskimage.vx
@@file keramics-formats/src/sparseimage/constants.rs
@@item SPARSEIMAGE_FILE_HEADER_SIGNATURE
@@file keramics-formats/src/sparseimage/block_range.rs
@@item SparseImageBlockRange
@@raw
impl Clone for SparseImageBlockRange {
    fn clone(&self) -> (r: Self) ensures r == *self { SparseImageBlockRange { data_offset: self.data_offset } }
}
@@fn SparseImageBlockRange::new
    ensures r.data_offset == data_offset,
@@file keramics-formats/src/sparseimage/file_header.rs
@@item SparseImageFileHeader
@@raw
spec fn header_ok(s: Seq<u8>) -> bool { s.len() == 64 && s.subrange(0, 4) == seq![0x73u8, 0x70u8, 0x72u8, 0x73u8] && be32(s, 8) > 0 }
@@fn SparseImageFileHeader::new
@@fn SparseImageFileHeader::read_data
    ensures r is Ok <==> header_ok(data@), r is Ok ==> final(self).sectors_per_band == be32(data@, 8) && final(self).number_of_sectors == be32(data@, 16),
@@at start
proof { assert(SPARSEIMAGE_FILE_HEADER_SIGNATURE@ =~= seq![0x73u8, 0x70u8, 0x72u8, 0x73u8]); }
@@file keramics-formats/src/sparseimage/file.rs
@@item SparseImageFile
@@raw
spec fn bands(n: int, spb: int) -> int { if n % spb == 0 { n / spb } else { n / spb + 1 } }
// entry i of the band array holds 1 + the number of the band of the disk that is the i-th in the file
spec fn holds(d: Seq<u8>, i: int, band: int) -> bool { be32(d, 64 + 4 * i) == band + 1 }
// b is where byte o of the disk is, by the n entries of the band array
spec fn band_is(d: Seq<u8>, n: int, bs: int, o: int, b: DByte) -> bool {
    &&& forall|i: int| 0 <= i < n && #[trigger] holds(d, i, o / bs) ==> b == DByte::Mapped(4096 + i * bs + o % bs)
    &&& (forall|i: int| 0 <= i < n ==> !#[trigger] holds(d, i, o / bs)) ==> b == DByte::Zero
}
spec fn at_band(v: Option<SparseImageBlockRange>, i: int, bs: int) -> bool { v is Some && v->0.data_offset == 4096 + i * bs }
proof fn lemma_512(x: int)
    ensures x * 512 == 512 * x,
{}
proof fn lemma_mul512(b: int, spb: int)
    ensures (b * (spb * 512)) % 512 == 0, (spb * 512) % 512 == 0,
{
    assert(b * (spb * 512) == (b * spb) * 512) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(b * spb, 512);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(spb, 512);
}
proof fn lemma_bands(n: int, spb: int)
    requires n >= 0, spb > 0,
    ensures n <= bands(n, spb) * spb, bands(n, spb) >= 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, spb);
    assert((n / spb + 1) * spb == spb * (n / spb) + spb) by (nonlinear_arith);
    assert(spb * (n / spb) == (n / spb) * spb) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, spb);
}
proof fn lemma_in_band(b: int, bs: int)
    requires bs > 0,
    ensures forall|o: int| #![trigger o / bs] b * bs <= o < b * bs + bs <==> o / bs == b,
{
    assert forall|o: int| #![trigger o / bs] b * bs <= o < b * bs + bs <==> o / bs == b by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(o, bs);
        assert(bs * (o / bs) == (o / bs) * bs) by (nonlinear_arith);
        if b * bs <= o < b * bs + bs { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(o, bs, b, o - b * bs); }
    }
}
// the band array names each band of the disk at most once
spec fn array_ok(d: Seq<u8>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> #[trigger] be32(d, 64 + 4 * i) <= n
    &&& forall|i: int, j: int| 0 <= i < j < n && #[trigger] be32(d, 64 + 4 * i) == #[trigger] be32(d, 64 + 4 * j) ==> be32(d, 64 + 4 * i) == 0
}
spec fn image_ok(d: Seq<u8>) -> bool {
    &&& 4096 <= d.len() && header_ok(d.take(64)) && bands(be32(d, 16) as int, be32(d, 8) as int) <= 1008 && be32(d, 8) * 512 <= u32::MAX
    &&& array_ok(d, bands(be32(d, 16) as int, be32(d, 8) as int))
}
impl SparseImageFile {
    spec fn image(self) -> Seq<u8> { if self.data_stream is Some { self.data_stream->0.content() } else { Seq::empty() } }
    spec fn map(self, o: int) -> DByte {
        if self.block_tree.at(o) is Some { DByte::Mapped(self.block_tree.at(o)->0.data_offset + o % (self.block_size as int)) } else { DByte::Zero }
    }
    // what the header of an opened image says
    spec fn reads(self, d: Seq<u8>) -> bool {
        let n = bands(be32(d, 16) as int, be32(d, 8) as int);
        &&& 4096 <= d.len() && header_ok(d.take(64)) && n <= 1008
        &&& self.bytes_per_sector == 512 && self.block_size == be32(d, 8) * 512 && self.media_size == be32(d, 16) * 512
        &&& forall|o: int| #![trigger self.block_tree.at(o)] 0 <= o < self.media_size ==> band_is(d, n, self.block_size as int, o, self.map(o))
    }
    spec fn wf(self) -> bool {
        &&& self.block_tree.wf() && self.block_size > 0 && self.media_size <= self.block_tree.data_size
        &&& forall|o: int| (#[trigger] self.block_tree.at(o)) is Some ==> self.block_tree.at(o)->0.data_offset + self.block_size <= u64::MAX
        // a band is mapped as a whole
        &&& forall|o: int, q: int| 0 <= o && 0 <= q && o / (self.block_size as int) == q / (self.block_size as int) ==> #[trigger] self.block_tree.at(o) == #[trigger] self.block_tree.at(q)
    }
}
@@fn SparseImageFile::new
    ensures r.data_stream is None, r.media_size == 0, r.media_offset == 0,
@@fn SparseImageFile::read_header_block
    ensures
        final(self).data_stream == old(self).data_stream, final(self).media_offset == old(self).media_offset,
        r is Ok ==> final(self).wf() && final(self).reads(data_stream.content()),
        data_stream.sound() && image_ok(data_stream.content()) ==> r is Ok,
@@at start
    let ghost c = data_stream.content();
    let ghost mut t1 = self.block_tree;
    let ghost mut bs: int = 0;
    let ghost mut nb: int = 0;
@@at let:file_header before
    proof {
        assert(data@ =~= c.take(4096));
        assert(data@.subrange(0, 64) =~= c.take(64));
    }
@@at assign:self.block_size before
    proof {
        assert(c.take(64).subrange(8, 12) =~= c.subrange(8, 12));
        assert(c.take(64).subrange(16, 20) =~= c.subrange(16, 20));
        lemma_512(file_header.sectors_per_band as int);
        lemma_512(file_header.number_of_sectors as int);
        assert(self.bytes_per_sector == 512);
    }
@@at let:block_tree_size before
    proof {
        nb = number_of_bands as int; bs = self.block_size as int;
        let (ns, spb) = (file_header.number_of_sectors as int, file_header.sectors_per_band as int);
        lemma_bands(ns, spb);
        assert(nb == bands(ns, spb));
        assert(0 <= nb * bs <= 1008 * bs) by (nonlinear_arith) requires 0 <= nb <= 1008, bs >= 0;
        assert(ns * 512 <= nb * bs) by (nonlinear_arith) requires ns <= nb * spb, bs == spb * 512;
    }
@@loop 0
    invariant
        *self == (SparseImageFile { block_tree: self.block_tree, bytes_per_sector: 512, block_size: self.block_size, media_size: self.media_size, ..*old(self) }),
        self.block_tree.wf(), self.block_tree.data_size == nb * bs, self.block_tree.leaf_value_size == 512,
        data_offset == 64 + 4 * it0,
        forall|i: int, o: int| 0 <= i < it0 && 0 <= o && #[trigger] holds(c, i, o / bs) ==> at_band(#[trigger] self.block_tree.at(o), i, bs),
        forall|o: int| (#[trigger] self.block_tree.at(o)) is Some ==> 0 <= o && exists|i: int| 0 <= i < it0 && #[trigger] holds(c, i, o / bs),
@@at loop 0 begin
    proof { t1 = self.block_tree; }
@@at let:band_number after
    proof {
        let i = it0 - 1;
        assert(data@.subrange(data_offset as int, data_offset + 4) =~= c.subrange(64 + 4 * i, 64 + 4 * i + 4));
        assert(band_number == be32(c, 64 + 4 * i));
        let bn = band_number as int - 1;
        assert(0 <= i * bs <= 1008 * bs) by (nonlinear_arith) requires 0 <= i <= 1008, bs >= 0;
        if bn >= 0 { assert(0 <= bn * bs <= 0xffffffff * 0xffffffff) by (nonlinear_arith) requires 0 <= bn <= 0xffffffff, 0 <= bs <= 0xffffffff; }
        assert(holds(c, i, bn));
        assert forall|o: int| 0 <= o && #[trigger] holds(c, i, o / bs) implies o / bs == bn by { }
        lemma_in_band(bn, bs);
    }
@@at let:block_range after
    proof {
        let i = it0 - 1; let bn = band_number as int - 1;
        lemma_mul512(bn, file_header.sectors_per_band as int);
        assert(block_media_offset == bn * bs);
        if image_ok(c) {
            assert(be32(c, 64 + 4 * i) <= nb);
            assert(bn * bs + bs <= nb * bs) by (nonlinear_arith) requires bn + 1 <= nb, bs >= 0;
            assert forall|o: int| bn * bs <= o < bn * bs + bs implies (#[trigger] self.block_tree.at(o)) is None by {
                if self.block_tree.at(o) is Some {
                    let k = choose|k: int| 0 <= k < i && #[trigger] holds(c, k, o / bs);
                    assert(holds(c, k, o / bs) && o / bs == bn);
                    assert(be32(c, 64 + 4 * k) == be32(c, 64 + 4 * i));
                }
            }
        }
    }
@@at loop 0 end
    proof {
        let i = it0 - 1; let bn = band_number as int - 1;
        assert forall|k: int, o: int| 0 <= k < it0 && 0 <= o && #[trigger] holds(c, k, o / bs) implies at_band(#[trigger] self.block_tree.at(o), k, bs) by {
            if k < i { assert(at_band(t1.at(o), k, bs)); }
            else { assert(o / bs == bn); assert(bn * bs <= o < bn * bs + bs); }
        }
        assert forall|o: int| (#[trigger] self.block_tree.at(o)) is Some implies 0 <= o && exists|k: int| 0 <= k < it0 && #[trigger] holds(c, k, o / bs) by {
            if bn * bs <= o < bn * bs + bs { assert(o / bs == bn); assert(holds(c, i, o / bs)); }
            else { assert(t1.at(o) is Some); }
        }
    }
@@at tail
    proof {
        assert forall|o: int| #![trigger self.block_tree.at(o)] 0 <= o < self.media_size implies band_is(c, nb, bs, o, self.map(o)) by {
            assert forall|i: int| 0 <= i < nb && #[trigger] holds(c, i, o / bs) implies self.map(o) == DByte::Mapped(4096 + i * bs + o % bs) by {
                assert(at_band(self.block_tree.at(o), i, bs));
            }
        }
        assert forall|o: int, q: int| 0 <= o && 0 <= q && o / bs == q / bs implies #[trigger] self.block_tree.at(o) == #[trigger] self.block_tree.at(q) by {
            if self.block_tree.at(o) is Some {
                let i = choose|i: int| 0 <= i < nb && #[trigger] holds(c, i, o / bs);
                assert(holds(c, i, q / bs));
                assert(at_band(self.block_tree.at(o), i, bs) && at_band(self.block_tree.at(q), i, bs));
            } else if self.block_tree.at(q) is Some {
                let i = choose|i: int| 0 <= i < nb && #[trigger] holds(c, i, q / bs);
                assert(holds(c, i, o / bs));
                assert(at_band(self.block_tree.at(o), i, bs));
            }
        }
        assert forall|o: int| (#[trigger] self.block_tree.at(o)) is Some implies self.block_tree.at(o)->0.data_offset + bs <= u64::MAX by {
            let i = choose|i: int| 0 <= i < nb && #[trigger] holds(c, i, o / bs);
            assert(holds(c, i, o / bs));
            assert(at_band(self.block_tree.at(o), i, bs));
            assert(0 <= i * bs <= 1008 * bs) by (nonlinear_arith) requires 0 <= i <= 1008, bs >= 0;
        }
    }
@@fn SparseImageFile::read_data_stream
    ensures
        final(self).media_offset == old(self).media_offset,
        r is Ok ==> final(self).wf() && final(self).data_stream is Some && final(self).image() == data_stream.content() && final(self).data_stream->0.sound() == data_stream.sound() && final(self).reads(data_stream.content()),
        data_stream.sound() && image_ok(data_stream.content()) ==> r is Ok,
        r is Err ==> final(self).data_stream == old(self).data_stream,
@@fn SparseImageFile::read_data_from_bands
    requires old(self).wf(), old(data)@.len() <= kx_left(old(self).media_size as int, old(self).media_offset as int),
    ensures *final(self) == *old(self), final(data)@.len() == old(data)@.len(),
        r is Ok ==> disk_bytes(true, |o: int| old(self).map(o), old(self).image(), Seq::empty(), old(self).media_size as int, old(self).media_offset as int, old(data)@, r->Ok_0 as int, final(data)@),
        old(self).data_stream is Some && old(self).data_stream->0.sound() ==> r is Ok,
@@isolate
@@at start
    let ghost p = self.media_offset as int;
    let ghost c = self.image();
    let ghost bs = self.block_size as int;
    let ghost d0 = data@;
    let ghost mut d1 = data@;
@@loop 0
    invariant
        *self == *old(self), self.wf(), p == self.media_offset, c == self.image(), bs == self.block_size, d0 == old(data)@,
        read_size == d0.len(), data@.len() == read_size, data_offset <= read_size, read_size <= kx_left(self.media_size as int, p), media_offset == p + data_offset,
        forall|i: int| 0 <= i < data_offset ==> disk_byte_ok(self.map(p + i), c, Seq::empty(), p + i, #[trigger] data@[i]),
        forall|i: int| data_offset <= i < read_size ==> #[trigger] data@[i] == d0[i],
    ensures
        data_offset < read_size ==> disk_byte_out(self.map(p + data_offset), c, Seq::empty(), p + data_offset),
    decreases read_size - data_offset,
@@at loop 0 begin
    proof { d1 = data@; }
@@at let:range_read_count after
    proof {
        let n = range_read_count as int;
        assert forall|i: int| 0 <= i < data_offset + n implies disk_byte_ok(self.map(p + i), c, Seq::empty(), p + i, #[trigger] data@[i]) by {
            if i < data_offset { assert(data@[i] == d1[i]); }
            else { lemma_band(media_offset as int, i - data_offset, bs); }
        }
        assert forall|i: int| data_offset + n <= i < read_size implies #[trigger] data@[i] == d0[i] by { assert(d1[i] == d0[i]); }
    }
@@fn SparseImageFile::get_size for DataStream
    ensures r is Ok, r->Ok_0 == old(self).media_size, *final(self) == *old(self),
@@fn SparseImageFile::read for DataStream
    requires old(self).wf(),
    ensures
        final(self).wf(), *final(self) == (SparseImageFile { media_offset: final(self).media_offset, ..*old(self) }),
        r is Ok ==> disk_bytes(true, |o: int| old(self).map(o), old(self).image(), Seq::empty(), old(self).media_size as int, old(self).media_offset as int, old(buf)@, r->Ok_0 as int, final(buf)@),
        r is Ok ==> final(self).media_offset == old(self).media_offset + r->Ok_0,
        r is Err ==> final(self).media_offset == old(self).media_offset,
        old(self).data_stream is Some && old(self).data_stream->0.sound() ==> r is Ok,
@@fn SparseImageFile::seek for DataStream
    ensures *final(self) == (SparseImageFile { media_offset: final(self).media_offset, ..*old(self) }), seeks(pos, old(self).media_offset as int, old(self).media_size as int, r, final(self).media_offset as int),
@@endfn
@@raw
// the k bytes from o on, up to the end of its band, are in that band
proof fn lemma_band(o: int, k: int, bs: int)
    requires 0 <= o, 0 < bs, 0 <= k < bs - o % bs,
    ensures (o + k) / bs == o / bs, (o + k) % bs == o % bs + k,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(o, bs);
    vstd::arithmetic::div_mod::lemma_mod_bound(o, bs);
    assert(bs * (o / bs) == (o / bs) * bs) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(o + k, bs, o / bs, o % bs + k);
}
