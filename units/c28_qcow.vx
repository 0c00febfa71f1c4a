@@include std.vx
@@include dstream.vx
@@include partition.vx
@@include sliceeq.vx
@@include bstr.vx
@@include blocktree.vx proved=c25_tree
@@include diskimage.vx
@@include rwlock.vx
@@raw
use vstd::arithmetic::power2::*;
use vstd::bits::*;
use vstd::arithmetic::div_mod::*;
@@file keramics-formats/src/qcow/constants.rs
@@item QCOW_FILE_HEADER_SIGNATURE
@@file keramics-formats/src/qcow/enums.rs
@@item QcowCompressionMethod #[derive(PartialEq, Eq, Structural)]
@@item QcowEncryptionMethod #[derive(PartialEq, Eq, Structural)]
@@file keramics-formats/src/qcow/file_header.rs
@@item QcowFileHeader
@@raw
// ---- the header: 112 bytes, of which version 1 uses 48, version 2 72 and version 3 104 or all ----
spec fn ver(s: Seq<u8>) -> u32 { be32(s, 4) }
spec fn cluster_bits(s: Seq<u8>) -> int { if ver(s) == 1 { s[32] as int } else { be32(s, 20) as int } }
spec fn table_bits(s: Seq<u8>) -> int { if ver(s) == 1 { s[33] as int } else { cluster_bits(s) - 3 } }
spec fn media(s: Seq<u8>) -> int { be64(s, 24) as int }
spec fn method(s: Seq<u8>) -> u32 { if ver(s) == 1 { be32(s, 36) } else { be32(s, 32) } }
spec fn size_of_header(s: Seq<u8>) -> int { if ver(s) == 1 { 48 } else if ver(s) == 2 { 72 } else { be32(s, 100) as int } }
spec fn header_ok(s: Seq<u8>) -> bool {
    &&& s.len() == 112 && s.subrange(0, 4) == seq![0x51u8, 0x46u8, 0x49u8, 0xfbu8] && 1 <= ver(s) <= 3
    &&& ver(s) == 1 ==> cluster_bits(s) <= 63 && table_bits(s) <= 63
    &&& ver(s) > 1 ==> 8 < cluster_bits(s) <= 62
    // no features but the dirty bit and lazy reference counts
    &&& ver(s) == 3 ==> be64(s, 72) <= 1 && be64(s, 80) <= 1 && (size_of_header(s) == 104 || size_of_header(s) == 112)
}
spec fn header_is(h: QcowFileHeader, s: Seq<u8>) -> bool {
    &&& h.format_version == ver(s) && h.header_size == size_of_header(s) && h.number_of_cluster_block_bits == cluster_bits(s) && h.number_of_level2_table_bits == table_bits(s)
    &&& h.media_size == media(s) && h.encryption_method == method(s) && h.level1_table_offset == be64(s, 40)
    &&& h.level1_table_number_of_references == (if ver(s) == 1 { 0 } else { be32(s, 36) })
    &&& h.compression_method == (if ver(s) == 3 && size_of_header(s) == 112 { s[104] } else { 0 })
    &&& h.backing_file_name_offset == be64(s, 8) && h.backing_file_name_size == be32(s, 16)
}
spec fn fields_of(h: QcowFileHeader, s: Seq<u8>, o: QcowFileHeader) -> bool {
    &&& h == (QcowFileHeader { media_size: h.media_size, number_of_cluster_block_bits: h.number_of_cluster_block_bits, number_of_level2_table_bits: h.number_of_level2_table_bits, encryption_method: h.encryption_method,
        level1_table_offset: h.level1_table_offset, level1_table_number_of_references: h.level1_table_number_of_references, backing_file_name_offset: h.backing_file_name_offset, backing_file_name_size: h.backing_file_name_size,
        number_of_snapshots: h.number_of_snapshots, snapshots_offset: h.snapshots_offset, header_size: h.header_size, compression_method: h.compression_method, ..o })
    &&& h.number_of_cluster_block_bits == cluster_bits(s) && h.number_of_level2_table_bits == (if ver(s) == 1 { table_bits(s) } else { o.number_of_level2_table_bits as int })
    &&& h.media_size == media(s) && h.encryption_method == method(s) && h.level1_table_offset == be64(s, 40)
    &&& h.level1_table_number_of_references == (if ver(s) == 1 { o.level1_table_number_of_references } else { be32(s, 36) })
    &&& h.backing_file_name_offset == be64(s, 8) && h.backing_file_name_size == be32(s, 16)
    &&& h.header_size == (if ver(s) == 3 { be32(s, 100) } else { o.header_size })
    &&& h.compression_method == (if ver(s) == 3 && be32(s, 100) == 112 { s[104] } else { o.compression_method })
}
proof fn lemma_version(d: Seq<u8>, v: u8)
    requires d.len() >= 8,
    ensures (d.subrange(4, 8) == seq![0u8, 0u8, 0u8, v]) == (ver(d) == v),
{
    let s = d.subrange(4, 8);
    let (a, b, c, e) = (s[0], s[1], s[2], s[3]);
    assert((((e as u32) | ((c as u32) << 8u32) | ((b as u32) << 16u32) | ((a as u32) << 24u32)) == v as u32) == (a == 0 && b == 0 && c == 0 && e == v)) by (bit_vector);
    if s == seq![0u8, 0u8, 0u8, v] { assert(s[0] == 0 && s[1] == 0 && s[2] == 0 && s[3] == v); }
    else if a == 0 && b == 0 && c == 0 && e == v { assert(s =~= seq![0u8, 0u8, 0u8, v]); }
}
proof fn lemma_flags(x: u64) ensures (x & !1u64 == 0) == (x <= 1) { assert((x & !1u64 == 0) == (x <= 1)) by (bit_vector); }
@@fn QcowFileHeader::new
    ensures r.compression_method == 0, r.level1_table_number_of_references == 0,
@@file keramics-formats/src/qcow/file_header_v1.rs
@@item QcowFileHeaderV1
@@fn QcowFileHeaderV1::read_data
    requires data@.len() == 112,
    ensures r is Ok <==> ver(data@) == 1 && header_ok(data@), r is Ok ==> fields_of(*final(file_header), data@, *old(file_header)),
@@at start
proof { assert(QCOW_FILE_HEADER_SIGNATURE@ =~= seq![0x51u8, 0x46u8, 0x49u8, 0xfbu8]); lemma_version(data@, 1); }
@@file keramics-formats/src/qcow/file_header_v2.rs
@@item QcowFileHeaderV2
@@fn QcowFileHeaderV2::read_data
    requires data@.len() == 112,
    ensures r is Ok <==> ver(data@) == 2 && header_ok(data@), r is Ok ==> fields_of(*final(file_header), data@, *old(file_header)),
@@at start
proof { assert(QCOW_FILE_HEADER_SIGNATURE@ =~= seq![0x51u8, 0x46u8, 0x49u8, 0xfbu8]); lemma_version(data@, 2); }
@@file keramics-formats/src/qcow/file_header_v3.rs
@@item QcowFileHeaderV3
@@fn QcowFileHeaderV3::read_data
    requires data@.len() == 112,
    ensures r is Ok <==> ver(data@) == 3 && header_ok(data@), r is Ok ==> fields_of(*final(file_header), data@, *old(file_header)),
@@at start
proof { assert(QCOW_FILE_HEADER_SIGNATURE@ =~= seq![0x51u8, 0x46u8, 0x49u8, 0xfbu8]); lemma_version(data@, 3); lemma_flags(be64(data@, 72)); lemma_flags(be64(data@, 80)); }
@@file keramics-formats/src/qcow/file_header.rs
@@fn QcowFileHeader::read_at_position
    requires old(self).compression_method == 0, old(self).level1_table_number_of_references == 0,
    ensures
        ({
            let d = data_stream.content();
            &&& r is Ok ==> 112 <= d.len() && header_ok(d.take(112)) && header_is(*final(self), d.take(112))
            &&& data_stream.sound() && 112 <= d.len() && header_ok(d.take(112)) ==> r is Ok
        }),
@@at let:offset after
proof {
    assert(data@ =~= data_stream.content().take(112));
    assert(QCOW_FILE_HEADER_SIGNATURE@ =~= seq![0x51u8, 0x46u8, 0x49u8, 0xfbu8]);
}
@@file keramics-formats/src/qcow/cluster_table.rs
@@item QcowClusterTableEntry
@@item QcowClusterTable
@@fn QcowClusterTableEntry::new
@@fn QcowClusterTableEntry::read_data
    ensures r is Ok <==> data@.len() == 8, r is Ok ==> final(self).reference == be64(data@, 0),
@@fn QcowClusterTable::new
@@fn QcowClusterTable::set_range
    ensures final(self).offset == offset, final(self).number_of_entries == number_of_entries,
@@fn QcowClusterTable::read_entry
    ensures
        r is Ok ==> entry_index < self.number_of_entries && self.offset + 8 * entry_index + 8 <= data_stream.content().len() && r->Ok_0.reference == entry_at(data_stream.content(), self.offset as int, entry_index as int),
        data_stream.sound() && entry_index < self.number_of_entries && self.offset + 8 * entry_index + 8 <= data_stream.content().len() <= u64::MAX ==> r is Ok,
@@at let:entry before
proof {
    let c = data_stream.content();
    assert(data@ =~= c.subrange(entry_offset as int, entry_offset + 8));
    assert(data@.subrange(0, 8) =~= data@);
}
@@raw
spec fn entry_at(c: Seq<u8>, offset: int, i: int) -> u64 { be64(c, offset + 8 * i) }
@@file keramics-formats/src/qcow/block_range.rs
@@item QcowBlockRangeType #[derive(PartialEq, Eq, Structural)]
@@item QcowBlockRange
@@fn QcowBlockRange::new
    ensures r == (QcowBlockRange { media_offset, data_offset, size, range_type }),
@@file keramics-formats/src/qcow/file.rs
@@item QcowFile
@@raw
// ---- where the bytes are: the tables' geometry; whether there is a backing file ----
ghost struct Geo { offset: int, count: int, cb: int, tb: int, version: int, backed: bool }
spec fn p2(n: int) -> int { pow2(n as nat) as int }
impl Geo {
    spec fn cs(self) -> int { p2(self.cb) }
    spec fn refs(self) -> int { p2(self.tb) }
    // the bytes that one level 1 entry covers
    spec fn span(self) -> int { p2(self.cb + self.tb) }
    spec fn ok(self) -> bool { 0 <= self.cb && 0 <= self.tb && self.cb + self.tb <= 63 && (self.version != 1 ==> self.cb <= 62) }
    spec fn place(self, e: u64) -> u64 { if self.version == 1 { e & 0x7fff_ffff_ffff_ffff } else { e & 0x3fff_ffff_ffff_ffff } }
    spec fn flagged(self, e: u64) -> bool { if self.version == 1 { e & 0x8000_0000_0000_0000 != 0 } else { e & 0x4000_0000_0000_0000 != 0 } }
    spec fn e1(self, c: Seq<u8>, o: int) -> u64 { entry_at(c, self.offset, o / self.span()) }
    // no level 2 table
    spec fn hole(self, c: Seq<u8>, o: int) -> bool { self.place(self.e1(c, o)) == 0 }
    spec fn e2(self, c: Seq<u8>, o: int) -> u64 { entry_at(c, self.place(self.e1(c, o)) as int, (o / self.cs()) % self.refs()) }
    // byte o of the disk; Missing: compressed
    #[verifier::opaque]
    spec fn byte(self, c: Seq<u8>, o: int) -> DByte {
        let e = self.e2(c, o);
        let absent = if self.backed { DByte::Parent } else { DByte::Zero };
        if self.hole(c, o) { absent }
        else if self.version == 3 && !self.flagged(e) && e & 1 != 0 { DByte::Zero }
        else if self.place(e) == 0 { absent }
        else if self.flagged(e) { DByte::Missing }
        else { DByte::Mapped(self.place(e) + o % self.cs()) }
    }
    // bytes that are looked up together
    spec fn unit(self, c: Seq<u8>, o: int, q: int) -> bool { o / self.span() == q / self.span() && (self.hole(c, o) || o / self.cs() == q / self.cs()) }
    // the entries for byte o are in the image
    #[verifier::opaque]
    spec fn present(self, c: Seq<u8>, o: int) -> bool {
        &&& o / self.span() < self.count && self.offset + 8 * (o / self.span()) + 8 <= c.len() <= u64::MAX
        &&& !self.hole(c, o) ==> self.place(self.e1(c, o)) + 8 * ((o / self.cs()) % self.refs()) + 8 <= c.len()
    }
}
spec fn in_range(v: QcowBlockRange, o: int) -> bool { v.media_offset <= o < v.media_offset + v.size }
spec fn range_byte(v: QcowBlockRange, o: int) -> DByte {
    match v.range_type {
        QcowBlockRangeType::InFile => DByte::Mapped(v.data_offset + o - v.media_offset),
        QcowBlockRangeType::InBackingFile => DByte::Parent,
        QcowBlockRangeType::Sparse => DByte::Zero,
        QcowBlockRangeType::Compressed => DByte::Missing,
    }
}
spec fn agrees(v: QcowBlockRange, c: Seq<u8>, g: Geo, end: int) -> bool {
    &&& v.media_offset + v.size <= end && v.data_offset + v.size <= u64::MAX
    &&& v.range_type is InBackingFile ==> g.backed
    &&& forall|q: int| in_range(v, q) ==> range_byte(v, q) == #[trigger] g.byte(c, q)
}
#[verifier::opaque]
spec fn tree_ok(t: BlockTree<QcowBlockRange>, c: Seq<u8>, g: Geo) -> bool {
    &&& t.wf()
    &&& forall|o: int| (#[trigger] t.at(o)) is Some ==> 0 <= o && in_range(t.at(o)->0, o) && agrees(t.at(o)->0, c, g, t.data_size as int)
    &&& forall|o: int, q: int| 0 <= o && 0 <= q < t.data_size && g.unit(c, o, q) && (#[trigger] t.at(o)) is Some ==> (#[trigger] t.at(q)) is Some
}
proof fn lemma_tree(t: BlockTree<QcowBlockRange>, c: Seq<u8>, g: Geo, m: int)
    requires tree_ok(t, c, g),
    ensures t.wf(), t.at(m) is Some ==> in_range(t.at(m)->0, m) && agrees(t.at(m)->0, c, g, t.data_size as int),
{
    reveal(tree_ok);
}
proof fn lemma_free(t: BlockTree<QcowBlockRange>, c: Seq<u8>, g: Geo, m: int)
    requires tree_ok(t, c, g), 0 <= m < t.data_size, t.at(m) is None,
    ensures forall|o: int| 0 <= o && g.unit(c, m, o) ==> (#[trigger] t.at(o)) is None,
{
    reveal(tree_ok);
    assert forall|o: int| 0 <= o && g.unit(c, m, o) implies (#[trigger] t.at(o)) is None by {
        if t.at(o) is Some { assert(g.unit(c, o, m)); assert(t.at(m) is Some); }
    }
}
impl QcowFile {
    spec fn image(self) -> Seq<u8> { if self.data_stream is Some { self.data_stream->0.content() } else { Seq::empty() } }
    spec fn parent(self) -> Seq<u8> { if self.backing_file is Some { self.backing_file->0.content() } else { Seq::empty() } }
    spec fn geo(self) -> Geo {
        Geo { offset: self.level1_cluster_table.offset as int, count: self.level1_cluster_table.number_of_entries as int, cb: self.number_of_cluster_block_bits as int,
            tb: self.level1_index_bit_shift - self.number_of_cluster_block_bits, version: self.format_version as int, backed: self.backing_file_name is Some }
    }
    // byte o of the disk: a byte after the end of the backing file is zero
    spec fn map(self, o: int) -> DByte {
        let b = self.geo().byte(self.image(), o);
        if b is Parent && self.backing_file is Some && o >= self.backing_file->0.value().media_size { DByte::Zero } else { b }
    }
    spec fn wf(self) -> bool {
        let g = self.geo();
        &&& self.data_stream is Some && g.ok() && self.encryption_method == QcowEncryptionMethod::None
        &&& self.cluster_block_size == g.cs() && self.level2_table_number_of_references == g.refs() && self.level2_index_bit_mask == low_bits_mask(g.tb as nat)
        &&& self.offset_bit_mask == (if g.version == 1 { 0x7fff_ffff_ffff_ffffu64 } else { 0x3fff_ffff_ffff_ffff })
        &&& self.compression_flag_bit_mask == (if g.version == 1 { 0x8000_0000_0000_0000u64 } else { 0x4000_0000_0000_0000 })
        &&& self.block_tree.data_size == tree_size(self.media_size as int, g.cs()) && self.block_tree.leaf_value_size == g.cs() && self.block_tree.wf()
        &&& tree_ok(self.block_tree, self.image(), g)
    }
    // what may change when the disk is read
    spec fn same(self, o: Self) -> bool {
        &&& self == (QcowFile { block_tree: self.block_tree, media_offset: self.media_offset, level2_cluster_table: self.level2_cluster_table, ..o })
        &&& self.block_tree.sizes(o.block_tree)
    }
    // streams that do not fail, a backing file where one is needed, tables that are all there and nothing compressed
    spec fn complete(self) -> bool {
        &&& self.data_stream is Some && self.data_stream->0.sound()
        &&& self.backing_file_name is Some ==> self.backing_file is Some && self.backing_file->0.sound()
        &&& forall|o: int| 0 <= o < self.media_size ==> #[trigger] self.geo().present(self.image(), o) && !(self.geo().byte(self.image(), o) is Missing)
    }
}
// the size in whole clusters
spec fn clusters(media: int, size: int) -> int { if media % size == 0 { media / size } else { media / size + 1 } }
spec fn tree_size(media: int, cs: int) -> int { clusters(media, cs) * cs }
proof fn lemma_p2(n: int)
    requires 0 <= n <= 63,
    ensures 0 < p2(n) <= 0x8000_0000_0000_0000, (1u64 << (n as u64)) == p2(n), (1u64 << (n as u32)) == p2(n), !(u64::MAX << (n as u64)) == low_bits_mask(n as nat), !(u64::MAX << (n as u32)) == low_bits_mask(n as nat),
{
    lemma2_to64_rest();
    lemma_pow2_pos(n as nat);
    if n < 63 { lemma_pow2_strictly_increases(n as nat, 63); }
    let k = n as u64;
    lemma_u64_shl_is_mul(1, k);
    assert(!(u64::MAX << k) == sub(1u64 << k, 1)) by (bit_vector) requires k <= 63;
    let j = n as u32;
    assert((1u64 << j) == (1u64 << (j as u64)) && (u64::MAX << j) == (u64::MAX << (j as u64))) by (bit_vector) requires j <= 63;
    assert(j as u64 == k);
    reveal(low_bits_mask);
}
// the units of an offset: a cluster and a span (the clusters of one level 1 entry)
proof fn lemma_geo(g: Geo, m: int)
    requires g.ok(), 0 <= m <= u64::MAX,
    ensures
        0 < g.cs() <= 0x8000_0000_0000_0000, 0 < g.refs() <= 0x8000_0000_0000_0000, 0 < g.span() <= 0x8000_0000_0000_0000, g.span() == g.cs() * g.refs(), g.cs() <= g.span(),
        ({
            let (i, j) = (m / g.span(), (m / g.cs()) % g.refs());
            &&& 0 <= i && 0 <= i * g.span() <= m < i * g.span() + g.span()
            &&& 0 <= j < g.refs() && 0 <= j * g.cs() && i * g.span() + j * g.cs() == (m / g.cs()) * g.cs() && (m / g.cs()) * g.cs() <= m < (m / g.cs()) * g.cs() + g.cs()
            &&& (i * g.span()) % g.cs() == 0 && g.span() % g.cs() == 0 && ((m / g.cs()) * g.cs()) % g.cs() == 0
        }),
        forall|q: int| #![trigger q / g.span()] q / g.span() == m / g.span() <==> (m / g.span()) * g.span() <= q < (m / g.span()) * g.span() + g.span(),
        forall|q: int| #![trigger q / g.cs()] q / g.cs() == m / g.cs() <==> (m / g.cs()) * g.cs() <= q < (m / g.cs()) * g.cs() + g.cs(),
        forall|q: int| #![trigger q % g.cs()] q / g.cs() == m / g.cs() ==> q % g.cs() == q - (m / g.cs()) * g.cs(),
        forall|q: int| #![trigger q / g.cs()] q / g.cs() == m / g.cs() ==> q / g.span() == m / g.span(),
{
    let (cs, refs, span) = (g.cs(), g.refs(), g.span());
    lemma_p2(g.cb); lemma_p2(g.tb); lemma_p2(g.cb + g.tb);
    lemma_pow2_adds(g.cb as nat, g.tb as nat);
    assert(cs <= cs * refs) by (nonlinear_arith) requires cs > 0, refs > 0;
    let (i, b) = (m / span, m / cs);
    let j = b % refs;
    lemma_elem(m, 0, span); lemma_elem(m, 0, cs);
    assert((i + 1) * span == i * span + span && (b + 1) * cs == b * cs + cs) by (nonlinear_arith);
    lemma_div_denominator(m, cs, refs);
    lemma_fundamental_div_mod(b, refs);
    assert(i == b / refs);
    assert(i * span + j * cs == b * cs) by (nonlinear_arith) requires b == refs * i + j, span == cs * refs;
    assert(0 <= i * span && 0 <= j * cs) by (nonlinear_arith) requires i >= 0, j >= 0, span > 0, cs > 0;
    lemma_mod_multiples_basic(refs, cs);
    assert(span == refs * cs) by (nonlinear_arith) requires span == cs * refs;
    lemma_scaled_mod(i, span, cs);
    lemma_mod_multiples_basic(b, cs);
    assert forall|q: int| #![trigger q / span] q / span == i <==> i * span <= q < i * span + span by { lemma_in_block(i, span, q); }
    assert forall|q: int| #![trigger q / cs] q / cs == b <==> b * cs <= q < b * cs + cs by { lemma_in_block(b, cs, q); }
    assert forall|q: int| #![trigger q % cs] q / cs == b implies q % cs == q - b * cs by { lemma_in_block(b, cs, q); }
    assert forall|q: int| #![trigger q / cs] q / cs == b implies q / span == i by { if q >= 0 { lemma_div_denominator(q, cs, refs); } else { lemma_in_block(b, cs, q); } }
}
proof fn lemma_in_block(b: int, bs: int, o: int)
    requires bs > 0,
    ensures b * bs <= o < b * bs + bs <==> o / bs == b, b * bs <= o < b * bs + bs ==> o % bs == o - b * bs,
{
    lemma_fundamental_div_mod(o, bs);
    assert(bs * (o / bs) == (o / bs) * bs) by (nonlinear_arith);
    if b * bs <= o < b * bs + bs { lemma_fundamental_div_mod_converse(o, bs, b, o - b * bs); }
}
proof fn lemma_place(g: Geo, e: u64)
    ensures g.version == 1 ==> g.place(e) <= 0x7fff_ffff_ffff_ffff, g.version != 1 ==> g.place(e) <= 0x3fff_ffff_ffff_ffff,
{
    assert(e & 0x7fff_ffff_ffff_ffff <= 0x7fff_ffff_ffff_ffff && e & 0x3fff_ffff_ffff_ffff <= 0x3fff_ffff_ffff_ffff) by (bit_vector);
}
// the disk in whole clusters
proof fn lemma_tree_size(media: int, g: Geo, m: int)
    requires g.ok(), 0 <= m < media, media <= u64::MAX,
    ensures tree_size(media, g.cs()) % g.cs() == 0, media <= tree_size(media, g.cs()), (m / g.cs()) * g.cs() + g.cs() <= tree_size(media, g.cs()),
{
    lemma_geo(g, m);
    let cs = g.cs();
    let n = clusters(media, cs);
    lemma_fundamental_div_mod(media, cs);
    lemma_mod_multiples_basic(n, cs);
    assert(media <= n * cs) by (nonlinear_arith) requires media == cs * (media / cs) + media % cs, 0 <= media % cs < cs, n == clusters(media, cs), clusters(media, cs) == (if media % cs == 0 { media / cs } else { media / cs + 1 });
    let b = m / cs;
    assert(b < n) by (nonlinear_arith) requires b * cs < n * cs, cs > 0;
    assert(b * cs + cs <= n * cs) by (nonlinear_arith) requires b + 1 <= n, cs > 0;
}
// a backing file yields no bytes after its media size (the contract of QcowFile::read)
#[verifier::external_body]
proof fn axiom_backing(f: QcowFile) ensures f.backing_file is Some ==> f.parent().len() <= f.backing_file->0.value().media_size { unimplemented!() }
@@fn QcowFile::new
    ensures r.data_stream is None, r.backing_file is None, r.media_offset == 0, r.backing_file_name is None,
@@fn QcowFile::read_cluster_block_entry
@@attr #[verifier::rlimit(60)]
    requires old(self).wf(), media_offset < old(self).media_size, old(self).block_tree.at(media_offset as int) is None,
    ensures final(self).wf(), final(self).same(*old(self)), final(self).media_offset == old(self).media_offset,
        r is Ok ==> final(self).block_tree.at(media_offset as int) is Some,
        old(self).data_stream->0.sound() && old(self).geo().present(old(self).image(), media_offset as int) ==> r is Ok,
@@at start
    let ghost g = self.geo();
    let ghost c = self.image();
    let ghost t0 = self.block_tree;
    let ghost m = media_offset as int;
    let ghost (i, b) = (m / g.span(), m / g.cs());
    proof {
        reveal(tree_ok); reveal(Geo::byte); reveal(Geo::present);
        lemma_geo(g, m);
        lemma_tree_size(self.media_size as int, g, m);
        lemma_p2(g.cb); lemma_p2(g.tb); lemma_p2(g.cb + g.tb);
        lemma_u64_shr_is_div(media_offset, self.level1_index_bit_shift as u64);
        lemma_u64_shr_is_div(media_offset, self.number_of_cluster_block_bits as u64);
    }
@@at let:level1_media_offset before
    proof { lemma_u64_shl_is_mul(level1_table_index, self.level1_index_bit_shift as u64); }
@@at let:range_media_size before
    proof {
        let (ts, cs) = (tree_size(self.media_size as int, g.cs()), g.cs());
        lemma_mul_mod(ts, i * g.span(), cs);
    }
@@at let:level2_table_index after
    proof { lemma_u64_low_bits_mask_is_mod(media_offset >> self.number_of_cluster_block_bits, g.tb as nat); assert(level2_table_index == b % g.refs()); }
@@at let:block_range:0 before
    proof { lemma_free(t0, c, g, m); }
@@at let:block_range:1 before
    proof {
        lemma_free(t0, c, g, m);
        lemma_mod_self_0(g.cs());
        assert(level2_media_offset == b * g.cs() && self.block_tree == t0);
        assert forall|o: int| level2_media_offset <= o < level2_media_offset + g.cs() implies (#[trigger] t0.at(o)) is None by { assert(o / g.cs() == b); assert(g.unit(c, m, o)); }
    }
@@at let:block_data_offset after
    proof { lemma_place(g, level2_entry.reference); }
@@at tail
    proof {
        let t = self.block_tree;
        assert forall|o: int| (#[trigger] t.at(o)) is Some implies 0 <= o && in_range(t.at(o)->0, o) && agrees(t.at(o)->0, c, g, t.data_size as int) by {
            if !g.unit(c, m, o) || o >= t.data_size {
                assert(o / g.cs() == b ==> o / g.span() == i);
                assert(t0.at(o) == t.at(o));
            } else {
                assert(t.at(o)->0 == t0.at(o)->0 || o / g.cs() == b || g.hole(c, m));
            }
        }
        assert forall|o: int, q: int| 0 <= o && 0 <= q < t.data_size && g.unit(c, o, q) && (#[trigger] t.at(o)) is Some implies (#[trigger] t.at(q)) is Some by {
            if !g.unit(c, m, o) {
                assert(o / g.cs() == b ==> o / g.span() == i);
                assert(q / g.cs() == b ==> q / g.span() == i);
                assert(o / g.span() == i ==> g.hole(c, o) == g.hole(c, m));
                assert(!g.unit(c, m, q));
                assert(t0.at(o) == t.at(o)); assert(t0.at(q) == t.at(q));
            }
        }
    }
@@raw
// ---- the images that open ----
spec fn head(c: Seq<u8>) -> Seq<u8> { c.take(112) }
spec fn named(s: Seq<u8>) -> bool { be64(s, 8) > 0 && be32(s, 16) > 0 }
spec fn name_of(c: Seq<u8>) -> Seq<u8> { until_nul(c.subrange(be64(head(c), 8) as int, be64(head(c), 8) + be32(head(c), 16))) }
spec fn name_ok(c: Seq<u8>, header_size: int) -> bool { header_size <= be64(head(c), 8) && be32(head(c), 16) <= 65536 && be64(head(c), 8) + be32(head(c), 16) <= c.len() }
spec fn image_ok(c: Seq<u8>) -> bool {
    let h = head(c);
    let (cb, tb) = (cluster_bits(h), table_bits(h));
    &&& 112 <= c.len() && header_ok(h) && method(h) == 0
    &&& cb + tb <= 63 && (ver(h) == 1 ==> clusters(media(h), p2(cb + tb)) <= u32::MAX) && clusters(media(h), p2(cb)) <= u64::MAX as int / p2(cb)
    &&& named(h) ==> name_ok(c, size_of_header(h))
}
spec fn name_bytes(n: Option<ByteString>) -> Option<Seq<u8>> { match n { Some(t) => Some(t.elements@), None => None } }
impl QcowFile {
    spec fn reads(self, c: Seq<u8>, o: Self) -> bool {
        let h = head(c);
        &&& image_ok(c) && self.format_version == ver(h) && self.media_size == media(h) && self.encryption_method == QcowEncryptionMethod::None
        &&& self.compression_method == (if ver(h) != 3 { o.compression_method } else if size_of_header(h) == 112 && h[104] != 0 { QcowCompressionMethod::Unknown } else { QcowCompressionMethod::Zlib })
        &&& self.geo() == (Geo { offset: be64(h, 40) as int, count: if ver(h) == 1 { clusters(media(h), p2(cluster_bits(h) + table_bits(h))) } else { be32(h, 36) as int },
            cb: cluster_bits(h), tb: table_bits(h), version: ver(h) as int, backed: self.backing_file_name is Some })
        &&& name_bytes(self.backing_file_name) == (if named(h) { Some(name_of(c)) } else { name_bytes(o.backing_file_name) })
    }
}
@@fn QcowFile::read_backing_file_name
    requires backing_file_name_size > 0,
    ensures
        *final(self) == (QcowFile { backing_file_name: final(self).backing_file_name, ..*old(self) }),
        ({
            let c = data_stream.content();
            let (p, n) = (backing_file_name_offset as int, backing_file_name_size as int);
            &&& r is Ok ==> old(self).file_header_size <= p && n <= 65536 && p + n <= c.len() && name_bytes(final(self).backing_file_name) == Some(until_nul(c.subrange(p, p + n)))
            &&& data_stream.sound() && old(self).file_header_size <= p && n <= 65536 && p + n <= c.len() ==> r is Ok
        }),
@@at let:offset after
proof { assert(data@ =~= data_stream.content().subrange(backing_file_name_offset as int, backing_file_name_offset + backing_file_name_size)); }
@@fn QcowFile::read_file_header
@@attr #[verifier::rlimit(60)]
    ensures
        final(self).data_stream == old(self).data_stream, final(self).media_offset == old(self).media_offset, final(self).backing_file == old(self).backing_file,
        r is Ok ==> (QcowFile { data_stream: Some(*data_stream), ..*final(self) }).wf() && final(self).reads(data_stream.content(), *old(self)),
        data_stream.sound() && image_ok(data_stream.content()) ==> r is Ok,
@@at start
    let ghost c = data_stream.content();
    let ghost h = head(c);
    proof { reveal(tree_ok); }
@@at assign:self.level2_index_bit_mask before
    proof {
        lemma_p2(cluster_bits(h)); lemma_p2(table_bits(h)); lemma_p2(cluster_bits(h) + table_bits(h));
        lemma_pow2_adds(cluster_bits(h) as nat, table_bits(h) as nat);
        assert(1u64 << 63 == 0x8000_0000_0000_0000u64 && 1u64 << 62 == 0x4000_0000_0000_0000u64) by (bit_vector);
    }
@@at let:level1_table_number_of_references after
    proof {
        let (cs, refs) = (self.cluster_block_size as int, self.level2_table_number_of_references as int);
        assert(cs <= u64::MAX as int / refs) by (nonlinear_arith) requires cs * refs <= u64::MAX, refs > 0, cs > 0;
    }
@@at let:block_tree_data_size before
    proof {
        let (cs, n) = (self.cluster_block_size as int, number_of_cluster_blocks as int);
        lemma_fundamental_div_mod(u64::MAX as int, cs);
        assert(0 <= n * cs <= u64::MAX) by (nonlinear_arith) requires 0 <= n <= u64::MAX as int / cs, u64::MAX == cs * (u64::MAX as int / cs) + u64::MAX as int % cs, u64::MAX as int % cs >= 0, cs > 0;
    }
@@fn QcowFile::read_data_stream
    ensures
        final(self).media_offset == old(self).media_offset, final(self).backing_file == old(self).backing_file,
        r is Ok ==> final(self).wf() && final(self).image() == data_stream.content() && final(self).data_stream->0.sound() == data_stream.sound() && final(self).reads(data_stream.content(), *old(self)),
        r is Err ==> final(self).data_stream == old(self).data_stream,
        data_stream.sound() && image_ok(data_stream.content()) ==> r is Ok,
@@fn QcowFile::set_backing_file
    ensures *final(self) == (QcowFile { backing_file: Some(*backing_file), ..*old(self) }), r is Ok,
@@fn QcowFile::read_data_from_blocks
@@attr #[verifier::rlimit(60)]
    requires old(self).wf(), old(data)@.len() <= kx_left(old(self).media_size as int, old(self).media_offset as int),
    ensures final(self).wf(), final(self).same(*old(self)), final(self).media_offset == old(self).media_offset, final(data)@.len() == old(data)@.len(),
        r is Ok ==> disk_bytes(true, |o: int| old(self).map(o), old(self).image(), old(self).parent(), old(self).media_size as int, old(self).media_offset as int, old(data)@, r->Ok_0 as int, final(data)@),
        old(self).complete() ==> r is Ok,
@@isolate
@@at start
    let ghost p = self.media_offset as int;
    let ghost c = self.image();
    let ghost pc = self.parent();
    let ghost g = self.geo();
    let ghost d0 = data@;
    let ghost mut d1 = data@;
    let ghost mut v: QcowBlockRange = arbitrary();
    proof { axiom_backing(*self); }
@@loop 0
    invariant
        old(self).wf(),
        self.wf(), self.same(*old(self)), p == self.media_offset, p == old(self).media_offset, c == old(self).image(), pc == old(self).parent(), g == old(self).geo(), d0 == old(data)@,
        old(self).backing_file is Some ==> pc.len() <= old(self).backing_file->0.value().media_size,
        read_size == d0.len(), data@.len() == read_size, data_offset <= read_size, read_size <= kx_left(old(self).media_size as int, p), media_offset == p + data_offset,
        forall|i: int| 0 <= i < data_offset ==> disk_byte_ok(old(self).map(p + i), c, pc, p + i, #[trigger] data@[i]),
        forall|i: int| data_offset <= i < read_size ==> #[trigger] data@[i] == d0[i],
    ensures
        data_offset < read_size ==> disk_byte_out(old(self).map(p + data_offset), c, pc, p + data_offset),
    decreases read_size - data_offset,
@@at loop 0 begin
    proof {
        d1 = data@;
        let m = media_offset as int;
        if old(self).complete() { assert(old(self).geo().present(old(self).image(), m) && !(old(self).geo().byte(old(self).image(), m) is Missing)); }
        if m < self.media_size { lemma_tree_size(self.media_size as int, g, m); }
        lemma_tree(self.block_tree, c, g, m);
    }
@@at let:block_range after
    proof {
        v = *block_range;
        assert(self.block_tree.at(media_offset as int) == Some(v));
        lemma_tree(self.block_tree, c, g, media_offset as int);
        assert(agrees(v, c, g, self.block_tree.data_size as int));
        assert(in_range(v, media_offset as int));
        assert(range_byte(v, media_offset as int) == g.byte(c, media_offset as int));
    }
@@at let:range_read_count after
    proof {
        let n = range_read_count as int;
        assert forall|i: int| 0 <= i < data_offset + n implies disk_byte_ok(old(self).map(p + i), c, pc, p + i, #[trigger] data@[i]) by {
            if i < data_offset { assert(data@[i] == d1[i]); }
            else {
                assert(in_range(v, p + i));
                assert(range_byte(v, p + i) == g.byte(c, p + i));
            }
        }
        assert forall|i: int| data_offset + n <= i < read_size implies #[trigger] data@[i] == d0[i] by { assert(d1[i] == d0[i]); }
    }
@@fn QcowFile::get_size for DataStream
    ensures r is Ok, r->Ok_0 == old(self).media_size, *final(self) == *old(self),
@@fn QcowFile::read for DataStream
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same(*old(self)), final(buf)@.len() == old(buf)@.len(),
        r is Ok ==> disk_bytes(true, |o: int| old(self).map(o), old(self).image(), old(self).parent(), old(self).media_size as int, old(self).media_offset as int, old(buf)@, r->Ok_0 as int, final(buf)@),
        r is Ok ==> final(self).media_offset == old(self).media_offset + r->Ok_0,
        r is Err ==> final(self).media_offset == old(self).media_offset,
        old(self).complete() ==> r is Ok,
@@fn QcowFile::seek for DataStream
    ensures *final(self) == (QcowFile { media_offset: final(self).media_offset, ..*old(self) }), seeks(pos, old(self).media_offset as int, old(self).media_size as int, r, final(self).media_offset as int),
@@endfn
