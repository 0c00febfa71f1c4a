@@include std.vx
@@include dstream.vx
@@include partition.vx
@@include sliceeq.vx
@@include blocktree.vx proved=c25_tree
@@include diskimage.vx
@@include lrucache.vx
@@mappath String::from_utf8 kx_from_utf8
@@mapmethod PlistObject.get .kx_get
@@file keramics-formats/src/udif/constants.rs
@@item UDIF_FILE_FOOTER_SIGNATURE
@@item UDIF_BLOCK_TABLE_HEADER_SIGNATURE
@@file keramics-formats/src/udif/enums.rs
@@item UdifCompressionMethod #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@file keramics-formats/src/udif/block_range.rs
@@item UdifBlockRangeType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@item UdifBlockRange
@@fn UdifBlockRange::new
    ensures r == (UdifBlockRange { media_offset, data_offset, size, compressed_data_size, range_type }),
@@file keramics-formats/src/udif/file_footer.rs
@@item UdifFileFooter
@@raw
// ---- the footer: the last 512 bytes ----
spec fn footer_ok(s: Seq<u8>) -> bool { s.len() == 512 && s.subrange(0, 4) == seq![0x6bu8, 0x6fu8, 0x6cu8, 0x79u8] && be32(s, 4) == 4 }
spec fn footer_is(h: UdifFileFooter, s: Seq<u8>) -> bool { h.data_fork_offset == be64(s, 24) && h.data_fork_size == be64(s, 32) && h.plist_offset == be64(s, 216) && h.plist_size == be64(s, 224) }
spec fn footer(c: Seq<u8>) -> Seq<u8> { c.skip(c.len() - 512) }
@@fn UdifFileFooter::new
@@fn UdifFileFooter::read_data
    ensures r is Ok <==> footer_ok(data@), r is Ok ==> footer_is(*final(self), data@),
@@at start
proof { assert(UDIF_FILE_FOOTER_SIGNATURE@ =~= seq![0x6bu8, 0x6fu8, 0x6cu8, 0x79u8]); }
@@fn UdifFileFooter::read_at_position
    requires position == SeekFrom::End(-512i64),
    ensures
        ({
            let c = data_stream.content();
            &&& r is Ok ==> 512 <= c.len() && footer_ok(footer(c)) && footer_is(*final(self), footer(c))
            &&& data_stream.sound() && 512 <= c.len() && footer_ok(footer(c)) ==> r is Ok
        }),
@@at let:offset after
proof { assert(data@ =~= footer(data_stream.content())); }
@@file keramics-formats/src/udif/block_table_header.rs
@@item UdifBlockTableHeader
@@raw
// ---- a block table ----
spec fn head_ok(s: Seq<u8>) -> bool { s.len() == 204 && s.subrange(0, 4) == seq![0x6du8, 0x69u8, 0x73u8, 0x68u8] && be32(s, 4) == 1 }
@@fn UdifBlockTableHeader::new
@@fn UdifBlockTableHeader::read_data
    ensures r is Ok <==> head_ok(data@), r is Ok ==> final(self).start_sector == be64(data@, 8) && final(self).number_of_entries == be32(data@, 200),
@@at start
proof { assert(UDIF_BLOCK_TABLE_HEADER_SIGNATURE@ =~= seq![0x6du8, 0x69u8, 0x73u8, 0x68u8]); }
@@file keramics-formats/src/udif/block_table_entry.rs
@@item UdifBlockTableEntry
@@raw
spec fn entry_of(s: Seq<u8>) -> UdifBlockTableEntry {
    UdifBlockTableEntry { entry_type: be32(s, 0), start_sector: be64(s, 8), number_of_sectors: be64(s, 16), data_offset: be64(s, 24), data_size: be64(s, 32) }
}
@@fn UdifBlockTableEntry::new
@@fn UdifBlockTableEntry::read_data
    ensures r is Ok <==> data@.len() == 40, r is Ok ==> *final(self) == entry_of(data@),
@@file keramics-formats/src/udif/block_table.rs
@@item UdifBlockTable
@@raw
spec fn count(t: Seq<u8>) -> int { be32(t, 200) as int }
spec fn first(t: Seq<u8>) -> u64 { be64(t, 8) }
spec fn entry(t: Seq<u8>, k: int) -> UdifBlockTableEntry { entry_of(t.subrange(204 + 40 * k, 244 + 40 * k)) }
spec fn table_ok(t: Seq<u8>) -> bool { 204 <= t.len() && head_ok(t.take(204)) && 204 + 40 * count(t) <= t.len() }
@@fn UdifBlockTable::new
    ensures r.entries@.len() == 0,
@@fn UdifBlockTable::read_data
    requires old(self).entries@.len() == 0,
    ensures r is Ok <==> table_ok(data@),
        r is Ok ==> final(self).start_sector == first(data@) && final(self).entries@.len() == count(data@)
            && forall|k: int| 0 <= k < count(data@) ==> #[trigger] final(self).entries@[k] == entry(data@, k),
@@at let:data_offset before
    proof {
        assert(data@.subrange(0, 204) =~= data@.take(204));
        assert(data@.take(204).subrange(8, 16) =~= data@.subrange(8, 16));
        assert(data@.take(204).subrange(200, 204) =~= data@.subrange(200, 204));
    }
@@loop 0
    invariant
        data_offset == 204 + 40 * it0, data_size == data@.len(), data_offset <= data_size,
        self.entries@.len() == it0,
        forall|k: int| 0 <= k < it0 ==> #[trigger] self.entries@[k] == entry(data@, k),
@@file keramics-formats/src/plist/object.rs
@@item PlistObject
@@raw
// a dictionary by the text of its keys
uninterp spec fn text_map<V>(m: HashMap<String, V>) -> Map<Seq<char>, V>;
trait KxGet<V> {
    spec fn kx_found(&self, k: &str) -> Option<V>;
    fn kx_get<'a>(&'a self, k: &str) -> (r: Option<&'a V>) ensures r is Some <==> self.kx_found(k) is Some, r is Some ==> *r->0 == self.kx_found(k)->0;
}
impl<V> KxGet<V> for HashMap<String, V> {
    spec fn kx_found(&self, k: &str) -> Option<V> { if text_map(*self).contains_key(k@) { Some(text_map(*self)[k@]) } else { None } }
    #[verifier::external_body]
    fn kx_get<'a>(&'a self, k: &str) -> (r: Option<&'a V>) { self.get(k) }
}
impl PlistObject {
    spec fn by_key(self, k: Seq<char>) -> Option<PlistObject> {
        match self {
            PlistObject::Dictionary(m) => if text_map(m).contains_key(k) { Some(text_map(m)[k]) } else { None },
            _ => None,
        }
    }
}
@@fn PlistObject::as_bytes
    ensures r is Some <==> self is Data, r is Some ==> r->0@ == self->Data_0@,
@@fn PlistObject::as_hashmap
    ensures r is Some <==> self is Dictionary, r is Some ==> *r->0 == self->Dictionary_0,
@@fn PlistObject::as_vector
    ensures r is Some <==> self is Array, r is Some ==> *r->0 == self->Array_0,
@@fn PlistObject::get_object_by_key
    ensures r is Some <==> self.by_key(key@) is Some, r is Some ==> *r->0 == self.by_key(key@)->0,
@@fn PlistObject::get_bytes_by_key
    ensures r is Some <==> self.by_key(key@) is Some && self.by_key(key@)->0 is Data, r is Some ==> r->0@ == self.by_key(key@)->0->Data_0@,
@@fn PlistObject::get_vector_by_key
    ensures r is Some <==> self.by_key(key@) is Some && self.by_key(key@)->0 is Array, r is Some ==> *r->0 == self.by_key(key@)->0->Array_0,
@@file keramics-formats/src/udif/file.rs
@@item UdifFile
@@raw
// ---- outside: text of bytes, the plist of a text, the decompressors, as functions of what they are given ----
#[verifier::external_body]
struct KxError { _p: u8 }
uninterp spec fn text_of(b: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
fn kx_from_utf8(v: Vec<u8>) -> (r: Result<String, KxError>)
    ensures r is Ok <==> text_of(v@) is Some, r is Ok ==> r->Ok_0@ == text_of(v@)->0,
{ unimplemented!() }
uninterp spec fn plist_of(t: Seq<char>) -> Option<PlistObject>;
struct XmlPlist { root_object: PlistObject }
impl XmlPlist {
    #[verifier::external_body]
    fn new() -> XmlPlist { unimplemented!() }
    #[verifier::external_body]
    fn parse(&mut self, string: &str) -> (r: Result<(), KxError>)
        ensures r is Ok <==> plist_of(string@) is Some, r is Ok ==> final(self).root_object == plist_of(string@)->0,
    { unimplemented!() }
}
// what a decompressor makes of s when there is room for n bytes: at most n bytes, or an error
uninterp spec fn adc(s: Seq<u8>, n: int) -> Option<Seq<u8>>;
uninterp spec fn bzip2(s: Seq<u8>, n: int) -> Option<Seq<u8>>;
uninterp spec fn lzfse(s: Seq<u8>, n: int) -> Option<Seq<u8>>;
uninterp spec fn zlib(s: Seq<u8>, n: int) -> Option<Seq<u8>>;
spec fn decompressed(d: Option<Seq<u8>>, b0: Seq<u8>, r: Result<(), ErrorTrace>, n: int, b1: Seq<u8>) -> bool {
    &&& b1.len() == b0.len() && (r is Ok <==> d is Some)
    &&& r is Ok ==> n == d->0.len() && n <= b0.len() && b1.take(n) == d->0
}
struct AdcContext { uncompressed_data_size: usize }
struct Bzip2Context { uncompressed_data_size: usize }
struct LzfseContext { uncompressed_data_size: usize }
struct ZlibContext { uncompressed_data_size: usize }
impl AdcContext {
    #[verifier::external_body]
    fn new() -> AdcContext { unimplemented!() }
    #[verifier::external_body]
    fn decompress(&mut self, s: &Vec<u8>, d: &mut Vec<u8>) -> (r: Result<(), ErrorTrace>)
        ensures decompressed(adc(s@, old(d)@.len() as int), old(d)@, r, final(self).uncompressed_data_size as int, final(d)@),
    { unimplemented!() }
}
impl Bzip2Context {
    #[verifier::external_body]
    fn new() -> Bzip2Context { unimplemented!() }
    #[verifier::external_body]
    fn decompress(&mut self, s: &Vec<u8>, d: &mut Vec<u8>) -> (r: Result<(), ErrorTrace>)
        ensures decompressed(bzip2(s@, old(d)@.len() as int), old(d)@, r, final(self).uncompressed_data_size as int, final(d)@),
    { unimplemented!() }
}
impl LzfseContext {
    #[verifier::external_body]
    fn new() -> LzfseContext { unimplemented!() }
    #[verifier::external_body]
    fn decompress(&mut self, s: &Vec<u8>, d: &mut Vec<u8>) -> (r: Result<(), ErrorTrace>)
        ensures decompressed(lzfse(s@, old(d)@.len() as int), old(d)@, r, final(self).uncompressed_data_size as int, final(d)@),
    { unimplemented!() }
}
impl ZlibContext {
    #[verifier::external_body]
    fn new() -> ZlibContext { unimplemented!() }
    #[verifier::external_body]
    fn decompress(&mut self, s: &Vec<u8>, d: &mut Vec<u8>) -> (r: Result<(), ErrorTrace>)
        ensures decompressed(zlib(s@, old(d)@.len() as int), old(d)@, r, final(self).uncompressed_data_size as int, final(d)@),
    { unimplemented!() }
}
// a block of n bytes
spec fn unpack(m: UdifCompressionMethod, s: Seq<u8>, n: int) -> Option<Seq<u8>> {
    let d = match m {
        UdifCompressionMethod::Adc => adc(s, n),
        UdifCompressionMethod::Bzip2 => bzip2(s, n),
        UdifCompressionMethod::Lzfse => lzfse(s, n),
        UdifCompressionMethod::Zlib => zlib(s, n),
        _ => None,
    };
    if d is Some && d->0.len() == n { d } else { None }
}
spec fn method(kind: u32) -> UdifCompressionMethod {
    if kind == 0x80000004 { UdifCompressionMethod::Adc } else if kind == 0x80000005 { UdifCompressionMethod::Zlib } else if kind == 0x80000006 { UdifCompressionMethod::Bzip2 }
    else if kind == 0x80000007 { UdifCompressionMethod::Lzfse } else { UdifCompressionMethod::None }
}
// ---- the block ranges of the tables: the disk from its start, without gaps ----
// as many sectors as whole groups of 16384 have offsets below 2^64
spec fn maxs() -> int { 36028797018947584 }
ghost struct Walk { rs: Seq<UdifBlockRange>, sectors: int, kind: u32 }
spec fn packed(ty: u32) -> bool { 0x80000004 <= ty < 0x80000008 }
spec fn in_range(v: UdifBlockRange, o: int) -> bool { v.media_offset <= o < v.media_offset + v.size }
spec fn range_ok(v: UdifBlockRange, end: int, kind: u32) -> bool {
    &&& v.size > 0 && v.size % 512 == 0 && v.media_offset % 512 == 0
    &&& v.range_type is InFile ==> v.data_offset + v.size <= end
    &&& v.range_type is Compressed ==> v.data_offset + v.compressed_data_size <= end && v.size <= 0x100000 && packed(kind)
}
impl Walk {
    spec fn add(self, n: int, data_offset: u64, csize: int, ty: UdifBlockRangeType, kind: u32) -> Walk {
        let v = UdifBlockRange { media_offset: (self.sectors * 512) as u64, data_offset, size: (n * 512) as u64, compressed_data_size: csize as u32, range_type: ty };
        Walk { rs: self.rs.push(v), sectors: self.sectors + n, kind }
    }
    spec fn start(self, i: int) -> int { if i < self.rs.len() { self.rs[i].media_offset as int } else { self.sectors * 512 } }
    spec fn wf(self, end: int) -> bool {
        &&& 0 <= self.sectors <= maxs() && (self.kind == 0 || packed(self.kind)) && self.start(0) == 0
        &&& forall|i: int| 0 <= i < self.rs.len() ==> #[trigger] self.good(i, end)
    }
    spec fn good(self, i: int, end: int) -> bool { range_ok(self.rs[i], end, self.kind) && self.rs[i].media_offset + self.rs[i].size == self.start(i + 1) }
}
// entry k of table t adds a range; the data of the disk is from f0 to f1 in the image
spec fn step(f0: int, f1: int, t: Seq<u8>, k: int, w: Walk) -> Option<Walk> {
    let e = entry(t, k);
    let n = e.number_of_sectors as int;
    let stored = f0 <= e.data_offset < f1 && e.data_size <= f1 - e.data_offset;
    if e.entry_type == 0x7ffffffe { Some(w) }
    else if first(t) + e.start_sector != w.sectors || n == 0 || w.sectors + n > maxs() { None }
    else if e.entry_type == 0 || e.entry_type == 2 { Some(w.add(n, 0, 0, UdifBlockRangeType::Sparse, w.kind)) }
    else if !stored { None }
    else if e.entry_type == 1 { if n * 512 <= f1 - e.data_offset { Some(w.add(n, e.data_offset, 0, UdifBlockRangeType::InFile, w.kind)) } else { None } }
    else if packed(e.entry_type) && n <= 2048 && e.data_size <= u32::MAX && (w.kind == 0 || w.kind == e.entry_type) {
        Some(w.add(n, e.data_offset, e.data_size as int, UdifBlockRangeType::Compressed, e.entry_type))
    } else { None }
}
// the entries from k on, up to a terminator
spec fn entries(f0: int, f1: int, t: Seq<u8>, k: int, w: Walk) -> Option<Walk>
    decreases count(t) - k,
{
    if k >= count(t) || entry(t, k).entry_type == 0xffffffff { Some(w) }
    else { match step(f0, f1, t, k, w) { Some(x) => entries(f0, f1, t, k + 1, x), None => None } }
}
spec fn table(f0: int, f1: int, t: Seq<u8>, w: Walk) -> Option<Walk> {
    if table_ok(t) && first(t) == w.sectors { entries(f0, f1, t, 0, w) } else { None }
}
spec fn data_of(x: PlistObject) -> Option<Seq<u8>> {
    let d = x.by_key("Data"@);
    if d is Some && d->0 is Data { Some(d->0->Data_0@) } else { None }
}
// the tables from i on
spec fn tables(f0: int, f1: int, a: Seq<PlistObject>, i: int, w: Walk) -> Option<Walk>
    decreases a.len() - i,
{
    if i >= a.len() { Some(w) }
    else { match data_of(a[i]) {
        None => None,
        Some(t) => match table(f0, f1, t, w) { Some(x) => tables(f0, f1, a, i + 1, x), None => None },
    } }
}
spec fn table_list(text: Option<Seq<char>>) -> Option<Seq<PlistObject>> {
    if text is Some && plist_of(text->0) is Some {
        let f = plist_of(text->0)->0.by_key("resource-fork"@);
        if f is Some && f->0.by_key("blkx"@) is Some && f->0.by_key("blkx"@)->0 is Array { Some(f->0.by_key("blkx"@)->0->Array_0@) } else { None }
    } else { None }
}
spec fn fork_start(c: Seq<u8>) -> int { be64(footer(c), 24) as int }
spec fn fork_size(c: Seq<u8>) -> int { be64(footer(c), 32) as int }
spec fn fork_end(c: Seq<u8>) -> int { fork_start(c) + fork_size(c) }
spec fn plist_size(c: Seq<u8>) -> int { be64(footer(c), 224) as int }
spec fn plist_bytes(c: Seq<u8>) -> Seq<u8> { c.skip(be64(footer(c), 216) as int).take(plist_size(c)) }
spec fn no_ranges() -> Walk { Walk { rs: Seq::empty(), sectors: 0, kind: 0 } }
spec fn walk(c: Seq<u8>) -> Option<Walk> {
    match table_list(text_of(plist_bytes(c))) { Some(a) => tables(fork_start(c), fork_end(c), a, 0, no_ranges()), None => None }
}
spec fn image_ok(c: Seq<u8>) -> bool {
    &&& 512 <= c.len() && footer_ok(footer(c)) && fork_end(c) <= u64::MAX
    &&& plist_size(c) != 0 ==> plist_size(c) <= 65536 && be64(footer(c), 216) + plist_size(c) <= c.len() && walk(c) is Some
}
proof fn lemma_max()
    ensures maxs() * 512 <= u64::MAX, maxs() % 16384 == 0,
{
}
// what a table adds keeps the walk as it should be
proof fn lemma_step(f0: int, f1: int, t: Seq<u8>, k: int, w: Walk)
    requires w.wf(f1), f1 <= u64::MAX,
    ensures step(f0, f1, t, k, w) is Some ==> step(f0, f1, t, k, w)->0.wf(f1),
{
    lemma_max();
    if step(f0, f1, t, k, w) is Some && entry(t, k).entry_type != 0x7ffffffe {
        let x = step(f0, f1, t, k, w)->0;
        let n = w.rs.len() as int;
        assert(x.rs.len() == n + 1);
        assert(x.start(n) == w.sectors * 512);
        assert forall|i: int| 0 <= i < x.rs.len() implies #[trigger] x.good(i, f1) by {
            if i < n { assert(w.good(i, f1)); assert(x.rs[i] == w.rs[i]); assert(x.start(i + 1) == w.start(i + 1)); }
        }
        if n > 0 { assert(x.rs[0] == w.rs[0]); }
    }
}
// the ranges are in order
proof fn lemma_order(w: Walk, end: int, i: int, j: int)
    requires w.wf(end), 0 <= i <= j <= w.rs.len(),
    ensures w.start(i) <= w.start(j), i < j ==> w.rs[i].media_offset + w.rs[i].size <= w.start(j),
    decreases j - i,
{
    if i < j {
        lemma_order(w, end, i, j - 1);
        assert(w.good(i, end) && w.good(j - 1, end));
    }
}
// what is in the tree: the ranges from n on
spec fn tree_from(b: BlockTree<UdifBlockRange>, w: Walk, n: int) -> bool {
    &&& b.wf()
    &&& forall|o: int| (#[trigger] b.at(o)) is Some ==> w.start(n) <= o && n < w.rs.len() && in_range(b.at(o)->0, o) && w.rs.contains(b.at(o)->0)
    &&& forall|i: int, o: int| n <= i < w.rs.len() && #[trigger] in_range(w.rs[i], o) ==> b.at(o) == Some(w.rs[i])
}
spec fn bytes_at(c: Seq<u8>, v: UdifBlockRange) -> Seq<u8> { if v.compressed_data_size == 0 { Seq::empty() } else { c.skip(v.data_offset as int).take(v.compressed_data_size as int) } }
spec fn unpacked_at(m: UdifCompressionMethod, c: Seq<u8>, v: UdifBlockRange) -> Option<Seq<u8>> { unpack(m, bytes_at(c, v), v.size as int) }
// byte o of the disk, which is in range v; Parent: of the decompressed blocks
spec fn range_byte(m: UdifCompressionMethod, c: Seq<u8>, v: UdifBlockRange, o: int) -> DByte {
    match v.range_type {
        UdifBlockRangeType::InFile => DByte::Mapped(v.data_offset + o - v.media_offset),
        UdifBlockRangeType::Sparse => DByte::Zero,
        UdifBlockRangeType::Compressed => if unpacked_at(m, c, v) is Some { DByte::Parent } else { DByte::Missing },
    }
}
impl UdifFile {
    spec fn image(self) -> Seq<u8> { if self.data_stream is Some { self.data_stream->0.content() } else { Seq::empty() } }
    spec fn map(self, o: int) -> DByte {
        if !self.has_block_ranges { DByte::Mapped(self.data_fork_offset + o) }
        else if self.block_tree.at(o) is Some { range_byte(self.compression_method, self.image(), self.block_tree.at(o)->0, o) }
        else { DByte::Missing }
    }
    // the compressed blocks of the disk
    spec fn unpacked(self) -> Seq<u8> {
        Seq::new(self.media_size as nat, |o: int| { let v = self.block_tree.at(o)->0; unpacked_at(self.compression_method, self.image(), v)->0[o - v.media_offset] })
    }
    // what the image says
    spec fn reads(self, c: Seq<u8>) -> bool {
        &&& 512 <= c.len() && footer_ok(footer(c)) && fork_end(c) <= u64::MAX && self.bytes_per_sector == 512
        &&& if plist_size(c) == 0 { !self.has_block_ranges && self.data_fork_offset == fork_start(c) && self.media_size == fork_size(c) }
            else {
                &&& self.has_block_ranges && walk(c) is Some && self.media_size == walk(c)->0.sectors * 512 && self.compression_method == method(walk(c)->0.kind)
                &&& forall|i: int, o: int| 0 <= i < walk(c)->0.rs.len() && #[trigger] in_range(walk(c)->0.rs[i], o) ==> self.block_tree.at(o) == Some(walk(c)->0.rs[i])
            }
    }
    spec fn tree_ok(self) -> bool {
        &&& self.block_tree.wf() && self.media_size <= self.block_tree.data_size
        &&& forall|o: int| #![trigger self.block_tree.at(o)] self.block_tree.at(o) is Some <==> 0 <= o < self.media_size
        &&& forall|o: int| (#[trigger] self.block_tree.at(o)) is Some ==> in_range(self.block_tree.at(o)->0, o) && range_ok(self.block_tree.at(o)->0, u64::MAX as int, 0x80000004)
            && self.block_tree.at(o)->0.media_offset + self.block_tree.at(o)->0.size <= self.media_size
        &&& forall|o: int, q: int| #![trigger self.block_tree.at(o), self.block_tree.at(q)] self.block_tree.at(o) is Some && in_range(self.block_tree.at(o)->0, q) ==> self.block_tree.at(q) == self.block_tree.at(o)
    }
    spec fn cache_ok(self) -> bool {
        forall|o: int| (#[trigger] self.block_tree.at(o)) is Some && self.block_tree.at(o)->0.range_type is Compressed && self.block_cache.has(self.block_tree.at(o)->0.media_offset)
            ==> unpacked_at(self.compression_method, self.image(), self.block_tree.at(o)->0) == Some(self.block_cache.held(self.block_tree.at(o)->0.media_offset)@)
    }
    spec fn wf(self) -> bool {
        &&& self.data_stream is Some
        &&& !self.has_block_ranges ==> self.data_fork_offset + self.media_size <= u64::MAX
        &&& self.has_block_ranges ==> self.tree_ok() && self.cache_ok() && !(self.compression_method is Lzma)
    }
    spec fn same(self, o: Self) -> bool { self == (UdifFile { block_cache: self.block_cache, media_offset: self.media_offset, ..o }) }
    // a stream that does not fail and compressed blocks that are there and decompress to their size
    spec fn complete(self) -> bool {
        &&& self.data_stream is Some && self.data_stream->0.sound()
        &&& forall|o: int| #![trigger self.map(o)] 0 <= o < self.media_size ==> !(self.map(o) is Missing) && (self.map(o) is Parent ==> self.block_tree.at(o)->0.data_offset + self.block_tree.at(o)->0.compressed_data_size <= self.image().len())
    }
}
proof fn lemma_find(w: Walk, end: int, o: int, n: int) -> (i: int)
    requires w.wf(end), 0 <= n <= w.rs.len(), 0 <= o < w.start(n),
    ensures 0 <= i < n, in_range(w.rs[i], o),
    decreases n,
{
    if n == 0 { assert(w.start(0) == 0); 0 }
    else {
        assert(w.good(n - 1, end));
        if o >= w.start(n - 1) { n - 1 } else { lemma_find(w, end, o, n - 1) }
    }
}
proof fn lemma_tree(f: UdifFile, w: Walk, end: int)
    requires w.wf(end), end <= u64::MAX, tree_from(f.block_tree, w, 0), f.media_size == w.sectors * 512, f.media_size <= f.block_tree.data_size,
    ensures f.tree_ok(),
{
    let b = f.block_tree;
    let n = w.rs.len() as int;
    assert(w.start(n) == w.sectors * 512);
    assert forall|o: int| #![trigger b.at(o)] (b.at(o) is Some <==> 0 <= o < f.media_size) by {
        if 0 <= o < f.media_size {
            let i = lemma_find(w, end, o, n);
            assert(in_range(w.rs[i], o));
        }
        if b.at(o) is Some {
            let i = choose|i: int| 0 <= i < n && w.rs[i] == b.at(o)->0;
            assert(w.rs.contains(b.at(o)->0));
            lemma_order(w, end, i, n);
        }
    }
    assert forall|o: int| (#[trigger] b.at(o)) is Some implies in_range(b.at(o)->0, o) && range_ok(b.at(o)->0, u64::MAX as int, 0x80000004) && b.at(o)->0.media_offset + b.at(o)->0.size <= f.media_size by {
        assert(w.rs.contains(b.at(o)->0));
        let i = choose|i: int| 0 <= i < n && w.rs[i] == b.at(o)->0;
        lemma_order(w, end, i, n);
        assert(w.good(i, end));
    }
    assert forall|o: int, q: int| #![trigger b.at(o), b.at(q)] b.at(o) is Some && in_range(b.at(o)->0, q) implies b.at(q) == b.at(o) by {
        assert(w.rs.contains(b.at(o)->0));
        let i = choose|i: int| 0 <= i < n && w.rs[i] == b.at(o)->0;
        assert(in_range(w.rs[i], q));
    }
}
@@fn UdifFile::new
    ensures forall|k: u64| !#[trigger] r.block_cache.has(k),
@@fn UdifFile::read_compressed_block
    requires self.wf(), self.has_block_ranges, old(data)@.len() == block_range.size,
    ensures
        r is Ok ==> unpacked_at(self.compression_method, self.image(), *block_range) == Some(final(data)@),
        self.data_stream->0.sound() && block_range.data_offset + block_range.compressed_data_size <= self.image().len() && unpacked_at(self.compression_method, self.image(), *block_range) is Some ==> r is Ok,
@@at let:uncompressed_data_size before
    proof { assert(compressed_data@ =~= bytes_at(self.image(), *block_range)); }
@@at tail
    proof { if uncompressed_data_size == data@.len() { assert(data@.take(uncompressed_data_size as int) =~= data@); } }
@@fn UdifFile::read_metadata
@@attr #[verifier::rlimit(60)]
    requires forall|k: u64| !#[trigger] old(self).block_cache.has(k),
    ensures
        final(self).data_stream == old(self).data_stream, final(self).media_offset == old(self).media_offset, final(self).block_cache == old(self).block_cache,
        r is Ok ==> final(self).reads(data_stream.content()) && (final(self).has_block_ranges ==> final(self).tree_ok()),
        data_stream.sound() && image_ok(data_stream.content()) ==> r is Ok,
@@isolate
@@at start
    let ghost c = data_stream.content();
    let ghost f0 = fork_start(c);
    let ghost f1 = fork_end(c);
    let ghost mut a: Seq<PlistObject> = Seq::empty();
    let ghost mut t: Seq<u8> = Seq::empty();
    let ghost mut w: Walk = no_ranges();
@@at let:string before
    proof { assert(data@ =~= plist_bytes(c)); }
@@at let:block_ranges before
    proof { a = blkx_array@; lemma_max(); }
@@loop 0
    invariant
        *self == (UdifFile { bytes_per_sector: 512, ..*old(self) }),
        c == data_stream.content(), f0 == fork_start(c), f1 == fork_end(c), f0 == file_footer.data_fork_offset, f1 == data_fork_end_offset, plist_size(c) != 0, sl0@ == a,
        w.wf(f1), w.rs == block_ranges@, w.sectors == media_sector, w.kind == compressed_entry_type, media_offset == w.sectors * 512,
        walk(c) == tables(f0, f1, a, it0 as int, w),
@@at let:data:1 after
    proof { t = data@; assert(data_of(a[it0 - 1]) == Some(t)); }
@@loop 1
    invariant
        *self == (UdifFile { bytes_per_sector: 512, ..*old(self) }),
        c == data_stream.content(), f0 == fork_start(c), f1 == fork_end(c), f0 == file_footer.data_fork_offset, f1 == data_fork_end_offset, plist_size(c) != 0,
        w.wf(f1), w.rs == block_ranges@, w.sectors == media_sector, w.kind == compressed_entry_type, media_offset == w.sectors * 512,
        block_table.start_sector == first(t) <= maxs(), block_table.entries@.len() == count(t), forall|k: int| 0 <= k < count(t) ==> #[trigger] block_table.entries@[k] == entry(t, k), sl1@ == block_table.entries@,
    invariant_except_break
        walk(c) == (match entries(f0, f1, t, it1 as int, w) { Some(x) => tables(f0, f1, a, it0 as int, x), None => None }),
    ensures
        walk(c) == tables(f0, f1, a, it0 as int, w),
@@at loop 1 begin
    let ghost w0 = w;
    let ghost k0 = it1 - 1;
    proof { assert(block_table.entries@[k0] == entry(t, k0)); }
@@at let:media_size before
    proof { lemma_max(); assert(block_table_entry.number_of_sectors * 512 <= maxs() * 512 - media_offset); }
@@at loop 1 end
    proof {
        lemma_step(f0, f1, t, k0, w0);
        w = Walk { rs: block_ranges@, sectors: media_sector as int, kind: compressed_entry_type };
        assert(step(f0, f1, t, k0, w0)->0.rs =~= w.rs);
        assert(step(f0, f1, t, k0, w0) == Some(w));
    }
@@at let:block_tree_data_size before
    proof { lemma_max(); }
@@loop 2
    invariant
        *self == (UdifFile { bytes_per_sector: 512, has_block_ranges: true, media_size: media_offset, compression_method: method(w.kind), block_tree: self.block_tree, ..*old(self) }),
        f1 == fork_end(c), w.wf(f1), media_offset == w.sectors * 512,
        walk(c) == Some(w), block_ranges@.len() <= w.rs.len(), block_ranges@ == w.rs.take(block_ranges@.len() as int),
        tree_from(self.block_tree, w, block_ranges@.len() as int), self.block_tree.data_size >= media_offset, self.block_tree.leaf_value_size == 512,
    ensures
        block_ranges@.len() == 0,
    decreases block_ranges@.len(),
@@at loop 2 begin
    let ghost b0 = self.block_tree;
    proof {
        let n = block_ranges@.len() as int;
        assert(block_range == w.rs[n]);
        assert(w.good(n, f1));
        lemma_order(w, f1, n + 1, w.rs.len() as int);
        assert(w.start(n + 1) <= w.sectors * 512);
    }
@@at loop 2 end
    proof {
        let n = block_ranges@.len() as int;
        let b = self.block_tree;
        let v = w.rs[n];
        assert(block_ranges@ =~= w.rs.take(n));
        assert(w.rs.contains(v));
        assert forall|i: int, o: int| n <= i < w.rs.len() && #[trigger] in_range(w.rs[i], o) implies b.at(o) == Some(w.rs[i]) by {
            if i > n { assert(b0.at(o) == Some(w.rs[i])); lemma_order(w, f1, n + 1, i); }
        }
    }
@@at tail
    proof { if self.has_block_ranges { lemma_tree(*self, w, f1); } }
@@fn UdifFile::read_data_stream
    requires forall|k: u64| !#[trigger] old(self).block_cache.has(k),
    ensures
        final(self).media_offset == old(self).media_offset,
        r is Ok ==> final(self).wf() && final(self).image() == data_stream.content() && final(self).data_stream->0.sound() == data_stream.sound() && final(self).reads(data_stream.content()),
        r is Err ==> final(self).data_stream == old(self).data_stream,
        data_stream.sound() && image_ok(data_stream.content()) ==> r is Ok,
@@fn UdifFile::read_data_from_blocks
@@attr #[verifier::rlimit(60)]
    requires old(self).wf(), old(self).has_block_ranges, old(data)@.len() <= kx_left(old(self).media_size as int, old(self).media_offset as int),
    ensures final(self).wf(), final(self).same(*old(self)), final(self).media_offset == old(self).media_offset, final(data)@.len() == old(data)@.len(),
        r is Ok ==> disk_bytes(true, |o: int| old(self).map(o), old(self).image(), old(self).unpacked(), old(self).media_size as int, old(self).media_offset as int, old(data)@, r->Ok_0 as int, final(data)@),
        old(self).complete() ==> r is Ok,
@@isolate
@@at start
    let ghost p = self.media_offset as int;
    let ghost c = self.image();
    let ghost u = self.unpacked();
    let ghost d0 = data@;
    let ghost mut d1 = data@;
    let ghost mut v: UdifBlockRange = arbitrary();
@@loop 0
    invariant
        old(self).wf(), self.has_block_ranges,
        self.wf(), self.same(*old(self)), p == self.media_offset, p == old(self).media_offset, c == old(self).image(), u == old(self).unpacked(), d0 == old(data)@,
        read_size == d0.len(), data@.len() == read_size, data_offset <= read_size, read_size <= kx_left(old(self).media_size as int, p), media_offset == p + data_offset,
        forall|i: int| 0 <= i < data_offset ==> disk_byte_ok(old(self).map(p + i), c, u, p + i, #[trigger] data@[i]),
        forall|i: int| data_offset <= i < read_size ==> #[trigger] data@[i] == d0[i],
    ensures
        data_offset < read_size ==> disk_byte_out(old(self).map(p + data_offset), c, u, p + data_offset),
    decreases read_size - data_offset,
@@at loop 0 begin
    proof {
        d1 = data@;
        if old(self).complete() { assert(!(old(self).map(media_offset as int) is Missing)); }
    }
@@at let:block_range after
    proof {
        v = *block_range;
        assert(self.block_tree.at(media_offset as int) == Some(v));
    }
@@at let:range_read_count after
    proof {
        let n = range_read_count as int;
        assert forall|i: int| 0 <= i < data_offset + n implies disk_byte_ok(old(self).map(p + i), c, u, p + i, #[trigger] data@[i]) by {
            if i < data_offset { assert(data@[i] == d1[i]); }
            else {
                assert(in_range(v, p + i));
                assert(self.block_tree.at(p + i) == Some(v));
            }
        }
        assert forall|i: int| data_offset + n <= i < read_size implies #[trigger] data@[i] == d0[i] by { assert(d1[i] == d0[i]); }
    }
@@fn UdifFile::get_size for DataStream
    ensures r is Ok, r->Ok_0 == old(self).media_size, *final(self) == *old(self),
@@fn UdifFile::read for DataStream
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same(*old(self)), final(buf)@.len() == old(buf)@.len(),
        r is Ok ==> disk_bytes(old(self).has_block_ranges, |o: int| old(self).map(o), old(self).image(), old(self).unpacked(), old(self).media_size as int, old(self).media_offset as int, old(buf)@, r->Ok_0 as int, final(buf)@),
        r is Ok ==> final(self).media_offset == old(self).media_offset + r->Ok_0,
        r is Err ==> final(self).media_offset == old(self).media_offset,
        old(self).complete() ==> r is Ok,
@@fn UdifFile::seek for DataStream
    ensures *final(self) == (UdifFile { media_offset: final(self).media_offset, ..*old(self) }), seeks(pos, old(self).media_offset as int, old(self).media_size as int, r, final(self).media_offset as int),
@@endfn
