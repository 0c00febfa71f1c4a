@@opt format
@@opt default
@@opt eq .section_type kx_array_eq
@@include std.vx
@@include fmt.vx
@@include dstream.vx
@@include partition.vx
@@include sliceeq.vx
@@include uuidle.vx
@@include adler32.vx proved=c01_adler32
@@include blocktree.vx proved=c25_tree
@@include diskimage.vx
@@include lrucache.vx
@@mappath std::char::from_u32 kx_from_u32
@@raw
spec fn le16(d: Seq<u8>, o: int) -> u16 { kx_u16_le(d.subrange(o, o + 2)) }
spec fn le32(d: Seq<u8>, o: int) -> u32 { kx_u32_le(d.subrange(o, o + 4)) }
spec fn le64(d: Seq<u8>, o: int) -> u64 { kx_u64_le(d.subrange(o, o + 8)) }
spec fn sum_ok(d: Seq<u8>, n: int) -> bool { n + 4 <= d.len() && le32(d, n) == adler(1, d.take(n)) }
#[verifier::external_body]
fn kx_array_eq<const N: usize>(a: &[u8; N], b: &[u8; N]) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
fn kx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
fn kx_from_u32(v: u32) -> (r: Option<char>) ensures r is Some <==> v < 0xd800 || 0xe000 <= v < 0x110000, r is Some ==> r->0 as u32 == v, v < 128 ==> r->0 == v as u8 as char { std::char::from_u32(v) }
// bytes o to o + n of c
spec fn pos_of(p: SeekFrom) -> int { match p { SeekFrom::Start(o) => o as int, _ => -1 } }
spec fn at(c: Seq<u8>, o: int, n: int) -> Seq<u8> { c.skip(o).take(n) }
spec fn there(c: Seq<u8>, o: int, n: int) -> bool { o + n <= c.len() }
@@file keramics-formats/src/ewf/constants.rs
@@item EWF_FILE_HEADER_SIGNATURE
@@item EWF_SECTION_TYPE_DATA
@@item EWF_SECTION_TYPE_DIGEST
@@item EWF_SECTION_TYPE_DISK
@@item EWF_SECTION_TYPE_DONE
@@item EWF_SECTION_TYPE_ERROR2
@@item EWF_SECTION_TYPE_HASH
@@item EWF_SECTION_TYPE_HEADER
@@item EWF_SECTION_TYPE_HEADER2
@@item EWF_SECTION_TYPE_NEXT
@@item EWF_SECTION_TYPE_SECTORS
@@item EWF_SECTION_TYPE_TABLE
@@item EWF_SECTION_TYPE_TABLE2
@@item EWF_SECTION_TYPE_VOLUME
@@file keramics-formats/src/ewf/enums.rs
@@item EwfHeaderValueType #[derive(PartialEq, Eq, Hash, Structural)]
@@item EwfMediaType #[derive(PartialEq, Eq, Structural)]
@@item EwfNamingSchema #[derive(PartialEq, Eq, Structural)]
@@file keramics-formats/src/ewf/file_header.rs
@@item EwfFileHeader
@@raw
// ---- the structures ----
spec fn file_header_ok(s: Seq<u8>) -> bool {
    13 <= s.len() && s.subrange(0, 8) == seq![0x45u8, 0x56u8, 0x46u8, 0x09u8, 0x0du8, 0x0au8, 0xffu8, 0x00u8] && s[8] == 1 && s[11] == 0 && s[12] == 0
}
@@fn EwfFileHeader::new
@@fn EwfFileHeader::read_data
    ensures r is Ok <==> file_header_ok(data@), r is Ok ==> final(self).segment_number == le16(data@, 9),
@@at start
proof {
    assert(EWF_FILE_HEADER_SIGNATURE@ =~= seq![0x45u8, 0x56u8, 0x46u8, 0x09u8, 0x0du8, 0x0au8, 0xffu8, 0x00u8]);
    if data@.len() >= 13 { let z = data@.subrange(11, 13); assert(z.len() == 2 && z[0] == data@[11] && z[1] == data@[12]); assert forall|q: Seq<u8>| q.len() == 2 && q[0] == 0 && #[trigger] q[1] == 0 && z[0] == 0 && z[1] == 0 implies q == z by { assert(q =~= z); } }
}
@@fn EwfFileHeader::read_at_position
    requires position == SeekFrom::Start(0),
    ensures
        ({
            let s = at(data_stream.content(), 0, 13);
            &&& r is Ok ==> 13 <= data_stream.content().len() && file_header_ok(s) && final(self).segment_number == le16(s, 9)
            &&& data_stream.sound() && 13 <= data_stream.content().len() && file_header_ok(s) ==> r is Ok
        }),
@@file keramics-formats/src/ewf/section_header.rs
@@item EwfSectionHeader
@@raw
spec fn section_is(h: EwfSectionHeader, s: Seq<u8>) -> bool { h.section_type@ == s.subrange(0, 16) && h.next_offset == le64(s, 16) && h.size == le64(s, 24) }
@@fn EwfSectionHeader::new
@@fn EwfSectionHeader::read_data
    ensures r is Ok <==> 76 <= data@.len() && sum_ok(data@, 72), r is Ok ==> section_is(*final(self), data@),
@@at let:stored_checksum after
proof { assert(data@.subrange(0, 72) =~= data@.take(72)); }
@@fn EwfSectionHeader::read_at_position
    requires pos_of(position) >= 0,
    ensures
        ({
            let c = data_stream.content();
            let s = at(c, pos_of(position), 76);
            &&& r is Ok ==> pos_of(position) + 76 <= c.len() && sum_ok(s, 72) && section_is(*final(self), s)
            &&& data_stream.sound() && pos_of(position) + 76 <= c.len() && sum_ok(s, 72) ==> r is Ok
        }),
@@file keramics-formats/src/ewf/volume.rs
@@item EwfE01Volume
@@item EwfS01Volume
@@raw
spec fn e01_is(v: EwfE01Volume, s: Seq<u8>) -> bool {
    &&& v.media_type == s[0] && v.number_of_chunks == le32(s, 4) && v.sectors_per_chunk == le32(s, 8) && v.bytes_per_sector == le32(s, 12)
    &&& v.number_of_sectors == le64(s, 16) && v.error_granularity == le32(s, 56) && v.set_identifier == uuid_le(s.subrange(64, 80))
}
spec fn s01_is(v: EwfS01Volume, s: Seq<u8>) -> bool {
    v.number_of_chunks == le32(s, 4) && v.sectors_per_chunk == le32(s, 8) && v.bytes_per_sector == le32(s, 12) && v.number_of_sectors == le32(s, 16)
}
@@fn EwfE01Volume::new
@@fn EwfE01Volume::read_data
    ensures r is Ok <==> 1052 <= data@.len() && sum_ok(data@, 1048), r is Ok ==> e01_is(*final(self), data@),
@@at let:stored_checksum after
proof { assert(data@.subrange(0, 1048) =~= data@.take(1048)); }
@@fn EwfE01Volume::read_at_position
    requires pos_of(position) >= 0,
    ensures
        ({
            let c = data_stream.content();
            let s = at(c, pos_of(position), 1052);
            &&& r is Ok ==> pos_of(position) + 1052 <= c.len() && sum_ok(s, 1048) && e01_is(*final(self), s)
            &&& data_stream.sound() && pos_of(position) + 1052 <= c.len() && sum_ok(s, 1048) ==> r is Ok
        }),
@@fn EwfS01Volume::new
@@fn EwfS01Volume::read_data
    ensures r is Ok <==> 94 <= data@.len() && sum_ok(data@, 90), r is Ok ==> s01_is(*final(self), data@),
@@at let:stored_checksum after
proof { assert(data@.subrange(0, 90) =~= data@.take(90)); }
@@fn EwfS01Volume::read_at_position
    requires pos_of(position) >= 0,
    ensures
        ({
            let c = data_stream.content();
            let s = at(c, pos_of(position), 94);
            &&& r is Ok ==> pos_of(position) + 94 <= c.len() && sum_ok(s, 90) && s01_is(*final(self), s)
            &&& data_stream.sound() && pos_of(position) + 94 <= c.len() && sum_ok(s, 90) ==> r is Ok
        }),
@@file keramics-formats/src/ewf/digest.rs
@@item EwfDigest
@@fn EwfDigest::new
@@fn EwfDigest::read_data
    ensures r is Ok <==> 80 <= data@.len() && sum_ok(data@, 76), r is Ok ==> final(self).md5_hash@ == data@.subrange(0, 16) && final(self).sha1_hash@ == data@.subrange(16, 36),
@@at let:stored_checksum after
proof { assert(data@.subrange(0, 76) =~= data@.take(76)); }
@@fn EwfDigest::read_at_position
    requires pos_of(position) >= 0,
    ensures
        ({
            let c = data_stream.content();
            let s = at(c, pos_of(position), 80);
            &&& r is Ok ==> pos_of(position) + 80 <= c.len() && sum_ok(s, 76) && final(self).md5_hash@ == s.subrange(0, 16) && final(self).sha1_hash@ == s.subrange(16, 36)
            &&& data_stream.sound() && pos_of(position) + 80 <= c.len() && sum_ok(s, 76) ==> r is Ok
        }),
@@file keramics-formats/src/ewf/hash.rs
@@item EwfHash
@@fn EwfHash::new
@@fn EwfHash::read_data
    ensures r is Ok <==> 36 <= data@.len() && sum_ok(data@, 32), r is Ok ==> final(self).md5_hash@ == data@.subrange(0, 16),
@@at let:stored_checksum after
proof { assert(data@.subrange(0, 32) =~= data@.take(32)); }
@@fn EwfHash::read_at_position
    requires pos_of(position) >= 0,
    ensures
        ({
            let c = data_stream.content();
            let s = at(c, pos_of(position), 36);
            &&& r is Ok ==> pos_of(position) + 36 <= c.len() && sum_ok(s, 32) && final(self).md5_hash@ == s.subrange(0, 16)
            &&& data_stream.sound() && pos_of(position) + 36 <= c.len() && sum_ok(s, 32) ==> r is Ok
        }),
@@file keramics-formats/src/ewf/table_header.rs
@@item EwfTableHeader
@@fn EwfTableHeader::new
@@fn EwfTableHeader::read_data
    ensures r is Ok <==> 24 <= data@.len() && sum_ok(data@, 20), r is Ok ==> final(self).number_of_entries == le32(data@, 0) && final(self).base_offset == le64(data@, 8),
@@at let:stored_checksum after
proof { assert(data@.subrange(0, 20) =~= data@.take(20)); }
@@file keramics-formats/src/ewf/table_footer.rs
@@item EwfTableFooter
@@fn EwfTableFooter::new
@@fn EwfTableFooter::read_data
    ensures r is Ok <==> 4 <= data@.len(), r is Ok ==> final(self).checksum == le32(data@, 0),
@@file keramics-formats/src/ewf/table_entry.rs
@@item EwfTableEntry
@@fn EwfTableEntry::new
@@fn EwfTableEntry::is_compressed
    ensures r == (self.chunk_data_offset >= 0x80000000),
@@at start
proof { let x = self.chunk_data_offset; assert((x & 0x80000000) != 0 <==> x >= 0x80000000) by (bit_vector); }
@@fn EwfTableEntry::read_data
    ensures r is Ok <==> 4 <= data@.len(), r is Ok ==> final(self).chunk_data_offset == le32(data@, 0),
@@file keramics-formats/src/ewf/table.rs
@@item EwfTable
@@raw
spec fn count(t: Seq<u8>) -> int { le32(t, 0) as int }
spec fn base(t: Seq<u8>) -> int { le64(t, 8) as int }
spec fn entry(t: Seq<u8>, k: int) -> u32 { le32(t, 24 + 4 * k) }
spec fn table_ok(t: Seq<u8>) -> bool {
    24 <= t.len() && sum_ok(t, 20) && 28 + 4 * count(t) <= t.len() && le32(t, 24 + 4 * count(t)) == adler(1, t.subrange(24, 24 + 4 * count(t)))
}
spec fn table_is(v: EwfTable, t: Seq<u8>) -> bool {
    v.base_offset == base(t) && v.entries@.len() == count(t) && forall|k: int| 0 <= k < count(t) ==> (#[trigger] v.entries@[k]).chunk_data_offset == entry(t, k)
}
@@fn EwfTable::new
    ensures r.entries@.len() == 0,
@@fn EwfTable::read_data
    requires old(self).entries@.len() == 0,
    ensures r is Ok <==> table_ok(data@), r is Ok ==> table_is(*final(self), data@),
@@at let:table_footer after
proof {
    let n = footer_offset as int;
    assert(data@.subrange(n, n + 4).subrange(0, 4) =~= data@.subrange(n, n + 4));
}
@@loop 0
    invariant
        data_offset == 24 + 4 * it0, footer_offset == 24 + 4 * count(data@), footer_offset + 4 <= data@.len(), self.base_offset == base(data@),
        self.entries@.len() == it0,
        forall|k: int| 0 <= k < it0 ==> (#[trigger] self.entries@[k]).chunk_data_offset == entry(data@, k),
@@at loop 0 begin
proof {
    let n = data_offset as int;
    assert(data@.subrange(n, n + 4).subrange(0, 4) =~= data@.subrange(n, n + 4));
}
@@fn EwfTable::read_at_position
    requires pos_of(position) >= 0, old(self).entries@.len() == 0,
    ensures
        ({
            let c = data_stream.content();
            let s = at(c, pos_of(position), data_size as int);
            let ok = 28 <= data_size <= 16777216 && pos_of(position) + data_size <= c.len() && table_ok(s);
            &&& r is Ok ==> ok && table_is(*final(self), s)
            &&& data_stream.sound() && ok ==> r is Ok
        }),
@@at call:read_data before
proof { assert(data@ =~= at(data_stream.content(), pos_of(position), data_size as int)); }
@@file keramics-formats/src/ewf/error2_header.rs
@@item EwfError2Header
@@fn EwfError2Header::new
@@fn EwfError2Header::read_data
    ensures r is Ok <==> 520 <= data@.len() && sum_ok(data@, 516), r is Ok ==> final(self).number_of_entries == le32(data@, 0),
@@at let:stored_checksum after
proof { assert(data@.subrange(0, 516) =~= data@.take(516)); }
@@file keramics-formats/src/ewf/error2_footer.rs
@@item EwfError2Footer
@@fn EwfError2Footer::new
@@fn EwfError2Footer::read_data
    ensures r is Ok <==> 4 <= data@.len(), r is Ok ==> final(self).checksum == le32(data@, 0),
@@file keramics-formats/src/ewf/error2_entry.rs
@@item EwfError2Entry
@@fn EwfError2Entry::new
@@fn EwfError2Entry::read_data
    ensures r is Ok <==> 8 <= data@.len(), r is Ok ==> final(self).start_sector == le32(data@, 0) && final(self).number_of_sectors == le32(data@, 4),
@@file keramics-formats/src/ewf/error2.rs
@@item EwfError2
@@raw
spec fn error2_ok(t: Seq<u8>) -> bool {
    let n = count(t);
    520 <= t.len() && sum_ok(t, 516) && 524 + 8 * n <= t.len() && le32(t, 520 + 8 * n) == adler(1, t.subrange(520, 520 + 8 * n))
}
spec fn errors_at(c: Seq<u8>, d: int, z: int) -> bool { 28 <= z <= 16777216 && there(c, d, z) && error2_ok(at(c, d, z)) }
spec fn errors_are(v: EwfError2, t: Seq<u8>) -> bool {
    v.entries@.len() == count(t) && forall|k: int| 0 <= k < count(t) ==> (#[trigger] v.entries@[k]).start_sector == le32(t, 520 + 8 * k) && v.entries@[k].number_of_sectors == le32(t, 524 + 8 * k)
}
@@fn EwfError2::new
    ensures r.entries@.len() == 0,
@@fn EwfError2::read_data
    requires old(self).entries@.len() == 0,
    ensures r is Ok <==> error2_ok(data@), r is Ok ==> errors_are(*final(self), data@),
@@at let:error2_footer after
proof {
    let n = footer_offset as int;
    assert(data@.subrange(n, n + 4).subrange(0, 4) =~= data@.subrange(n, n + 4));
}
@@loop 0
    invariant
        data_offset == 520 + 8 * it0, footer_offset == 520 + 8 * count(data@), footer_offset + 4 <= data@.len(),
        self.entries@.len() == it0,
        forall|k: int| 0 <= k < it0 ==> (#[trigger] self.entries@[k]).start_sector == le32(data@, 520 + 8 * k) && self.entries@[k].number_of_sectors == le32(data@, 524 + 8 * k),
@@at loop 0 begin
proof {
    let n = data_offset as int;
    assert(data@.subrange(n, n + 8).subrange(0, 4) =~= data@.subrange(n, n + 4));
    assert(data@.subrange(n, n + 8).subrange(4, 8) =~= data@.subrange(n + 4, n + 8));
}
@@fn EwfError2::read_at_position
    requires pos_of(position) >= 0, old(self).entries@.len() == 0,
    ensures
        ({
            let c = data_stream.content();
            let ok = errors_at(c, pos_of(position), data_size as int);
            &&& r is Ok ==> ok && errors_are(*final(self), at(c, pos_of(position), data_size as int))
            &&& data_stream.sound() && ok ==> r is Ok
        }),
@@at call:read_data before
proof { assert(data@ =~= at(data_stream.content(), pos_of(position), data_size as int)); }
@@file keramics-formats/src/ewf/file.rs
@@item EwfFile
@@raw
// ---- a segment file: sections from offset 13 to its end, the last is done or next ----
spec fn t_data() -> Seq<u8> { seq![100u8, 97u8, 116u8, 97u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
spec fn t_digest() -> Seq<u8> { seq![100u8, 105u8, 103u8, 101u8, 115u8, 116u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
spec fn t_disk() -> Seq<u8> { seq![100u8, 105u8, 115u8, 107u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
spec fn t_done() -> Seq<u8> { seq![100u8, 111u8, 110u8, 101u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
spec fn t_error2() -> Seq<u8> { seq![101u8, 114u8, 114u8, 111u8, 114u8, 50u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
spec fn t_hash() -> Seq<u8> { seq![104u8, 97u8, 115u8, 104u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
spec fn t_header() -> Seq<u8> { seq![104u8, 101u8, 97u8, 100u8, 101u8, 114u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
spec fn t_header2() -> Seq<u8> { seq![104u8, 101u8, 97u8, 100u8, 101u8, 114u8, 50u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
spec fn t_next() -> Seq<u8> { seq![110u8, 101u8, 120u8, 116u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
spec fn t_sectors() -> Seq<u8> { seq![115u8, 101u8, 99u8, 116u8, 111u8, 114u8, 115u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
spec fn t_table() -> Seq<u8> { seq![116u8, 97u8, 98u8, 108u8, 101u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
spec fn t_table2() -> Seq<u8> { seq![116u8, 97u8, 98u8, 108u8, 101u8, 50u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
spec fn t_volume() -> Seq<u8> { seq![118u8, 111u8, 108u8, 117u8, 109u8, 101u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
proof fn lemma_types()
    ensures
        EWF_SECTION_TYPE_DATA@ == t_data(),
        EWF_SECTION_TYPE_DIGEST@ == t_digest(),
        EWF_SECTION_TYPE_DISK@ == t_disk(),
        EWF_SECTION_TYPE_DONE@ == t_done(),
        EWF_SECTION_TYPE_ERROR2@ == t_error2(),
        EWF_SECTION_TYPE_HASH@ == t_hash(),
        EWF_SECTION_TYPE_HEADER@ == t_header(),
        EWF_SECTION_TYPE_HEADER2@ == t_header2(),
        EWF_SECTION_TYPE_NEXT@ == t_next(),
        EWF_SECTION_TYPE_SECTORS@ == t_sectors(),
        EWF_SECTION_TYPE_TABLE@ == t_table(),
        EWF_SECTION_TYPE_TABLE2@ == t_table2(),
        EWF_SECTION_TYPE_VOLUME@ == t_volume(),
{
    assert(EWF_SECTION_TYPE_DATA@ =~= t_data());
    assert(EWF_SECTION_TYPE_DIGEST@ =~= t_digest());
    assert(EWF_SECTION_TYPE_DISK@ =~= t_disk());
    assert(EWF_SECTION_TYPE_DONE@ =~= t_done());
    assert(EWF_SECTION_TYPE_ERROR2@ =~= t_error2());
    assert(EWF_SECTION_TYPE_HASH@ =~= t_hash());
    assert(EWF_SECTION_TYPE_HEADER@ =~= t_header());
    assert(EWF_SECTION_TYPE_HEADER2@ =~= t_header2());
    assert(EWF_SECTION_TYPE_NEXT@ =~= t_next());
    assert(EWF_SECTION_TYPE_SECTORS@ =~= t_sectors());
    assert(EWF_SECTION_TYPE_TABLE@ =~= t_table());
    assert(EWF_SECTION_TYPE_TABLE2@ =~= t_table2());
    assert(EWF_SECTION_TYPE_VOLUME@ =~= t_volume());
}
spec fn type_at(c: Seq<u8>, o: int) -> Seq<u8> { at(c, o, 76).subrange(0, 16) }
spec fn next_at(c: Seq<u8>, o: int) -> int { le64(at(c, o, 76), 16) as int }
spec fn ends(c: Seq<u8>, o: int) -> bool { type_at(c, o) == t_done() || type_at(c, o) == t_next() }
spec fn size_at(c: Seq<u8>, o: int) -> int { if ends(c, o) { 76 } else { next_at(c, o) - o } }
spec fn section_ok(c: Seq<u8>, o: int) -> bool {
    let z = le64(at(c, o, 76), 24);
    &&& o + 76 <= c.len() && sum_ok(at(c, o, 76), 72) && (z == 0 || z == size_at(c, o))
    &&& if ends(c, o) { next_at(c, o) == o } else { size_at(c, o) >= 76 }
}
spec fn sections_ok(c: Seq<u8>, o: int) -> bool
    decreases (if o < c.len() { c.len() - o } else { 0 }),
{
    if o >= c.len() { o == c.len() } else { section_ok(c, o) && if ends(c, o) { o + 76 == c.len() } else { sections_ok(c, o + size_at(c, o)) } }
}
spec fn file_ok(c: Seq<u8>) -> bool { 13 <= c.len() && file_header_ok(at(c, 0, 13)) && sections_ok(c, 13) }
spec fn number(c: Seq<u8>) -> u16 { le16(at(c, 0, 13), 9) }
// where section k is
spec fn pos(c: Seq<u8>, k: int) -> int
    decreases k,
{
    if k <= 0 { 13 } else { pos(c, k - 1) + size_at(c, pos(c, k - 1)) }
}
impl EwfFile {
    spec fn image(self) -> Seq<u8> { if self.data_stream is Some { self.data_stream->0.content() } else { Seq::empty() } }
    spec fn section(self, c: Seq<u8>, k: int) -> bool {
        let h = self.sections@[k];
        let o = pos(c, k);
        &&& h.section_type@ == type_at(c, o) && h.next_offset == next_at(c, o) && h.size == size_at(c, o)
        &&& section_ok(c, o) && 13 <= o < c.len() && o + size_at(c, o) <= u64::MAX
    }
    spec fn holds(self, c: Seq<u8>) -> bool {
        &&& forall|k: int| 0 <= k < self.sections@.len() ==> #[trigger] self.section(c, k)
        &&& forall|k: int| 0 <= k < self.sections@.len() - 1 ==> !#[trigger] ends(c, pos(c, k))
    }
    spec fn read_as(self, c: Seq<u8>) -> bool {
        self.holds(c) && pos(c, self.sections@.len() as int) == c.len() && self.segment_number == number(c)
    }
}
@@fn EwfFile::new
    ensures r.sections@.len() == 0, r.data_stream is None,
@@fn EwfFile::read_exact_at_position
    requires pos_of(position) >= 0,
    ensures *final(self) == *old(self), final(data)@.len() == old(data)@.len(),
        ({
            let c = old(self).image();
            let n = old(data)@.len() as int;
            &&& r is Ok ==> old(self).data_stream is Some && (n == 0 || pos_of(position) + n <= c.len()) && final(data)@ =~= at(c, pos_of(position), n)
            &&& old(self).data_stream is Some && old(self).data_stream->0.sound() && pos_of(position) + n <= c.len() ==> r is Ok
        }),
@@fn EwfFile::read_sections
    requires old(self).sections@.len() == 0,
    ensures final(self).data_stream == old(self).data_stream,
        r is Ok ==> file_ok(data_stream.content()) && final(self).read_as(data_stream.content()),
        data_stream.sound() && file_ok(data_stream.content()) ==> r is Ok,
@@isolate
@@at start
    let ghost c = data_stream.content();
    proof { lemma_types(); }
@@loop 0
    invariant
        c == data_stream.content(), file_size == c.len(), *self == (EwfFile { sections: self.sections, ..*old(self) }),
        13 <= c.len() && file_header_ok(at(c, 0, 13)) && file_header.segment_number == number(c),
        13 <= file_offset, file_offset == pos(c, self.sections@.len() as int), self.holds(c),
    invariant_except_break
        sections_ok(c, 13) == sections_ok(c, file_offset as int),
        self.sections@.len() > 0 ==> !ends(c, pos(c, self.sections@.len() - 1)),
    ensures
        sections_ok(c, 13) == (file_offset == c.len()),
    decreases (if file_offset < c.len() { c.len() - file_offset } else { 0 }),
@@at loop 0 begin
    let ghost o = file_offset as int;
    let ghost f0 = *self;
    proof { lemma_types(); }
@@at assign:file_offset after
    proof {
        let n = f0.sections@.len() as int;
        assert(self.sections@.len() == n + 1);
        assert(pos(c, n + 1) == o + size_at(c, o));
        assert forall|k: int| 0 <= k < n + 1 implies #[trigger] self.section(c, k) by { if k < n { assert(f0.section(c, k)); } }
        assert forall|k: int| 0 <= k < n implies !#[trigger] ends(c, pos(c, k)) by { }
    }
@@at assign:self.segment_number before
    let ghost f1 = *self;
@@at tail
    proof { assert forall|k: int| 0 <= k < self.sections@.len() implies #[trigger] self.section(c, k) by { assert(f1.section(c, k)); } }
@@fn EwfFile::read_data_stream
    requires old(self).sections@.len() == 0, old(self).data_stream is None,
    ensures
        r is Ok ==> final(self).data_stream is Some && final(self).image() == data_stream.content() && (data_stream.sound() ==> final(self).data_stream->0.sound())
            && file_ok(data_stream.content()) && final(self).read_as(data_stream.content()),
        data_stream.sound() && file_ok(data_stream.content()) ==> r is Ok,
@@at assign:self.data_stream before
    let ghost f1 = *self;
@@at tail
    proof { let c = data_stream.content(); assert forall|k: int| 0 <= k < self.sections@.len() implies #[trigger] self.section(c, k) by { assert(f1.section(c, k)); } }
@@file keramics-formats/src/ewf/block_range.rs
@@item EwfBlockRangeType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@@item EwfBlockRange
@@fn EwfBlockRange::new
    ensures r == (EwfBlockRange { media_offset, segment_number, data_offset, data_size, range_type }),
@@raw
// ---- outside: the file resolver, file names, zlib and the header sections ----
#[verifier::external_body]
struct FileResolverReference { _p: u8 }
struct FakeFileResolver { _p: u8 }
impl FakeFileResolver {
    #[verifier::external_body]
    fn new() -> FakeFileResolver { unimplemented!() }
}
// a file name: its text, and what is before and after the last dot that is not at its start
#[verifier::external_body]
struct PathComponent { _p: u8 }
spec fn last_dot(t: Seq<char>, n: int) -> int
    decreases n,
{
    if n <= 0 { -1 } else if t[n - 1] == '.' { n - 1 } else { last_dot(t, n - 1) }
}
spec fn dot(t: Seq<char>) -> int { last_dot(t, t.len() as int) }
spec fn stem_of(t: Seq<char>) -> Seq<char> { if dot(t) > 0 { t.take(dot(t)) } else { t } }
impl PathComponent {
    uninterp spec fn text(self) -> Seq<char>;
    #[verifier::external_body]
    fn from(s: &String) -> (r: PathComponent) ensures r.text() == s@ { unimplemented!() }
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    fn extension(&self) -> (r: Option<PathComponent>)
        ensures r is Some <==> dot(self.text()) > 0, r is Some ==> r->0.text() == self.text().skip(dot(self.text()) + 1),
    { unimplemented!() }
    #[verifier::external_body]
    fn file_stem(&self) -> (r: Option<PathComponent>)
        ensures r is Some <==> self.text().len() > 0, r is Some ==> r->0.text() == stem_of(self.text()),
    { unimplemented!() }
}
impl FileResolverReference {
    // the files by their name; a sound resolver does not fail and its streams do not fail
    uninterp spec fn files(&self) -> Map<Seq<char>, Seq<u8>>;
    uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body]
    fn new(f: Box<FakeFileResolver>) -> FileResolverReference { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: FileResolverReference) ensures r.files() == self.files(), r.sound() == self.sound() { unimplemented!() }
    #[verifier::external_body]
    fn get_data_stream(&self, path_components: &[PathComponent; 1]) -> (r: Result<Option<DataStreamReference>, ErrorTrace>)
        ensures
            r is Ok ==> (r->Ok_0 is Some <==> self.files().contains_key(path_components@[0].text())),
            r is Ok && r->Ok_0 is Some ==> r->Ok_0->0.content() == self.files()[path_components@[0].text()],
            self.sound() ==> r is Ok && (r->Ok_0 is Some ==> r->Ok_0->0.sound()),
    { unimplemented!() }
}
#[verifier::external_body]
struct EwfHeaderValue { _p: u8 }
uninterp spec fn header_ok(s: Seq<u8>) -> bool;
uninterp spec fn header2_ok(s: Seq<u8>) -> bool;
struct EwfHeader { _p: u8 }
struct EwfHeader2 { _p: u8 }
impl EwfHeader {
    #[verifier::external_body]
    fn new() -> EwfHeader { unimplemented!() }
    #[verifier::external_body]
    fn read_at_position(&mut self, data_stream: &DataStreamReference, data_size: u64, position: SeekFrom, header_values: &mut HashMap<EwfHeaderValueType, EwfHeaderValue>) -> (r: Result<(), ErrorTrace>)
        ensures ({
            let c = data_stream.content();
            let ok = there(c, pos_of(position), data_size as int) && header_ok(at(c, pos_of(position), data_size as int));
            (r is Ok ==> ok) && (data_stream.sound() && ok ==> r is Ok)
        }),
    { unimplemented!() }
}
impl EwfHeader2 {
    #[verifier::external_body]
    fn new() -> EwfHeader2 { unimplemented!() }
    #[verifier::external_body]
    fn read_at_position(&mut self, data_stream: &DataStreamReference, data_size: u64, position: SeekFrom, header_values: &mut HashMap<EwfHeaderValueType, EwfHeaderValue>) -> (r: Result<(), ErrorTrace>)
        ensures ({
            let c = data_stream.content();
            let ok = there(c, pos_of(position), data_size as int) && header2_ok(at(c, pos_of(position), data_size as int));
            (r is Ok ==> ok) && (data_stream.sound() && ok ==> r is Ok)
        }),
    { unimplemented!() }
}
// what zlib makes of s when there is room for n bytes: at most n bytes, or an error
uninterp spec fn zlib(s: Seq<u8>, n: int) -> Option<Seq<u8>>;
struct ZlibContext { uncompressed_data_size: usize }
impl ZlibContext {
    #[verifier::external_body]
    fn new() -> ZlibContext { unimplemented!() }
    #[verifier::external_body]
    fn decompress(&mut self, s: &Vec<u8>, d: &mut Vec<u8>) -> (r: Result<(), ErrorTrace>)
        ensures ({
            let z = zlib(s@, old(d)@.len() as int);
            &&& final(d)@.len() == old(d)@.len() && (r is Ok <==> z is Some) && (s@.len() == 0 ==> r is Err)
            &&& r is Ok ==> final(self).uncompressed_data_size == z->0.len() && z->0.len() <= old(d)@.len() && final(d)@.take(z->0.len() as int) == z->0
        }),
    { unimplemented!() }
}
@@file keramics-formats/src/ewf/image.rs
@@item EwfImage
@@raw
// ---- the names of the segment files: .E01 to .E99, .EAA to .ZZZ ----
spec fn upper(n: EwfNamingSchema) -> bool { n is E01UpperCase || n is S01UpperCase }
spec fn letter(n: EwfNamingSchema) -> int { match n { EwfNamingSchema::E01UpperCase => 0x45, EwfNamingSchema::S01UpperCase => 0x53, EwfNamingSchema::E01LowerCase => 0x65, EwfNamingSchema::S01LowerCase => 0x73 } }
spec fn ch(v: int) -> char { v as u8 as char }
spec fn ext(k: int, n: EwfNamingSchema) -> Option<Seq<char>> {
    let a = if upper(n) { 0x41int } else { 0x61 };
    if k < 1 { None }
    else if k < 100 { Some(seq![ch(letter(n)), ch(0x30 + k / 10), ch(0x30 + k % 10)]) }
    else if letter(n) + (k - 100) / 26 / 26 > a + 25 { None }
    else { Some(seq![ch(letter(n) + (k - 100) / 26 / 26), ch(a + (k - 100) / 26 % 26), ch(a + (k - 100) % 26)]) }
}
spec fn seg_name(stem: Seq<char>, k: int, n: EwfNamingSchema) -> Seq<char> { stem.push('.') + ext(k, n)->0 }
spec fn naming(x: Seq<char>) -> Option<EwfNamingSchema> {
    if x == "E01"@ { Some(EwfNamingSchema::E01UpperCase) } else if x == "S01"@ { Some(EwfNamingSchema::S01UpperCase) }
    else if x == "e01"@ { Some(EwfNamingSchema::E01LowerCase) } else if x == "s01"@ { Some(EwfNamingSchema::S01LowerCase) } else { None }
}
// ---- what the segment files say: the volume, the chunks in order, the hashes ----
ghost struct Im {
    rs: Seq<EwfBlockRange>, chunks: u32, spc: u32, bps: u32, sectors: u64, media: EwfMediaType, gran: u32, set: Uuid, md5: Seq<u8>, sha1: Seq<u8>,
    last: bool, end: Option<int>,
}
impl Im {
    spec fn block(self) -> int { self.spc * self.bps }
    spec fn size(self) -> int { self.sectors * self.bps }
}
// the offset of a chunk has 31 bits and the top bit says it is compressed, up to the first chunk that ends beyond 2 GiB
spec fn off(t: Seq<u8>, k: int, over: bool) -> int { if over { entry(t, k) as int } else { entry(t, k) as int % 0x80000000 } }
spec fn len(t: Seq<u8>, k: int, over: bool) -> int { if off(t, k, over) < off(t, k + 1, over) { off(t, k + 1, over) - off(t, k, over) } else { entry(t, k + 1) - off(t, k, over) } }
spec fn over(t: Seq<u8>, k: int) -> bool
    decreases k,
{
    k > 0 && (over(t, k - 1) || off(t, k - 1, over(t, k - 1)) + len(t, k - 1, over(t, k - 1)) > 0x7fffffff)
}
spec fn chunk(t: Seq<u8>, seg: u16, end: int, k: int, s: Im) -> Option<EwfBlockRange> {
    let x = over(t, k);
    let o = base(t) + off(t, k, x);
    let n = if k + 1 < count(t) { len(t, k, x) } else { end - o };
    let last = k + 1 >= count(t);
    if o + n > u64::MAX || n > u32::MAX || (if last { n < 0 } else { n <= 0 }) || s.rs.len() >= s.chunks { None }
    else { Some(EwfBlockRange { media_offset: (s.rs.len() * s.block()) as u64, segment_number: seg, data_offset: o as u64, data_size: n as u32,
        range_type: if !x && entry(t, k) >= 0x80000000 { EwfBlockRangeType::Compressed } else { EwfBlockRangeType::InFile } }) }
}
spec fn chunks(t: Seq<u8>, seg: u16, end: int, k: int, s: Im) -> Option<Im>
    decreases count(t) - k,
{
    if k >= count(t) { Some(s) }
    else { match chunk(t, seg, end, k, s) { None => None, Some(v) => chunks(t, seg, end, k + 1, Im { rs: s.rs.push(v), ..s }) } }
}
spec fn table_at(c: Seq<u8>, d: int, z: int) -> bool { 28 <= z <= 16777216 && there(c, d, z) && table_ok(at(c, d, z)) }
spec fn media(b: u8) -> EwfMediaType {
    if b == 0 { EwfMediaType::RemoveableDisk } else if b == 1 { EwfMediaType::FixedDisk } else if b == 3 { EwfMediaType::OpticalDisk }
    else if b == 0x0e { EwfMediaType::LogicalEvidence } else if b == 0x10 { EwfMediaType::Memory } else { EwfMediaType::Unknown }
}
spec fn volume_sect(c: Seq<u8>, d: int, z: int, seg: u16, s: Im) -> Option<Im> {
    let v = at(c, d, 1052);
    let u = at(c, d, 94);
    if seg != 1 || s.block() != 0 || s.size() != 0 { None }
    else if z == 94 && there(c, d, 94) && sum_ok(u, 90) && le32(u, 8) * le32(u, 12) <= u32::MAX && le32(u, 16) * le32(u, 12) <= u64::MAX {
        Some(Im { chunks: le32(u, 4), spc: le32(u, 8), bps: le32(u, 12), sectors: le32(u, 16) as u64, ..s })
    } else if z == 1052 && there(c, d, 1052) && sum_ok(v, 1048) && le32(v, 8) * le32(v, 12) <= u32::MAX && le64(v, 16) * le32(v, 12) <= u64::MAX {
        Some(Im { chunks: le32(v, 4), spc: le32(v, 8), bps: le32(v, 12), sectors: le64(v, 16), media: media(v[0]), gran: le32(v, 56), set: uuid_le(v.subrange(64, 80)), ..s })
    } else { None }
}
spec fn table_sect(c: Seq<u8>, o: int, d: int, z: int, seg: u16, s: Im) -> Option<Im> {
    let t = at(c, d, z);
    if s.block() == 0 || s.size() == 0 || !table_at(c, d, z) || count(t) == 0 { None }
    else { chunks(t, seg, if s.end is Some { s.end->0 } else { next_at(c, o) }, 0, s) }
}
// the section at o
spec fn section(c: Seq<u8>, o: int, seg: u16, s: Im) -> Option<Im> {
    let t = type_at(c, o);
    let d = o + 76;
    let z = size_at(c, o) - 76;
    let one = |b: bool, x: Im| -> Option<Im> { if b { Some(x) } else { None } };
    if t == t_data() { if there(c, d, 1052) && sum_ok(at(c, d, 1052), 1048) && uuid_le(at(c, d, 1052).subrange(64, 80)) == s.set { Some(s) } else { None } }
    else if t == t_digest() { if there(c, d, 80) && sum_ok(at(c, d, 80), 76) { Some(Im { md5: at(c, d, 80).subrange(0, 16), sha1: at(c, d, 80).subrange(16, 36), ..s }) } else { None } }
    else if t == t_disk() || t == t_volume() { volume_sect(c, d, z, seg, s) }
    else if t == t_done() { Some(Im { last: true, ..s }) }
    else if t == t_error2() { if errors_at(c, d, z) { Some(s) } else { None } }
    else if t == t_hash() { if there(c, d, 36) && sum_ok(at(c, d, 36), 32) { Some(Im { md5: at(c, d, 36).subrange(0, 16), ..s }) } else { None } }
    else if t == t_header() { if seg == 1 && there(c, d, z) && header_ok(at(c, d, z)) { Some(s) } else { None } }
    else if t == t_header2() { if seg == 1 && there(c, d, z) && header2_ok(at(c, d, z)) { Some(s) } else { None } }
    else if t == t_next() { Some(Im { last: false, ..s }) }
    else if t == t_sectors() { Some(Im { end: Some(next_at(c, o)), ..s }) }
    else if t == t_table() { table_sect(c, o, d, z, seg, s) }
    else if t == t_table2() { if table_at(c, d, z) { Some(s) } else { None } }
    else { Some(s) }
}
// the sections of a file, the k-th to the n-th
spec fn sections(c: Seq<u8>, k: int, n: int, seg: u16, s: Im) -> Option<Im>
    decreases n - k,
{
    if k >= n { Some(s) } else { match section(c, pos(c, k), seg, s) { None => None, Some(x) => sections(c, k + 1, n, seg, x) } }
}
// the number of sections of a file from offset o
spec fn section_count(c: Seq<u8>, o: int) -> int
    decreases (if o < c.len() { c.len() - o } else { 0 }),
{
    if o >= c.len() { 0 } else if size_at(c, o) < 76 || ends(c, o) { 1 } else { 1 + section_count(c, o + size_at(c, o)) }
}
// the segment files from the k-th on
spec fn segs(m: Map<Seq<char>, Seq<u8>>, stem: Seq<char>, sch: EwfNamingSchema, k: int, s: Im) -> Option<Im>
    decreases 65536 - k,
{
    let nm = seg_name(stem, k, sch);
    let c = m[nm];
    if k < 1 || k > 65535 || ext(k, sch) is None || !m.contains_key(nm) || !file_ok(c) || number(c) != k { None }
    else { match sections(c, 0, section_count(c, 13), k as u16, Im { end: None, ..s }) {
        None => None,
        Some(x) => if x.last { Some(Im { end: None, ..x }) } else { segs(m, stem, sch, k + 1, Im { end: None, ..x }) },
    } }
}
spec fn no_image() -> Im {
    Im { rs: Seq::empty(), chunks: 0, spc: 0, bps: 0, sectors: 0, media: EwfMediaType::Unknown, gran: 0, set: Uuid { part1: 0, part2: 0, part3: 0, part4: 0, part5: 0 },
        md5: Seq::new(16, |i: int| 0u8), sha1: Seq::new(20, |i: int| 0u8), last: false, end: None }
}
proof fn lemma_count(f: EwfFile, c: Seq<u8>, k: int)
    requires f.holds(c), pos(c, f.sections@.len() as int) == c.len(), 0 <= k <= f.sections@.len(),
    ensures section_count(c, pos(c, k)) == f.sections@.len() - k,
    decreases f.sections@.len() - k,
{
    let n = f.sections@.len() as int;
    if k < n {
        assert(f.section(c, k));
        assert(pos(c, k + 1) == pos(c, k) + size_at(c, pos(c, k)));
        lemma_count(f, c, k + 1);
        if k == n - 1 { assert(section_count(c, pos(c, n)) == 0); } else { assert(!ends(c, pos(c, k))); }
    }
}
spec fn in_chunk(v: EwfBlockRange, block: int, o: int) -> bool { v.media_offset <= o < v.media_offset + block }
spec fn cached_as(f: EwfFile, c: Seq<u8>, sound: bool) -> bool { f.data_stream is Some && f.image() == c && (sound ==> f.data_stream->0.sound()) }
// the tree holds the chunks of the first n bytes, of segments 1 to k
#[verifier::opaque]
spec fn tree_is(tree: BlockTree<EwfBlockRange>, b: int, media: int, n: int, k: int) -> bool {
    &&& tree.wf()
    &&& b > 0 ==> n % b == 0
    &&& b == 0 || media == 0 ==> n == 0
    &&& n <= tree.data_size
    &&& forall|o: int| #![trigger tree.at(o)] tree.at(o) is Some <==> 0 <= o < n
    &&& forall|o: int| (#[trigger] tree.at(o)) is Some ==> chunk_is(tree.at(o)->0, b, o, n, k)
    &&& forall|o: int, q: int| #![trigger tree.at(o), tree.at(q)] tree.at(o) is Some && in_chunk(tree.at(o)->0, b, q) ==> tree.at(q) == tree.at(o)
}
spec fn chunk_is(v: EwfBlockRange, b: int, o: int, n: int, k: int) -> bool {
    in_chunk(v, b, o) && v.media_offset + b <= n && v.data_offset + v.data_size <= u64::MAX && 1 <= v.segment_number <= k
}
spec fn seg_is(names: Seq<String>, m: Map<Seq<char>, Seq<u8>>, k: int) -> bool {
    let c = m[names[k - 1]@];
    m.contains_key(names[k - 1]@) && file_ok(c) && number(c) == k
}
impl EwfImage {
    spec fn im(self, n: int, last: bool, end: Option<int>) -> Im {
        let b = self.block_size as int;
        Im {
            rs: Seq::new(if b > 0 { (n / b) as nat } else { 0 }, |i: int| self.block_tree.at(i * b)->0),
            chunks: self.number_of_chunks, spc: self.sectors_per_chunk, bps: self.bytes_per_sector, sectors: self.number_of_sectors, media: self.media_type, gran: self.error_granularity,
            set: self.set_identifier, md5: self.md5_hash@, sha1: self.sha1_hash@, last, end,
        }
    }
    spec fn tree_ok(self, n: int, k: int) -> bool { tree_is(self.block_tree, self.block_size as int, self.media_size as int, n, k) }
    spec fn chunk_ok(self, v: EwfBlockRange, o: int, n: int, k: int) -> bool { chunk_is(v, self.block_size as int, o, n, k) }
    spec fn sizes_ok(self) -> bool {
        &&& self.block_size == self.sectors_per_chunk * self.bytes_per_sector && self.media_size == self.number_of_sectors * self.bytes_per_sector
        &&& self.block_size != 0 && self.media_size != 0 ==> self.block_tree.data_size == self.number_of_chunks * self.block_size && self.block_tree.leaf_value_size == self.bytes_per_sector
    }
    spec fn seg(self, m: Map<Seq<char>, Seq<u8>>, k: int) -> Seq<u8> { m[self.segment_file_names@[k - 1]@] }
    spec fn segs_ok(self, m: Map<Seq<char>, Seq<u8>>, sound: bool) -> bool {
        &&& forall|k: int| 1 <= k <= self.segment_file_names@.len() ==> #[trigger] seg_is(self.segment_file_names@, m, k)
        &&& forall|k: u16| #[trigger] self.segment_file_cache.has(k) ==> 1 <= k <= self.segment_file_names@.len() && cached_as(self.segment_file_cache.held(k), self.seg(m, k as int), sound)
    }
    spec fn unpacked(self, v: EwfBlockRange) -> Option<Seq<u8>> {
        let c = self.seg(self.file_resolver.files(), v.segment_number as int);
        let z = zlib(at(c, v.data_offset as int, v.data_size as int), self.block_size as int);
        if v.data_offset + v.data_size <= c.len() && z is Some && z->0.len() <= self.block_size && (z->0.len() >= self.block_size || z->0.len() >= self.media_size - v.media_offset) { z } else { None }
    }
    spec fn blocks_ok(self) -> bool {
        forall|o: int| (#[trigger] self.block_tree.at(o)) is Some && o < self.media_size && self.block_tree.at(o)->0.range_type is Compressed && self.block_cache.has(self.block_tree.at(o)->0.media_offset) ==> self.block_ok(self.block_tree.at(o)->0)
    }
    spec fn block_ok(self, v: EwfBlockRange) -> bool {
        let z = self.unpacked(v);
        let d = self.block_cache.held(v.media_offset)@;
        z is Some && d.len() == self.block_size && z->0.len() <= d.len() && d.take(z->0.len() as int) == z->0
    }
    spec fn wf(self) -> bool {
        &&& exists|n: int| #[trigger] tree_is(self.block_tree, self.block_size as int, self.media_size as int, n, self.segment_file_names@.len() as int)
        &&& self.segs_ok(self.file_resolver.files(), self.file_resolver.sound()) && self.blocks_ok()
        &&& self.segment_file_names@.len() <= u16::MAX
    }
    // byte o of the disk, when it is there
    spec fn byte(self, o: int) -> Option<u8> {
        let v = self.block_tree.at(o)->0;
        let c = self.seg(self.file_resolver.files(), v.segment_number as int);
        let p = o - v.media_offset;
        if o < 0 || o >= self.media_size || self.block_tree.at(o) is None { None }
        else if v.range_type is Compressed { if self.unpacked(v) is Some { Some(self.unpacked(v)->0[p]) } else { None } }
        else if p < v.data_size && v.data_offset + p < c.len() { Some(c[v.data_offset + p]) }
        else { None }
    }
    // d are the bytes from o on
    spec fn bytes(self, o: int, d: Seq<u8>) -> bool { forall|i: int| 0 <= i < d.len() ==> self.byte(o + i) == Some(#[trigger] d[i]) }
    spec fn complete(self, o: int, n: int) -> bool { forall|i: int| o <= i < o + n ==> (#[trigger] self.byte(i)) is Some }
    spec fn same(self, o: Self) -> bool { self == (EwfImage { segment_file_cache: self.segment_file_cache, block_cache: self.block_cache, media_offset: self.media_offset, ..o }) }
    // what the segment files say
    spec fn reads(self, s: Im) -> bool {
        &&& self.number_of_chunks == s.chunks && self.sectors_per_chunk == s.spc && self.bytes_per_sector == s.bps && self.number_of_sectors == s.sectors
        &&& self.block_size == s.block() && self.media_size == s.size() && self.media_type == s.media && self.error_granularity == s.gran && self.set_identifier == s.set
        &&& self.md5_hash@ == s.md5 && self.sha1_hash@ == s.sha1
        &&& forall|i: int, o: int| 0 <= i < s.rs.len() && #[trigger] in_chunk(s.rs[i], s.block(), o) ==> self.block_tree.at(o) == Some(s.rs[i])
        &&& forall|o: int| o >= s.rs.len() * s.block() ==> #[trigger] self.block_tree.at(o) is None
    }
    spec fn fresh(self) -> bool {
        &&& self.segment_file_names@.len() == 0 && (forall|k: u16| !#[trigger] self.segment_file_cache.has(k)) && (forall|k: u64| !#[trigger] self.block_cache.has(k))
        &&& self.block_size == 0 && self.media_size == 0 && self.block_tree.wf() && self.block_tree.root_node is None && self.im(0, false, None) == no_image()
    }
}
@@fn EwfImage::new
    ensures r.fresh(), r.media_offset == 0,
@@at tail
    proof {
        let x = kx_tail.im(0, false, None);
        assert(x.rs =~= no_image().rs && x.md5 =~= no_image().md5 && x.sha1 =~= no_image().sha1);
    }
@@fn EwfImage::get_segment_file_extension
    ensures r is Ok <==> ext(segment_number as int, *naming_schema) is Some, r is Ok ==> r->Ok_0@ == ext(segment_number as int, *naming_schema)->0,
@@at let:segment_extension before
    let ghost e = extension@;
    proof { assert(e.len() == 3); }
@@loop 0
    invariant
        sl0@ == e, e.len() == 3, kx_v@.len() == it0, forall|j: int| 0 <= j < 3 ==> (#[trigger] e[j]) < 128, forall|j: int| 0 <= j < it0 ==> #[trigger] kx_v@[j] == e[j] as u8 as char,
@@at tail
    proof { assert(segment_extension@ =~= ext(segment_number as int, *naming_schema)->0); }
@@fn EwfImage::open_segment_file
    ensures
        ({
            let m = file_resolver.files();
            let c = m[segment_file_name@];
            let ok = m.contains_key(segment_file_name@) && file_ok(c) && number(c) == segment_number;
            &&& r is Ok ==> ok && cached_as(r->Ok_0.0, c, file_resolver.sound()) && r->Ok_0.0.read_as(c) && r->Ok_0.1.content() == c && (file_resolver.sound() ==> r->Ok_0.1.sound())
            &&& file_resolver.sound() && ok ==> r is Ok
        }),
@@raw
// ---- reading the segment files ----
proof fn lemma_bits(x: u32)
    ensures x & 0x7fffffff == x % 0x80000000,
{
    assert(x & 0x7fffffff == x % 0x80000000) by (bit_vector);
}
proof fn lemma_divides(n: int, b: int)
    requires b > 0, n >= 0, n % b == 0,
    ensures (n / b) * b == n, (n + b) % b == 0, (n + b) / b == n / b + 1,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, b);
    assert((n / b) * b == n) by (nonlinear_arith) requires n == b * (n / b) + n % b, n % b == 0;
    vstd::arithmetic::div_mod::lemma_div_plus_one(n, b);
    vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(n, b);
}
proof fn lemma_tree(x: EwfImage, n: int, k: int)
    requires x.tree_ok(n, k),
    ensures x.block_tree.wf(), x.block_size > 0 ==> n % x.block_size as int == 0, x.block_size == 0 || x.media_size == 0 ==> n == 0, n <= x.block_tree.data_size,
        forall|o: int| #![trigger x.block_tree.at(o)] x.block_tree.at(o) is Some <==> 0 <= o < n,
{
    reveal(tree_is);
}
// a chunk more
proof fn lemma_push(x: EwfImage, y: EwfImage, n: int, k: int, v: EwfBlockRange, last: bool, end: Option<int>)
    requires
        x.tree_ok(n, k), n >= 0, x.block_size > 0, x.media_size > 0, y == (EwfImage { block_tree: y.block_tree, ..x }), y.block_tree.wf(), n + x.block_size <= y.block_tree.data_size,
        v.media_offset == n, v.data_offset + v.data_size <= u64::MAX, 1 <= v.segment_number <= k,
        forall|o: int| n <= o < n + x.block_size ==> #[trigger] y.block_tree.at(o) == Some(v),
        forall|o: int| !(n <= o < n + x.block_size) ==> #[trigger] y.block_tree.at(o) == x.block_tree.at(o),
    ensures
        y.tree_ok(n + x.block_size, k), y.im(n + x.block_size, last, end) == (Im { rs: x.im(n, last, end).rs.push(v), ..x.im(n, last, end) }),
        x.im(n, last, end).rs.len() * x.block_size == n,
{
    reveal(tree_is);
    let b = x.block_size as int;
    lemma_divides(n, b);
    let r = x.im(n, last, end).rs;
    let q = y.im(n + b, last, end).rs;
    assert(q.len() == r.len() + 1);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] == r.push(v)[i] by {
        let c = r.len() as int;
        if i < c { assert(i * b < n && i * b >= 0) by (nonlinear_arith) requires 0 <= i < c, c * b == n, b > 0; }
        assert(y.block_tree.at(i * b) == if i < c { x.block_tree.at(i * b) } else { Some(v) });
    }
    assert(q =~= r.push(v));
    assert forall|o: int| #![trigger y.block_tree.at(o)] y.block_tree.at(o) is Some <==> 0 <= o < n + b by { assert(x.block_tree.at(o) is Some <==> 0 <= o < n); }
    assert forall|o: int| (#[trigger] y.block_tree.at(o)) is Some implies y.chunk_ok(y.block_tree.at(o)->0, o, n + b, k) by {
        if o < n { assert(x.chunk_ok(x.block_tree.at(o)->0, o, n, k)); }
    }
    assert forall|o: int, q: int| #![trigger y.block_tree.at(o), y.block_tree.at(q)] y.block_tree.at(o) is Some && in_chunk(y.block_tree.at(o)->0, b, q) implies y.block_tree.at(q) == y.block_tree.at(o) by {
        if o < n { assert(x.chunk_ok(x.block_tree.at(o)->0, o, n, k)); assert(x.block_tree.at(q) == x.block_tree.at(o)); }
    }
}
proof fn lemma_room(b: int, spc: int, bps: int, chunks: int, r: int, n: int)
    requires b == spc * bps, b > 0, bps >= 0, spc >= 0, r >= 0, r * b == n,
    ensures bps > 0, n % bps == 0, b % bps == 0, r < chunks <==> n + b <= chunks * b,
{
    assert(bps > 0) by (nonlinear_arith) requires b == spc * bps, b > 0, bps >= 0;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(spc, bps);
    lemma_scaled_mod(r, b, bps);
    assert(r < chunks ==> n + b <= chunks * b) by (nonlinear_arith) requires r * b == n, b > 0;
    assert(r >= chunks ==> n >= chunks * b) by (nonlinear_arith) requires r * b == n, b > 0;
}
// what the tree holds does not depend on the rest of the image
proof fn lemma_keep(x: EwfImage, y: EwfImage, n: int, k: int, last: bool, end: Option<int>)
    requires x.tree_ok(n, k), y.block_tree == x.block_tree, y.block_size == x.block_size, y.media_size == x.media_size,
    ensures y.tree_ok(n, k), y.tree_ok(n, k + 1), y.im(n, last, end).rs == x.im(n, last, end).rs,
{
    reveal(tree_is);
    assert(y.im(n, last, end).rs =~= x.im(n, last, end).rs);
    assert forall|o: int| (#[trigger] y.block_tree.at(o)) is Some implies y.chunk_ok(y.block_tree.at(o)->0, o, n, k) && y.chunk_ok(y.block_tree.at(o)->0, o, n, k + 1) by { assert(x.chunk_ok(x.block_tree.at(o)->0, o, n, k)); }
}
proof fn lemma_empty(x: EwfImage, k: int, last: bool, end: Option<int>)
    requires x.block_tree.wf(), x.block_tree.root_node is None,
    ensures x.tree_ok(0, k), x.im(0, last, end) == (Im { last, end, ..x.im(0, false, None) }), x.im(0, last, end).rs =~= Seq::empty(),
{
    reveal(tree_is);
    assert(x.im(0, last, end).rs =~= Seq::empty());
    assert(x.im(0, false, None).rs =~= Seq::empty());
}
@@fn EwfImage::read_volume_section
    requires segment_file.segment_number >= 1, section_header.size >= 76, file_offset + section_header.size <= u64::MAX, old(self).sizes_ok(),
    ensures
        ({
            let c = data_stream.content();
            let v = volume_sect(c, file_offset + 76, section_header.size - 76, segment_file.segment_number, old(self).im(0, false, None));
            &&& r is Ok ==> v == Some(final(self).im(0, false, None)) && final(self).sizes_ok() && final(self).block_tree.wf() && final(self).block_tree.root_node is None
                && *final(self) == (EwfImage {
                    block_tree: final(self).block_tree, number_of_chunks: final(self).number_of_chunks, sectors_per_chunk: final(self).sectors_per_chunk, bytes_per_sector: final(self).bytes_per_sector,
                    number_of_sectors: final(self).number_of_sectors, block_size: final(self).block_size, media_size: final(self).media_size, media_type: final(self).media_type,
                    error_granularity: final(self).error_granularity, set_identifier: final(self).set_identifier, ..*old(self) })
            &&& data_stream.sound() && v is Some ==> r is Ok
        }),
@@at let:block_tree_data_size before
    proof { assert(self.number_of_chunks * self.block_size <= u32::MAX * u32::MAX) by (nonlinear_arith) requires self.number_of_chunks <= u32::MAX, self.block_size <= u32::MAX; }
@@at tail
    proof { assert(self.im(0, false, None).rs =~= old(self).im(0, false, None).rs); }
@@fn EwfImage::read_table_section
@@attr #[verifier::rlimit(60)]
    requires segment_file.segment_number >= 1, section_header.size >= 76, file_offset + section_header.size <= u64::MAX, old(self).sizes_ok(),
        section_header.next_offset == next_at(data_stream.content(), file_offset as int), old(self).tree_ok(*old(block_media_offset) as int, segment_file.segment_number as int),
    ensures
        ({
            let c = data_stream.content();
            let n0 = *old(block_media_offset) as int;
            let n1 = *final(block_media_offset) as int;
            let e = match *last_sectors_section_header { Some(h) => Some(h.next_offset as int), None => None };
            let t = table_sect(c, file_offset as int, file_offset + 76, section_header.size - 76, segment_file.segment_number, old(self).im(n0, false, e));
            &&& r is Ok ==> t == Some(final(self).im(n1, false, e)) && final(self).tree_ok(n1, segment_file.segment_number as int) && final(self).sizes_ok()
                && *final(self) == (EwfImage { block_tree: final(self).block_tree, ..*old(self) })
            &&& data_stream.sound() && t is Some ==> r is Ok
        }),
@@at start
    let ghost c = data_stream.content();
    let ghost n0 = *block_media_offset as int;
    let ghost e = match *last_sectors_section_header { Some(h) => Some(h.next_offset as int), None => None };
    let ghost s0 = self.im(n0, false, e);
    let ghost seg = segment_file.segment_number;
    let ghost z = match e { Some(x) => x, None => next_at(c, file_offset as int) };
    let ghost t = at(c, file_offset + 76, section_header.size - 76);
    let ghost b = self.block_size as int;
@@at let:number_of_entries before
    proof { assert(table_is(table, t)); }
@@loop 0
    invariant
        b > 0, self.media_size > 0, *self == (EwfImage { block_tree: self.block_tree, ..*old(self) }), self.sizes_ok(), self.tree_ok(safe_block_media_offset as int, seg as int),
        table_is(table, t), number_of_entries == count(t), 0 < count(t),
        *table_entry == table.entries@[it0 as int], chunk_data_offset_overflow == over(t, it0 as int),
        table_sect(c, file_offset as int, file_offset + 76, section_header.size - 76, seg, s0) == chunks(t, seg, z, it0 as int, self.im(safe_block_media_offset as int, false, e)),
@@at loop 0 begin
    let ghost x0 = *self;
    let ghost k0 = it0 - 1;
    let ghost n = safe_block_media_offset as int;
    let ghost s1 = self.im(n, false, e);
    proof {
        lemma_tree(*self, n, seg as int);
        let e0 = table.entries@[k0]; let e1 = table.entries@[k0 + 1];
        lemma_bits(e0.chunk_data_offset); lemma_bits(e1.chunk_data_offset);
        assert(e0.chunk_data_offset == entry(t, k0) && e1.chunk_data_offset == entry(t, k0 + 1));
        lemma_divides(n, b);
        lemma_room(b, self.sectors_per_chunk as int, self.bytes_per_sector as int, self.number_of_chunks as int, s1.rs.len() as int, n);
    }
@@at let:block_range after
    let ghost v = block_range;
    proof { assert(s1.rs.len() < s1.chunks ==> chunk(t, seg, z, k0, s1) == Some(v)); }
@@at assign:safe_block_media_offset before
    proof { lemma_push(x0, *self, n, seg as int, v, false, e); }
@@at let:chunk_is_compressed:1 before
    let ghost k1 = number_of_entries - 1;
    let ghost x1 = *self;
    let ghost n1 = safe_block_media_offset as int;
    let ghost s2 = self.im(n1, false, e);
    proof {
        lemma_tree(*self, n1, seg as int);
        lemma_bits(table_entry.chunk_data_offset);
        assert(table.entries@[k1].chunk_data_offset == entry(t, k1));
        lemma_divides(n1, b);
        lemma_room(b, self.sectors_per_chunk as int, self.bytes_per_sector as int, self.number_of_chunks as int, s2.rs.len() as int, n1);
        assert(chunks(t, seg, z, k1, s2) is Some ==> chunk(t, seg, z, k1, s2) is Some);
    }
@@at let:block_range:1 after
    let ghost w = block_range;
    proof { assert(s2.rs.len() < s2.chunks ==> chunk(t, seg, z, k1, s2) == Some(w)); }
@@at tail
    proof {
        lemma_push(x1, *self, n1, seg as int, w, false, e);
        assert(chunks(t, seg, z, k1 + 1, self.im(n1 + b, false, e)) == Some(self.im(n1 + b, false, e)));
    }
@@fn EwfImage::read_sections
@@attr #[verifier::rlimit(60)]
    requires
        segment_file.segment_number >= 1, segment_file.read_as(data_stream.content()), !*old(last_segment_file),
        old(self).sizes_ok(), old(self).tree_ok(*old(block_media_offset) as int, segment_file.segment_number as int),
    ensures
        ({
            let c = data_stream.content();
            let n1 = *final(block_media_offset) as int;
            let seg = segment_file.segment_number;
            let x = sections(c, 0, section_count(c, 13), seg, old(self).im(*old(block_media_offset) as int, false, None));
            let f = *final(self);
            &&& r is Ok ==> x is Some && x->0 == f.im(n1, *final(last_segment_file), x->0.end) && f.tree_ok(n1, seg as int) && f.sizes_ok()
                && f.segment_file_names == old(self).segment_file_names && f.segment_file_cache == old(self).segment_file_cache && f.block_cache == old(self).block_cache
                && f.media_offset == old(self).media_offset && f.file_resolver == old(self).file_resolver
            &&& data_stream.sound() && x is Some ==> r is Ok
        }),
@@at start
    let ghost c = data_stream.content();
    let ghost seg = segment_file.segment_number;
    let ghost cnt = segment_file.sections@.len() as int;
    let ghost s0 = self.im(*block_media_offset as int, false, None);
    let ghost mut e: Option<int> = None;
    proof { lemma_types(); lemma_count(*segment_file, c, 0); }
@@loop 0
    invariant
        sl0@ == segment_file.sections@, file_offset == pos(c, it0 as int), e == (match last_sectors_section_header { Some(h) => Some(h.next_offset as int), None => None }),
        self.segment_file_names == old(self).segment_file_names, self.segment_file_cache == old(self).segment_file_cache, self.block_cache == old(self).block_cache,
        self.media_offset == old(self).media_offset, self.file_resolver == old(self).file_resolver,
        self.sizes_ok(), self.tree_ok(*block_media_offset as int, seg as int), *last_segment_file ==> it0 == cnt,
        sections(c, 0, cnt, seg, s0) == sections(c, it0 as int, cnt, seg, self.im(*block_media_offset as int, *last_segment_file, e)),
@@at loop 0 begin
    let ghost x0 = *self;
    let ghost k0 = it0 - 1;
    let ghost n = *block_media_offset as int;
    let ghost s1 = self.im(n, false, e);
    proof {
        assert(segment_file.section(c, k0));
        assert(k0 < cnt - 1 ==> !ends(c, pos(c, k0)));
        lemma_tree(x0, n, seg as int);
        if s1.block() == 0 || s1.size() == 0 { assert(s1.rs =~= x0.im(0, false, None).rs); }
    }
@@at assign:file_offset before
    proof {
        e = match last_sectors_section_header { Some(h) => Some(h.next_offset as int), None => None };
        let ty = type_at(c, pos(c, k0));
        if ty == t_disk() || ty == t_volume() { lemma_empty(*self, seg as int, false, e); }
        else if ty != t_table() { lemma_keep(x0, *self, n, seg as int, *last_segment_file, e); }
        assert(section(c, pos(c, k0), seg, s1) == Some(self.im(*block_media_offset as int, *last_segment_file, e)));
    }
@@endfn
@@raw
proof fn lemma_ext(k: int, n: EwfNamingSchema)
    ensures ext(k, n) is Some ==> k < 65535,
{
    if ext(k, n) is Some && k >= 65535 { assert((65535 - 100) / 26 / 26 == 96) by (compute); assert((k - 100) / 26 / 26 >= 96) by (nonlinear_arith) requires k >= 65535; }
}
// the tree as the list of chunks
proof fn lemma_reads(x: EwfImage, n: int, k: int)
    requires x.tree_ok(n, k), x.sizes_ok(), n >= 0,
    ensures x.reads(x.im(n, true, None)),
{
    reveal(tree_is);
    let s = x.im(n, true, None);
    let b = x.block_size as int;
    if b > 0 {
        lemma_divides(n, b);
        assert forall|i: int, o: int| 0 <= i < s.rs.len() && #[trigger] in_chunk(s.rs[i], s.block(), o) implies x.block_tree.at(o) == Some(s.rs[i]) by {
            assert(0 <= i * b && i * b < n) by (nonlinear_arith) requires 0 <= i, i < n / b, (n / b) * b == n, b > 0;
            assert(x.block_tree.at(i * b) == Some(s.rs[i]));
        }
    }
}
// reading changes only the caches and the position
proof fn lemma_wf(x: EwfImage, y: EwfImage, v: EwfBlockRange)
    requires
        x.wf(), y.same(x),
        forall|q: u16| #[trigger] y.segment_file_cache.has(q) ==> 1 <= q <= x.segment_file_names@.len() && cached_as(y.segment_file_cache.held(q), x.seg(x.file_resolver.files(), q as int), x.file_resolver.sound()),
        forall|q: u64| #[trigger] y.block_cache.has(q) ==> (x.block_cache.has(q) && y.block_cache.held(q) == x.block_cache.held(q)) || (q == v.media_offset && x.block_tree.at(q as int) == Some(v) && y.block_ok(v)),
    ensures y.wf(),
{
    let n = x.segment_file_names@.len() as int;
    let z = choose|z: int| #[trigger] tree_is(x.block_tree, x.block_size as int, x.media_size as int, z, n);
    lemma_keep(x, y, z, n, false, None);
    reveal(tree_is);
    assert forall|k: int| 1 <= k <= n implies #[trigger] seg_is(y.segment_file_names@, y.file_resolver.files(), k) by { assert(seg_is(x.segment_file_names@, x.file_resolver.files(), k)); }
    assert forall|o: int| (#[trigger] y.block_tree.at(o)) is Some && o < y.media_size && y.block_tree.at(o)->0.range_type is Compressed && y.block_cache.has(y.block_tree.at(o)->0.media_offset) implies y.block_ok(y.block_tree.at(o)->0) by {
        let w = x.block_tree.at(o)->0;
        assert(x.chunk_ok(w, o, z, n));
        assert(in_chunk(w, x.block_size as int, w.media_offset as int));
        assert(x.block_tree.at(w.media_offset as int) == Some(w));
        if x.block_cache.has(w.media_offset) && y.block_cache.held(w.media_offset) == x.block_cache.held(w.media_offset) { assert(x.block_ok(w)); }
    }
}
// the segments stay what they are when one is added
proof fn lemma_segs(x: EwfImage, y: EwfImage, m: Map<Seq<char>, Seq<u8>>, sound: bool, k: u16, nm: Seq<char>)
    requires
        x.segs_ok(m, sound), y.segment_file_names@.len() == x.segment_file_names@.len() + 1, k == y.segment_file_names@.len(),
        forall|i: int| 0 <= i < x.segment_file_names@.len() ==> y.segment_file_names@[i] == #[trigger] x.segment_file_names@[i],
        y.segment_file_names@[k - 1]@ == nm, m.contains_key(nm), file_ok(m[nm]), number(m[nm]) == k,
        y.segment_file_cache.has(k), cached_as(y.segment_file_cache.held(k), m[nm], sound),
        forall|q: u16| #[trigger] y.segment_file_cache.has(q) && q != k ==> x.segment_file_cache.has(q) && y.segment_file_cache.held(q) == x.segment_file_cache.held(q),
    ensures y.segs_ok(m, sound),
{
    assert forall|i: int| 1 <= i <= y.segment_file_names@.len() implies #[trigger] seg_is(y.segment_file_names@, m, i) by {
        if i < k { assert(seg_is(x.segment_file_names@, m, i)); assert(y.segment_file_names@[i - 1] == x.segment_file_names@[i - 1]); }
    }
    assert forall|q: u16| #[trigger] y.segment_file_cache.has(q) implies 1 <= q <= y.segment_file_names@.len() && cached_as(y.segment_file_cache.held(q), y.seg(m, q as int), sound) by {
        if q != k { assert(x.segment_file_cache.has(q)); assert(y.segment_file_names@[q - 1] == x.segment_file_names@[q - 1]); }
    }
}
@@fn EwfImage::read_segment_files
@@attr #[verifier::rlimit(60)]
    requires old(self).fresh(),
    ensures
        ({
            let m = file_resolver.files();
            let t = file_name.text();
            let sch = naming(t.skip(dot(t) + 1));
            let x = segs(m, stem_of(t), sch->0, 1, no_image());
            let f = *final(self);
            let n = f.segment_file_names@.len() as int;
            &&& r is Ok ==> dot(t) > 0 && sch is Some && x is Some && f.reads(x->0) && f.file_resolver == old(self).file_resolver && f.media_offset == old(self).media_offset
                && (exists|z: int| #[trigger] tree_is(f.block_tree, f.block_size as int, f.media_size as int, z, n)) && f.segs_ok(m, file_resolver.sound()) && (forall|q: u64| !#[trigger] f.block_cache.has(q)) && n <= u16::MAX
                && forall|k: int| 1 <= k <= n ==> (#[trigger] f.segment_file_names@[k - 1])@ == seg_name(stem_of(t), k, sch->0)
            &&& file_resolver.sound() && dot(t) > 0 && sch is Some && x is Some ==> r is Ok
        }),
@@at start
    let ghost m = file_resolver.files();
    let ghost snd = file_resolver.sound();
    let ghost stem = stem_of(file_name.text());
    let ghost t = file_name.text();
    proof {
        reveal_strlit("E01"); reveal_strlit("S01"); reveal_strlit("e01"); reveal_strlit("s01"); reveal_strlit(".");
        lemma_empty(*self, 0, false, None);
    }
@@loop 0
    invariant
        m == file_resolver.files(), snd == file_resolver.sound(), name@ == stem, naming(t.skip(dot(t) + 1)) == Some(naming_schema), dot(t) > 0, t == file_name.text(), stem == stem_of(t),
        segment_number >= 1, self.segment_file_names@.len() == segment_number - 1, self.file_resolver == old(self).file_resolver, self.media_offset == old(self).media_offset,
        forall|q: u64| !#[trigger] self.block_cache.has(q),
        self.sizes_ok(), self.tree_ok(block_media_offset as int, segment_number - 1), self.segs_ok(m, snd),
        forall|k: int| 1 <= k < segment_number ==> (#[trigger] self.segment_file_names@[k - 1])@ == seg_name(stem, k, naming_schema),
        segs(m, stem, naming_schema, 1, no_image()) == if last_segment_file { Some(self.im(block_media_offset as int, true, None)) } else { segs(m, stem, naming_schema, segment_number as int, self.im(block_media_offset as int, false, None)) },
    decreases 65536 - segment_number,
@@at loop 0 begin
    let ghost x0 = *self;
    let ghost k0 = segment_number;
    let ghost n0 = block_media_offset as int;
    proof {
        lemma_ext(segment_number as int, naming_schema);
        lemma_keep(x0, x0, n0, k0 - 1, false, None);
    }
@@at call:read_sections before
    proof { reveal_strlit("."); assert(segment_file_name@ =~= seg_name(stem, k0 as int, naming_schema)); lemma_count(segment_file, data_stream.content(), 0); assert(segment_file.holds(data_stream.content())); }
@@at call:push before
    let ghost x1 = *self;
    let ghost n1 = block_media_offset as int;
    let ghost sf = segment_file_name@;
@@at assign:segment_number after
    proof {
        lemma_keep(x1, *self, n1, k0 as int, last_segment_file, None);
        lemma_segs(x0, *self, m, snd, k0, sf);
        assert(self.im(n1, last_segment_file, None) == x1.im(n1, last_segment_file, None));
    }
@@at tail
    proof { lemma_reads(*self, block_media_offset as int, segment_number - 1); }
@@fn EwfImage::open
    requires old(self).fresh(),
    ensures
        ({
            let m = file_resolver.files();
            let t = file_name.text();
            let sch = naming(t.skip(dot(t) + 1));
            let x = segs(m, stem_of(t), sch->0, 1, no_image());
            let f = *final(self);
            &&& r is Ok ==> dot(t) > 0 && sch is Some && x is Some && f.wf() && f.reads(x->0) && f.media_offset == old(self).media_offset && f.file_resolver.files() == m && f.file_resolver.sound() == file_resolver.sound()
                && forall|k: int| 1 <= k <= f.segment_file_names@.len() ==> (#[trigger] f.segment_file_names@[k - 1])@ == seg_name(stem_of(t), k, sch->0)
            &&& file_resolver.sound() && dot(t) > 0 && sch is Some && x is Some ==> r is Ok
        }),
@@at assign:self.file_resolver before
    let ghost x1 = *self;
    let ghost z = choose|z: int| #[trigger] tree_is(x1.block_tree, x1.block_size as int, x1.media_size as int, z, x1.segment_file_names@.len() as int);
@@at tail
    proof {
        lemma_keep(x1, *self, z, x1.segment_file_names@.len() as int, false, None);
        assert forall|k: int| 1 <= k <= self.segment_file_names@.len() implies #[trigger] seg_is(self.segment_file_names@, file_resolver.files(), k) by { assert(seg_is(x1.segment_file_names@, file_resolver.files(), k)); }
    }
@@fn EwfImage::read_data_from_blocks
@@attr #[verifier::rlimit(60)]
    requires old(self).wf(), old(data)@.len() <= kx_left(old(self).media_size as int, old(self).media_offset as int),
    ensures final(self).wf(), final(self).same(*old(self)), final(self).media_offset == old(self).media_offset, final(data)@.len() == old(data)@.len(),
        r is Ok ==> r->Ok_0 == old(data)@.len() && old(self).bytes(old(self).media_offset as int, final(data)@),
        old(self).file_resolver.sound() && old(self).complete(old(self).media_offset as int, old(data)@.len() as int) ==> r is Ok,
@@isolate
@@at start
    let ghost p = self.media_offset as int;
    let ghost d0 = data@;
    let ghost mut d1 = data@;
    let ghost mut x1 = *self;
    let ghost mut v: EwfBlockRange = arbitrary();
    let ghost z = choose|z: int| #[trigger] tree_is(self.block_tree, self.block_size as int, self.media_size as int, z, self.segment_file_names@.len() as int);
@@loop 0
    invariant
        old(self).wf(), old(self).tree_ok(z, old(self).segment_file_names@.len() as int),
        self.wf(), self.same(*old(self)), p == self.media_offset, p == old(self).media_offset, d0 == old(data)@,
        read_size == d0.len(), data@.len() == read_size, data_offset <= read_size, read_size <= kx_left(old(self).media_size as int, p), media_offset == p + data_offset,
        forall|i: int| 0 <= i < data_offset ==> old(self).byte(p + i) == Some(#[trigger] data@[i]),
    ensures
        data_offset == read_size,
    decreases read_size - data_offset,
@@at loop 0 begin
    proof {
        d1 = data@;
        x1 = *self;
        if old(self).complete(p, read_size as int) { assert(old(self).byte(p + data_offset) is Some); }
        reveal(tree_is);
    }
@@at let:block_range after
    proof {
        v = *block_range;
        assert(self.block_tree.at(media_offset as int) == Some(v));
        assert(old(self).chunk_ok(v, media_offset as int, z, old(self).segment_file_names@.len() as int));
        assert(seg_is(self.segment_file_names@, self.file_resolver.files(), v.segment_number as int));
    }
@@at let:data_end_offset after
    proof {
        let q = media_offset + range_read_size - 1;
        assert(in_chunk(v, old(self).block_size as int, q));
        assert(self.block_tree.at(q) == Some(v));
        if old(self).complete(p, read_size as int) { assert(old(self).byte(q) is Some); }
    }
@@at let:zlib_context after
    proof {
        assert(compressed_data@ =~= at(self.seg(self.file_resolver.files(), v.segment_number as int), v.data_offset as int, v.data_size as int));
        if old(self).complete(p, read_size as int) { assert(old(self).byte(media_offset as int) is Some); assert(self.unpacked(v) == old(self).unpacked(v)); }
    }
@@at let:range_data before
    proof {
        if !x1.block_cache.has(v.media_offset) { assert(self.unpacked(v) is Some); assert(self.block_ok(v)); } else { assert(x1.block_ok(v)); }
        lemma_wf(x1, *self, v);
        assert(self.block_ok(v));
        assert(self.unpacked(v) == old(self).unpacked(v));
    }
@@at let:range_read_count after
    proof {
        let n = range_read_count as int;
        assert forall|i: int| 0 <= i < data_offset + n implies old(self).byte(p + i) == Some(#[trigger] data@[i]) by {
            if i < data_offset { assert(data@[i] == d1[i]); }
            else {
                assert(in_chunk(v, old(self).block_size as int, p + i));
                assert(self.block_tree.at(p + i) == Some(v));
            }
        }
    }
@@fn EwfImage::get_size for DataStream
    ensures r is Ok, r->Ok_0 == old(self).media_size, *final(self) == *old(self),
@@fn EwfImage::read for DataStream
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same(*old(self)), final(buf)@.len() == old(buf)@.len(),
        ({
            let n = kx_min(old(buf)@.len() as int, kx_left(old(self).media_size as int, old(self).media_offset as int));
            &&& r is Ok ==> r->Ok_0 == n && old(self).bytes(old(self).media_offset as int, final(buf)@.take(n)) && (forall|i: int| n <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(buf)@[i])
            &&& r is Ok ==> final(self).media_offset == old(self).media_offset + n
            &&& r is Err ==> final(self).media_offset == old(self).media_offset
            &&& old(self).file_resolver.sound() && old(self).complete(old(self).media_offset as int, n) ==> r is Ok
        }),
@@at assign:self.media_offset before
    let ghost x1 = *self;
@@at tail
    proof { lemma_wf(x1, *self, arbitrary()); }
@@fn EwfImage::seek for DataStream
    ensures *final(self) == (EwfImage { media_offset: final(self).media_offset, ..*old(self) }), seeks(pos, old(self).media_offset as int, old(self).media_size as int, r, final(self).media_offset as int),
@@endfn
@@file keramics-core/src/enums.rs
@@item ByteOrder #[derive(PartialEq, Eq, Structural)]
@@file keramics-formats/src/ewf/object_storage.rs
@@item EwfUtf16ObjectStorage
@@raw
// a date as decimal digits
spec fn digits(s: Seq<u16>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0x30 <= #[trigger] s[i] <= 0x39 }
spec fn decimal(s: Seq<u16>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { 10 * decimal(s.drop_last()) + s.last() - 0x30 }
}
proof fn lemma_decimal(s: Seq<u16>, n: int)
    requires digits(s), 0 <= n <= s.len(),
    ensures 0 <= decimal(s.take(n)) <= decimal(s),
    decreases s.len() - n, n,
{
    if n < s.len() {
        lemma_decimal(s, n + 1);
        assert(s.take(n + 1).drop_last() =~= s.take(n));
        lemma_decimal_pos(s.take(n));
    } else { assert(s.take(n) =~= s); lemma_decimal_pos(s); }
}
proof fn lemma_decimal_pos(s: Seq<u16>)
    requires digits(s),
    ensures decimal(s) >= 0,
    decreases s.len(),
{
    if s.len() > 0 { assert(digits(s.drop_last())); lemma_decimal_pos(s.drop_last()); assert(0x30 <= s[s.len() - 1]); }
}
@@fn EwfUtf16ObjectStorage::parse_date_value
    ensures r == if digits(value@) && decimal(value@) <= i32::MAX { Some(decimal(value@) as i32) } else { None },
@@loop 0
    invariant
        sl0@ == value@, timestamp == decimal(value@.take(it0 as int)), timestamp >= 0, forall|i: int| 0 <= i < it0 ==> 0x30 <= #[trigger] value@[i] <= 0x39,
@@at loop 0 begin
    proof {
        assert(value@.take(it0 as int).drop_last() =~= value@.take(it0 - 1));
        assert(value_16bit == value@[it0 - 1]);
        if digits(value@) { lemma_decimal(value@, it0 as int); }
    }
@@at tail
    proof { assert(value@.take(value@.len() as int) =~= value@); }
@@endfn
