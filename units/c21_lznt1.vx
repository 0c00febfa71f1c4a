@@include std.vx
@@include lz.vx
@@raw
global size_of usize == 8;
// LZNT1: a sequence of chunks with a 16-bit header; a compressed chunk is a sequence of
// groups of a flag byte and up to 8 elements: literals, and copy tokens whose distance
// takes the more bits the more of the chunk is decompressed.
spec fn lznt1_bits(u: int, t: int, k: int) -> int
    decreases if u > t { u - t } else { 0 }
{
    if t <= 0 || u <= t { k } else { lznt1_bits(u, 2 * t, k + 1) }
}
// an element at p: the position behind it, and the chunk with it
spec fn lznt1_element(d: Seq<u8>, p: int, flags: u8, out: Seq<u8>, cap: int) -> Option<(int, Seq<u8>)> {
    if flags & 1 == 0 {
        if p >= d.len() || out.len() >= cap { None } else { Some((p + 1, out.push(d[p]))) }
    } else {
        if p + 2 > d.len() { None } else {
            let t = (d[p] as u16) | ((d[p + 1] as u16) << 8u16);
            let s = (12 - lznt1_bits(out.len() as int, 16, 0)) as u16;
            let dist = (t >> s) as int + 1;
            let n = (t & (0x0fffu16 >> ((12 - s) as u16))) as int + 3;
            if dist > out.len() || out.len() + n > cap { None } else { Some((p + 2, lz_copy(out, dist, n as nat))) }
        }
    }
}
// the rest of a chunk that ends at `end`; `i` elements of the current group are left
#[verifier::opaque]
spec fn lznt1_chunk(d: Seq<u8>, p: int, end: int, out: Seq<u8>, cap: int, i: int, flags: u8) -> Option<Seq<u8>>
    decreases d.len() - p
{
    if i <= 0 {
        if p < 0 || p >= end || p >= d.len() { Some(out) } else { lznt1_chunk(d, p + 1, end, out, cap, 8, d[p]) }
    } else {
        match lznt1_element(d, p, flags, out, cap) {
            None => None,
            Some((q, o)) => if q >= end { Some(o) } else if q <= p || p >= d.len() || lznt1_bits(o.len() as int, 16, 0) > 12 { None }
                else { lznt1_chunk(d, q, end, o, cap, i - 1, flags >> 1u8) },
        }
    }
}
#[verifier::opaque]
spec fn lznt1(d: Seq<u8>, p: int, out: Seq<u8>, cap: int) -> Option<Seq<u8>>
    decreases if p < d.len() { d.len() - p } else { 0 }
{
    if p < 0 || p >= d.len() || out.len() >= cap { Some(out) }
    else if p + 2 > d.len() { None }
    else {
        let h = d[p] as int + d[p + 1] as int * 256;
        let n = h % 4096 + 1;
        if h == 0 { Some(out) }
        else if h >= 0x8000 {
            match lznt1_chunk(d, p + 2, p + 2 + n, seq![], cap - out.len(), 0, 0) { None => None, Some(o) => lznt1(d, p + 2 + n, out + o, cap) }
        }
        else if p + 2 + n > d.len() || out.len() + n > cap { None }
        else { lznt1(d, p + 2 + n, out + d.subrange(p + 2, p + 2 + n), cap) }
    }
}
proof fn lemma_bits(u: int, t: int, k: int)
    requires 0 < t,
    ensures lznt1_bits(u, t, k) >= k, u > t ==> lznt1_bits(u, t, k) == lznt1_bits(u, 2 * t, k + 1) && lznt1_bits(u, t, k) > k, u <= t ==> lznt1_bits(u, t, k) == k,
    decreases if u > t { u - t } else { 0 }
{
    if u > t { lemma_bits(u, 2 * t, k + 1); }
}
// a chunk of 4096 bytes does not come to more than 20493 bytes
proof fn lemma_far(u: int)
    requires 0 <= u <= 20493,
    ensures
        u > 4096 ==> lznt1_bits(u, 16, 0) >= 9,
        u > 8192 ==> lznt1_bits(u, 16, 0) >= 10,
        lznt1_bits(u, 16, 0) <= 11,
{
    reveal_with_fuel(lznt1_bits, 14);
}
proof fn lemma_chunk(d: Seq<u8>, p: int, end: int, out: Seq<u8>, cap: int, i: int, flags: u8)
    requires 0 <= p,
    ensures
        i <= 0 && (p >= end || p >= d.len()) ==> lznt1_chunk(d, p, end, out, cap, i, flags) == Some(out),
        i <= 0 && p < end && p < d.len() ==> lznt1_chunk(d, p, end, out, cap, i, flags) == lznt1_chunk(d, p + 1, end, out, cap, 8, d[p]),
        i <= 0 ==> lznt1_chunk(d, p, end, out, cap, i, flags) == lznt1_chunk(d, p, end, out, cap, 0, 0),
        i <= 0 ==> lznt1_chunk(d, p, end, out, cap, i, flags) == lznt1_chunk(d, p, end, out, cap, 0, 0),
        i <= 0 ==> lznt1_chunk(d, p, end, out, cap, i, flags) == lznt1_chunk(d, p, end, out, cap, 0, 0),
        i > 0 ==> lznt1_chunk(d, p, end, out, cap, i, flags) == (match lznt1_element(d, p, flags, out, cap) {
            None => None,
            Some((q, o)) => if q >= end { Some(o) } else if lznt1_bits(o.len() as int, 16, 0) > 12 { None }
                else { lznt1_chunk(d, q, end, o, cap, i - 1, flags >> 1u8) },
        }),
{
    reveal(lznt1_chunk);
}
proof fn lemma_lznt1(d: Seq<u8>, p: int, out: Seq<u8>, cap: int)
    requires 0 <= p,
    ensures ({
        let h = d[p] as int + d[p + 1] as int * 256;
        let n = h % 4096 + 1;
        lznt1(d, p, out, cap) == (
            if p >= d.len() || out.len() >= cap { Some(out) }
            else if p + 2 > d.len() { None }
            else if h == 0 { Some(out) }
            else if h >= 0x8000 {
                match lznt1_chunk(d, p + 2, p + 2 + n, seq![], cap - out.len(), 0, 0) { None => None, Some(o) => lznt1(d, p + 2 + n, out + o, cap) }
            }
            else if p + 2 + n > d.len() || out.len() + n > cap { None }
            else { lznt1(d, p + 2 + n, out + d.subrange(p + 2, p + 2 + n), cap) })
    }),
{
    reveal(lznt1);
}
@@file keramics-compression/src/lznt1.rs
@@item Lznt1BlockHeader
@@item Lznt1Context
@@fn Lznt1BlockHeader::new
@@fn Lznt1BlockHeader::read_data
    ensures
        (r is Ok) == (data@.len() >= 2),
        r is Ok ==> final(self).block_size == (data@[0] as int + data@[1] as int * 256) % 4096 + 1
            && final(self).is_compressed == (data@[0] as int + data@[1] as int * 256 >= 0x8000),
@@at let:bit_fields1 after
proof {
    let x = data@[0]; let y = data@[1];
    assert(data@.subrange(0, 2)[0] == x && data@.subrange(0, 2)[1] == y);
    assert(((x as u16) | ((y as u16) << 8u16)) == x as u16 + y as u16 * 256) by (bit_vector);
    let b = bit_fields1;
    assert(b & 0x0fff == b % 4096 && (b & 0x8000 != 0 <==> b >= 0x8000)) by (bit_vector);
}
@@fn Lznt1Context::decompress_block
@@isolate
@@attr #[verifier::rlimit(80)]
    requires
        compressed_data_size == compressed_data@.len(), uncompressed_data_size == uncompressed_data@.len(),
        *compressed_data_offset <= compressed_data@.len(), block_size <= 4096,
    ensures ({
        let spec = lznt1_chunk(compressed_data@, *old(compressed_data_offset) as int, *old(compressed_data_offset) + block_size, seq![], old(uncompressed_data)@.len() as int, 0, 0);
        &&& (r is Ok) == (spec is Some)
        &&& r is Ok ==> *final(compressed_data_offset) == *old(compressed_data_offset) + block_size
            && r->Ok_0 == spec->0.len() && lz_buf(final(uncompressed_data)@, old(uncompressed_data)@, spec->0)
    }), final(uncompressed_data)@.len() == old(uncompressed_data)@.len(),
@@at start
let ghost buf0 = uncompressed_data@;
let ghost data = compressed_data@;
let ghost cap = buf0.len() as int;
let ghost mut out: Seq<u8> = seq![];
let ghost p00 = *compressed_data_offset as int;
let ghost end = p00 + block_size;
let ghost spec = lznt1_chunk(data, p00, end, seq![], cap, 0, 0);
proof { kx_slice_bound(compressed_data); kx_slice_bound(uncompressed_data); lemma_lz_start(buf0);
    assert(0x0fffu16 >> 0u16 == 0x0fff) by (bit_vector);
    lemma_chunk(data, p00, end, out, cap, 0, 0);
}
@@loop 0
    invariant_except_break
        lznt1_chunk(data, safe_compressed_data_offset as int, end, out, cap, 0, 0) == spec,
        safe_compressed_data_offset >= end ==> spec == Some(out),
        safe_compressed_data_offset < end ==> out.len() <= compression_tuple_threshold,
    invariant
        spec == lznt1_chunk(compressed_data@, *old(compressed_data_offset) as int, *old(compressed_data_offset) + block_size, seq![], old(uncompressed_data)@.len() as int, 0, 0),
        compressed_data@ == data, compressed_data_size == data.len(), uncompressed_data_size == cap, cap == buf0.len(), buf0 == old(uncompressed_data)@,
        cap <= isize::MAX, data.len() <= isize::MAX, block_size <= 4096, end == compressed_data_end_offset,
        safe_compressed_data_offset <= compressed_data_size, uncompressed_data_offset == out.len(),
        lz_buf(uncompressed_data@, buf0, out),
        compression_tuple_distance_shift <= 12, compression_tuple_match_size_mask == 0x0fffu16 >> ((12 - compression_tuple_distance_shift) as u16),
        compression_tuple_threshold > 0,
        p00 == *old(compressed_data_offset), end == p00 + block_size, p00 <= safe_compressed_data_offset <= end + 2, out.len() <= 8202 + 3 * (safe_compressed_data_offset - p00),
        forall|v: int| v >= out.len() ==> #[trigger] lznt1_bits(v, 16, 0) == lznt1_bits(v, compression_tuple_threshold as int, 12 - compression_tuple_distance_shift),
    ensures spec == Some(out),
    decreases compressed_data_size - safe_compressed_data_offset
@@at loop 0 begin
let ghost p0 = safe_compressed_data_offset as int;
proof { lemma_chunk(data, p0, end, out, cap, 0, 0); }
@@at loop 1 before
let ghost fl = compression_flags;
@@loop 1
    invariant_except_break
        lznt1_chunk(data, safe_compressed_data_offset as int, end, out, cap, 8 - it1, compression_flags) == spec,
        safe_compressed_data_offset <= end, it1 > 0 ==> safe_compressed_data_offset < end,
        out.len() <= compression_tuple_threshold,
    invariant
        lo1 == 0, hi1 == 8, p0 < safe_compressed_data_offset,
        spec == lznt1_chunk(compressed_data@, *old(compressed_data_offset) as int, *old(compressed_data_offset) + block_size, seq![], old(uncompressed_data)@.len() as int, 0, 0),
        compressed_data@ == data, compressed_data_size == data.len(), uncompressed_data_size == cap, cap == buf0.len(), buf0 == old(uncompressed_data)@,
        cap <= isize::MAX, data.len() <= isize::MAX, block_size <= 4096, end == compressed_data_end_offset,
        safe_compressed_data_offset <= compressed_data_size, uncompressed_data_offset == out.len(),
        lz_buf(uncompressed_data@, buf0, out),
        compression_tuple_distance_shift <= 12, compression_tuple_match_size_mask == 0x0fffu16 >> ((12 - compression_tuple_distance_shift) as u16),
        compression_tuple_threshold > 0,
        p00 == *old(compressed_data_offset), end == p00 + block_size, p00 <= safe_compressed_data_offset <= end + 2, out.len() <= 8202 + 3 * (safe_compressed_data_offset - p00),
        forall|v: int| v >= out.len() ==> #[trigger] lznt1_bits(v, 16, 0) == lznt1_bits(v, compression_tuple_threshold as int, 12 - compression_tuple_distance_shift),
    ensures
        safe_compressed_data_offset >= end ==> spec == Some(out),
        safe_compressed_data_offset < end ==> lznt1_chunk(data, safe_compressed_data_offset as int, end, out, cap, 0, compression_flags) == spec
            && out.len() <= compression_tuple_threshold,
@@at loop 0 end
proof { lemma_chunk(data, safe_compressed_data_offset as int, end, out, cap, 0, compression_flags); }
@@at loop 1 begin
let ghost out0 = out;
let ghost p1 = safe_compressed_data_offset as int;
proof {
    lemma_bits(out0.len() as int, compression_tuple_threshold as int, 12 - compression_tuple_distance_shift);
    lemma_chunk(data, p1, end, out0, cap, 9 - it1, compression_flags);
    let f = compression_flags;
    assert(f & 0x01 == f & 1) by (bit_vector);
    if p1 < data.len() && out0.len() < cap { lemma_lz_push(uncompressed_data@, buf0, out0, data[p1]); }
    if p1 + 2 <= data.len() {
        assert(data.subrange(p1, p1 + 2)[0] == data[p1] && data.subrange(p1, p1 + 2)[1] == data[p1 + 1]);
    }
}
@@at let:distance before
proof {
    let t = compression_tuple;
    let s = compression_tuple_distance_shift;
    lemma_far(out0.len() as int);
    assert(s <= 12 ==> t & (0x0fffu16 >> ((12 - s) as u16)) <= 0x0fff) by (bit_vector);
    assert(s <= 3 ==> t & (0x0fffu16 >> ((12 - s) as u16)) <= 7) by (bit_vector);
    assert(s <= 2 ==> t & (0x0fffu16 >> ((12 - s) as u16)) <= 3) by (bit_vector);
    assert(1 <= s <= 12 ==> t >> s <= 0x7fff) by (bit_vector);
}
@@loop 2
    invariant
        uncompressed_data_size == cap, cap == buf0.len(), cap <= isize::MAX, out0.len() + match_size <= cap,
        uncompressed_data_offset == out0.len() + it2, match_end_offset == match_offset + it2,
        hi2 == match_size, lo2 == 0,
        match_offset + distance == out0.len(), distance > 0,
        lz_buf(uncompressed_data@, buf0, lz_copy(out0, distance as int, it2 as nat)),
@@at loop 2 begin
proof {
    lemma_lz_copy(out0, distance as int, (it2 - 1) as nat);
    lemma_lz_copy(out0, distance as int, it2 as nat);
    let o = lz_copy(out0, distance as int, (it2 - 1) as nat);
    lemma_lz_push(uncompressed_data@, buf0, o, o[match_end_offset as int]);
}
@@at loop 2 after
proof {
    lemma_lz_copy(out0, distance as int, match_size as nat);
    out = lz_copy(out0, distance as int, match_size as nat);
}
@@at assign:compression_flags before
proof {
    if compression_flags & 1 == 0 { out = out0.push(data[p1]); }
    lemma_chunk(data, safe_compressed_data_offset as int, end, out, cap, 8 - it1, compression_flags >> 1);
}
@@loop 3
    invariant
        lznt1_bits(out.len() as int, 16, 0) > 12 ==> spec is None,
        spec == lznt1_chunk(compressed_data@, *old(compressed_data_offset) as int, *old(compressed_data_offset) + block_size, seq![], old(uncompressed_data)@.len() as int, 0, 0),
        compressed_data@ == data, compressed_data_size == data.len(), uncompressed_data_size == cap, cap == buf0.len(), buf0 == old(uncompressed_data)@,
        cap <= isize::MAX, data.len() <= isize::MAX, block_size <= 4096, end == compressed_data_end_offset,
        safe_compressed_data_offset <= compressed_data_size, uncompressed_data_offset == out.len(),
        lz_buf(uncompressed_data@, buf0, out),
        compression_tuple_distance_shift <= 12, compression_tuple_match_size_mask == 0x0fffu16 >> ((12 - compression_tuple_distance_shift) as u16),
        compression_tuple_threshold > 0,
        p00 == *old(compressed_data_offset), end == p00 + block_size, p00 <= safe_compressed_data_offset <= end + 2, out.len() <= 8202 + 3 * (safe_compressed_data_offset - p00),
        forall|v: int| v >= out.len() ==> #[trigger] lznt1_bits(v, 16, 0) == lznt1_bits(v, compression_tuple_threshold as int, 12 - compression_tuple_distance_shift),
    decreases compression_tuple_distance_shift
@@at loop 3 begin
proof {
    let s = compression_tuple_distance_shift;
    let t = compression_tuple_threshold;
    assert(0 < s <= 12 ==> (0x0fffu16 >> ((12 - s) as u16)) >> 1 == 0x0fffu16 >> ((13 - s) as u16)) by (bit_vector);
    assert(t < 0x8000_0000_0000_0000 ==> t << 1 == 2 * t) by (bit_vector);
    assert forall|v: int| v >= out.len() implies #[trigger] lznt1_bits(v, 16, 0) == lznt1_bits(v, 2 * t, 13 - s) by {
        lemma_bits(v, t as int, 12 - s);
    }
    lemma_bits(out.len() as int, t as int, 12 - s);
}
@@fn Lznt1Context::decompress
@@isolate
@@attr #[verifier::rlimit(80)]
    ensures lz_result(lznt1(compressed_data@, 0, seq![], old(uncompressed_data)@.len() as int), r is Ok,
        final(self).uncompressed_data_size as int, old(uncompressed_data)@, final(uncompressed_data)@),
@@at start
let ghost buf0 = uncompressed_data@;
let ghost data = compressed_data@;
let ghost cap = buf0.len() as int;
let ghost mut out: Seq<u8> = seq![];
let ghost spec = lznt1(data, 0, seq![], cap);
proof { kx_slice_bound(compressed_data); kx_slice_bound(uncompressed_data); lemma_lz_start(buf0); lemma_lznt1(data, 0, out, cap); }
@@loop 0
    invariant_except_break
        lznt1(data, compressed_data_offset as int, out, cap) == spec,
        compressed_data_offset >= data.len() ==> spec == Some(out),
    invariant
        spec == lznt1(compressed_data@, 0, seq![], old(uncompressed_data)@.len() as int),
        compressed_data@ == data, compressed_data_size == data.len(), uncompressed_data_size == cap, cap == buf0.len(), buf0 == old(uncompressed_data)@,
        cap <= isize::MAX, data.len() <= isize::MAX,
        compressed_data_offset <= compressed_data_size + 4096, uncompressed_data_offset == out.len(),
        lz_buf(uncompressed_data@, buf0, out),
    ensures spec == Some(out),
    decreases compressed_data_size + 4096 - compressed_data_offset
@@at loop 0 begin
let ghost out0 = out;
let ghost b0 = uncompressed_data@;
let ghost p0 = compressed_data_offset as int;
proof {
    lemma_lznt1(data, p0, out, cap);
    if p0 + 2 <= data.len() {
        if data[p0] == 0 && data[p0 + 1] == 0 {
            let z = vstd::array::spec_array_fill_for_copy_type::<u8, 2>(0)@;
            assert(z.len() == 2 && z[0] == 0 && z[1] == 0);
            assert(data.subrange(p0, p0 + 2) =~= z);
            let w = [0u8, 0u8]@;
            assert(w.len() == 2 && w[0] == 0 && w[1] == 0);
            assert(data.subrange(p0, p0 + 2) =~= w);
        }
        assert(data.subrange(p0, p0 + 2)[0] == data[p0] && data.subrange(p0, p0 + 2)[1] == data[p0 + 1]);
    }
}
@@at let:write_count before
proof { lemma_lz_tail(b0, buf0, out0); }
@@at loop 0 end
proof {
    let n = block_header.block_size as int;
    if block_header.is_compressed {
        let o = lznt1_chunk(data, p0 + 2, p0 + 2 + n, seq![], cap - out0.len(), 0, 0)->0;
        out = out0 + o;
        lemma_lz_part(b0, buf0, out0, o, uncompressed_data@);
    } else {
        let s = data.subrange(p0 + 2, p0 + 2 + n);
        out = out0 + s;
        lemma_lz_append(b0, buf0, out0, s, uncompressed_data@);
    }
    lemma_lznt1(data, compressed_data_offset as int, out, cap);
}
@@endfn
