@@include std.vx
@@include lz.vx
@@raw
// Apple Data Compression: literal runs, and copies with an 11-byte or 3-byte form.
// `out` is what is decompressed so far, at most `cap` bytes; None if the data is damaged.
spec fn adc_token(d: Seq<u8>, p: int, out: Seq<u8>, cap: int) -> Option<(int, Seq<u8>)> {
    let op = d[p] as int;
    if op >= 0x80 {
        let n = op - 0x7f;
        if p + 1 + n > d.len() || out.len() + n > cap { None } else { Some((p + 1 + n, out + d.subrange(p + 1, p + 1 + n))) }
    } else if op >= 0x40 {
        if p + 3 > d.len() { None } else { adc_copy(p + 3, out, cap, d[p + 1] as int * 256 + d[p + 2] as int + 1, op - 0x40 + 4) }
    } else {
        if p + 2 > d.len() { None } else { adc_copy(p + 2, out, cap, op % 4 * 256 + d[p + 1] as int + 1, op / 4 + 3) }
    }
}
spec fn adc_copy(p: int, out: Seq<u8>, cap: int, dist: int, n: int) -> Option<(int, Seq<u8>)> {
    if dist > out.len() || out.len() + n > cap { None } else { Some((p, lz_copy(out, dist, n as nat))) }
}
#[verifier::opaque]
spec fn adc(d: Seq<u8>, p: int, out: Seq<u8>, cap: int) -> Option<Seq<u8>>
    decreases d.len() - p
{
    if p < 0 || p >= d.len() || out.len() >= cap {
        Some(out)
    } else {
        match adc_token(d, p, out, cap) { None => None, Some((q, o)) => if q <= p { None } else { adc(d, q, o, cap) } }
    }
}
proof fn lemma_adc(d: Seq<u8>, p: int, out: Seq<u8>, cap: int)
    requires 0 <= p,
    ensures p >= d.len() || out.len() >= cap ==> adc(d, p, out, cap) == Some(out),
        p < d.len() && out.len() < cap ==> adc(d, p, out, cap) == (match adc_token(d, p, out, cap) { None => None, Some((q, o)) => adc(d, q, o, cap) }),
{
    reveal(adc);
}
@@file keramics-compression/src/adc.rs
@@item AdcContext
@@fn AdcContext::decompress
    ensures lz_result(adc(compressed_data@, 0, seq![], old(uncompressed_data)@.len() as int), r is Ok,
        final(self).uncompressed_data_size as int, old(uncompressed_data)@, final(uncompressed_data)@),
@@at start
let ghost buf0 = uncompressed_data@;
let ghost data = compressed_data@;
let ghost cap = buf0.len() as int;
let ghost mut out: Seq<u8> = seq![];
proof { kx_slice_bound(compressed_data); kx_slice_bound(uncompressed_data); lemma_lz_start(buf0); }
@@loop 0
    invariant
        compressed_data@ == data, compressed_data_size == data.len(), uncompressed_data_size == cap, cap == buf0.len(),
        compressed_data_offset <= compressed_data_size, uncompressed_data_offset == out.len(),
        lz_buf(uncompressed_data@, buf0, out),
        adc(data, compressed_data_offset as int, out, cap) == adc(data, 0, seq![], cap),
    decreases compressed_data_size - compressed_data_offset
@@at loop 0 begin
let ghost out0 = out;
let ghost b0 = uncompressed_data@;
let ghost p0 = compressed_data_offset as int;
proof { lemma_adc(data, p0, out, cap); }
@@at let:oppcode after
proof {
    let op = oppcode;
    assert((op & 0x80u8 != 0 <==> op >= 0x80) && (op < 0x80 ==> (op & 0x40u8 != 0 <==> op >= 0x40))
        && (op >= 0x80 ==> op & 0x7fu8 == op - 0x80) && (0x40 <= op < 0x80 ==> op & 0x3fu8 == op - 0x40)
        && (op < 0x40 ==> op & 0x3fu8 == op) && ((op & 0x3fu8) >> 2u8 == (op & 0x3f) / 4)) by (bit_vector);
    if p0 + 2 <= data.len() {
        let y = data[p0 + 1];
        assert((((op as u16) & 0x03u16) << 8u16) | (y as u16) == (op as u16) % 4 * 256 + y as u16) by (bit_vector);
        if p0 + 3 <= data.len() {
            let x = data[p0 + 2];
            assert(((x as u16) | ((y as u16) << 8u16)) == y as u16 * 256 + x as u16) by (bit_vector);
        }
    }
}
@@at loop 0 end
proof {
    if oppcode >= 0x80 {
        let s = data.subrange(p0 + 1, p0 + 1 + (oppcode - 0x7f));
        out = out0 + s;
        lemma_lz_append(b0, buf0, out0, s, uncompressed_data@);
    } else {
        out = adc_token(data, p0, out0, cap).unwrap().1;
    }
}
@@loop 1
    invariant
        uncompressed_data_size == cap, cap == buf0.len(), out0.len() + match_size <= cap,
        uncompressed_data_offset == out0.len() + it1, match_end_offset == match_offset + it1,
        hi1 == match_size, lo1 == 0,
        match_offset + distance + 1 == out0.len(),
        lz_buf(uncompressed_data@, buf0, lz_copy(out0, distance as int + 1, it1 as nat)),
@@at loop 1 begin
proof {
    lemma_lz_copy(out0, distance as int + 1, (it1 - 1) as nat);
    lemma_lz_copy(out0, distance as int + 1, it1 as nat);
    let o = lz_copy(out0, distance as int + 1, (it1 - 1) as nat);
    lemma_lz_push(uncompressed_data@, buf0, o, o[match_end_offset as int]);
}
@@at loop 1 after
proof { lemma_lz_copy(out0, distance as int + 1, match_size as nat); }
@@at end
proof { lemma_adc(data, compressed_data_offset as int, out, cap); }
@@endfn
