@@include std.vx
@@include lz.vx
@@raw
// LZVN: per opcode a literal run, then a copy; kinds of opcode
spec fn lzvn_kind(op: int) -> LzvnOppcodeType {
    if op >= 0xf0 { if op == 0xf0 { LzvnOppcodeType::MatchLarge } else { LzvnOppcodeType::MatchSmall } }
    else if op >= 0xe0 { if op == 0xe0 { LzvnOppcodeType::LiteralLarge } else { LzvnOppcodeType::LiteralSmall } }
    else if 0xa0 <= op < 0xc0 { LzvnOppcodeType::DistanceMedium }
    else if 0x70 <= op < 0x80 || 0xd0 <= op < 0xe0 { LzvnOppcodeType::Invalid }
    else if op % 8 == 7 { LzvnOppcodeType::DistanceLarge }
    else if op % 8 == 6 {
        if op >= 0x40 { LzvnOppcodeType::DistancePrevious }
        else if op == 0x06 { LzvnOppcodeType::EndOfStream }
        else if op == 0x0e || op == 0x16 { LzvnOppcodeType::None }
        else { LzvnOppcodeType::Invalid }
    }
    else { LzvnOppcodeType::DistanceSmall }
}
// one opcode: its size, literal size, match size and distance (`dist` is the previous one)
spec fn lzvn_op(d: Seq<u8>, p: int, dist: int) -> Option<(int, int, int, int)> {
    let op = d[p] as int;
    let l = op / 64;
    let m = op / 8 % 8 + 3;
    match lzvn_kind(op) {
        LzvnOppcodeType::DistanceSmall => if p + 2 > d.len() { None } else { Some((2, l, m, op % 8 * 256 + d[p + 1])) },
        LzvnOppcodeType::DistanceMedium => if p + 3 > d.len() { None } else {
            Some((3, op / 8 % 4, op % 8 * 4 + d[p + 1] % 4 + 3, d[p + 2] * 64 + d[p + 1] / 4)) },
        LzvnOppcodeType::DistanceLarge => if p + 3 > d.len() { None } else { Some((3, l, m, d[p + 2] * 256 + d[p + 1])) },
        LzvnOppcodeType::DistancePrevious => Some((1, l, m, dist)),
        LzvnOppcodeType::LiteralLarge => if p + 2 > d.len() { None } else { Some((2, d[p + 1] + 16, 0, dist)) },
        LzvnOppcodeType::LiteralSmall => Some((1, op % 16, 0, dist)),
        LzvnOppcodeType::MatchLarge => if p + 2 > d.len() { None } else { Some((2, 0, d[p + 1] + 16, dist)) },
        LzvnOppcodeType::MatchSmall => Some((1, 0, op % 16, dist)),
        LzvnOppcodeType::None => Some((1, 0, 0, dist)),
        _ => None,
    }
}
// an opcode with its literals and its copy: next position, distance, and output
spec fn lzvn_token(d: Seq<u8>, p: int, dist: int, out: Seq<u8>, cap: int) -> Option<(int, int, Seq<u8>)> {
    match lzvn_op(d, p, dist) {
        None => None,
        Some((k, l, m, dd)) =>
            if p + k + l > d.len() || out.len() + l + m > cap || (m > 0 && !(0 < dd <= out.len() + l)) { None }
            else { Some((p + k + l, dd, lz_copy(out + d.subrange(p + k, p + k + l), dd, m as nat))) },
    }
}
#[verifier::opaque]
spec fn lzvn(d: Seq<u8>, p: int, dist: int, out: Seq<u8>, cap: int) -> Option<Seq<u8>>
    decreases d.len() - p
{
    if p < 0 || p >= d.len() || out.len() >= cap || d[p] == 0x06 { Some(out) }
    else {
        match lzvn_token(d, p, dist, out, cap) { None => None, Some((q, dd, o)) => if q <= p { None } else { lzvn(d, q, dd, o, cap) } }
    }
}
proof fn lemma_lzvn(d: Seq<u8>, p: int, dist: int, out: Seq<u8>, cap: int)
    requires 0 <= p,
    ensures p >= d.len() || out.len() >= cap || d[p] == 0x06 ==> lzvn(d, p, dist, out, cap) == Some(out),
        p < d.len() && out.len() < cap && d[p] != 0x06 ==> lzvn(d, p, dist, out, cap)
            == (match lzvn_token(d, p, dist, out, cap) { None => None, Some((q, dd, o)) => lzvn(d, q, dd, o, cap) }),
{
    reveal(lzvn);
}
@@file keramics-compression/src/lzvn.rs
@@item LzvnOppcodeType
@@item LZVN_OPPCODE_TYPES
@@itemexec forall|i: int| 0 <= i < 256 ==> #[trigger] LZVN_OPPCODE_TYPES@[i] == lzvn_kind(i),
@@item LzvnContext
@@fn LzvnContext::decompress
    ensures lz_result(lzvn(compressed_data@, 0, 0, seq![], old(uncompressed_data)@.len() as int), r is Ok,
        final(self).uncompressed_data_size as int, old(uncompressed_data)@, final(uncompressed_data)@),
@@isolate
@@attr #[verifier::rlimit(80)]
@@at start
let ghost buf0 = uncompressed_data@;
let ghost data = compressed_data@;
let ghost cap = buf0.len() as int;
let ghost mut out: Seq<u8> = seq![];
proof { kx_slice_bound(compressed_data); kx_slice_bound(uncompressed_data); lemma_lz_start(buf0); lemma_lzvn(data, 0, 0, out, cap); }
@@loop 0
    invariant_except_break
        compressed_data_offset == compressed_data_size ==> lzvn(data, 0, 0, seq![], cap) == Some(out),
        lzvn(data, compressed_data_offset as int, distance as int, out, cap) == lzvn(data, 0, 0, seq![], cap),
    invariant
        buf0 == old(uncompressed_data)@, cap <= isize::MAX, data.len() <= isize::MAX,
        compressed_data@ == data, compressed_data_size == data.len(), uncompressed_data_size == cap, cap == buf0.len(),
        compressed_data_offset <= compressed_data_size, uncompressed_data_offset == out.len(),
        lz_buf(uncompressed_data@, buf0, out),
    ensures lzvn(data, 0, 0, seq![], cap) == Some(out),
    decreases compressed_data_size - compressed_data_offset
@@at loop 0 begin
let ghost out0 = out;
let ghost b0 = uncompressed_data@;
let ghost p0 = compressed_data_offset as int;
let ghost d0 = distance as int;
let ghost op0 = match lzvn_op(data, p0, d0) { Some(t) => t, None => (0, 0, 0, 0) };
let ghost out1 = out0 + data.subrange(p0 + op0.0, p0 + op0.0 + op0.1);
proof { lemma_lzvn(data, p0, d0, out, cap); }
@@at let:oppcode after
proof {
    let op = oppcode;
    assert((op as u16 & 0xc0) >> 6 == op / 64 && ((op as u16 & 0x38) >> 3) == op / 8 % 8 && (op as u16 & 0x18) >> 3 == op / 8 % 4
        && op as u16 & 0x07 == op % 8 && op as u16 & 0x0f == op % 16) by (bit_vector);
    if p0 + 2 <= data.len() {
        let y = data[p0 + 1];
        assert(((op as u16 & 0x07) << 8) | (y as u16) == op % 8 * 256 + y) by (bit_vector);
        assert(((op as u16 & 0x07) << 2) | (y as u16 & 0x03) == op % 8 * 4 + y % 4) by (bit_vector);
        if p0 + 3 <= data.len() {
            let x = data[p0 + 2];
            assert(((x as u16) << 8) | (y as u16) == x * 256 + y) by (bit_vector);
            assert(((x as u16) << 6) | ((y as u16 & 0xfc) >> 2) == x * 64 + y / 4) by (bit_vector);
        }
    }
}
@@at assign:uncompressed_data_offset after
proof {
    lemma_lz_append(b0, buf0, out0, data.subrange(p0 + op0.0, p0 + op0.0 + op0.1), uncompressed_data@);
}
@@at loop 0 end
proof {
    if literal_size == 0 { assert(out1 =~= out0); }
    out = lz_copy(out1, distance as int, match_size as nat);
    lemma_lzvn(data, compressed_data_offset as int, distance as int, out, cap);
}
@@at loop 1 before
proof { if literal_size == 0 { assert(out1 =~= out0); } }
@@loop 1
    invariant
        uncompressed_data_size == cap, cap == buf0.len(), cap <= isize::MAX, out1.len() + match_size <= cap,
        uncompressed_data_offset == out1.len() + it1, match_end_offset == match_offset + it1,
        hi1 == match_size, lo1 == 0,
        match_offset + distance == out1.len(), distance > 0,
        lz_buf(uncompressed_data@, buf0, lz_copy(out1, distance as int, it1 as nat)),
@@at loop 1 begin
proof {
    lemma_lz_copy(out1, distance as int, (it1 - 1) as nat);
    lemma_lz_copy(out1, distance as int, it1 as nat);
    let o = lz_copy(out1, distance as int, (it1 - 1) as nat);
    lemma_lz_push(uncompressed_data@, buf0, o, o[match_end_offset as int]);
}
@@at loop 1 after
proof { lemma_lz_copy(out1, distance as int, match_size as nat); }
@@endfn
