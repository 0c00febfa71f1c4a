@@raw
// the 16-bit values of a byte sequence (a trailing byte is not one), up to the first zero
spec fn words_le(d: Seq<u8>) -> Seq<u16> { Seq::new(d.len() / 2, |i: int| kx_u16_le(d.subrange(2 * i, 2 * i + 2))) }
spec fn nul16(s: Seq<u16>, i: int) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() || s[i] == 0 { i } else { nul16(s, i + 1) }
}
spec fn until_nul16(s: Seq<u16>) -> Seq<u16> { s.take(nul16(s, 0)) }
proof fn lemma_nul16_from(s: Seq<u16>, i: int, n: int)
    requires 0 <= i <= n <= s.len(), n == s.len() || s[n] == 0, forall|k: int| i <= k < n ==> #[trigger] s[k] != 0,
    ensures nul16(s, i) == n,
    decreases n - i
{
    if i < n { lemma_nul16_from(s, i + 1, n); }
}
@@file keramics-types/src/ucs2_string.rs
@@item Ucs2String
@@fn Ucs2String::new
    ensures r.elements@.len() == 0,
@@fn Ucs2String::from_le_bytes
    ensures r.elements@ == until_nul16(words_le(data@)),
@@isolate
@@at start
let ghost ws = words_le(data@);
let ghost mut n = 0int;
proof { kx_slice_bound(data); let l = data.len(); assert(l & !1 == (l / 2) * 2) by (bit_vector); }
@@loop 0
invariant_except_break
    it0 == 2 * n,
invariant
    ws == words_le(data@), hi0 == (data@.len() / 2) * 2, st0 == 2, 0 <= n <= ws.len(), data@.len() <= isize::MAX,
    elements@ =~= ws.take(n),
    forall|k: int| 0 <= k < n ==> #[trigger] ws[k] != 0,
ensures
    n == ws.len() || ws[n] == 0,
@@at let:value_16bit after
proof { assert(value_16bit == ws[n]) by { assert(data@.subrange(2 * n, 2 * n + 2) =~= data@.subrange(data_offset as int, data_offset + 2)); } }
@@at loop 0 end
proof { n = n + 1; }
@@at loop 0 after
proof { lemma_nul16_from(ws, 0, n); }
