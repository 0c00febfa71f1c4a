@@opt format
@@opt default
@@include std.vx
@@include fmt.vx
@@include texts.vx
@@raw
// the 16-bit values of a byte sequence (a trailing byte is not one), up to the first zero
spec fn words_le(d: Seq<u8>) -> Seq<u16> { Seq::new(d.len() / 2, |i: int| kx_u16_le(d.subrange(2 * i, 2 * i + 2))) }
spec fn words_be(d: Seq<u8>) -> Seq<u16> { Seq::new(d.len() / 2, |i: int| kx_u16_be(d.subrange(2 * i, 2 * i + 2))) }
spec fn nul(s: Seq<u16>, i: int) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() || s[i] == 0 { i } else { nul(s, i + 1) }
}
spec fn until_nul(s: Seq<u16>) -> Seq<u16> { s.take(nul(s, 0)) }
proof fn lemma_nul(s: Seq<u16>, n: int)
    requires 0 <= n <= s.len(), n == s.len() || s[n] == 0, forall|k: int| 0 <= k < n ==> #[trigger] s[k] != 0,
    ensures nul(s, 0) == n,
{
    lemma_nul_from(s, 0, n);
}
proof fn lemma_nul_from(s: Seq<u16>, i: int, n: int)
    requires 0 <= i <= n <= s.len(), n == s.len() || s[n] == 0, forall|k: int| i <= k < n ==> #[trigger] s[k] != 0,
    ensures nul(s, i) == n,
    decreases n - i
{
    if i < n {
        assert(s[i] != 0);
        lemma_nul_from(s, i + 1, n);
    }
}
// the order of the first differing element, or of the lengths
spec fn lex(a: Seq<u16>, b: Seq<u16>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 && b.len() == 0 { Ordering::Equal }
    else if a.len() == 0 { Ordering::Less }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less }
    else if a[0] > b[0] { Ordering::Greater }
    else { lex(a.skip(1), b.skip(1)) }
}
spec fn fold_with(m: Map<u16, u16>, e: u16) -> u16 { if m.contains_key(e) { m[e] } else { e } }
// a surrogate is shown as \{dxxx}, a backslash is doubled
spec fn shown(e: u16) -> Seq<char> {
    if 0xd800 <= e <= 0xdfff { seq!['\\', '{'] + kx_hex_text(e as int, 4) + seq!['}'] }
    else if e == 0x5c { seq!['\\', '\\'] }
    else { seq![e as u32 as char] }
}
spec fn shown_all(s: Seq<u16>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { shown_all(s.drop_last()) + shown(s.last()) }
}
// UTF-16, with U+FFFD for each unpaired surrogate
spec fn utf16_text(s: Seq<u16>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if !(0xd800 <= s[0] <= 0xdfff) { seq![s[0] as u32 as char] + utf16_text(s.skip(1)) }
    else if s[0] <= 0xdbff && s.len() >= 2 && 0xdc00 <= s[1] <= 0xdfff {
        seq![(0x10000 + (s[0] - 0xd800) * 0x400 + (s[1] - 0xdc00)) as u32 as char] + utf16_text(s.skip(2))
    }
    else { seq!['\u{fffd}'] + utf16_text(s.skip(1)) }
}
@@mappath String::from_utf16_lossy kx_from_utf16_lossy
#[verifier::external_body]
fn kx_from_utf16_lossy(s: &Vec<u16>) -> (r: String) ensures r@ == utf16_text(s@) { String::from_utf16_lossy(s) }
@@file keramics-types/src/ucs2_string.rs
@@item Ucs2String
@@fn Ucs2String::new
    ensures r.elements@.len() == 0,
@@fn Ucs2String::new_with_case_folding
    ensures r.elements@.len() == source.elements@.len(),
        forall|i: int| 0 <= i < r.elements@.len() ==> #[trigger] r.elements@[i] == fold_with(mappings@, source.elements@[i]),
@@at start
broadcast use vstd::std_specs::hash::group_hash_axioms;
@@loop 0
    kx_v@.len() == it0, forall|i: int| 0 <= i < it0 ==> #[trigger] kx_v@[i] == fold_with(mappings@, source.elements@[i]),
@@fn Ucs2String::from_be_bytes
    ensures r.elements@ == until_nul(words_be(data@)),
@@isolate
@@at start
let ghost ws = words_be(data@);
let ghost mut n = 0int;
proof { kx_slice_bound(data); let l = data.len(); assert(l & !1 == (l / 2) * 2) by (bit_vector); }
@@loop 0
invariant_except_break
    it0 == 2 * n,
invariant
    ws == words_be(data@), hi0 == (data@.len() / 2) * 2, st0 == 2, 0 <= n <= ws.len(), data@.len() <= isize::MAX,
    elements@ =~= ws.take(n),
    forall|k: int| 0 <= k < n ==> #[trigger] ws[k] != 0,
ensures
    n == ws.len() || ws[n] == 0,
@@at let:value_16bit after
proof { assert(value_16bit == ws[n]) by { assert(data@.subrange(2 * n, 2 * n + 2) =~= data@.subrange(data_offset as int, data_offset + 2)); } }
@@at loop 0 end
proof { n = n + 1; }
@@at loop 0 after
proof { lemma_nul(ws, n); }
@@fn Ucs2String::from_le_bytes
    ensures r.elements@ == until_nul(words_le(data@)),
@@isolate
@@at start
let ghost ws = words_le(data@);
let ghost mut n = 0int;
proof { kx_slice_bound(data); let l = data.len(); assert(l & !1 == (l / 2) * 2) by (bit_vector); }
@@loop 0
invariant_except_break
    it0 == 2 * n,
invariant
    ws == words_le(data@), hi0 == (data@.len() / 2) * 2, st0 == 2, 0 <= n <= ws.len(), data@.len() <= isize::MAX,
    elements@ =~= ws.take(n),
    forall|k: int| 0 <= k < n ==> #[trigger] ws[k] != 0,
ensures
    n == ws.len() || ws[n] == 0,
@@at let:value_16bit after
proof { assert(value_16bit == ws[n]) by { assert(data@.subrange(2 * n, 2 * n + 2) =~= data@.subrange(data_offset as int, data_offset + 2)); } }
@@at loop 0 end
proof { n = n + 1; }
@@at loop 0 after
proof { lemma_nul(ws, n); }
@@fn Ucs2String::is_empty
    ensures r == (self.elements@.len() == 0),
@@fn Ucs2String::len
    ensures r == self.elements@.len(),
@@fn Ucs2String::read_data_le
    ensures final(self).elements@ == old(self).elements@ + until_nul(words_le(data@)),
@@isolate
@@at start
let ghost ws = words_le(data@);
let ghost mut n = 0int;
let ghost e0 = self.elements@;
proof { kx_slice_bound(data); let l = data.len(); assert(l & !1 == (l / 2) * 2) by (bit_vector); }
@@loop 0
invariant_except_break
    it0 == 2 * n,
invariant
    ws == words_le(data@), hi0 == (data@.len() / 2) * 2, st0 == 2, 0 <= n <= ws.len(), data@.len() <= isize::MAX,
    self.elements@ =~= e0 + ws.take(n),
    e0 == old(self).elements@,
    forall|k: int| 0 <= k < n ==> #[trigger] ws[k] != 0,
ensures
    n == ws.len() || ws[n] == 0,
@@at let:value_16bit after
proof { assert(value_16bit == ws[n]) by { assert(data@.subrange(2 * n, 2 * n + 2) =~= data@.subrange(data_offset as int, data_offset + 2)); } }
@@at loop 0 end
proof { n = n + 1; }
@@at loop 0 after
proof { lemma_nul(ws, n); }
@@fn Ucs2String::compare
    ensures r == lex(self.elements@, other.elements@),
@@isolate
@@loop 0
    self_size == self.elements@.len(), other_size == other.elements@.len(), element_index <= self_size, element_index <= other_size,
    lex(self.elements@, other.elements@) == lex(self.elements@.skip(element_index as int), other.elements@.skip(element_index as int)),
decreases self_size - element_index,
@@at start
proof { assert(self.elements@.skip(0) =~= self.elements@ && other.elements@.skip(0) =~= other.elements@); }
@@at loop 0 begin
proof {
    let (a, b) = (self.elements@.skip(element_index as int), other.elements@.skip(element_index as int));
    assert(a.skip(1) =~= self.elements@.skip(element_index + 1) && b.skip(1) =~= other.elements@.skip(element_index + 1));
    assert(a[0] == self.elements@[element_index as int] && b[0] == other.elements@[element_index as int]);
}
@@fn Ucs2String::to_string
    ensures r@ == shown_all(self.elements@),
@@at start
proof { reveal_strlit("\\\\"); reveal_strlit(""); }
@@loop 0
    kx_v@.len() == it0, kx_concat(kx_v@) =~= shown_all(self.elements@.take(it0 as int)),
@@at loop 0 begin
let ghost v0 = kx_v@;
@@at loop 0 end
proof {
    assert(kx_v@.drop_last() =~= v0);
    assert(self.elements@.take(it0 as int).drop_last() =~= self.elements@.take(it0 - 1));
    assert(kx_v@.last()@ =~= shown(*element));
}
@@at loop 0 after
proof { assert(self.elements@.take(it0 as int) =~= self.elements@); }
@@fn Ucs2String::from for From<&[u16]>
@@rename from_slice
    ensures r.elements@ == until_nul(slice@),
@@isolate
@@loop 0
invariant_except_break
    kx_p is None, forall|k: int| 0 <= k < it0 ==> #[trigger] slice@[k] != 0,
invariant
    lo0 == 0, hi0 == slice@.len(),
ensures
    kx_p is None ==> forall|k: int| 0 <= k < slice@.len() ==> #[trigger] slice@[k] != 0,
    kx_p is Some ==> kx_p->Some_0 < slice@.len() && slice@[kx_p->Some_0 as int] == 0
        && forall|k: int| 0 <= k < kx_p->Some_0 ==> #[trigger] slice@[k] != 0,
@@at loop 0 after
proof { lemma_nul(slice@, match kx_p { Some(k) => k as int, None => slice@.len() as int }); }
@@file keramics-types/src/utf16_string.rs
@@item Utf16String
@@fn Utf16String::new
    ensures r.elements@.len() == 0,
@@fn Utf16String::from_be_bytes
    ensures r.elements@ == until_nul(words_be(data@)),
@@isolate
@@at start
let ghost ws = words_be(data@);
let ghost mut n = 0int;
proof { kx_slice_bound(data); let l = data.len(); assert(l & !1 == (l / 2) * 2) by (bit_vector); }
@@loop 0
invariant_except_break
    it0 == 2 * n,
invariant
    ws == words_be(data@), hi0 == (data@.len() / 2) * 2, st0 == 2, 0 <= n <= ws.len(), data@.len() <= isize::MAX,
    elements@ =~= ws.take(n),
    forall|k: int| 0 <= k < n ==> #[trigger] ws[k] != 0,
ensures
    n == ws.len() || ws[n] == 0,
@@at let:value_16bit after
proof { assert(value_16bit == ws[n]) by { assert(data@.subrange(2 * n, 2 * n + 2) =~= data@.subrange(data_offset as int, data_offset + 2)); } }
@@at loop 0 end
proof { n = n + 1; }
@@at loop 0 after
proof { lemma_nul(ws, n); }
@@fn Utf16String::from_le_bytes
    ensures r.elements@ == until_nul(words_le(data@)),
@@isolate
@@at start
let ghost ws = words_le(data@);
let ghost mut n = 0int;
proof { kx_slice_bound(data); let l = data.len(); assert(l & !1 == (l / 2) * 2) by (bit_vector); }
@@loop 0
invariant_except_break
    it0 == 2 * n,
invariant
    ws == words_le(data@), hi0 == (data@.len() / 2) * 2, st0 == 2, 0 <= n <= ws.len(), data@.len() <= isize::MAX,
    elements@ =~= ws.take(n),
    forall|k: int| 0 <= k < n ==> #[trigger] ws[k] != 0,
ensures
    n == ws.len() || ws[n] == 0,
@@at let:value_16bit after
proof { assert(value_16bit == ws[n]) by { assert(data@.subrange(2 * n, 2 * n + 2) =~= data@.subrange(data_offset as int, data_offset + 2)); } }
@@at loop 0 end
proof { n = n + 1; }
@@at loop 0 after
proof { lemma_nul(ws, n); }
@@fn Utf16String::to_string
    ensures r@ == utf16_text(self.elements@),
@@endfn
