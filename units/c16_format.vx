@@opt format
@@include std.vx
@@include fmt.vx
@@include texts.vx
@@file keramics-core/src/formatters.rs
@@raw
mod lemmas {
    use super::*;
    pub broadcast proof fn lemma_push(v: Seq<String>, x: String)
        ensures #[trigger] kx_concat(v.push(x)) == kx_concat(v) + x@,
    {
        assert(v.push(x).drop_last() =~= v);
    }
}
spec fn hex_all(s: Seq<u8>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { hex_all(s.drop_last()) + kx_hex_text(s.last() as int, 2) }
}
// ---- arrays ----
spec fn joined(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joined(v.drop_last(), sep) + sep + v.last() }
}
spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
proof fn lemma_joined(v: Seq<String>, sep: Seq<char>)
    ensures kx_joined(v, sep) == joined(texts(v), sep),
    decreases v.len()
{
    if v.len() > 1 {
        lemma_joined(v.drop_last(), sep);
        assert(texts(v).drop_last() =~= texts(v.drop_last()));
    }
}
spec fn comma() -> Seq<char> { seq![',', ' '] }
spec fn row(s: Seq<String>, i: int) -> Seq<char> {
    joined(texts(s.subrange(16 * i, if 16 * i + 16 <= s.len() { 16 * i + 16 } else { s.len() as int })), comma())
}
spec fn array_text(s: Seq<String>) -> Seq<char> {
    if s.len() == 0 { seq!['[', ']'] }
    else if forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i]@ == s[0]@ {
        seq!['['] + s[0]@ + seq![';', ' '] + kx_dec_text(s.len() as int, 0) + seq![']']
    } else if s.len() <= 16 { seq!['['] + joined(texts(s), comma()) + seq![']'] }
    else {
        seq!['[', '\n', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ']
            + joined(Seq::new(((s.len() + 15) / 16) as nat, |i: int| row(s, i)), seq![',', '\n', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' '])
            + seq!['\n', ' ', ' ', ' ', ' ', ']']
    }
}
@@fn format_as_string
    ensures r@ =~= hex_all(data@),
@@at start
broadcast use lemmas::lemma_push;
proof { reveal_strlit(""); }
@@loop 0
    kx_concat(kx_v@) =~= hex_all(data@.take(it0 as int)), sl0@ == data@,
@@at loop 0 begin
proof { assert(data@.take(it0 as int).drop_last() =~= data@.take(it0 - 1)); }
@@at loop 0 after
proof { assert(data@.take(data@.len() as int) =~= data@); }
@@fn debug_format_array
    ensures r@ =~= array_text(array@),
@@at start
broadcast use lemmas::lemma_push;
proof { reveal_strlit("[]"); reveal_strlit(", "); reveal_strlit(",\n        "); 
    kx_string_eq();
    let sep = ",\n        "@;
    assert(sep =~= seq![',', '\n', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ']);
    assert(", "@ =~= comma());
    lemma_joined(array@, comma());
    assert forall|v: Seq<String>| #[trigger] kx_joined(v, comma()) == joined(texts(v), comma()) by { lemma_joined(v, comma()); }
    let rows = Seq::new(((array@.len() + 15) / 16) as nat, |i: int| row(array@, i));
    assert forall|v: Seq<String>| v.len() == rows.len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i]@ == row(array@, i))
        implies #[trigger] kx_joined(v, sep) == joined(rows, sep) by { lemma_joined(v, sep); assert(texts(v) =~= rows); }
}
@@loop 0
    sl0@ == array@,
    use_short_hand ==> forall|i: int| 0 <= i < it0 ==> #[trigger] array@[i]@ == array@[0]@,
    !use_short_hand ==> exists|i: int| 0 <= i < array@.len() && #[trigger] array@[i]@ != array@[0]@,
@@loop 1
    it1 % 16 == 0, string_parts@.len() == it1 / 16, last_value_index == (array@.len() - 1) / 16 * 16,
    forall|i: int| 0 <= i < string_parts@.len() ==> #[trigger] string_parts@[i]@ == row(array@, i),
@@raw
// ---- hexdump ----
spec fn printable(b: u8) -> char { if b < 32 || b >= 127 { '.' } else { b as char } }
spec fn cell(s: Seq<u8>, j: int) -> Seq<char> {
    (if j < s.len() { kx_hex_text(s[j] as int, 2) + seq![' '] } else { seq![' ', ' ', ' '] }) + (if j == 7 { seq![' '] } else { seq![] })
}
spec fn cells(s: Seq<u8>, j: int) -> Seq<char>
    decreases j
{
    if j <= 0 { Seq::empty() } else { cells(s, j - 1) + cell(s, j - 1) }
}
spec fn chars(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| printable(s[i])) }
spec fn head(o: int) -> Seq<char> { kx_hex_text(o, 8) + seq![' ', ' '] }
spec fn line(o: int, s: Seq<u8>) -> Seq<char> { head(o) + cells(s, 16) + seq![' '] + chars(s) + seq!['\n'] }
spec fn line_bytes(d: Seq<u8>, k: int) -> Seq<u8> { d.subrange(16 * k, if 16 * k + 16 <= d.len() { 16 * k + 16 } else { d.len() as int }) }
// a full line that repeats the one before it and is not the last full line
spec fn repeats(d: Seq<u8>, k: int) -> bool { 0 < k && k + 1 < d.len() / 16 && line_bytes(d, k) == line_bytes(d, k - 1) }
spec fn dump(d: Seq<u8>, group: bool, k: int) -> Seq<char>
    decreases k
{
    if k <= 0 { Seq::empty() }
    else {
        dump(d, group, k - 1) + (if group && repeats(d, k - 1) {
            if repeats(d, k - 2) { seq![] } else { seq!['.', '.', '.', '\n'] }
        } else { line(16 * (k - 1), line_bytes(d, k - 1)) })
    }
}
@@raw
// after the next byte: the line so far, one cell longer
proof fn lemma_cell(x: Seq<char>, h: Seq<char>, s: Seq<u8>, j: int)
    requires 0 <= j < 16, j < s.len(),
    ensures ({
        let p = x + (h + cells(s, j));
        let t = kx_hex_text(s[j] as int, 2) + seq![' '];
        (if j == 7 { (p + t) + seq![' '] } else { p + t }) == x + (h + cells(s, j + 1))
    }),
{
    let p = x + (h + cells(s, j));
    let t = kx_hex_text(s[j] as int, 2) + seq![' '];
    assert((if j == 7 { (p + t) + seq![' '] } else { p + t }) =~= x + (h + (cells(s, j) + cell(s, j))));
}
proof fn lemma_line(x: Seq<char>, h: Seq<char>, c: Seq<char>, a: Seq<char>)
    ensures ((x + (h + c)) + seq![' ']) + a + seq!['\n'] == x + (h + c + seq![' '] + a + seq!['\n']),
{
    assert(((x + (h + c)) + seq![' ']) + a + seq!['\n'] =~= x + (h + c + seq![' '] + a + seq!['\n']));
}
@@fn format_as_hexdump
    ensures r@ =~= dump(data@, group, ((data@.len() + 15) / 16) as int) + seq!['\n'],
@@isolate
@@at start
broadcast use lemmas::lemma_push;
let ghost d = data@;
let ghost mut k: int = 0;
let ghost mut c1: Seq<char> = Seq::empty();
let ghost mut lb: Seq<u8> = Seq::empty();
proof { kx_slice_bound(data); reveal_strlit(""); }
@@loop 0
invariant
    d == data@, data_size == d.len(), d.len() <= isize::MAX, groups_data_size == d.len() / 16 * 16, data_offset <= groups_data_size,
    0 <= character_index < 16, character_index == data_offset as int % 16,
    character_index > 0 ==> lb == line_bytes(d, data_offset as int / 16),
    forall|i: int| 0 <= i < character_index ==> ascii_values@[i] == printable(#[trigger] lb[i]),
    group_data_offset % 16 == 0, group_data_offset <= data_offset,
    character_index > 0 || data_offset == 0 ==> group_data_offset == data_offset - character_index,
    character_index == 0 && data_offset > 0 ==> group_data_offset < data_offset
        && (group ==> !repeats(d, group_data_offset as int / 16))
        && line_bytes(d, group_data_offset as int / 16) == line_bytes(d, data_offset as int / 16 - 1)
        && (forall|g: int| group_data_offset as int / 16 < g < data_offset as int / 16 ==> group && #[trigger] repeats(d, g)),
    character_index == 0 ==> kx_concat(string_parts@) == dump(d, group, data_offset as int / 16),
    character_index > 0 ==> !(group && repeats(d, data_offset as int / 16))
        && kx_concat(string_parts@) == dump(d, group, data_offset as int / 16) + (head(data_offset - character_index) + cells(line_bytes(d, data_offset as int / 16), character_index as int)),
decreases groups_data_size - data_offset,
@@at loop 0 begin
broadcast use lemmas::lemma_push;
let ghost c0 = kx_concat(string_parts@);
proof {
    k = data_offset as int / 16;
    lb = line_bytes(d, k);
    assert(data_offset == 16 * k + character_index);
    assert(lb =~= d.subrange(16 * k, 16 * k + 16));
    if character_index == 0 && k > 0 {
        let g = group_data_offset as int / 16;
        assert(group_data_offset == 16 * g);
        assert(line_bytes(d, g) =~= d.subrange(16 * g, 16 * g + 16));
    }
}
@@at let:byte_value before
proof {
    assert(kx_concat(string_parts@) =~= dump(d, group, k) + (head(16 * k) + cells(lb, character_index as int)));
    lemma_cell(dump(d, group, k), head(16 * k), lb, character_index as int);
    assert(lb[character_index as int] == d[data_offset as int]);
    lemma_line(dump(d, group, k), head(16 * k), cells(lb, 16), chars(lb));
}
@@at loop 1 before
proof { c1 = kx_concat(string_parts@); }
@@loop 1
invariant
    forall|i: int| 0 <= i < 16 ==> ascii_values@[i] == printable(#[trigger] lb[i]), lb.len() == 16,
    lo1 == 0, hi1 == 16,
    kx_concat(string_parts@) =~= c1 + chars(lb).take(it1 as int),
@@at loop 1 after
proof { assert(chars(lb).take(16) =~= chars(lb)); }
@@at loop 1 begin
broadcast use lemmas::lemma_push;
@@at loop 0 after
proof { k = groups_data_size as int / 16; lb = line_bytes(d, k); }
@@loop 2
invariant
    d == data@, data_size == d.len(), d.len() <= isize::MAX,
    16 * k <= data_offset <= data_size, 16 * k == groups_data_size, lb == line_bytes(d, k), lb.len() == data_size - groups_data_size, lb.len() < 16,
    character_index == if data_offset > 16 * k { data_offset - 16 * k - 1 } else { 0 },
    forall|i: int| 0 <= i < data_offset - 16 * k ==> ascii_values@[i] == printable(#[trigger] lb[i]),
    data_offset == 16 * k ==> kx_concat(string_parts@) == dump(d, group, k),
    data_offset > 16 * k ==> kx_concat(string_parts@) == dump(d, group, k) + (head(16 * k) + cells(lb, data_offset - 16 * k)),
decreases data_size - data_offset,
@@at loop 2 begin
broadcast use lemmas::lemma_push;
@@at loop 3 before
proof { c1 = dump(d, group, k) + head(16 * k); }
@@loop 3
invariant
    lb.len() < 16, lo3 == lb.len(), hi3 == 16,
    kx_concat(string_parts@) =~= c1 + cells(lb, it3 as int),
@@at loop 3 begin
broadcast use lemmas::lemma_push;
@@at loop 4 before
proof { c1 = kx_concat(string_parts@); }
@@loop 4
invariant
    lo4 == 0, hi4 == lb.len(), lb.len() < 16,
    forall|i: int| 0 <= i < lb.len() ==> ascii_values@[i] == printable(#[trigger] lb[i]),
    kx_concat(string_parts@) =~= c1 + chars(lb).take(it4 as int),
@@at loop 4 begin
broadcast use lemmas::lemma_push;
@@endfn
