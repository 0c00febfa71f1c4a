@@opt format
@@include std.vx
@@include fmt.vx
@@include texts.vx
@@raw
// ---- the codec behind an encoding: assumed contract on the dyn Iterator objects that
// new_character_decoder and new_character_encoder return (C07 and C08 prove the codecs) ----
uninterp spec fn decoded(e: CharacterEncoding, d: Seq<u8>) -> Seq<Option<u32>>;
uninterp spec fn encoded(e: CharacterEncoding, c: Seq<u32>) -> Seq<Option<Seq<u8>>>;
#[verifier::external_body]
struct CharacterDecoder<'a> { _p: &'a u8 }
impl<'a> CharacterDecoder<'a> {
    uninterp spec fn rest(&self) -> Seq<Option<u32>>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Result<u32, ErrorTrace>>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && final(self).rest() == old(self).rest().skip(1)
                && (old(self).rest()[0] is Some <==> r->Some_0 is Ok)
                && (r->Some_0 is Ok ==> old(self).rest()[0] == Some(r->Some_0->Ok_0)),
    { unimplemented!() }
}
#[verifier::external_body]
struct CharacterEncoder<'a> { _p: &'a u8 }
impl<'a> CharacterEncoder<'a> {
    uninterp spec fn rest(&self) -> Seq<Option<Seq<u8>>>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Result<Vec<u8>, ErrorTrace>>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && final(self).rest() == old(self).rest().skip(1)
                && (old(self).rest()[0] is Some <==> r->Some_0 is Ok)
                && (r->Some_0 is Ok ==> old(self).rest()[0] == Some(r->Some_0->Ok_0@)),
    { unimplemented!() }
}
#[verifier::external_body]
fn new_character_decoder<'a>(e: &CharacterEncoding, d: &'a Vec<u8>) -> (r: CharacterDecoder<'a>) ensures r.rest() == decoded(*e, d@) { unimplemented!() }
#[verifier::external_body]
fn new_character_encoder<'a>(e: &CharacterEncoding, c: &'a Vec<u32>) -> (r: CharacterEncoder<'a>) ensures r.rest() == encoded(*e, c@) { unimplemented!() }
@@file keramics-encodings/src/enums.rs
@@item CharacterEncoding #[derive(PartialEq, Eq, Structural)]
@@file keramics-types/src/byte_string.rs
@@item ByteString
@@raw
spec fn all_some<T>(s: Seq<Option<T>>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Some }
spec fn values(s: Seq<Option<u32>>) -> Seq<u32> { Seq::new(s.len(), |i: int| s[i]->Some_0) }
spec fn bytes_of(s: Seq<Option<Seq<u8>>>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { bytes_of(s.drop_last()) + s.last()->Some_0 }
}
spec fn nul(s: Seq<u8>, i: int) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() || s[i] == 0 { i } else { nul(s, i + 1) }
}
spec fn until_nul(s: Seq<u8>) -> Seq<u8> { s.take(nul(s, 0)) }
proof fn lemma_nul(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), n == s.len() || s[n] == 0, forall|k: int| 0 <= k < n ==> #[trigger] s[k] != 0,
    ensures nul(s, 0) == n,
{
    lemma_nul_from(s, 0, n);
}
proof fn lemma_nul_from(s: Seq<u8>, i: int, n: int)
    requires 0 <= i <= n <= s.len(), n == s.len() || s[n] == 0, forall|k: int| i <= k < n ==> #[trigger] s[k] != 0,
    ensures nul(s, i) == n,
    decreases n - i
{
    if i < n {
        assert(s[i] != 0);
        lemma_nul_from(s, i + 1, n);
    }
}
// a decoded character is shown as itself, a backslash is doubled, a code that is no
// character is shown as \{hex}, a byte sequence that is not decoded as U+FFFD
spec fn shown(e: Option<u32>) -> Seq<char> {
    match e {
        None => seq!['\u{fffd}'],
        Some(c) => if 0xd800 <= c <= 0xdfff || c >= 0x110000 { seq!['\\', '{'] + kx_hex_text(c as int, 4) + seq!['}'] }
            else if c == 0x5c { seq!['\\', '\\'] }
            else { seq![c as char] },
    }
}
spec fn shown_all(s: Seq<Option<u32>>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { shown_all(s.drop_last()) + shown(s.last()) }
}
@@fn ByteString::new
    ensures r.elements@.len() == 0, r.encoding == CharacterEncoding::Utf8,
@@fn ByteString::extend
    ensures
        final(self).encoding == old(self).encoding,
        old(self).encoding == byte_string.encoding ==> r is Ok && final(self).elements@ == old(self).elements@ + byte_string.elements@,
        old(self).encoding != byte_string.encoding ==> ({
            let d = decoded(byte_string.encoding, byte_string.elements@);
            let e = encoded(old(self).encoding, values(d));
            &&& r is Ok <==> all_some(d) && all_some(e)
            &&& r is Ok ==> final(self).elements@ == old(self).elements@ + bytes_of(e)
            &&& !all_some(d) ==> final(self).elements@ == old(self).elements@
        }),
@@isolate
@@at start
let ghost d = decoded(byte_string.encoding, byte_string.elements@);
@@loop 0
invariant
    *self == *old(self), self.encoding != byte_string.encoding, d == decoded(byte_string.encoding, byte_string.elements@),
    code_points@.len() <= d.len(), character_decoder.rest() == d.skip(code_points@.len() as int),
    forall|i: int| 0 <= i < code_points@.len() ==> #[trigger] d[i] == Some(code_points@[i]),
ensures
    character_decoder.rest().len() == 0,
decreases character_decoder.rest().len(),
@@at loop 0 begin
let ghost k = code_points@.len() as int;
proof { if k < d.len() { assert(d.skip(k)[0] == d[k]); assert(d.skip(k).skip(1) =~= d.skip(k + 1)); } }
@@at loop 0 after
proof { assert(code_points@ =~= values(d)); }
@@fn ByteString::extend_from_codepoints
    ensures
        final(self).encoding == old(self).encoding,
        ({
            let e = encoded(old(self).encoding, code_points@);
            &&& r is Ok <==> all_some(e)
            &&& r is Ok ==> final(self).elements@ == old(self).elements@ + bytes_of(e)
        }),
@@isolate
@@at start
let ghost e = encoded(self.encoding, code_points@);
let ghost e0 = self.elements@;
let ghost mut k = 0int;
proof { assert(e.skip(0) =~= e); assert(e0 + bytes_of(e.take(0)) =~= e0); }
@@loop 0
invariant
    self.encoding == old(self).encoding, e == encoded(old(self).encoding, code_points@), e0 == old(self).elements@,
    0 <= k <= e.len(), character_encoder.rest() == e.skip(k),
    forall|i: int| 0 <= i < k ==> #[trigger] e[i] is Some,
    self.elements@ == e0 + bytes_of(e.take(k)),
ensures
    character_encoder.rest().len() == 0,
decreases character_encoder.rest().len(),
@@at loop 0 begin
proof { if k < e.len() { assert(e.skip(k)[0] == e[k]); assert(e.skip(k).skip(1) =~= e.skip(k + 1)); assert(e.take(k + 1).drop_last() =~= e.take(k)); } }
@@at loop 0 end
proof { k = k + 1; assert(self.elements@ =~= e0 + bytes_of(e.take(k))); }
@@at loop 0 after
proof { assert(e.take(k) =~= e); }
@@fn ByteString::get_character_decoder
    ensures r.rest() == decoded(self.encoding, self.elements@),
@@fn ByteString::is_empty
    ensures r == (self.elements@.len() == 0),
@@fn ByteString::len
    ensures r == self.elements@.len(),
@@fn ByteString::read_data
    ensures final(self).elements@ == old(self).elements@ + until_nul(data@), final(self).encoding == old(self).encoding,
@@isolate
@@loop 0
invariant_except_break
    kx_p is None, forall|k: int| 0 <= k < it0 ==> #[trigger] data@[k] != 0,
invariant
    lo0 == 0, hi0 == data@.len(),
ensures
    kx_p is None ==> forall|k: int| 0 <= k < data@.len() ==> #[trigger] data@[k] != 0,
    kx_p is Some ==> kx_p->Some_0 < data@.len() && data@[kx_p->Some_0 as int] == 0
        && forall|k: int| 0 <= k < kx_p->Some_0 ==> #[trigger] data@[k] != 0,
@@at loop 0 after
proof { lemma_nul(data@, match kx_p { Some(k) => k as int, None => data@.len() as int }); }
@@fn ByteString::to_string
    ensures r@ == shown_all(decoded(self.encoding, self.elements@)),
@@isolate
@@at start
let ghost d = decoded(self.encoding, self.elements@);
let ghost mut k = 0int;
proof { reveal_strlit("\\\\"); reveal_strlit(""); reveal_strlit("\u{fffd}"); assert(d.skip(0) =~= d); }
@@loop 0
invariant
    d == decoded(self.encoding, self.elements@),
    0 <= k <= d.len(), character_decoder.rest() == d.skip(k),
    kx_concat(string_parts@) =~= shown_all(d.take(k)),
ensures
    character_decoder.rest().len() == 0,
decreases character_decoder.rest().len(),
@@at loop 0 begin
let ghost v0 = string_parts@;
proof {
    reveal_strlit("\\\\"); reveal_strlit(""); reveal_strlit("\u{fffd}");
    if k < d.len() { assert(d.skip(k)[0] == d[k]); assert(d.skip(k).skip(1) =~= d.skip(k + 1)); assert(d.take(k + 1).drop_last() =~= d.take(k)); }
}
@@at loop 0 end
proof {
    assert(string_parts@.drop_last() =~= v0);
    assert(string_parts@.last()@ =~= shown(d[k]));
    k = k + 1;
}
@@at loop 0 after
proof { assert(d.take(k) =~= d); }
@@fn ByteString::from for From<&[u8]>
@@rename from_slice
    ensures r.elements@ == until_nul(slice@), r.encoding == CharacterEncoding::Utf8,
@@isolate
@@loop 0
invariant_except_break
    kx_p is None, forall|k: int| 0 <= k < it0 ==> #[trigger] slice@[k] != 0,
invariant
    lo0 == 0, hi0 == slice@.len(),
ensures
    kx_p is None ==> forall|k: int| 0 <= k < slice@.len() ==> #[trigger] slice@[k] != 0,
    kx_p is Some ==> kx_p->Some_0 < slice@.len() && slice@[kx_p->Some_0 as int] == 0
        && forall|k: int| 0 <= k < kx_p->Some_0 ==> #[trigger] slice@[k] != 0,
@@at loop 0 after
proof { lemma_nul(slice@, match kx_p { Some(k) => k as int, None => slice@.len() as int }); }
@@endfn
