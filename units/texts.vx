@@mappath String::from kx_string_from
@@mapmethod join kx_join
@@mappath char::from_u32 kx_char_from_u32
@@mapmethod to_string kx_show_string
@@mappath Vec::from kx_vec_from
@@raw
use std::cmp::Ordering;
use std::collections::HashMap;
// ---- texts and vectors (trusted: the std functions used by the code) ----
impl<T: KxInt> KxInt for &T {
    spec fn kx_v(&self) -> int { (**self).kx_v() }
    fn kx_dec(&self, s: &mut String, w: usize) { (**self).kx_dec(s, w) }
    fn kx_hex(&self, s: &mut String, w: usize) { (**self).kx_hex(s, w) }
}
impl KxShow for char {
    spec fn kx_text(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn kx_show(&self, s: &mut String) { s.push(*self) }
}
impl<T: KxShow> KxShow for &T {
    spec fn kx_text(&self) -> Seq<char> { (**self).kx_text() }
    fn kx_show(&self, s: &mut String) { (**self).kx_show(s) }
}
fn kx_show_string<T: KxShow>(x: T) -> (r: String) ensures r@ =~= x.kx_text() { let mut s = kx_string_new(); x.kx_show(&mut s); s }
#[verifier::external_body]
fn kx_string_from(s: &str) -> (r: String) ensures r@ == s@ { String::from(s) }
pub open spec fn kx_concat(v: Seq<String>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { kx_concat(v.drop_last()) + v.last()@ }
}
spec fn kx_joined(v: Seq<String>, sep: Seq<char>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0]@ } else { kx_joined(v.drop_last(), sep) + sep + v.last()@ }
}
proof fn kx_join_concat(v: Seq<String>)
    ensures kx_joined(v, Seq::empty()) =~= kx_concat(v),
    decreases v.len()
{
    reveal_with_fuel(kx_concat, 2);
    if v.len() == 1 { assert(v.drop_last() =~= Seq::empty()); }
    if v.len() > 1 { kx_join_concat(v.drop_last()); }
}
trait KxStrings {
    spec fn kx_parts(&self) -> Seq<String>;
    fn kx_join_parts(&self, sep: &str) -> (r: String) ensures r@ == kx_joined(self.kx_parts(), sep@);
}
impl KxStrings for Vec<String> {
    spec fn kx_parts(&self) -> Seq<String> { self@ }
    #[verifier::external_body]
    fn kx_join_parts(&self, sep: &str) -> (r: String) { self.join(sep) }
}
impl KxStrings for &Vec<String> {
    spec fn kx_parts(&self) -> Seq<String> { self@ }
    #[verifier::external_body]
    fn kx_join_parts(&self, sep: &str) -> (r: String) { self.join(sep) }
}
impl KxStrings for &[String] {
    spec fn kx_parts(&self) -> Seq<String> { self@ }
    #[verifier::external_body]
    fn kx_join_parts(&self, sep: &str) -> (r: String) { self.join(sep) }
}
fn kx_join<V: KxStrings>(v: V, sep: &str) -> (r: String)
    ensures r@ == kx_joined(v.kx_parts(), sep@), sep@.len() == 0 ==> r@ =~= kx_concat(v.kx_parts()),
{
    proof { if sep@.len() == 0 { assert(sep@ =~= Seq::empty()); kx_join_concat(v.kx_parts()); } }
    v.kx_join_parts(sep)
}
#[verifier::external_body]
fn kx_char_from_u32(v: u32) -> (r: Option<char>)
    ensures r is Some <==> (v < 0xd800 || 0xe000 <= v < 0x110000), r is Some ==> r->Some_0 as u32 == v,
{ char::from_u32(v) }
#[verifier::external_body]
fn kx_vec_from<T: Copy>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { Vec::from(s) }
#[verifier::external_body]
proof fn kx_slice_bound_t<T>(s: &[T]) ensures s@.len() <= isize::MAX as int {}
#[verifier::external_body]
fn kx_slice_eq<T: PartialEq>(a: &[T], b: &[T]) -> (r: bool) where T: Copy
    ensures r == (a@ == b@),
{ a == b }
// equality of strings
#[verifier::external_body]
proof fn kx_string_eq()
    ensures
        <String as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec(),
        forall|a: String, b: String| #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@),
{}
