// ---- text formatting (trusted: what std::fmt does for {}, {:0N} and {:0Nx} of integers) ----
spec fn kx_digit(d: nat) -> char {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
    else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else if d == 9 { '9' }
    else if d == 10 { 'a' } else if d == 11 { 'b' } else if d == 12 { 'c' } else if d == 13 { 'd' } else if d == 14 { 'e' } else { 'f' }
}
spec fn kx_digits10(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 { seq![kx_digit(n)] } else { kx_digits10(n / 10).push(kx_digit(n % 10)) }
}
spec fn kx_digits16(n: nat) -> Seq<char>
    decreases n
{
    if n < 16 { seq![kx_digit(n)] } else { kx_digits16(n / 16).push(kx_digit(n % 16)) }
}
spec fn kx_zeros(n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| '0') }
// decimal, zero padded to width w (the sign counts)
spec fn kx_dec_text(v: int, w: nat) -> Seq<char> {
    if v >= 0 { kx_zeros(w - kx_digits10(v as nat).len()) + kx_digits10(v as nat) }
    else { seq!['-'] + kx_zeros(w - 1 - kx_digits10((-v) as nat).len()) + kx_digits10((-v) as nat) }
}
spec fn kx_hex_text(v: int, w: nat) -> Seq<char> {
    kx_zeros(w - kx_digits16(v as nat).len()) + kx_digits16(v as nat)
}
#[verifier::external_body]
fn kx_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
fn kx_ch(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
trait KxShow {
    spec fn kx_text(&self) -> Seq<char>;
    fn kx_show(&self, s: &mut String) ensures final(s)@ == old(s)@ + self.kx_text();
}
trait KxInt {
    spec fn kx_v(&self) -> int;
    fn kx_dec(&self, s: &mut String, w: usize) ensures final(s)@ == old(s)@ + kx_dec_text(self.kx_v(), w as nat);
    fn kx_hex(&self, s: &mut String, w: usize) ensures self.kx_v() >= 0 ==> final(s)@ == old(s)@ + kx_hex_text(self.kx_v(), w as nat);
}
impl KxInt for u8 {
    spec fn kx_v(&self) -> int { *self as int }
    #[verifier::external_body]
    fn kx_dec(&self, s: &mut String, w: usize) { s.push_str(&format!("{:0w$}", self)) }
    #[verifier::external_body]
    fn kx_hex(&self, s: &mut String, w: usize) { s.push_str(&format!("{:0w$x}", self)) }
}
impl KxShow for u8 {
    spec fn kx_text(&self) -> Seq<char> { kx_dec_text(*self as int, 0) }
    #[verifier::external_body]
    fn kx_show(&self, s: &mut String) { s.push_str(&format!("{}", self)) }
}
impl KxInt for u16 {
    spec fn kx_v(&self) -> int { *self as int }
    #[verifier::external_body]
    fn kx_dec(&self, s: &mut String, w: usize) { s.push_str(&format!("{:0w$}", self)) }
    #[verifier::external_body]
    fn kx_hex(&self, s: &mut String, w: usize) { s.push_str(&format!("{:0w$x}", self)) }
}
impl KxShow for u16 {
    spec fn kx_text(&self) -> Seq<char> { kx_dec_text(*self as int, 0) }
    #[verifier::external_body]
    fn kx_show(&self, s: &mut String) { s.push_str(&format!("{}", self)) }
}
impl KxInt for u32 {
    spec fn kx_v(&self) -> int { *self as int }
    #[verifier::external_body]
    fn kx_dec(&self, s: &mut String, w: usize) { s.push_str(&format!("{:0w$}", self)) }
    #[verifier::external_body]
    fn kx_hex(&self, s: &mut String, w: usize) { s.push_str(&format!("{:0w$x}", self)) }
}
impl KxShow for u32 {
    spec fn kx_text(&self) -> Seq<char> { kx_dec_text(*self as int, 0) }
    #[verifier::external_body]
    fn kx_show(&self, s: &mut String) { s.push_str(&format!("{}", self)) }
}
impl KxInt for u64 {
    spec fn kx_v(&self) -> int { *self as int }
    #[verifier::external_body]
    fn kx_dec(&self, s: &mut String, w: usize) { s.push_str(&format!("{:0w$}", self)) }
    #[verifier::external_body]
    fn kx_hex(&self, s: &mut String, w: usize) { s.push_str(&format!("{:0w$x}", self)) }
}
impl KxShow for u64 {
    spec fn kx_text(&self) -> Seq<char> { kx_dec_text(*self as int, 0) }
    #[verifier::external_body]
    fn kx_show(&self, s: &mut String) { s.push_str(&format!("{}", self)) }
}
impl KxInt for usize {
    spec fn kx_v(&self) -> int { *self as int }
    #[verifier::external_body]
    fn kx_dec(&self, s: &mut String, w: usize) { s.push_str(&format!("{:0w$}", self)) }
    #[verifier::external_body]
    fn kx_hex(&self, s: &mut String, w: usize) { s.push_str(&format!("{:0w$x}", self)) }
}
impl KxShow for usize {
    spec fn kx_text(&self) -> Seq<char> { kx_dec_text(*self as int, 0) }
    #[verifier::external_body]
    fn kx_show(&self, s: &mut String) { s.push_str(&format!("{}", self)) }
}
impl KxInt for i16 {
    spec fn kx_v(&self) -> int { *self as int }
    #[verifier::external_body]
    fn kx_dec(&self, s: &mut String, w: usize) { s.push_str(&format!("{:0w$}", self)) }
    #[verifier::external_body]
    fn kx_hex(&self, s: &mut String, w: usize) { s.push_str(&format!("{:0w$x}", self)) }
}
impl KxShow for i16 {
    spec fn kx_text(&self) -> Seq<char> { kx_dec_text(*self as int, 0) }
    #[verifier::external_body]
    fn kx_show(&self, s: &mut String) { s.push_str(&format!("{}", self)) }
}
impl KxInt for i32 {
    spec fn kx_v(&self) -> int { *self as int }
    #[verifier::external_body]
    fn kx_dec(&self, s: &mut String, w: usize) { s.push_str(&format!("{:0w$}", self)) }
    #[verifier::external_body]
    fn kx_hex(&self, s: &mut String, w: usize) { s.push_str(&format!("{:0w$x}", self)) }
}
impl KxShow for i32 {
    spec fn kx_text(&self) -> Seq<char> { kx_dec_text(*self as int, 0) }
    #[verifier::external_body]
    fn kx_show(&self, s: &mut String) { s.push_str(&format!("{}", self)) }
}
impl KxInt for i64 {
    spec fn kx_v(&self) -> int { *self as int }
    #[verifier::external_body]
    fn kx_dec(&self, s: &mut String, w: usize) { s.push_str(&format!("{:0w$}", self)) }
    #[verifier::external_body]
    fn kx_hex(&self, s: &mut String, w: usize) { s.push_str(&format!("{:0w$x}", self)) }
}
impl KxShow for i64 {
    spec fn kx_text(&self) -> Seq<char> { kx_dec_text(*self as int, 0) }
    #[verifier::external_body]
    fn kx_show(&self, s: &mut String) { s.push_str(&format!("{}", self)) }
}
impl KxShow for String {
    spec fn kx_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn kx_show(&self, s: &mut String) { s.push_str(self) }
}
// a formatter collects text; writing either appends all of it or reports an error
mod fmt {
    use super::*;
    #[verifier::external_body]
    pub struct Formatter { _p: u8 }
    #[verifier::external_body]
    pub struct Error { _p: u8 }
    pub type Result = std::result::Result<(), Error>;
    impl Formatter {
        pub uninterp spec fn text(&self) -> Seq<char>;
    }
}
#[verifier::external_body]
fn kx_write(f: &mut fmt::Formatter, s: String) -> (r: fmt::Result)
    ensures r is Ok ==> final(f).text() == old(f).text() + s@,
{ unimplemented!() }
