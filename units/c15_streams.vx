@@include std.vx
@@include streams.vx
@@raw
// ---- any data stream, as the default methods of the trait see it: an implementation
// answers reads with bytes of its content (possibly fewer than asked) ----
#[verifier::external_body]
struct DataStream { _p: u8 }
impl DataStream {
    uninterp spec fn content(&self) -> Seq<u8>;
    uninterp spec fn position(&self) -> int;
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, ErrorTrace>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            final(self).content() == old(self).content(),
            r is Ok ==> r->Ok_0 <= old(buf)@.len() && r->Ok_0 <= kx_left(old(self).content().len() as int, old(self).position())
                && final(self).position() == old(self).position() + r->Ok_0
                && final(buf)@ == old(self).content().skip(old(self).position()).take(r->Ok_0 as int) + old(buf)@.skip(r->Ok_0 as int),
    { unimplemented!() }
    #[verifier::external_body]
    fn seek(&mut self, pos: SeekFrom) -> (r: Result<u64, ErrorTrace>)
        ensures
            final(self).content() == old(self).content(),
            r is Ok ==> r->Ok_0 == kx_target(pos, old(self).position(), old(self).content().len() as int) && final(self).position() == r->Ok_0,
    { unimplemented!() }
}
@@file keramics-core/src/data_stream.rs
@@fn DataStream::read_at_position
    ensures
        final(buf)@.len() == old(buf)@.len(), final(self).content() == old(self).content(),
        r is Ok ==> ({
            let c = old(self).content();
            let p = kx_target(pos, old(self).position(), c.len() as int);
            &&& r->Ok_0 <= old(buf)@.len() && r->Ok_0 <= kx_left(c.len() as int, p)
            &&& final(self).position() == p + r->Ok_0
            &&& final(buf)@ == c.skip(p).take(r->Ok_0 as int) + old(buf)@.skip(r->Ok_0 as int)
        }),
@@fn DataStream::read_exact
    ensures
        final(buf)@.len() == old(buf)@.len(), final(self).content() == old(self).content(),
        r is Ok ==> ({
            let c = old(self).content();
            let p = old(self).position();
            &&& p + old(buf)@.len() <= c.len() || old(buf)@.len() == 0
            &&& final(self).position() == p + old(buf)@.len()
            &&& final(buf)@ =~= c.skip(p).take(old(buf)@.len() as int)
        }),
@@fn DataStream::read_exact_at_position
    ensures
        final(buf)@.len() == old(buf)@.len(), final(self).content() == old(self).content(),
        r is Ok ==> ({
            let c = old(self).content();
            let p = kx_target(pos, old(self).position(), c.len() as int);
            &&& r->Ok_0 == p
            &&& p + old(buf)@.len() <= c.len() || old(buf)@.len() == 0
            &&& final(self).position() == p + old(buf)@.len()
            &&& final(buf)@ =~= c.skip(p).take(old(buf)@.len() as int)
        }),
@@file keramics-core/src/fake_data_stream.rs
@@item FakeDataStream
@@raw
// the data, cut or filled up with zeros to the size
spec fn content_at(f: FakeDataStream, i: int) -> u8 { if i < f.data@.len() { f.data@[i] } else { 0 } }
spec fn content(f: FakeDataStream) -> Seq<u8> { Seq::new(f.size as nat, |i: int| content_at(f, i)) }
spec fn same(a: FakeDataStream, b: FakeDataStream) -> bool { a.data == b.data && a.data_size == b.data_size && a.size == b.size }
spec fn inv(f: FakeDataStream) -> bool { f.data_size == f.data@.len() }
@@fn FakeDataStream::new
    ensures inv(r), r.data@ == data@, r.size == size, r.current_offset == 0,
@@fn FakeDataStream::get_size for DataStream
    ensures r is Ok, r->Ok_0 == content(*old(self)).len(), *final(self) == *old(self),
@@fn FakeDataStream::read for DataStream
    requires inv(*old(self)),
    ensures
        same(*final(self), *old(self)), r is Ok,
        r->Ok_0 == kx_min(old(buf)@.len() as int, kx_left(old(self).size as int, old(self).current_offset as int)),
        final(self).current_offset == old(self).current_offset + r->Ok_0,
        final(buf)@ =~= content(*old(self)).skip(old(self).current_offset as int).take(r->Ok_0 as int) + old(buf)@.skip(r->Ok_0 as int),
@@at start
let ghost c = content(*self);
let ghost p = self.current_offset as int;
let ghost b0 = buf@;
@@loop 0
    same(*self, *old(self)), inv(*self), c == content(*old(self)), p == old(self).current_offset, b0 == old(buf)@,
    buf@.len() == b0.len(), 0 <= buf_offset <= read_size <= buf@.len(), p + read_size <= self.size,
    self.current_offset == p + buf_offset,
    forall|i: int| 0 <= i < buf_offset ==> #[trigger] buf@[i] == content_at(*old(self), p + i),
    forall|i: int| buf_offset <= i < b0.len() ==> #[trigger] buf@[i] == b0[i],
decreases read_size - buf_offset,
@@fn FakeDataStream::seek for DataStream
    ensures
        same(*final(self), *old(self)),
        ({
            let t = kx_target(pos, old(self).current_offset as int, old(self).size as int);
            &&& r is Ok <==> 0 <= t <= u64::MAX
            &&& r is Ok ==> r->Ok_0 == t && final(self).current_offset == t
            &&& r is Err ==> final(self).current_offset == old(self).current_offset
        }),
@@endfn
