@@include streams.vx
@@raw
// ---- a shared data stream, as the data_stream_* macros use it: locking may fail (poisoned
// lock); the stream's content is the same for all reads; read_at_position and
// read_exact_at_position keep the contracts proved for DataStream in C15. A sound stream is one
// whose lock and whose device do not fail: its reads within its content succeed ----
#[verifier::external_body]
struct DataStreamReference { _p: u8 }
#[verifier::external_body]
struct KxStreamGuard { _p: u8 }
#[verifier::external_body]
struct KxPoison { _p: u8 }
impl DataStreamReference {
    uninterp spec fn content(&self) -> Seq<u8>;
    uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body]
    fn write(&self) -> (r: Result<KxStreamGuard, KxPoison>)
        ensures self.sound() ==> r is Ok && r->Ok_0.sound(),
            r is Ok ==> r->Ok_0.content() == self.content() && self.content().len() <= u64::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: DataStreamReference)
        ensures r.content() == self.content(), r.sound() == self.sound(),
    { unimplemented!() }
}
impl KxStreamGuard {
    uninterp spec fn content(&self) -> Seq<u8>;
    uninterp spec fn position(&self) -> int;
    uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body]
    fn get_size(&mut self) -> (r: Result<u64, ErrorTrace>)
        ensures final(self).content() == old(self).content(), r is Ok ==> r->Ok_0 == old(self).content().len(),
            old(self).sound() ==> final(self).sound() && r is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    fn read_at_position(&mut self, buf: &mut [u8], pos: SeekFrom) -> (r: Result<usize, ErrorTrace>)
        ensures
            final(buf)@.len() == old(buf)@.len(), final(self).content() == old(self).content(),
            old(self).sound() ==> final(self).sound() && (0 <= kx_target(pos, old(self).position(), old(self).content().len() as int) <= u64::MAX ==> r is Ok),
            r is Ok ==> ({
                let c = old(self).content();
                let p = kx_target(pos, old(self).position(), c.len() as int);
                &&& 0 <= p && r->Ok_0 <= old(buf)@.len() && r->Ok_0 <= kx_left(c.len() as int, p)
                &&& r->Ok_0 == 0 ==> old(buf)@.len() == 0 || p >= c.len()
                &&& final(buf)@ == c.skip(p).take(r->Ok_0 as int) + old(buf)@.skip(r->Ok_0 as int)
            }),
    { unimplemented!() }
    #[verifier::external_body]
    fn read_exact_at_position(&mut self, buf: &mut [u8], pos: SeekFrom) -> (r: Result<u64, ErrorTrace>)
        ensures
            final(buf)@.len() == old(buf)@.len(), final(self).content() == old(self).content(),
            old(self).sound() ==> final(self).sound() && (0 <= kx_target(pos, old(self).position(), old(self).content().len() as int) <= old(self).content().len() - old(buf)@.len() ==> r is Ok),
            r is Ok ==> ({
                let c = old(self).content();
                let p = kx_target(pos, old(self).position(), c.len() as int);
                &&& 0 <= p && r->Ok_0 == p
                &&& p + old(buf)@.len() <= c.len() || old(buf)@.len() == 0
                &&& final(buf)@ =~= c.skip(p).take(old(buf)@.len() as int)
            }),
    { unimplemented!() }
}
