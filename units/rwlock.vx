@@raw
// a lock around another disk: its content is what its reads yield (the disk is a DataStream)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct RwLock<T> { _p: core::marker::PhantomData<T> }
impl<T> RwLock<T> {
    uninterp spec fn content(&self) -> Seq<u8>;
    uninterp spec fn sound(&self) -> bool;
    uninterp spec fn value(&self) -> T;
    #[verifier::external_body]
    fn write(&self) -> (r: Result<KxStreamGuard, KxPoison>)
        ensures self.sound() ==> r is Ok && r->Ok_0.sound(),
            r is Ok ==> r->Ok_0.content() == self.content() && self.content().len() <= u64::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    fn read(&self) -> (r: Result<&T, KxPoison>)
        ensures self.sound() ==> r is Ok, r is Ok ==> *r->Ok_0 == self.value(),
    { unimplemented!() }
}
