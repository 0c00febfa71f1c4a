@@raw
// ---- data streams: the contract of keramics_core::DataStream ----
#[verifier::external_type_specification]
pub struct ExSeekFrom(std::io::SeekFrom);
use std::io::SeekFrom;
spec fn kx_min(a: int, b: int) -> int { if a < b { a } else { b } }
// the number of bytes a read of n bytes at position p of a stream of the given size may yield
spec fn kx_left(size: int, p: int) -> int { if p >= size { 0 } else { size - p } }
spec fn kx_target(pos: SeekFrom, current: int, size: int) -> int {
    match pos {
        SeekFrom::Start(o) => o as int,
        SeekFrom::Current(o) => current + o,
        SeekFrom::End(o) => size + o,
    }
}
use std::cmp::{min, max, Ordering};
use vstd::std_specs::cmp::OrdSpec;
pub assume_specification<T: Ord>[ std::cmp::min ](a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == Ordering::Less { b } else { a });
pub assume_specification<T: Ord>[ std::cmp::max ](a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == Ordering::Less { a } else { b });
pub assume_specification<T> [ <[T]>::to_vec ] (s: &[T]) -> (r: Vec<T>) where T: Clone
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);
