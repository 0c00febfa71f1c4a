@@raw
// ---- a file's content as its block map gives it: Mapped(p) is byte p of the image, Zero a
// sparse byte, None an offset without a block ----
enum KxByte { Zero, Mapped(int), Missing }
spec fn kx_byte_ok(b: KxByte, c: Seq<u8>, v: u8) -> bool {
    match b {
        KxByte::Zero => v == 0,
        KxByte::Mapped(p) => 0 <= p < c.len() && v == c[p],
        KxByte::Missing => false,
    }
}
// n bytes were read of the file at p: each is the byte the map gives; fewer than asked only
// where the file or the image ends
spec fn file_bytes(map: spec_fn(int) -> KxByte, c: Seq<u8>, size: int, p: int, b0: Seq<u8>, n: int, b1: Seq<u8>) -> bool {
    &&& b1.len() == b0.len() && 0 <= n <= b0.len() && n <= kx_left(size, p)
    &&& forall|i: int| 0 <= i < n ==> kx_byte_ok(map(p + i), c, #[trigger] b1[i])
    &&& forall|i: int| n <= i < b0.len() ==> #[trigger] b1[i] == b0[i]
    &&& n < b0.len() && p + n < size ==> map(p + n) is Mapped && map(p + n)->Mapped_0 >= c.len()
}
