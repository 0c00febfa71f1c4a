@@raw
// ---- the content of a virtual disk as its block map gives it: Mapped(p) is byte p of the image
// file, Zero an unallocated byte, Parent the byte of the parent disk at the same offset ----
enum DByte { Zero, Mapped(int), Parent, Missing }
spec fn disk_byte_ok(b: DByte, c: Seq<u8>, parent: Seq<u8>, o: int, v: u8) -> bool {
    match b {
        DByte::Zero => v == 0,
        DByte::Mapped(p) => 0 <= p < c.len() && v == c[p],
        DByte::Parent => 0 <= o < parent.len() && v == parent[o],
        DByte::Missing => false,
    }
}
// the byte is not there: the image file or the parent disk ends before it
spec fn disk_byte_out(b: DByte, c: Seq<u8>, parent: Seq<u8>, o: int) -> bool {
    match b {
        DByte::Mapped(p) => p >= c.len(),
        DByte::Parent => o >= parent.len(),
        _ => false,
    }
}
// n bytes of the disk were read at p: each is the byte the map gives; none (and, when full, fewer
// than asked) only where the disk, the image file or the parent ends
spec fn disk_bytes(full: bool, map: spec_fn(int) -> DByte, c: Seq<u8>, parent: Seq<u8>, size: int, p: int, b0: Seq<u8>, n: int, b1: Seq<u8>) -> bool {
    &&& b1.len() == b0.len() && 0 <= n <= b0.len() && n <= kx_left(size, p)
    &&& forall|i: int| 0 <= i < n ==> disk_byte_ok(map(p + i), c, parent, p + i, #[trigger] b1[i])
    &&& forall|i: int| n <= i < b0.len() ==> #[trigger] b1[i] == b0[i]
    &&& (n == 0 || full) && n < b0.len() && p + n < size ==> disk_byte_out(map(p + n), c, parent, p + n)
}
spec fn be32(d: Seq<u8>, o: int) -> u32 { kx_u32_be(d.subrange(o, o + 4)) }
spec fn be64(d: Seq<u8>, o: int) -> u64 { kx_u64_be(d.subrange(o, o + 8)) }
