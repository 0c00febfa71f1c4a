@@raw
// ---- a stream that is an extent of another: offset and size in the image ----
spec fn extent(image: Seq<u8>, offset: int, size: int, p: int, n: int) -> Seq<u8> { image.skip(offset + p).take(n) }
spec fn part_read(ds: Option<DataStreamReference>, offset: int, size: int, p: int, b0: Seq<u8>, r: Result<usize, ErrorTrace>, b1: Seq<u8>, p1: int) -> bool {
    &&& b1.len() == b0.len()
    &&& r is Ok ==> ds is Some
    &&& r is Ok ==> ({
        let n = r->Ok_0 as int;
        &&& n <= b0.len() && n <= kx_left(size, p) && (n == 0 || offset + p + n <= ds->Some_0.content().len())
        &&& p1 == p + n
        &&& b1 =~= ds->Some_0.content().skip(offset + p).take(n) + b0.skip(n)
    })
    &&& r is Err ==> p1 == p
    &&& ds is Some && p >= size ==> r is Ok && r->Ok_0 == 0
}
spec fn seeks(pos: SeekFrom, p: int, size: int, r: Result<u64, ErrorTrace>, p1: int) -> bool {
    let t = kx_target(pos, p, size);
    &&& r is Ok <==> 0 <= t <= u64::MAX
    &&& r is Ok ==> r->Ok_0 == t && p1 == t
    &&& r is Err ==> p1 == p
}
