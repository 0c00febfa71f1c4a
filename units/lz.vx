@@include sliceeq.vx
@@raw
// `out` followed by n bytes, each copied from `dist` bytes before the end
spec fn lz_copy(out: Seq<u8>, dist: int, n: nat) -> Seq<u8>
    decreases n
{
    if n == 0 { out } else { let p = lz_copy(out, dist, (n - 1) as nat); p.push(p[p.len() - dist]) }
}
// the buffer holds `out`, and behind it what it held before
spec fn lz_buf(b: Seq<u8>, b0: Seq<u8>, out: Seq<u8>) -> bool { out.len() <= b0.len() && b == out + b0.skip(out.len() as int) }
// decompressed data: in the front of the buffer if r is Ok
spec fn lz_result(spec: Option<Seq<u8>>, ok: bool, size: int, b0: Seq<u8>, b: Seq<u8>) -> bool {
    ok == (spec is Some) && (ok ==> size == spec->0.len() && lz_buf(b, b0, spec->0))
}
proof fn lemma_lz_copy(out: Seq<u8>, dist: int, n: nat)
    ensures lz_copy(out, dist, n).len() == out.len() + n,
        n > 0 ==> lz_copy(out, dist, n) == lz_copy(out, dist, (n - 1) as nat).push(lz_copy(out, dist, (n - 1) as nat)[out.len() + n - 1 - dist]),
    decreases n
{
    if n > 0 { lemma_lz_copy(out, dist, (n - 1) as nat); }
}
proof fn lemma_lz_start(b0: Seq<u8>)
    ensures lz_buf(b0, b0, seq![]),
{
    assert(b0 =~= Seq::<u8>::empty() + b0.skip(0));
}
proof fn lemma_lz_push(b: Seq<u8>, b0: Seq<u8>, out: Seq<u8>, x: u8)
    requires lz_buf(b, b0, out), out.len() < b0.len(),
    ensures lz_buf(b.update(out.len() as int, x), b0, out.push(x)), b.len() == b0.len(),
        forall|m: int| 0 <= m < out.len() ==> #[trigger] b[m] == out[m],
{
    assert(b.update(out.len() as int, x) =~= out.push(x) + b0.skip(out.len() as int + 1));
}
proof fn lemma_lz_append(b: Seq<u8>, b0: Seq<u8>, out: Seq<u8>, s: Seq<u8>, b2: Seq<u8>)
    requires lz_buf(b, b0, out), out.len() + s.len() <= b0.len(), b2.len() == b.len(),
        forall|i: int| 0 <= i < b.len() ==> #[trigger] b2[i] == (if out.len() <= i < out.len() + s.len() { s[i - out.len()] } else { b[i] }),
    ensures lz_buf(b2, b0, out + s),
{
    assert(b2 =~= (out + s) + b0.skip((out + s).len() as int));
}
proof fn lemma_lz_tail(b: Seq<u8>, b0: Seq<u8>, out: Seq<u8>)
    requires lz_buf(b, b0, out),
    ensures b.len() == b0.len(), b.skip(out.len() as int) == b0.skip(out.len() as int),
{
    assert(b.skip(out.len() as int) =~= b0.skip(out.len() as int));
}
// the tail behind `out` has been decompressed into by a part of its own
proof fn lemma_lz_part(b: Seq<u8>, b0: Seq<u8>, out: Seq<u8>, o: Seq<u8>, b2: Seq<u8>)
    requires lz_buf(b, b0, out), b2.len() == b.len(), b2.take(out.len() as int) == b.take(out.len() as int),
        lz_buf(b2.skip(out.len() as int), b0.skip(out.len() as int), o),
    ensures lz_buf(b2, b0, out + o),
{
    let n = out.len() as int;
    assert forall|i: int| 0 <= i < b2.len() implies #[trigger] b2[i] == ((out + o) + b0.skip(n + o.len()))[i] by {
        if i < n { assert(b2.take(n)[i] == b.take(n)[i]); } else { assert(b2.skip(n)[i - n] == b2[i]); }
    }
    assert(b2 =~= (out + o) + b0.skip(n + o.len()));
}
