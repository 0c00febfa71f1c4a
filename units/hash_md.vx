@@raw
// ---- shared by all digests: Merkle-Damgard iteration over the compression function.
// Requires in scope: h0() initial value, compress(h, block), len_field(bits), words_out(h).
spec fn fold(m: Seq<u8>, n: nat) -> Seq<${W}>
    decreases n
{
    if n == 0 { h0() } else { compress(fold(m, (n - 1) as nat), m.subrange((n - 1) * ${BS}, n as int * ${BS})) }
}
#[verifier::opaque]
spec fn padded(m: Seq<u8>) -> Seq<u8> {
    m.push(0x80u8)
        + Seq::new(((2 * ${BS} - ${LF} - 1 - m.len() as int % ${BS}) % ${BS}) as nat, |i: int| 0u8)
        + len_field((m.len() * 8) as u64)
}
// the digest of a whole message, as the standard defines it
spec fn digest(m: Seq<u8>) -> Seq<u8> {
    let h = fold(padded(m), (padded(m).len() as int / ${BS}) as nat);
    words_out(${OUT})
}
proof fn lemma_fold_prefix(m: Seq<u8>, x: Seq<u8>, n: nat)
    requires n * ${BS} <= m.len(),
    ensures fold(m + x, n) == fold(m, n),
    decreases n
{
    if n > 0 {
        lemma_fold_prefix(m, x, (n - 1) as nat);
        assert((m + x).subrange((n - 1) * ${BS}, n as int * ${BS}) =~= m.subrange((n - 1) * ${BS}, n as int * ${BS}));
    }
}
impl ${T} {
    // the context stands for the message m fed so far
    spec fn rep(&self, m: Seq<u8>) -> bool {
        &&& self.wf()
        &&& self.number_of_bytes_hashed + self.block_offset == m.len()
        &&& self.block@.take(self.block_offset as int) == m.skip(self.number_of_bytes_hashed as int)
        &&& self.hash_values@ == fold(m, (self.number_of_bytes_hashed as int / ${BS}) as nat)
    }
    spec fn wf(&self) -> bool {
        &&& self.number_of_bytes_hashed as int % ${BS} == 0
        &&& self.block_offset <= ${BS}
    }
}
proof fn lemma_push(s0: ${T}, s1: ${T}, m: Seq<u8>, b: u8)
    requires
        s0.rep(m), s0.block_offset < ${BS}, s1.block_offset == s0.block_offset + 1,
        s1.number_of_bytes_hashed == s0.number_of_bytes_hashed, s1.hash_values@ == s0.hash_values@,
        s1.block@ == s0.block@.update(s0.block_offset as int, b),
    ensures s1.rep(m.push(b)),
{
    lemma_fold_prefix(m, seq![b], (s0.number_of_bytes_hashed as int / ${BS}) as nat);
    assert(m + seq![b] =~= m.push(b));
    let k = s0.number_of_bytes_hashed as int;
    let t0 = s0.block@.take(s0.block_offset as int);
    assert forall|i: int| 0 <= i < s1.block_offset implies s1.block@.take(s1.block_offset as int)[i] == m.push(b).skip(k)[i] by {
        if i < s0.block_offset { assert(t0[i] == m.skip(k)[i]); }
    }
    assert(s1.block@.take(s1.block_offset as int) =~= m.push(b).skip(k));
}
proof fn lemma_flush(s0: ${T}, s1: ${T}, m: Seq<u8>)
    requires
        s0.rep(m), s0.block_offset == ${BS}, s1.block_offset == 0,
        s1.number_of_bytes_hashed == s0.number_of_bytes_hashed + ${BS},
        s1.hash_values@ == compress(s0.hash_values@, s0.block@.subrange(0, ${BS})),
    ensures s1.rep(m),
{
    let k = s0.number_of_bytes_hashed as int;
    assert(s0.block@.subrange(0, ${BS}) =~= s0.block@.take(${BS}));
    assert(m.skip(k) =~= m.subrange(k, k + ${BS}));
    assert((k + ${BS}) / ${BS} == k / ${BS} + 1);
    assert((k / ${BS}) * ${BS} == k);
    assert(s1.block@.take(0) =~= m.skip(k + ${BS}));
}
proof fn lemma_block(s0: ${T}, s1: ${T}, m: Seq<u8>, blk: Seq<u8>)
    requires
        s0.rep(m), s0.block_offset == 0, s1.block_offset == 0, blk.len() == ${BS},
        s1.number_of_bytes_hashed == s0.number_of_bytes_hashed + ${BS},
        s1.hash_values@ == compress(s0.hash_values@, blk),
    ensures s1.rep(m + blk),
{
    let k = s0.number_of_bytes_hashed as int;
    assert((k + ${BS}) / ${BS} == k / ${BS} + 1);
    assert((k / ${BS}) * ${BS} == k);
    lemma_fold_prefix(m, blk, (k / ${BS}) as nat);
    assert((m + blk).subrange(k, k + ${BS}) =~= blk);
    assert(s1.block@.take(0) =~= (m + blk).skip(k + ${BS}));
}
// what the padding steps of finalize must have built
spec fn padding_built(s0: ${T}, block: Seq<u8>, p: int) -> bool {
    let bo = s0.block_offset as int;
    &&& block.len() == 2 * ${BS}
    &&& p == (if bo >= ${BS} - ${LF} { 2 * ${BS} as int } else { ${BS} as int })
    &&& forall|i: int| 0 <= i < bo ==> block[i] == s0.block@[i]
    &&& block[bo] == 0x80
    &&& forall|i: int| bo < i < p - 8 ==> block[i] == 0
    &&& block.subrange(p - 8, p) == len8(((s0.number_of_bytes_hashed + s0.block_offset) * 8) as u64)
}
proof fn lemma_padded(s0: ${T}, block: Seq<u8>, p: int, m: Seq<u8>)
    requires s0.rep(m), padding_built(s0, block, p), m.len() * 8 <= u64::MAX,
    ensures
        padded(m).len() == s0.number_of_bytes_hashed + p,
        padded(m) == m.take(s0.number_of_bytes_hashed as int) + block.take(p),
        fold(padded(m), (s0.number_of_bytes_hashed as int / ${BS}) as nat) == s0.hash_values@,
{
    reveal(padded);
    let k = s0.number_of_bytes_hashed as int;
    let bo = s0.block_offset as int;
    lemma_len_field((m.len() * 8) as u64);
    let z = (2 * ${BS} - ${LF} - 1 - m.len() as int % ${BS}) % ${BS};
    assert(m.len() == k + bo);
    assert(k + bo == ${BS} * (k / ${BS}) + bo);
    if bo == ${BS} { assert(m.len() as int % ${BS} == 0); } else { assert(m.len() as int % ${BS} == bo); }
    assert(bo + 1 + z + ${LF} == p);
    let q = m.take(k) + block.take(p);
    let a = padded(m);
    let t0 = s0.block@.take(bo);
    assert(a.len() == q.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == q[i] by {
        if i < k { }
        else if i < k + bo { assert(t0[i - k] == m.skip(k)[i - k]); assert(q[i] == block[i - k]); }
        else if i == k + bo { assert(q[i] == block[bo]); }
        else if i < k + p - 8 { assert(q[i] == block[i - k]); }
        else { assert(q[i] == block[i - k]); assert(block.subrange(p - 8, p)[i - k - (p - 8)] == block[i - k]); }
    }
    assert(a =~= q);
    assert((k / ${BS}) * ${BS} == k);
    lemma_fold_prefix(m.take(k), m.skip(k), (k / ${BS}) as nat);
    assert(m.take(k) + m.skip(k) =~= m);
    lemma_fold_prefix(m.take(k), block.take(p), (k / ${BS}) as nat);
}
proof fn lemma_round(s0: ${T}, block: Seq<u8>, p: int, m: Seq<u8>, o: int)
    requires s0.rep(m), padding_built(s0, block, p), m.len() * 8 <= u64::MAX, 0 <= o, o + ${BS} <= p, o % ${BS} == 0,
    ensures fold(padded(m), ((s0.number_of_bytes_hashed + o + ${BS}) / ${BS}) as nat)
        == compress(fold(padded(m), ((s0.number_of_bytes_hashed + o) / ${BS}) as nat), block.subrange(o, o + ${BS})),
{
    let k = s0.number_of_bytes_hashed as int;
    lemma_padded(s0, block, p, m);
    let n = (k + o) / ${BS};
    assert(n * ${BS} == k + o);
    assert((k + o + ${BS}) / ${BS} == n + 1);
    assert(padded(m).subrange(k + o, k + o + ${BS}) =~= block.subrange(o, o + ${BS}));
}
proof fn lemma_empty(c: ${T})
    requires c.number_of_bytes_hashed == 0, c.block_offset == 0, c.hash_values@ == h0(),
    ensures c.rep(Seq::empty()),
{
    assert(c.block@.take(0) =~= Seq::<u8>::empty().skip(0));
}
@@file keramics-hashes/src/${F}.rs
@@fn ${T}::new
    ensures r.rep(Seq::empty()),
@@at start
proof {
    assert(${H0}@ =~= h0());
    assert forall|c: ${T}| c.number_of_bytes_hashed == 0 && c.block_offset == 0 && c.hash_values@ == h0()
        implies #[trigger] c.rep(Seq::empty()) by { lemma_empty(c); }
}
@@fn ${T}::update
    requires
        old(self).wf(),
        // the length field of the standard counts bits in 64 bits
        old(self).number_of_bytes_hashed + old(self).block_offset + data@.len() < 0x2000_0000_0000_0000,
    ensures
        final(self).wf(),
        final(self).number_of_bytes_hashed + final(self).block_offset == old(self).number_of_bytes_hashed + old(self).block_offset + data@.len(),
        forall|m: Seq<u8>| #[trigger] old(self).rep(m) ==> final(self).rep(m + data@),
@@at start
proof { kx_slice_bound(data); }
let ghost s_old = *self;
proof { assert forall|m: Seq<u8>| #[trigger] s_old.rep(m) implies self.rep(m + data@.take(0)) by { assert(m + data@.take(0) =~= m); } }
@@loop 0
    invariant
        data_offset <= data_size, data_size == data@.len(), 0 < self.block_offset <= ${BS}, self.wf(),
        s_old.block_offset + data_offset == self.block_offset,
        self.number_of_bytes_hashed == s_old.number_of_bytes_hashed,
        forall|m: Seq<u8>| #[trigger] s_old.rep(m) ==> self.rep(m + data@.take(data_offset as int)),
    decreases ${BS} - self.block_offset
@@at loop 0 begin
let ghost s0 = *self;
let ghost k0 = data_offset as int;
@@at loop 0 end
proof {
    assert forall|m: Seq<u8>| #[trigger] s_old.rep(m) implies self.rep(m + data@.take(data_offset as int)) by {
        lemma_push(s0, *self, m + data@.take(k0), data@[k0]);
        assert((m + data@.take(k0)).push(data@[k0]) =~= m + data@.take(k0 + 1));
    }
}
@@at loop 0 after
let ghost s1 = *self;
@@at let:hash_values:0 before
let ghost s1 = *self;
@@at assign:self.block_offset:1 after
proof {
    assert forall|m: Seq<u8>| #[trigger] s_old.rep(m) implies self.rep(m + data@.take(data_offset as int)) by {
        lemma_flush(s1, *self, m + data@.take(data_offset as int));
    }
}
@@loop 1
    invariant
        data_offset <= data_size, data_size == data@.len(), self.wf(), data_size <= isize::MAX,
        s_old.number_of_bytes_hashed + s_old.block_offset + data_offset == self.number_of_bytes_hashed + self.block_offset,
        self.block_offset == 0 || data_offset == data_size,
        forall|m: Seq<u8>| #[trigger] s_old.rep(m) ==> self.rep(m + data@.take(data_offset as int)),
    decreases data_size - data_offset
@@at loop 1 begin
let ghost s0 = *self;
let ghost k0 = data_offset as int;
@@at loop 1 end
proof {
    assert forall|m: Seq<u8>| #[trigger] s_old.rep(m) implies self.rep(m + data@.take(data_offset as int)) by {
        let blk = data@.subrange(k0, k0 + ${BS});
        lemma_block(s0, *self, m + data@.take(k0), blk);
        assert((m + data@.take(k0)) + blk =~= m + data@.take(k0 + ${BS}));
    }
}
@@loop 2
    invariant
        data_offset <= data_size, data_size == data@.len(), self.wf(),
        s_old.number_of_bytes_hashed + s_old.block_offset + data_offset == self.number_of_bytes_hashed + self.block_offset,
        data_offset < data_size ==> self.block_offset + (data_size - data_offset) <= ${BS},
        forall|m: Seq<u8>| #[trigger] s_old.rep(m) ==> self.rep(m + data@.take(data_offset as int)),
    decreases data_size - data_offset
@@at loop 2 begin
let ghost s0 = *self;
let ghost k0 = data_offset as int;
@@at loop 2 end
proof {
    assert forall|m: Seq<u8>| #[trigger] s_old.rep(m) implies self.rep(m + data@.take(data_offset as int)) by {
        lemma_push(s0, *self, m + data@.take(k0), data@[k0]);
        assert((m + data@.take(k0)).push(data@[k0]) =~= m + data@.take(k0 + 1));
    }
}
@@at end
proof { assert(data@.take(data@.len() as int) =~= data@); }
@@fn ${T}::finalize
    requires
        old(self).wf(),
        old(self).number_of_bytes_hashed + old(self).block_offset < 0x2000_0000_0000_0000,
    ensures
        forall|m: Seq<u8>| #[trigger] old(self).rep(m) ==> r@ == digest(m),
        final(self).rep(Seq::empty()),
@@at start
let ghost s_old = *self;
@@at loop 0 before
let ghost blk0 = self.block@;
proof {
    let p = padding_size as int;
    assert(blk0.subrange(p - 8, p) =~= len8(bit_size));
    assert(padding_built(s_old, blk0, p));
    assert forall|m: Seq<u8>| #[trigger] s_old.rep(m) implies self.hash_values@ == fold(padded(m), ((s_old.number_of_bytes_hashed + 0) / ${BS}) as nat) by {
        lemma_padded(s_old, blk0, p, m);
    }
}
@@loop 0
    invariant
        lo0 == 0, hi0 == padding_size, st0 == ${BS}, it0 as int % ${BS} == 0, it0 <= padding_size,
        padding_size == ${BS} || padding_size == 2 * ${BS},
        self.block@ == blk0, s_old.wf(), padding_built(s_old, blk0, padding_size as int),
        s_old.number_of_bytes_hashed + s_old.block_offset < 0x2000_0000_0000_0000,
        forall|m: Seq<u8>| #[trigger] s_old.rep(m) ==> self.hash_values@ == fold(padded(m), ((s_old.number_of_bytes_hashed + it0) / ${BS}) as nat),
@@at loop 0 end
proof {
    assert forall|m: Seq<u8>| #[trigger] s_old.rep(m) implies self.hash_values@ == fold(padded(m), ((s_old.number_of_bytes_hashed + it0) / ${BS}) as nat) by {
        lemma_round(s_old, blk0, padding_size as int, m, it0 - ${BS});
    }
}
@@at let:hash:0 before
let ghost hv = self.hash_values@;
let ghost blk1 = self.block@;
@@at let:hash:0 after
proof {
    assert forall|m: Seq<u8>| #[trigger] s_old.rep(m) implies hash@ == digest(m) by {
        lemma_padded(s_old, blk1, padding_size as int, m);
        assert(hv == fold(padded(m), (padded(m).len() as int / ${BS}) as nat));
        ${OUTHINT}
    }
}
@@at end
proof {
    assert(${H0}@ =~= h0());
    lemma_empty(*self);
    // feeding m1, ..., mk and finalizing gives the digest of the concatenation; the context is then as new
}
@@endfn
// A context fed in pieces, finalized, and fed again gives the digests of the two messages.
fn theorem_pieces_and_reuse(x: &[u8], y: &[u8], z: &[u8]) -> (r: (Vec<u8>, Vec<u8>))
    requires x@.len() + y@.len() < 0x1000_0000_0000_0000, z@.len() < 0x1000_0000_0000_0000,
    ensures r.0@ == digest(x@ + y@), r.1@ == digest(z@),
{
    let mut c = ${T}::new();
    c.update(x);
    c.update(y);
    proof {
        assert(Seq::<u8>::empty() + x@ + y@ =~= x@ + y@);
        assert(Seq::<u8>::empty() + z@ =~= z@);
    }
    let a = c.finalize();
    c.update(z);
    let b = c.finalize();
    (a, b)
}
