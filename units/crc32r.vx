@@file keramics-checksums/src/crc32.rs
@@raw
spec fn rcrc_step(poly: u32, c: u32) -> u32 {
    if c & 1u32 != 0 { poly ^ (c >> 1u32) } else { c >> 1u32 }
}
spec fn rcrc_steps(poly: u32, c: u32, n: nat) -> u32
    decreases n
{
    if n == 0 { c } else { rcrc_step(poly, rcrc_steps(poly, c, (n - 1) as nat)) }
}
spec fn rcrc_byte(poly: u32, c: u32, b: u8) -> u32 { rcrc_steps(poly, c ^ (b as u32), 8) }
spec fn rcrc_fold(poly: u32, c: u32, s: Seq<u8>) -> u32
    decreases s.len()
{
    if s.len() == 0 { c } else { rcrc_byte(poly, rcrc_fold(poly, c, s.drop_last()), s.last()) }
}
proof fn lemma_step_linear(poly: u32, x: u32, y: u32)
    requires y & 1u32 == 0,
    ensures rcrc_step(poly, x ^ y) == rcrc_step(poly, x) ^ (y >> 1u32),
{
    assert(y & 1u32 == 0 ==>
        (if (x ^ y) & 1u32 != 0 { poly ^ ((x ^ y) >> 1u32) } else { (x ^ y) >> 1u32 })
        == (if x & 1u32 != 0 { poly ^ (x >> 1u32) } else { x >> 1u32 }) ^ (y >> 1u32)) by (bit_vector);
}
proof fn lemma_steps_linear(poly: u32, x: u32, y: u32, n: nat)
    requires n <= 8, y & 0xffu32 == 0,
    ensures rcrc_steps(poly, x ^ y, n) == rcrc_steps(poly, x, n) ^ (y >> (n as u32)),
    decreases n
{
    if n == 0 {
        assert(y >> 0u32 == y) by (bit_vector);
    } else {
        lemma_steps_linear(poly, x, y, (n - 1) as nat);
        let k = (n - 1) as u32;
        assert(k < 8 && y & 0xffu32 == 0 ==> (y >> k) & 1u32 == 0) by (bit_vector);
        assert(k < 8 ==> (y >> k) >> 1u32 == y >> ((k + 1) as u32)) by (bit_vector);
        lemma_step_linear(poly, rcrc_steps(poly, x, (n - 1) as nat), y >> k);
    }
}
proof fn lemma_table(poly: u32, c: u32, b: u8)
    ensures
        (c ^ (b as u32)) & 0xffu32 < 256,
        rcrc_byte(poly, c, b) == rcrc_steps(poly, (c ^ (b as u32)) & 0xffu32, 8) ^ (c >> 8u32),
{
    let i = (c ^ (b as u32)) & 0xffu32;
    let hi = c & 0xffffff00u32;
    assert((c ^ (b as u32)) & 0xffu32 < 256) by (bit_vector);
    assert(c ^ (b as u32) == ((c ^ (b as u32)) & 0xffu32) ^ (c & 0xffffff00u32)) by (bit_vector);
    assert((c & 0xffffff00u32) & 0xffu32 == 0) by (bit_vector);
    assert((c & 0xffffff00u32) >> 8u32 == c >> 8u32) by (bit_vector);
    lemma_steps_linear(poly, i, hi, 8);
}
proof fn theorem_split(poly: u32, c: u32, x: Seq<u8>, y: Seq<u8>)
    ensures rcrc_fold(poly, rcrc_fold(poly, c, x), y) == rcrc_fold(poly, c, x + y),
    decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); }
    else {
        theorem_split(poly, c, x, y.drop_last());
        assert((x + y).drop_last() =~= x + y.drop_last());
        assert((x + y).last() == y.last());
    }
}
@@item ReversedCrc32Context
@@raw
impl ReversedCrc32Context {
    spec fn wf(&self) -> bool {
        self.table_initilized ==> forall|i: int| 0 <= i < 256 ==> #[trigger] self.table@[i] == rcrc_steps(self.polynomial, i as u32, 8)
    }
}
@@fn ReversedCrc32Context::new
    ensures
        r.polynomial == polynomial, r.initial_value == initial_value,
        r.checksum == initial_value ^ 0xffffffffu32, r.wf(),
@@fn ReversedCrc32Context::initialize_table
    requires polynomial == old(self).polynomial,
    ensures
        final(self).wf(), final(self).table_initilized,
        final(self).polynomial == old(self).polynomial,
        final(self).initial_value == old(self).initial_value,
        final(self).checksum == old(self).checksum,
@@loop 0
    invariant
        hi0 == 256, lo0 == 0,
        forall|i: int| 0 <= i < it0 ==> #[trigger] self.table@[i] == rcrc_steps(polynomial, i as u32, 8),
        self.polynomial == polynomial,
        self.initial_value == old(self).initial_value,
        self.checksum == old(self).checksum,
@@loop 1
    invariant
        hi1 == 8, lo1 == 0,
        checksum == rcrc_steps(polynomial, (it0 - 1) as u32, it1 as nat),
@@fn ReversedCrc32Context::finalize
    requires old(self).wf(),
    ensures
        r == old(self).checksum ^ 0xffffffffu32,
        final(self).checksum == old(self).initial_value ^ 0xffffffffu32,
        final(self).initial_value == old(self).initial_value,
        final(self).polynomial == old(self).polynomial, final(self).wf(),
@@fn ReversedCrc32Context::update
    requires old(self).wf(),
    ensures
        final(self).checksum == rcrc_fold(old(self).polynomial, old(self).checksum, data@),
        final(self).initial_value == old(self).initial_value,
        final(self).polynomial == old(self).polynomial, final(self).wf(),
@@loop 0
    invariant
        lo0 == 0, hi0 == data@.len(), self.wf(), self.table_initilized,
        self.polynomial == old(self).polynomial,
        self.initial_value == old(self).initial_value,
        checksum == rcrc_fold(old(self).polynomial, old(self).checksum, data@.take(it0 as int)),
@@at loop 0 before
proof { assert(data@.take(0) =~= Seq::<u8>::empty()); }
@@at loop 0 begin
proof {
    assert(data@.take(it0 as int).drop_last() =~= data@.take(it0 - 1));
    lemma_table(self.polynomial, checksum, data@[it0 - 1]);
}
@@at loop 0 after
proof { assert(data@.take(data@.len() as int) =~= data@); }
