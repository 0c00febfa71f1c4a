@@raw
proof fn lemma_part5(a: u16, b: u32)
    ensures ((a as u64) << 32) | (b as u64) == a * 0x1_0000_0000 + b,
{
    assert(((a as u64) << 32) | (b as u64) == (a as u64) * 0x1_0000_0000 + b as u64) by (bit_vector);
}
spec fn uuid_le(d: Seq<u8>) -> Uuid {
    Uuid { part1: kx_u32_le(d), part2: kx_u16_le(d.skip(4)), part3: kx_u16_le(d.skip(6)), part4: kx_u16_be(d.skip(8)), part5: (kx_u16_be(d.skip(10)) * 0x1_0000_0000 + kx_u32_be(d.skip(12))) as u64 }
}
spec fn is_nil(u: Uuid) -> bool { u.part1 == 0 && u.part2 == 0 && u.part3 == 0 && u.part4 == 0 && u.part5 == 0 }
@@file keramics-types/src/uuid.rs
@@item Uuid #[derive(PartialEq, Eq, Structural)]
@@raw
// the derived Clone
impl Clone for Uuid {
    #[verifier::external_body]
    fn clone(&self) -> (r: Uuid) ensures r == *self { unimplemented!() }
}
@@fn Uuid::new
    ensures is_nil(r),
@@fn Uuid::from_le_bytes
    requires data@.len() >= 16,
    ensures r == uuid_le(data@),
@@at start
proof {
    let t = data@;
    lemma_part5(kx_u16_be(t.skip(10)), kx_u32_be(t.skip(12)));
}
@@fn Uuid::is_nil
    ensures r == is_nil(*self),
