@@include std.vx
@@raw
proof fn lemma_u16_le(b: Seq<u8>)
    requires b.len() == 2,
    ensures
        kx_u16_le(b) == b[0] as int + b[1] as int * 256,
        kx_u16_le(b) as i16 == if kx_u16_le(b) < 32768 { kx_u16_le(b) as int } else { kx_u16_le(b) - 65536 },
{
    let (b0, b1) = (b[0] as u16, b[1] as u16);
    assert((b0 | (b1 << 8u16)) == b0 + b1 * 256) by (bit_vector) requires b0 < 256, b1 < 256;
    let x = kx_u16_le(b);
    signed_u16(x);
}
proof fn lemma_u16_be(b: Seq<u8>)
    requires b.len() == 2,
    ensures
        kx_u16_be(b) == b[1] as int + b[0] as int * 256,
        kx_u16_be(b) as i16 == if kx_u16_be(b) < 32768 { kx_u16_be(b) as int } else { kx_u16_be(b) - 65536 },
{
    let (b0, b1) = (b[0] as u16, b[1] as u16);
    assert((b1 | (b0 << 8u16)) == b1 + b0 * 256) by (bit_vector) requires b0 < 256, b1 < 256;
    let x = kx_u16_be(b);
    signed_u16(x);
}
proof fn signed_u16(x: u16)
    ensures x as i16 == if x < 32768 { x as int } else { x - 65536 },
{
    if x < 32768 {
        assert(x as i16 >= 0 && x as i16 as u16 == x) by (bit_vector) requires x < 32768;
    } else {
        assert((x as i16) < 0) by (bit_vector) requires x >= 32768;
        let m: u16 = (x - 32768) as u16;
        assert(x as i16 == (m as i16) - 32768) by (bit_vector) requires x >= 32768, m == (x - 32768) as u16;
        assert(m < 32768);
        assert(m as i16 >= 0) by (bit_vector) requires m < 32768;
    }
}
proof fn lemma_u32_le(b: Seq<u8>)
    requires b.len() == 4,
    ensures
        kx_u32_le(b) == b[0] as int + b[1] as int * 256 + b[2] as int * 65536 + b[3] as int * 16777216,
        kx_u32_le(b) as i32 == if kx_u32_le(b) < 2147483648 { kx_u32_le(b) as int } else { kx_u32_le(b) - 4294967296 },
{
    let (b0, b1, b2, b3) = (b[0] as u32, b[1] as u32, b[2] as u32, b[3] as u32);
    assert((b0 | (b1 << 8u32) | (b2 << 16u32) | (b3 << 24u32)) == b0 + b1 * 256 + b2 * 65536 + b3 * 16777216) by (bit_vector) requires b0 < 256, b1 < 256, b2 < 256, b3 < 256;
    let x = kx_u32_le(b);
    signed_u32(x);
}
proof fn lemma_u32_be(b: Seq<u8>)
    requires b.len() == 4,
    ensures
        kx_u32_be(b) == b[3] as int + b[2] as int * 256 + b[1] as int * 65536 + b[0] as int * 16777216,
        kx_u32_be(b) as i32 == if kx_u32_be(b) < 2147483648 { kx_u32_be(b) as int } else { kx_u32_be(b) - 4294967296 },
{
    let (b0, b1, b2, b3) = (b[0] as u32, b[1] as u32, b[2] as u32, b[3] as u32);
    assert((b3 | (b2 << 8u32) | (b1 << 16u32) | (b0 << 24u32)) == b3 + b2 * 256 + b1 * 65536 + b0 * 16777216) by (bit_vector) requires b0 < 256, b1 < 256, b2 < 256, b3 < 256;
    let x = kx_u32_be(b);
    signed_u32(x);
}
proof fn signed_u32(x: u32)
    ensures x as i32 == if x < 2147483648 { x as int } else { x - 4294967296 },
{
    if x < 2147483648 {
        assert(x as i32 >= 0 && x as i32 as u32 == x) by (bit_vector) requires x < 2147483648;
    } else {
        assert((x as i32) < 0) by (bit_vector) requires x >= 2147483648;
        let m: u32 = (x - 2147483648) as u32;
        assert(x as i32 == (m as i32) - 2147483648) by (bit_vector) requires x >= 2147483648, m == (x - 2147483648) as u32;
        assert(m < 2147483648);
        assert(m as i32 >= 0) by (bit_vector) requires m < 2147483648;
    }
}
proof fn lemma_u64_le(b: Seq<u8>)
    requires b.len() == 8,
    ensures
        kx_u64_le(b) == b[0] as int + b[1] as int * 256 + b[2] as int * 65536 + b[3] as int * 16777216 + b[4] as int * 4294967296 + b[5] as int * 1099511627776 + b[6] as int * 281474976710656 + b[7] as int * 72057594037927936,
        kx_u64_le(b) as i64 == if kx_u64_le(b) < 9223372036854775808 { kx_u64_le(b) as int } else { kx_u64_le(b) - 18446744073709551616 },
{
    let (b0, b1, b2, b3, b4, b5, b6, b7) = (b[0] as u64, b[1] as u64, b[2] as u64, b[3] as u64, b[4] as u64, b[5] as u64, b[6] as u64, b[7] as u64);
    assert((b0 | (b1 << 8u64) | (b2 << 16u64) | (b3 << 24u64) | (b4 << 32u64) | (b5 << 40u64) | (b6 << 48u64) | (b7 << 56u64)) == b0 + b1 * 256 + b2 * 65536 + b3 * 16777216 + b4 * 4294967296 + b5 * 1099511627776 + b6 * 281474976710656 + b7 * 72057594037927936) by (bit_vector) requires b0 < 256, b1 < 256, b2 < 256, b3 < 256, b4 < 256, b5 < 256, b6 < 256, b7 < 256;
    let x = kx_u64_le(b);
    signed_u64(x);
}
proof fn lemma_u64_be(b: Seq<u8>)
    requires b.len() == 8,
    ensures
        kx_u64_be(b) == b[7] as int + b[6] as int * 256 + b[5] as int * 65536 + b[4] as int * 16777216 + b[3] as int * 4294967296 + b[2] as int * 1099511627776 + b[1] as int * 281474976710656 + b[0] as int * 72057594037927936,
        kx_u64_be(b) as i64 == if kx_u64_be(b) < 9223372036854775808 { kx_u64_be(b) as int } else { kx_u64_be(b) - 18446744073709551616 },
{
    let (b0, b1, b2, b3, b4, b5, b6, b7) = (b[0] as u64, b[1] as u64, b[2] as u64, b[3] as u64, b[4] as u64, b[5] as u64, b[6] as u64, b[7] as u64);
    assert((b7 | (b6 << 8u64) | (b5 << 16u64) | (b4 << 24u64) | (b3 << 32u64) | (b2 << 40u64) | (b1 << 48u64) | (b0 << 56u64)) == b7 + b6 * 256 + b5 * 65536 + b4 * 16777216 + b3 * 4294967296 + b2 * 1099511627776 + b1 * 281474976710656 + b0 * 72057594037927936) by (bit_vector) requires b0 < 256, b1 < 256, b2 < 256, b3 < 256, b4 < 256, b5 < 256, b6 < 256, b7 < 256;
    let x = kx_u64_be(b);
    signed_u64(x);
}
proof fn signed_u64(x: u64)
    ensures x as i64 == if x < 9223372036854775808 { x as int } else { x - 18446744073709551616 },
{
    if x < 9223372036854775808 {
        assert(x as i64 >= 0 && x as i64 as u64 == x) by (bit_vector) requires x < 9223372036854775808;
    } else {
        assert((x as i64) < 0) by (bit_vector) requires x >= 9223372036854775808;
        let m: u64 = (x - 9223372036854775808) as u64;
        assert(x as i64 == (m as i64) - 9223372036854775808) by (bit_vector) requires x >= 9223372036854775808, m == (x - 9223372036854775808) as u64;
        assert(m < 9223372036854775808);
        assert(m as i64 >= 0) by (bit_vector) requires m < 9223372036854775808;
    }
}
@@file keramics-types/src/macros.rs
@@macro bytes_to_i16_be(data: &[u8], offset: usize) -> i16
    requires offset + 2 <= data@.len(),
    ensures ({ let v = data@[offset + 1] + data@[offset as int] * 256; r == if v < 32768 { v } else { v - 65536 } }),
@@at start
proof { lemma_u16_be(data@.subrange(offset as int, offset + 2)); kx_slice_bound(data); }
@@macro bytes_to_i16_le(data: &[u8], offset: usize) -> i16
    requires offset + 2 <= data@.len(),
    ensures ({ let v = data@[offset as int] + data@[offset + 1] * 256; r == if v < 32768 { v } else { v - 65536 } }),
@@at start
proof { lemma_u16_le(data@.subrange(offset as int, offset + 2)); kx_slice_bound(data); }
@@macro bytes_to_i32_be(data: &[u8], offset: usize) -> i32
    requires offset + 4 <= data@.len(),
    ensures ({ let v = data@[offset + 3] + data@[offset + 2] * 256 + data@[offset + 1] * 65536 + data@[offset as int] * 16777216; r == if v < 2147483648 { v } else { v - 4294967296 } }),
@@at start
proof { lemma_u32_be(data@.subrange(offset as int, offset + 4)); kx_slice_bound(data); }
@@macro bytes_to_i32_le(data: &[u8], offset: usize) -> i32
    requires offset + 4 <= data@.len(),
    ensures ({ let v = data@[offset as int] + data@[offset + 1] * 256 + data@[offset + 2] * 65536 + data@[offset + 3] * 16777216; r == if v < 2147483648 { v } else { v - 4294967296 } }),
@@at start
proof { lemma_u32_le(data@.subrange(offset as int, offset + 4)); kx_slice_bound(data); }
@@macro bytes_to_i64_be(data: &[u8], offset: usize) -> i64
    requires offset + 8 <= data@.len(),
    ensures ({ let v = data@[offset + 7] + data@[offset + 6] * 256 + data@[offset + 5] * 65536 + data@[offset + 4] * 16777216 + data@[offset + 3] * 4294967296 + data@[offset + 2] * 1099511627776 + data@[offset + 1] * 281474976710656 + data@[offset as int] * 72057594037927936; r == if v < 9223372036854775808 { v } else { v - 18446744073709551616 } }),
@@at start
proof { lemma_u64_be(data@.subrange(offset as int, offset + 8)); kx_slice_bound(data); }
@@macro bytes_to_i64_le(data: &[u8], offset: usize) -> i64
    requires offset + 8 <= data@.len(),
    ensures ({ let v = data@[offset as int] + data@[offset + 1] * 256 + data@[offset + 2] * 65536 + data@[offset + 3] * 16777216 + data@[offset + 4] * 4294967296 + data@[offset + 5] * 1099511627776 + data@[offset + 6] * 281474976710656 + data@[offset + 7] * 72057594037927936; r == if v < 9223372036854775808 { v } else { v - 18446744073709551616 } }),
@@at start
proof { lemma_u64_le(data@.subrange(offset as int, offset + 8)); kx_slice_bound(data); }
@@macro bytes_to_u16_be(data: &[u8], offset: usize) -> u16
    requires offset + 2 <= data@.len(),
    ensures r == data@[offset + 1] + data@[offset as int] * 256,
@@at start
proof { lemma_u16_be(data@.subrange(offset as int, offset + 2)); kx_slice_bound(data); }
@@macro bytes_to_u16_le(data: &[u8], offset: usize) -> u16
    requires offset + 2 <= data@.len(),
    ensures r == data@[offset as int] + data@[offset + 1] * 256,
@@at start
proof { lemma_u16_le(data@.subrange(offset as int, offset + 2)); kx_slice_bound(data); }
@@macro bytes_to_u32_be(data: &[u8], offset: usize) -> u32
    requires offset + 4 <= data@.len(),
    ensures r == data@[offset + 3] + data@[offset + 2] * 256 + data@[offset + 1] * 65536 + data@[offset as int] * 16777216,
@@at start
proof { lemma_u32_be(data@.subrange(offset as int, offset + 4)); kx_slice_bound(data); }
@@macro bytes_to_u32_le(data: &[u8], offset: usize) -> u32
    requires offset + 4 <= data@.len(),
    ensures r == data@[offset as int] + data@[offset + 1] * 256 + data@[offset + 2] * 65536 + data@[offset + 3] * 16777216,
@@at start
proof { lemma_u32_le(data@.subrange(offset as int, offset + 4)); kx_slice_bound(data); }
@@macro bytes_to_u64_be(data: &[u8], offset: usize) -> u64
    requires offset + 8 <= data@.len(),
    ensures r == data@[offset + 7] + data@[offset + 6] * 256 + data@[offset + 5] * 65536 + data@[offset + 4] * 16777216 + data@[offset + 3] * 4294967296 + data@[offset + 2] * 1099511627776 + data@[offset + 1] * 281474976710656 + data@[offset as int] * 72057594037927936,
@@at start
proof { lemma_u64_be(data@.subrange(offset as int, offset + 8)); kx_slice_bound(data); }
@@macro bytes_to_u64_le(data: &[u8], offset: usize) -> u64
    requires offset + 8 <= data@.len(),
    ensures r == data@[offset as int] + data@[offset + 1] * 256 + data@[offset + 2] * 65536 + data@[offset + 3] * 16777216 + data@[offset + 4] * 4294967296 + data@[offset + 5] * 1099511627776 + data@[offset + 6] * 281474976710656 + data@[offset + 7] * 72057594037927936,
@@at start
proof { lemma_u64_le(data@.subrange(offset as int, offset + 8)); kx_slice_bound(data); }
