@@raw
pub assume_specification[ u64::div_ceil ](x: u64, y: u64) -> (r: u64)
    requires y != 0,
    ensures r == (if x as int % y as int == 0 { x as int / y as int } else { x as int / y as int + 1 }),
;
pub assume_specification[ u32::div_ceil ](x: u32, y: u32) -> (r: u32)
    requires y != 0,
    ensures r == (if x as int % y as int == 0 { x as int / y as int } else { x as int / y as int + 1 }),
;
