@@opt format
@@include std.vx
@@include fmt.vx
@@raw
// ---------------------------------------------------------------------------
// FAT date: bits 0-4 day, 5-8 month, 9-15 years since 1980.
// FAT time: bits 0-4 two-second count, 5-10 minutes, 11-15 hours.
spec fn fat_text_date(date: u16) -> Seq<char> {
    ((((Seq::<char>::empty() + kx_dec_text(1980 + date as int / 512, 4)).push('-') + kx_dec_text((date as int / 32) % 16, 2)).push('-'))
        + kx_dec_text(date as int % 32, 2))
}
spec fn fat_text_minute(date: u16, time: u16) -> Seq<char> {
    ((fat_text_date(date).push('T') + kx_dec_text(time as int / 2048, 2)).push(':') + kx_dec_text((time as int / 32) % 64, 2)).push(':')
}
spec fn fat_text(date: u16, time: u16) -> Seq<char> {
    fat_text_minute(date, time) + kx_dec_text((time as int % 32) * 2, 2)
}
// the fraction counts 10 ms units on top of the two-second count
spec fn fat_text_10ms(date: u16, time: u16, fraction: u8) -> Seq<char> {
    (fat_text_minute(date, time) + kx_dec_text((time as int % 32) * 2 + fraction as int / 100, 2)).push('.') + kx_dec_text(fraction as int % 100, 2)
}
proof fn lemma_fat_bits(date: u16, time: u16)
    ensures
        (date >> 9) & 0x7f == date / 512, (date >> 5) & 0x0f == (date / 32) % 16, date & 0x1f == date % 32,
        (time >> 11) & 0x1f == time / 2048, (time >> 5) & 0x3f == (time / 32) % 64, time & 0x1f == time % 32,
{
    assert((date >> 9) & 0x7f == date / 512 && (date >> 5) & 0x0f == (date / 32) % 16 && date & 0x1f == date % 32) by (bit_vector);
    assert((time >> 11) & 0x1f == time / 2048 && (time >> 5) & 0x3f == (time / 32) % 64 && time & 0x1f == time % 32) by (bit_vector);
}
@@file keramics-datetime/src/fat.rs
@@item FatDate
@@item FatTimeDate
@@item FatTimeDate10Ms
@@fn FatDate::new
    ensures r.date == date,
@@fn FatDate::from_bytes
    requires data@.len() >= 2,
    ensures r.date == kx_u16_le(data@),
@@fn FatDate::to_iso8601_string
    ensures r@ =~= fat_text_date(self.date),
@@at start
proof { lemma_fat_bits(self.date, 0); }
@@fn FatTimeDate::new
    ensures r.date == date, r.time == time,
@@fn FatTimeDate::from_bytes
    requires data@.len() >= 4,
    ensures r.time == kx_u16_le(data@), r.date == kx_u16_le(data@.skip(2)),
@@fn FatTimeDate::to_iso8601_string
    ensures r@ =~= fat_text(self.date, self.time),
@@at start
proof { lemma_fat_bits(self.date, self.time); }
@@fn FatTimeDate10Ms::new
    ensures r.date == date, r.time == time, r.fraction == fraction,
@@fn FatTimeDate10Ms::from_bytes
    requires data@.len() >= 5,
    ensures r.fraction == data@[0], r.time == kx_u16_le(data@.skip(1)), r.date == kx_u16_le(data@.skip(3)),
@@fn FatTimeDate10Ms::to_iso8601_string
    ensures r@ =~= fat_text_10ms(self.date, self.time, self.fraction),
@@at start
proof { lemma_fat_bits(self.date, self.time); }
@@fn FatDate::fmt for Display
@@rename fmt_display
    ensures r is Ok ==> final(formatter).text() =~= old(formatter).text()
        + (fat_text_date(self.date).push(' ').push('(').push('0').push('x') + kx_hex_text(self.date as int, 4)).push(')'),
@@fn FatTimeDate::fmt for Display
@@rename fmt_display
    ensures r is Ok ==> final(formatter).text() =~= old(formatter).text()
        + ((fat_text(self.date, self.time).push(' ').push('(').push('0').push('x') + kx_hex_text(self.date as int, 4))
            .push(':').push('0').push('x') + kx_hex_text(self.time as int, 4)).push(')'),
@@fn FatTimeDate10Ms::fmt for Display
@@rename fmt_display
    ensures r is Ok ==> final(formatter).text() =~= old(formatter).text()
        + (((fat_text_10ms(self.date, self.time, self.fraction).push(' ').push('(').push('0').push('x') + kx_hex_text(self.date as int, 4))
            .push(':').push('0').push('x') + kx_hex_text(self.time as int, 4))
            .push(':').push('0').push('x') + kx_hex_text(self.fraction as int, 2)).push(')'),
@@endfn
