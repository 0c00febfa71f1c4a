@@opt format
@@include std.vx
@@include fmt.vx
@@raw
pub assume_specification[ i64::div_euclid ](x: i64, y: i64) -> (r: i64)
    requires y > 0,
    ensures r == x as int / y as int,
;
pub assume_specification[ i64::rem_euclid ](x: i64, y: i64) -> (r: i64)
    requires y > 0,
    ensures r == x as int % y as int,
;
// ---------------------------------------------------------------------------
// The proleptic Gregorian calendar.
spec fn leap(y: int) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
spec fn days_of_year(y: int) -> int { if leap(y) { 366 } else { 365 } }
spec fn days_of_month(y: int, m: int) -> int {
    if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 }
}
// days in the months before month m
spec fn before_month(y: int, m: int) -> int
    decreases m
{
    if m <= 1 { 0 } else { before_month(y, m - 1) + days_of_month(y, m - 1) }
}
// days in the years before year y, counted from year 1
spec fn before_year(y: int) -> int { 365 * (y - 1) + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 }
spec fn valid_date(y: int, m: int, d: int) -> bool { 1 <= m <= 12 && 1 <= d <= days_of_month(y, m) }
spec fn day_number(y: int, m: int, d: int) -> int { before_year(y) + before_month(y, m) + d }

proof fn lemma_year(y: int)
    ensures before_year(y + 1) == before_year(y) + days_of_year(y),
{}
proof fn lemma_century(y: int)
    requires y % 100 == 0,
    ensures before_year(y + 100) == before_year(y) + if leap(y) { 36525int } else { 36524 },
{}
proof fn lemma_400(y: int, k: int)
    ensures before_year(y + 400 * k) == before_year(y) + 146097 * k,
{
    assert((y + 400 * k - 1) / 4 == (y - 1) / 4 + 100 * k);
    assert((y + 400 * k - 1) / 100 == (y - 1) / 100 + 4 * k);
    assert((y + 400 * k - 1) / 400 == (y - 1) / 400 + k);
}
proof fn lemma_months(y: int)
    ensures before_month(y, 13) == days_of_year(y),
        before_month(y, 1) == 0, before_month(y, 2) == 31, before_month(y, 12) + 31 == days_of_year(y),
{
    reveal_with_fuel(before_month, 14);
}
proof fn lemma_before_month_mono(y: int, a: int, b: int)
    requires 1 <= a <= b <= 13,
    ensures before_month(y, a) + (if a < b { days_of_month(y, a) } else { 0 }) <= before_month(y, b),
    decreases b - a
{
    if a < b { lemma_before_month_mono(y, a, b - 1); }
}
proof fn lemma_before_year_mono(a: int, b: int)
    requires a < b,
    ensures before_year(a) + days_of_year(a) <= before_year(b),
    decreases b - a
{
    lemma_year(a);
    if a + 1 < b { lemma_before_year_mono(a + 1, b); }
}
// Every day has exactly one date.
proof fn theorem_date_unique(y: int, m: int, d: int, y2: int, m2: int, d2: int)
    requires valid_date(y, m, d), valid_date(y2, m2, d2), day_number(y, m, d) == day_number(y2, m2, d2),
    ensures y == y2 && m == m2 && d == d2,
{
    lemma_months(y); lemma_months(y2);
    lemma_before_month_mono(y, m, 13); lemma_before_month_mono(y2, m2, 13);
    lemma_before_month_mono(y, 1, m); lemma_before_month_mono(y2, 1, m2);
    if y < y2 { lemma_before_year_mono(y, y2); }
    if y2 < y { lemma_before_year_mono(y2, y); }
    if m < m2 { lemma_before_month_mono(y, m, m2); }
    if m2 < m { lemma_before_month_mono(y, m2, m); }
}
// The next day has the next date (so the sequence of dates is the calendar's).
proof fn theorem_next_day(y: int, m: int, d: int)
    requires valid_date(y, m, d),
    ensures
        d < days_of_month(y, m) ==> day_number(y, m, d + 1) == day_number(y, m, d) + 1,
        d == days_of_month(y, m) && m < 12 ==> day_number(y, m + 1, 1) == day_number(y, m, d) + 1,
        d == 31 && m == 12 ==> day_number(y + 1, 1, 1) == day_number(y, m, d) + 1,
{
    lemma_year(y); lemma_months(y); lemma_months(y + 1);
}

proof fn lemma_time(n: int, days: int, h: int, mi: int, s: int)
    requires n == days * 86400 + h * 3600 + mi * 60 + s, 0 <= h < 24, 0 <= mi < 60, 0 <= s < 60,
    ensures days == n / 86400, h == (n % 86400) / 3600, mi == (n % 3600) / 60, s == n % 60,
{
    // n = 60 (60 (24 days + h) + mi) + s, one division at a time
    let q = 24 * days + h;
    let p = 60 * q + mi;
    assert(n == 60 * p + s);
    assert(n / 60 == p && n % 60 == s);
    assert(p / 60 == q && p % 60 == mi);
    assert(q / 24 == days && q % 24 == h);
    assert(n / 86400 == days) by { assert(n == 86400 * days + (3600 * h + 60 * mi + s)); assert(0 <= 3600 * h + 60 * mi + s < 86400); }
    let r = n % 86400;
    assert(r == 3600 * h + 60 * mi + s);
    assert(r / 3600 == h) by { assert(0 <= 60 * mi + s < 3600); }
    let k = n % 3600;
    assert(k == 60 * mi + s) by { assert(n == 3600 * q + (60 * mi + s)); assert(0 <= 60 * mi + s < 3600); }
    assert(k / 60 == mi);
}

@@file keramics-datetime/src/epoch.rs
@@item Epoch
@@file keramics-datetime/src/util.rs
@@fn is_leap_year
    ensures r == leap(year as int),
@@fn get_days_in_month
    requires 1 <= month <= 12,
    ensures r == days_of_month(year as int, month as int),
@@fn calculate_days_in_year_lookup_table
    ensures forall|i: int| 0 <= i < 10000 ==> #[trigger] r@[i] == days_of_year(i),
@@loop 0
    invariant
        0 <= year <= 10000, table_index == year,
        forall|i: int| 0 <= i < year ==> #[trigger] lookup_table@[i] == days_of_year(i),
    decreases 10000 - year,
@@endfn
@@item DAYS_IN_YEAR
@@itemexec forall|i: int| 0 <= i < 10000 ==> #[trigger] DAYS_IN_YEAR@[i] == days_of_year(i),
@@fn get_days_in_year
    ensures r == days_of_year(year as int),
@@fn calculate_days_in_century_lookup_table
    ensures forall|i: int| 0 <= i < 100 ==> #[trigger] r@[i] == if leap(100 * i) { 36525int } else { 36524 },
@@loop 0
    invariant
        0 <= year <= 10000, table_index * 100 == year,
        forall|i: int| 0 <= i < table_index ==> #[trigger] lookup_table@[i] == if leap(100 * i) { 36525int } else { 36524 },
    decreases 10000 - year,
@@endfn
@@item DAYS_IN_CENTURY
@@itemexec forall|i: int| 0 <= i < 100 ==> #[trigger] DAYS_IN_CENTURY@[i] == if leap(100 * i) { 36525int } else { 36524 },
@@fn get_days_in_century
    ensures 36524 <= r <= 36525, year % 100 == 0 ==> r == if leap(year as int) { 36525int } else { 36524 },
@@fn get_date_values
@@isolate
    requires epoch.month == 1, epoch.day_of_month == 1,
    ensures
        valid_date(r.0 as int, r.1 as int, r.2 as int),
        day_number(r.0 as int, r.1 as int, r.2 as int) == day_number(epoch.year as int, 1, 1) + number_of_days,
@@loop 0
    invariant month == 1,
        -30000000000000000 <= year <= 30000000000000000, 1 <= number_of_days <= 146097,
        before_year(year as int) + number_of_days == target,
    decreases 0int,
@@loop 1
    invariant_except_break
        (year - it1) % 100 == 0,
    invariant
        hi1 == 100, lo1 <= it1 <= hi1,
        -30000000000000000 <= year, 0 <= number_of_days <= 146097, year + number_of_days <= 30000000000300000,
        before_year(year as int) + number_of_days == target,
    ensures
        year % 100 == 0 || number_of_days < 366,
        -30000000000000000 <= year, 0 <= number_of_days <= 146097, year + number_of_days <= 30000000000300000,
        before_year(year as int) + number_of_days == target,
@@at loop 1 begin
proof { lemma_year(year as int); }
@@loop 2
    invariant
        year % 100 == 0 || number_of_days < 366,
        days_in_century >= 36524, year % 100 == 0 ==> days_in_century == if leap(year as int) { 36525int } else { 36524 },
        -30000000000000000 <= year, 0 <= number_of_days <= 146097, year + number_of_days <= 30000000000300000,
        before_year(year as int) + number_of_days == target,
    decreases number_of_days,
@@at loop 2 begin
proof { lemma_century(year as int); }
@@loop 3
    invariant
        days_in_year == days_of_year(year as int),
        -30000000000000000 <= year, 0 <= number_of_days <= 146097, year + number_of_days <= 30000000000300000,
        before_year(year as int) + number_of_days == target,
    decreases number_of_days,
@@at loop 3 begin
proof { lemma_year(year as int); }
@@loop 4
    invariant
        1 <= month <= 12, days_in_month == days_of_month(year as int, month as int),
        -30000000000000000 <= year <= 30000000000300000, 0 <= number_of_days <= 366,
        number_of_days == 0 ==> month == 1,
        before_month(year as int, month as int) + number_of_days <= days_of_year(year as int),
        before_year(year as int) + before_month(year as int, month as int) + number_of_days == target,
    decreases number_of_days,
@@at loop 4 before
proof { lemma_months(year as int); }
@@at loop 4 begin
proof { lemma_months(year as int); lemma_before_month_mono(year as int, month as int, 13); 
    if month < 12 { lemma_before_month_mono(year as int, (month + 1) as int, 13); } }
@@at loop 4 after
proof { lemma_months(year - 1); lemma_year(year - 1); lemma_months(year as int); }
@@at loop 0 before
proof { lemma_400(epoch.year as int, nd0 as int / 146097); }
@@at start
let ghost nd0 = number_of_days;
let ghost target = day_number(epoch.year as int, 1, 1) + number_of_days;
@@fn get_time_values
    ensures
        r.0 == number_of_seconds as int / 86400, r.1 == (number_of_seconds as int % 86400) / 3600,
        r.2 == (number_of_seconds as int % 3600) / 60, r.3 == number_of_seconds as int % 60,
        r.1 < 24, r.2 < 60, r.3 < 60,
@@endfn
@@raw
// ---------------------------------------------------------------------------
// ISO 8601 text
spec fn text_date(y: int, m: int, d: int) -> Seq<char> {
    ((((Seq::<char>::empty() + kx_dec_text(y, 4)).push('-') + kx_dec_text(m, 2)).push('-')) + kx_dec_text(d, 2))
}
spec fn text_date_time(y: int, m: int, d: int, h: int, mi: int, s: int) -> Seq<char> {
    (((text_date(y, m, d).push('T') + kx_dec_text(h, 2)).push(':') + kx_dec_text(mi, 2)).push(':')) + kx_dec_text(s, 2)
}
// t is the text of the moment `seconds` (any sign) after midnight of the given date
spec fn is_moment(t: Seq<char>, epoch_year: int, seconds: int) -> bool {
    exists|y: int, m: int, d: int| #![trigger day_number(y, m, d)] valid_date(y, m, d)
        && day_number(y, m, d) == day_number(epoch_year, 1, 1) + seconds / 86400
        && t == text_date_time(y, m, d, (seconds % 86400) / 3600, (seconds % 3600) / 60, seconds % 60)
}
spec fn is_moment_fraction(t: Seq<char>, epoch_year: int, seconds: int, fraction: int, width: nat) -> bool {
    exists|y: int, m: int, d: int| #![trigger day_number(y, m, d)] valid_date(y, m, d)
        && day_number(y, m, d) == day_number(epoch_year, 1, 1) + seconds / 86400
        && t == text_date_time(y, m, d, (seconds % 86400) / 3600, (seconds % 3600) / 60, seconds % 60).push('.') + kx_dec_text(fraction, width)
}
@@file keramics-datetime/src/filetime.rs
@@item Filetime
@@fn Filetime::new
    ensures r.timestamp == timestamp,
@@fn Filetime::from_bytes
    requires data@.len() >= 8,
    ensures r.timestamp == kx_u64_le(data@),
@@at start
let ghost g = data@;
@@at end
proof {
    let a = g.subrange(0, 4); let b = g.subrange(4, 8);
    let (b0, b1, b2, b3, b4, b5, b6, b7) = (g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7]);
    assert(((((b4 as u32) | ((b5 as u32) << 8u32) | ((b6 as u32) << 16u32) | ((b7 as u32) << 24u32)) as u64) << 32u64
        | (((b0 as u32) | ((b1 as u32) << 8u32) | ((b2 as u32) << 16u32) | ((b3 as u32) << 24u32)) as u64))
        == ((b0 as u64) | ((b1 as u64) << 8u64) | ((b2 as u64) << 16u64) | ((b3 as u64) << 24u64)
    | ((b4 as u64) << 32u64) | ((b5 as u64) << 40u64) | ((b6 as u64) << 48u64) | ((b7 as u64) << 56u64))) by (bit_vector);
}
@@fn Filetime::to_iso8601_string
    ensures is_moment_fraction(r@, 1601, self.timestamp as int / 10000000, self.timestamp as int % 10000000, 7),
@@file keramics-datetime/src/posix.rs
@@item PosixTime32
@@item PosixTime64Ns
@@fn PosixTime32::new
    ensures r.timestamp == timestamp,
@@fn PosixTime32::from_be_bytes
    requires data@.len() >= 4,
    ensures r.timestamp == kx_u32_be(data@) as i32,
@@fn PosixTime32::from_le_bytes
    requires data@.len() >= 4,
    ensures r.timestamp == kx_u32_le(data@) as i32,
@@fn PosixTime32::to_iso8601_string
    ensures is_moment(r@, 1970, self.timestamp as int),
@@fn PosixTime64Ns::new
    ensures r.timestamp == timestamp, r.fraction == fraction,
@@fn PosixTime64Ns::to_iso8601_string
    ensures is_moment_fraction(r@, 1970, self.timestamp as int, self.fraction as int, 9),
@@endfn
@@raw
// ---------------------------------------------------------------------------
// Display text: the ISO 8601 text followed by the raw value
spec fn shown_filetime(t: Seq<char>, timestamp: int) -> Seq<char> {
    ((((t.push(' ').push('(').push('0').push('x') + kx_hex_text(timestamp / 0x100000000, 8)).push(':').push('0').push('x'))
        + kx_hex_text(timestamp % 0x100000000, 8))).push(')')
}
@@file keramics-datetime/src/filetime.rs
@@fn Filetime::fmt for Display
@@rename fmt_display
    ensures r is Ok ==> exists|t: Seq<char>| #[trigger] is_moment_fraction(t, 1601, self.timestamp as int / 10000000, self.timestamp as int % 10000000, 7)
        && final(formatter).text() =~= old(formatter).text() + shown_filetime(t, self.timestamp as int),
@@at start
proof {
    let x = self.timestamp;
    assert(x >> 32 == x / 0x100000000) by (bit_vector);
    assert(x & 0xffffffff == x % 0x100000000) by (bit_vector);
    assert forall|t: Seq<char>| Seq::<char>::empty() + t == t by { assert(Seq::<char>::empty() + t =~= t); }
}
@@file keramics-datetime/src/posix.rs
@@fn PosixTime32::fmt for Display
@@rename fmt_display
    ensures r is Ok ==> exists|t: Seq<char>| #[trigger] is_moment(t, 1970, self.timestamp as int)
        && final(formatter).text() =~= old(formatter).text() + (t.push(' ').push('(') + kx_dec_text(self.timestamp as int, 0)).push(')'),
@@at start
proof { assert forall|t: Seq<char>| Seq::<char>::empty() + t == t by { assert(Seq::<char>::empty() + t =~= t); } }
@@fn PosixTime64Ns::fmt for Display
@@rename fmt_display
    ensures r is Ok ==> exists|t: Seq<char>| #[trigger] is_moment_fraction(t, 1970, self.timestamp as int, self.fraction as int, 9)
        && final(formatter).text() =~= old(formatter).text()
            + ((t.push(' ').push('(') + kx_dec_text(self.timestamp as int, 0)).push('.') + kx_dec_text(self.fraction as int, 0)).push(')'),
@@at start
proof { assert forall|t: Seq<char>| Seq::<char>::empty() + t == t by { assert(Seq::<char>::empty() + t =~= t); } }
@@endfn
