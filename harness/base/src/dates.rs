use keramics_datetime::{FatDate, FatTimeDate, FatTimeDate10Ms, Filetime, PosixTime32, PosixTime64Ns};
use wit_common::Ctx;

/// Date of a day counted from 1970-01-01 (days since 0000-03-01 split into eras).
pub fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}

fn iso(seconds: i64) -> String {
    let (y, m, d) = civil(seconds.div_euclid(86400));
    let r = seconds.rem_euclid(86400);
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", y, m, d, r / 3600, r / 60 % 60, r % 60)
}

fn interesting(ctx: &mut Ctx, epoch_shift: i64) -> i64 {
    // seconds relative to the epoch, near year, century and month boundaries
    let day = match ctx.rng.below(6) {
        0 => {
            let y = ctx.rng.below(12000) as i64 - 1000;
            let c = y - 1970;
            c * 365 + c.div_euclid(4) + ctx.rng.below(20) as i64 - 25
        }
        1 => {
            let y = (ctx.rng.below(140) as i64 - 10) * 100;
            (y - 1970) * 36524 / 100 + ctx.rng.below(120) as i64 - 60
        }
        2 => ctx.rng.below(146097) as i64 - 73000,
        3 => ctx.rng.below(8_000_000) as i64 - 1_000_000,
        4 => ctx.rng.below(800) as i64 - 400,
        _ => ((ctx.rng.next() >> 1) as i64 - (1i64 << 62)) / 86400,
    };
    let s = match ctx.rng.below(4) {
        0 => 0,
        1 => 86399,
        _ => ctx.rng.below(86400) as i64,
    };
    day.saturating_mul(86400).saturating_add(s).saturating_add(epoch_shift)
}

pub fn c05(ctx: &mut Ctx) {
    const F: i64 = 11644473600; // 1601-01-01 to 1970-01-01
    let mut i = 0u64;
    let fixed: Vec<i64> = vec![0, -1, 1, i32::MAX as i64, i32::MIN as i64, 253402300799, 253402300800, i64::MAX, i64::MIN, -62167219200, -62167219201, -F, -F - 1];
    while ctx.time_left() {
        let s = if (i as usize) < fixed.len() { fixed[i as usize] } else { interesting(ctx, 0) };
        i += 1;
        // FILETIME
        let ft: u64 = if i < 6 {
            [0, 1, u64::MAX, 1 << 63, 9999999][i as usize - 1]
        } else {
            let sec = s.saturating_add(F);
            if sec < 0 || sec as u64 > u64::MAX / 10000000 { ctx.rng.next() } else { (sec as u64).saturating_mul(10000000).saturating_add(match ctx.rng.below(3) { 0 => 0, 1 => 9999999, _ => ctx.rng.below(10000000) }) }
        };
        let text = format!("{}.{:07}", iso((ft / 10000000) as i64 - F), ft % 10000000);
        ctx.check("Filetime from_bytes, to_iso8601_string, Display", &format!("{:#x}", ft), &format!("{} {} (0x{:08x}:0x{:08x})", text, text, ft >> 32, ft & 0xffffffff), || {
            let t = Filetime::from_bytes(&ft.to_le_bytes());
            format!("{} {}", t.to_iso8601_string(), t)
        });
        let s32 = s.clamp(i32::MIN as i64, i32::MAX as i64) as i32;
        let s32 = if s32 as i64 != s { ctx.rng.next() as i32 } else { s32 };
        let text = iso(s32 as i64);
        ctx.check("PosixTime32 to_iso8601_string (new, big and little endian), Display", &s32.to_string(), &format!("{} {} {} {} ({})", text, text, text, text, s32), || {
            let t = PosixTime32::new(s32);
            format!("{} {} {} {}", t.to_iso8601_string(), PosixTime32::from_be_bytes(&s32.to_be_bytes()).to_iso8601_string(), PosixTime32::from_le_bytes(&s32.to_le_bytes()).to_iso8601_string(), t)
        });
        let fr = match ctx.rng.below(4) { 0 => 0, 1 => 999999999, 2 => ctx.rng.below(1000), _ => ctx.rng.below(1000000000) } as u32;
        let text = format!("{}.{:09}", iso(s), fr);
        ctx.check("PosixTime64Ns to_iso8601_string, Display", &format!("{} {}", s, fr), &format!("{} {} ({}.{})", text, text, s, fr), || {
            let t = PosixTime64Ns::new(s, fr);
            format!("{} {}", t.to_iso8601_string(), t)
        });
    }
}

pub fn c06(ctx: &mut Ctx) {
    let mut i = 0u32;
    while ctx.time_left() {
        // every date, and every time, at least once
        let (date, time) = if i < 65536 { (i as u16, (i.wrapping_mul(40503) >> 3) as u16) } else if i < 131072 { (ctx.rng.next() as u16, i as u16) } else { (ctx.rng.next() as u16, ctx.rng.next() as u16) };
        let f = match ctx.rng.below(5) { 0 => 0, 1 => 199, 2 => 100, _ => ctx.rng.next() as u8 };
        i += 1;
        let d = format!("{:04}-{:02}-{:02}", 1980 + (date / 512), date / 32 % 16, date % 32);
        let mi = format!("{}T{:02}:{:02}", d, time / 2048, time / 32 % 64);
        let t = format!("{}:{:02}", mi, 2 * (time % 32));
        let t10 = format!("{}:{:02}.{:02}", mi, 2 * (time % 32) + f as u16 / 100, f % 100);
        let [d0, d1] = date.to_le_bytes();
        let [t0, t1] = time.to_le_bytes();
        ctx.check("FatDate/FatTimeDate/FatTimeDate10Ms from_bytes, to_iso8601_string, Display", &format!("date {:#06x} time {:#06x} fraction {}", date, time, f),
            &format!("{} {} (0x{:04x}) {} {} (0x{:04x}:0x{:04x}) {} {} (0x{:04x}:0x{:04x}:0x{:02x})", d, d, date, t, t, date, time, t10, t10, date, time, f), || {
            let a = FatDate::from_bytes(&[d0, d1]);
            let b = FatTimeDate::from_bytes(&[t0, t1, d0, d1]);
            let c = FatTimeDate10Ms::from_bytes(&[f, t0, t1, d0, d1]);
            if a != FatDate::new(date) || b != FatTimeDate::new(date, time) || c != FatTimeDate10Ms::new(date, time, f) {
                return "from_bytes differs from new".to_string();
            }
            format!("{} {} {} {} {} {}", a.to_iso8601_string(), a, b.to_iso8601_string(), b, c.to_iso8601_string(), c)
        });
    }
}
