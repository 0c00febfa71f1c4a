use keramics_core::formatters::{debug_format_array, format_as_hexdump, format_as_string};
use wit_common::{Ctx, hex};

fn line(o: usize, d: &[u8]) -> String {
    let mut s = format!("{:08x}  ", o);
    for j in 0..16 {
        match d.get(j) {
            Some(b) => s.push_str(&format!("{:02x} ", b)),
            None => s.push_str("   "),
        }
        if j == 7 {
            s.push(' ');
        }
    }
    s.push(' ');
    for b in d {
        s.push(if (32..127).contains(b) { *b as char } else { '.' });
    }
    s.push('\n');
    s
}

fn dump(d: &[u8], group: bool) -> String {
    let full = d.len() / 16;
    let mut s = String::new();
    let mut dots = false;
    for (k, l) in d.chunks(16).enumerate() {
        if group && k > 0 && k + 1 < full && *l == d[16 * (k - 1)..16 * k] {
            if !dots {
                s.push_str("...\n");
            }
            dots = true;
        } else {
            s.push_str(&line(16 * k, l));
            dots = false;
        }
    }
    s.push('\n');
    s
}

pub fn c16(ctx: &mut Ctx) {
    while ctx.time_left() {
        let n = match ctx.rng.below(3) {
            _ if ctx.rng.below(40) == 0 => ctx.rng.below(300_000) as usize,
            0 => ctx.rng.below(20) as usize,
            1 => 16 * ctx.rng.below(12) as usize,
            _ => ctx.rng.below(160) as usize,
        };
        // few line patterns, so that lines repeat
        let a = ctx.rng.bytes(16);
        let b = ctx.rng.bytes(16);
        let mut d: Vec<u8> = vec![];
        let mut cur = 0;
        while d.len() < n {
            if ctx.rng.below(if n > 1000 { 300 } else { 3 }) == 0 {
                cur = ctx.rng.below(3);
            }
            d.extend(match cur {
                0 => a.clone(),
                1 => b.clone(),
                _ => {
                    let mut c = a.clone();
                    c[ctx.rng.below(16) as usize] ^= 1;
                    c
                }
            });
        }
        d.truncate(n);
        for g in [false, true] {
            let d2 = d.clone();
            ctx.check(if g { "format_as_hexdump grouped" } else { "format_as_hexdump" }, &hex(&d), &dump(&d, g), move || format_as_hexdump(&d2, g));
        }
        let exp: String = d.iter().map(|b| format!("{:02x}", b)).collect();
        let d2 = d.clone();
        ctx.check("format_as_string", &hex(&d), &exp, move || format_as_string(&d2));
        let n = match ctx.rng.below(3) {
            0 => ctx.rng.below(5) as usize,
            1 => 14 + ctx.rng.below(6) as usize,
            _ => ctx.rng.below(70) as usize,
        };
        let same = ctx.rng.below(3);
        let v: Vec<String> = (0..n).map(|i| if same == 0 { "x".to_string() } else if same == 1 && i + 1 < n { "7".to_string() } else { i.to_string() }).collect();
        let exp = if n == 0 {
            "[]".to_string()
        } else if v.iter().all(|x| *x == v[0]) {
            format!("[{}; {}]", v[0], n)
        } else if n <= 16 {
            format!("[{}]", v.join(", "))
        } else {
            let rows: Vec<String> = v.chunks(16).map(|c| c.join(", ")).collect();
            format!("[\n        {}\n    ]", rows.join(",\n        "))
        };
        ctx.check("debug_format_array", &format!("{:?}", v), &exp, || debug_format_array(&v));
    }
}
