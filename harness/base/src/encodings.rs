use crate::codec_tables::TABLES;
use keramics_encodings::*;
use std::collections::BTreeMap;
use wit_common::{Ctx, hex};

fn cps(c: &[u32]) -> String {
    c.iter().map(|x| format!("U+{:04x}", x)).collect::<Vec<_>>().join(" ")
}

/// Decodes with the real code: one item per line entry, at most n + 2 items.
fn decode(e: &CharacterEncoding, b: &[u8]) -> String {
    let items: Vec<String> = new_character_decoder(e, b)
        .take(b.len() + 2)
        .map(|r| match r {
            Ok(c) => format!("{:x}", c),
            Err(_) => "error".to_string(),
        })
        .collect();
    items.join(" ")
}
fn encode(e: &CharacterEncoding, c: &[u32]) -> String {
    let items: Vec<String> = new_character_encoder(e, c)
        .take(c.len() + 2)
        .map(|r| match r {
            Ok(v) => hex(&v),
            Err(_) => "error".to_string(),
        })
        .collect();
    items.join(" ")
}

pub fn c07(ctx: &mut Ctx) {
    let mut inverse = vec![];
    for (e, t) in TABLES.iter() {
        let mut m: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
        for b in 0..256 {
            if t[b] >= 0 {
                m.entry(t[b] as u32).or_default().push(b as u8);
            }
        }
        inverse.push(m);
        // every byte
        for b in 0..=255u8 {
            if *e == CharacterEncoding::Ascii && b >= 0x80 {
                continue;
            }
            let exp = if t[b as usize] < 0 { "error".to_string() } else { format!("{:x}", t[b as usize]) };
            let data = [b'a', b, b'b'];
            let exp = format!("{} {} {}", if t[97] < 0 { "error".into() } else { format!("{:x}", t[97]) }, exp, if t[98] < 0 { "error".into() } else { format!("{:x}", t[98]) });
            ctx.check(&format!("decode {:?}", e), &hex(&data), &exp, || decode(e, &data));
        }
    }
    // every code point of the basic multilingual plane, a block at a time
    let blocks: Vec<u32> = (0..0x110).map(|x| x * 256).chain([0x10ff00, 0x110000, 0x7fffff00, 0xffffff00]).collect();
    for (k, (e, t)) in TABLES.iter().enumerate() {
        for b in &blocks {
            let one = |ctx: &mut Ctx, c: u32| {
                let cp = [c];
                let dup = inverse[k].get(&c).cloned().unwrap_or_default();
                ctx.check_if(
                    &format!("encode {:?}", e),
                    &cps(&cp),
                    || encode(e, &cp),
                    |got| match dup.len() {
                        0 => (got != "error").then(|| "error".to_string()),
                        _ => (!dup.iter().any(|b| got == hex(&[*b]))).then(|| format!("a byte that decodes to it: {}", hex(&dup))),
                    },
                );
            };
            let mut bad = None;
            for c in *b..=(*b + 255) {
                let r = std::panic::catch_unwind(|| new_character_encoder(e, &[c]).next());
                let ok = match r {
                    Ok(Some(Ok(v))) => v.len() == 1 && t[v[0] as usize] == c as i32 && c < 0x80000000,
                    Ok(Some(Err(_))) => !inverse[k].contains_key(&c),
                    _ => false,
                };
                if !ok {
                    bad = Some(c);
                    break;
                }
            }
            match bad {
                Some(c) => one(ctx, c),
                None => {
                    let c = *b + ctx.rng.below(256) as u32;
                    one(ctx, c)
                }
            }
        }
    }
    while ctx.time_left() {
        let k = ctx.rng.below(TABLES.len() as u64) as usize;
        let (e, t) = &TABLES[k];
        let n = ctx.rng.below(40) as usize;
        let mut data = ctx.rng.bytes(n);
        if *e == CharacterEncoding::Ascii {
            data.iter_mut().for_each(|x| *x &= 0x7f);
        }
        let exp: Vec<String> = data.iter().map(|b| if t[*b as usize] < 0 { "error".into() } else { format!("{:x}", t[*b as usize]) }).collect();
        ctx.check(&format!("decode {:?}", e), &hex(&data), &exp.join(" "), || decode(e, &data));
        let keys: Vec<u32> = inverse[k].keys().cloned().collect();
        let cp: Vec<u32> = (0..n).map(|_| if ctx.rng.below(8) == 0 { ctx.rng.below(0x11000) as u32 } else { *ctx.rng.pick(&keys) }).collect();
        // encode, then decode what was encoded
        let exp: Vec<String> = cp.iter().map(|c| if inverse[k].contains_key(c) { format!("{:x}", c) } else { "error".into() }).collect();
        ctx.check(&format!("encode, then decode {:?}", e), &cps(&cp), &exp.join(" "), || {
            new_character_encoder(e, &cp)
                .take(cp.len() + 2)
                .map(|r| match r {
                    Ok(v) => decode(e, &v),
                    Err(_) => "error".to_string(),
                })
                .collect::<Vec<_>>()
                .join(" ")
        });
    }
}

/// The first item of the sequence, by RFC 3629: the scalar value and its length.
fn utf8_first(b: &[u8]) -> Option<(u32, usize)> {
    for n in 1..=4.min(b.len()) {
        if let Ok(s) = std::str::from_utf8(&b[..n]) {
            return Some((s.chars().next().unwrap() as u32, n));
        }
    }
    None
}

fn utf8_case(ctx: &mut Ctx, b: &[u8]) {
    // items up to and including the first error; then only that iteration ends
    let mut exp = vec![];
    let mut i = 0;
    while i < b.len() {
        match utf8_first(&b[i..]) {
            Some((c, n)) => {
                exp.push(format!("{:x}", c));
                i += n;
            }
            None => {
                exp.push("error".into());
                break;
            }
        }
    }
    let exp = exp.join(" ");
    ctx.check("decode Utf8 up to the first error", &hex(b), &exp, || {
        let mut v = vec![];
        let mut n = 0;
        let mut stop = false;
        for r in new_character_decoder(&CharacterEncoding::Utf8, b) {
            n += 1;
            if n > b.len() {
                return "more items than bytes".into();
            }
            match r {
                Ok(c) if !stop => v.push(format!("{:x}", c)),
                Ok(_) => {}
                Err(_) if !stop => {
                    v.push("error".into());
                    stop = true;
                }
                Err(_) => {}
            }
        }
        v.join(" ")
    });
}

pub fn c08(ctx: &mut Ctx) {
    let edge = [0u8, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xed, 0xf4, 0xff];
    for a in 0..=255u8 {
        utf8_case(ctx, &[a]);
        utf8_case(ctx, &[b'x', a]);
        for b in 0..=255u8 {
            utf8_case(ctx, &[a, b]);
            for c in edge {
                utf8_case(ctx, &[a, b, c]);
                if a >= 0xe0 {
                    for d in edge {
                        utf8_case(ctx, &[a, b, c, d]);
                    }
                }
            }
        }
    }
    while ctx.time_left() {
        let n = ctx.rng.range(1, 12);
        let mut s = String::new();
        for _ in 0..n {
            let c = match ctx.rng.below(5) {
                0 => ctx.rng.below(0x80),
                1 => ctx.rng.below(0x800),
                2 => ctx.rng.below(0x10000),
                3 => *ctx.rng.pick(&[0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff]),
                _ => ctx.rng.below(0x110000),
            };
            if let Some(c) = char::from_u32(c as u32) {
                s.push(c);
            }
        }
        let mut b = s.into_bytes();
        if ctx.rng.below(2) == 0 && !b.is_empty() {
            match ctx.rng.below(3) {
                0 => {
                    let i = ctx.rng.below(b.len() as u64) as usize;
                    b[i] = ctx.rng.next() as u8;
                }
                1 => {
                    b.pop();
                }
                _ => {
                    let i = ctx.rng.below(b.len() as u64) as usize;
                    b.remove(i);
                }
            }
        }
        utf8_case(ctx, &b);
        let n = ctx.rng.range(1, 5);
        let cps: Vec<u32> = (0..n)
            .map(|_| match ctx.rng.below(4) {
                0 => ctx.rng.below(0x900) as u32,
                1 => *ctx.rng.pick(&[0x7fu32, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff, 0xffffffff]),
                _ => ctx.rng.below(0x120000) as u32,
            })
            .collect();
        let exp: String = cps
            .iter()
            .map(|c| match char::from_u32(*c) {
                Some(c) => format!("{} ", hex(c.to_string().as_bytes())),
                None => "error ".to_string(),
            })
            .collect();
        ctx.check("encode Utf8", &format!("{:x?}", cps), &exp, || {
            let mut o = String::new();
            for r in new_character_encoder(&CharacterEncoding::Utf8, &cps).take(20) {
                match r {
                    Ok(b) => o.push_str(&format!("{} ", hex(&b))),
                    Err(_) => o.push_str("error "),
                }
            }
            o
        });
    }
}

pub fn c09(ctx: &mut Ctx) {
    let mut dec: BTreeMap<Vec<u8>, u32> = BTreeMap::new();
    let mut enc: BTreeMap<u32, Vec<Vec<u8>>> = BTreeMap::new();
    for l in include_str!("w932.txt").lines() {
        let (a, b) = l.split_once(' ').unwrap();
        let k: Vec<u8> = (0..a.len() / 2).map(|i| u8::from_str_radix(&a[2 * i..2 * i + 2], 16).unwrap()).collect();
        let c = u32::from_str_radix(b, 16).unwrap();
        dec.insert(k.clone(), c);
        enc.entry(c).or_default().push(k);
    }
    let e = CharacterEncoding::Windows932;
    let what = "decode Windows932";
    for a in 0..=255u8 {
        let single = dec.get(&vec![a]);
        if let Some(c) = single {
            let d = [a, b'z'];
            ctx.check(what, &hex(&d), &format!("{:x} 7a", c), || decode(&e, &d));
            continue;
        }
        ctx.check(what, &hex(&[a]), "error", || decode(&e, &[a]));
        for b in 0..=255u8 {
            let d = [a, b];
            match dec.get(&d.to_vec()) {
                Some(c) => {
                    let exp = format!("{:x}", c);
                    ctx.check(what, &hex(&d), &exp, || decode(&e, &d));
                    let t = [b'A', a, b, b'B'];
                    ctx.check(what, &hex(&t), &format!("41 {} 42", exp), || decode(&e, &t));
                }
                None => ctx.check_if("decode Windows932, first item", &hex(&d), || decode(&e, &d), |g| (!g.starts_with("error") || g.split(' ').count() > 2).then(|| "error first, at most one item per byte".to_string())),
            }
        }
    }
    for c in (0..0x11000u32).chain([0x10ffff, 0x110000, 0x80000041, 0xffffffff]) {
        let cp = [c];
        let k = enc.get(&c).cloned().unwrap_or_default();
        ctx.check_if("encode Windows932", &cps(&cp), || encode(&e, &cp), |got| match k.len() {
            0 => (got != "error").then(|| "error".to_string()),
            _ => (!k.iter().any(|b| got == hex(b))).then(|| format!("one of {}", k.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" "))),
        });
    }
    let keys: Vec<u32> = enc.keys().cloned().collect();
    while ctx.time_left() {
        let n = ctx.rng.below(20);
        let cp: Vec<u32> = (0..n).map(|_| *ctx.rng.pick(&keys)).collect();
        let exp: Vec<String> = cp.iter().map(|c| format!("{:x}", c)).collect();
        ctx.check("encode, then decode Windows932", &cps(&cp), &exp.join(" "), || {
            let mut b = vec![];
            for r in new_character_encoder(&e, &cp) {
                match r {
                    Ok(v) => b.extend(v),
                    Err(_) => return "error".into(),
                }
            }
            decode(&e, &b)
        });
    }
}

fn b64_value(b: u8) -> Option<u32> {
    b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".iter().position(|x| *x == b).map(|x| x as u32)
}
/// Err: an error is expected.
fn b64_oracle(t: &[u8], room: usize) -> Result<Vec<u8>, ()> {
    let p = t.iter().position(|b| b64_value(*b).is_none()).unwrap_or(t.len());
    let mut out = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for b in &t[..p] {
        acc = acc * 64 + b64_value(*b).unwrap();
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    if out.len() > room {
        return Err(());
    }
    if p < t.len() {
        if t[p] != b'=' {
            return Err(());
        }
        let pad = (4 - p % 4) % 4;
        if t.len() - p < pad || t[p..p + pad].iter().any(|b| *b != b'=') {
            return Err(());
        }
    }
    Ok(out)
}
fn b64_encode(d: &[u8], pad: bool) -> Vec<u8> {
    let al = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = vec![];
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(al[((v >> (18 - 6 * i)) & 63) as usize]);
            } else if pad {
                o.push(b'=');
            }
        }
    }
    o
}

pub fn c10(ctx: &mut Ctx) {
    let mut i = 0u64;
    while ctx.time_left() {
        i += 1;
        let n = ctx.rng.below(40) as usize;
        let d = ctx.rng.bytes(n);
        let mut t = b64_encode(&d, ctx.rng.below(2) == 0);
        if i > 1000 && ctx.rng.below(2) == 0 && !t.is_empty() {
            let k = ctx.rng.below(t.len() as u64) as usize;
            match ctx.rng.below(5) {
                0 => t[k] = ctx.rng.next() as u8,
                1 => t.truncate(k),
                2 => t.insert(k, *ctx.rng.pick(b"= \n-_A/+")),
                3 => t[k] = b'=',
                _ => t.push(*ctx.rng.pick(b"=A\n")),
            }
        }
        let room = match ctx.rng.below(5) {
            0 => ctx.rng.below(n as u64 + 1) as usize,
            1 => n,
            _ => t.len(),
        };
        let o = b64_oracle(&t, room);
        let exp = match &o {
            Ok(v) => {
                let mut full = v.clone();
                full.resize(room, 0xaa);
                format!("{} bytes, buffer {}", v.len(), hex(&full))
            }
            Err(_) => "error".into(),
        };
        ctx.check("Base64Context::decode", &format!("{:?} into {} bytes", String::from_utf8_lossy(&t), room), &exp, || {
            let mut c = Base64Context::new();
            let mut out = vec![0xaau8; room];
            match c.decode(&t, &mut out) {
                Ok(_) => format!("{} bytes, buffer {}", c.data_size, hex(&out)),
                Err(_) => "error".into(),
            }
        });
        // the stream, skipping white space
        let mut w = vec![];
        let mut clean = vec![];
        for b in b64_encode(&d, true) {
            while ctx.rng.below(6) == 0 {
                w.push(*ctx.rng.pick(b" \t\n\r\x0b"));
            }
            w.push(b);
            clean.push(b);
        }
        let exp = hex(&d);
        ctx.check("Base64Stream::get_value skipping white space", &format!("{:?}", String::from_utf8_lossy(&w)), &exp, || {
            let mut s = Base64Stream::new(&w, 0, true);
            let mut v = vec![];
            loop {
                match s.get_value() {
                    Ok(Some(b)) => v.push(b),
                    Ok(None) => return hex(&v),
                    Err(_) => return "error".into(),
                }
                if v.len() > w.len() {
                    return "too many".into();
                }
            }
        });
    }
}
