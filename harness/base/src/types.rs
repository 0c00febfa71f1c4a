use std::cmp::Ordering;
use std::collections::HashMap;

use keramics_encodings::{CharacterEncoding, new_character_decoder, new_character_encoder};
use keramics_types::{
    ByteString, Ucs2String, Utf16String, Uuid, bytes_to_i16_be, bytes_to_i16_le, bytes_to_i32_be, bytes_to_i32_le,
    bytes_to_i64_be, bytes_to_i64_le, bytes_to_u16_be, bytes_to_u16_le, bytes_to_u32_be, bytes_to_u32_le,
    bytes_to_u64_be, bytes_to_u64_le,
};
use wit_common::{Ctx, hex};

fn value(b: &[u8], be: bool) -> u128 {
    let mut v = 0u128;
    for i in 0..b.len() {
        v = v * 256 + (if be { b[i] } else { b[b.len() - 1 - i] }) as u128;
    }
    v
}

fn signed(v: u128, bits: u32) -> i128 {
    if v >= 1 << (bits - 1) { v as i128 - (1i128 << bits) } else { v as i128 }
}

pub fn c11(ctx: &mut Ctx) {
    while ctx.time_left() {
        let len = 8 + ctx.rng.below(12) as usize;
        let mut d = ctx.rng.bytes(len);
        if ctx.rng.below(3) == 0 {
            let i = ctx.rng.below(len as u64) as usize;
            d[i] ^= 0x80;
        }
        let o = ctx.rng.below((len - 7) as u64) as usize;
        let mut exp = vec![];
        for (n, be) in [(2, true), (2, false), (4, true), (4, false), (8, true), (8, false)] {
            let v = value(&d[o..o + n], be);
            exp.push(format!("{} {}", v, signed(v, 8 * n as u32)));
        }
        let d2 = d.clone();
        ctx.check("bytes_to_* macros", &format!("{} at {}", hex(&d), o), &exp.join(", "), move || {
            let d = d2;
            [
                format!("{} {}", bytes_to_u16_be!(d, o), bytes_to_i16_be!(d, o)),
                format!("{} {}", bytes_to_u16_le!(d, o), bytes_to_i16_le!(d, o)),
                format!("{} {}", bytes_to_u32_be!(d, o), bytes_to_i32_be!(d, o)),
                format!("{} {}", bytes_to_u32_le!(d, o), bytes_to_i32_le!(d, o)),
                format!("{} {}", bytes_to_u64_be!(d, o), bytes_to_i64_be!(d, o)),
                format!("{} {}", bytes_to_u64_le!(d, o), bytes_to_i64_le!(d, o)),
            ]
            .join(", ")
        });
    }
}

fn show_uuid(u: &Uuid) -> String {
    format!("{:x} {:x} {:x} {:x} {:x}", u.part1, u.part2, u.part3, u.part4, u.part5)
}

fn parse_uuid(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let b = if b.len() >= 2 && b[0] == b'{' && b[b.len() - 1] == b'}' { &b[1..b.len() - 1] } else { b };
    if b.len() != 36 {
        return None;
    }
    for i in 0..36 {
        let ok = if [8, 13, 18, 23].contains(&i) { b[i] == b'-' } else { (b[i] as char).is_ascii_hexdigit() };
        if !ok {
            return None;
        }
    }
    let t = std::str::from_utf8(b).unwrap();
    let p: Vec<u64> = t.split('-').map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
    Some(format!("{:x} {:x} {:x} {:x} {:x}", p[0], p[1], p[2], p[3], p[4]))
}

pub fn c12(ctx: &mut Ctx) {
    let alphabet: Vec<char> = "0123456789abcdefABCDEFgG-+{} é\u{20ac}\u{1f600}/:@`".chars().collect();
    while ctx.time_left() {
        let d = { let n = 16 + ctx.rng.below(3) as usize; ctx.rng.bytes(n) };
        let d = if ctx.rng.below(6) == 0 { vec![*ctx.rng.pick(&[0u8, 0xff]); 16] } else { d };
        let mut d = d;
        if ctx.rng.below(2) == 0 {
            let i = ctx.rng.below(16) as usize;
            d[i] = ctx.rng.next() as u8;
        }
        for be in [true, false] {
            let p = |a: usize, n: usize, be: bool| value(&d[a..a + n], be);
            let parts = (p(0, 4, be), p(4, 2, be), p(6, 2, be), p(8, 2, true), p(10, 6, true));
            let text = format!("{:08x}-{:04x}-{:04x}-{:04x}-{:012x}", parts.0, parts.1, parts.2, parts.3, parts.4);
            let nil = d[..16].iter().all(|x| *x == 0);
            let max = d[..16].iter().all(|x| *x == 255);
            let exp = format!(
                "{:x} {:x} {:x} {:x} {:x} {} {} {} {} true", parts.0, parts.1, parts.2, parts.3, parts.4, text, text, nil, max
            );
            let d2 = d.clone();
            ctx.check(if be { "Uuid::from_be_bytes" } else { "Uuid::from_le_bytes" }, &hex(&d), &exp, move || {
                let u = if be { Uuid::from_be_bytes(&d2) } else { Uuid::from_le_bytes(&d2) };
                let mut v = Uuid { part1: 1, part2: 2, part3: 3, part4: 4, part5: 5 };
                let back = v.from_string(&u.to_string()).is_ok() && v == u;
                format!("{} {} {} {} {} {}", show_uuid(&u), u.to_string(), u, u.is_nil(), u.is_max(), back)
            });
        }
        // texts near the syntax
        let mut t: Vec<char> = Uuid::from_be_bytes(&d).to_string().chars().collect();
        for _ in 0..ctx.rng.below(4) {
            let i = ctx.rng.below(t.len() as u64) as usize;
            let c = *ctx.rng.pick(&alphabet);
            match ctx.rng.below(6) {
                0 => t.insert(i, c),
                1 if t.len() > 1 => {
                    t.remove(i);
                }
                _ => t[i] = c,
            }
        }
        match ctx.rng.below(6) {
            0 => {
                t.insert(0, '{');
                t.push('}');
            }
            1 => t.insert(0, '{'),
            2 => t.push('}'),
            3 if ctx.rng.below(4) == 0 => t.truncate(ctx.rng.below(3) as usize),
            _ => {}
        }
        let mut s: String = t.iter().collect();
        if ctx.rng.below(8) == 0 {
            // keep the byte length at 36 with a multi-byte character somewhere
            let mut b: Vec<char> = "0123abcd-0123-4567-89ab-0123456789ab".chars().collect();
            let i = ctx.rng.below(35) as usize;
            b[i] = 'é';
            b.remove(i + 1);
            s = b.iter().collect();
        }
        let exp = match parse_uuid(&s) {
            Some(x) => format!("Ok {}", x),
            None => "Err 1 2 3 4 5".to_string(),
        };
        let s2 = s.clone();
        ctx.check("Uuid::from_string", &s, &exp, move || {
            let mut v = Uuid { part1: 1, part2: 2, part3: 3, part4: 4, part5: 5 };
            match v.from_string(&s2) {
                Ok(_) => format!("Ok {}", show_uuid(&v)),
                Err(_) => format!("Err {}", show_uuid(&v)),
            }
        });
    }
}

fn shown(c: u32) -> String {
    match char::from_u32(c) {
        Some('\\') => "\\\\".to_string(),
        Some(c) => c.to_string(),
        None => format!("\\{{{:04x}}}", c),
    }
}

fn elements(ctx: &mut Ctx) -> Vec<u16> {
    let n = ctx.rng.below(12) as usize;
    let zero = ctx.rng.below(2);
    (0..n)
        .map(|_| match ctx.rng.below(8) {
            0 => 0xd800 + ctx.rng.below(0x400) as u16,
            1 => 0xdc00 + ctx.rng.below(0x400) as u16,
            2 => *ctx.rng.pick(&[0xd7ffu16, 0xe000, 0xffff, 1, 0x5c, 0x100, 0xff00, 0xdbff, 0xdc00]),
            3 if zero == 1 => 0,
            4 => 0x20 + ctx.rng.below(0x60) as u16,
            _ => 1 + ctx.rng.below(0xffff) as u16,
        })
        .collect()
}

fn utf16(s: &[u16]) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < s.len() {
        let u = s[i] as u32;
        if (0xd800..0xdc00).contains(&u) && i + 1 < s.len() && (0xdc00..0xe000).contains(&(s[i + 1] as u32)) {
            o.push(char::from_u32(0x10000 + (u - 0xd800) * 0x400 + s[i + 1] as u32 - 0xdc00).unwrap());
            i += 2;
        } else {
            o.push(char::from_u32(u).unwrap_or('\u{fffd}'));
            i += 1;
        }
    }
    o
}

pub fn c13(ctx: &mut Ctx) {
    while ctx.time_left() {
        let e = elements(ctx);
        let cut: Vec<u16> = e.iter().cloned().take_while(|x| *x != 0).collect();
        for be in [true, false] {
            let mut d: Vec<u8> = e.iter().flat_map(|x| if be { x.to_be_bytes() } else { x.to_le_bytes() }).collect();
            if ctx.rng.below(3) == 0 {
                d.push(*ctx.rng.pick(&[0u8, 1, 0xff]));
            }
            let exp = format!("{:?} {:?} {}", cut, cut, utf16(&cut));
            let d2 = d.clone();
            ctx.check(if be { "from_be_bytes" } else { "from_le_bytes" }, &hex(&d), &exp, move || {
                let (a, b) = if be {
                    (Ucs2String::from_be_bytes(&d2), Utf16String::from_be_bytes(&d2))
                } else {
                    (Ucs2String::from_le_bytes(&d2), Utf16String::from_le_bytes(&d2))
                };
                format!("{:?} {:?} {}", a.elements, b.elements, b.to_string())
            });
            if !be {
                let mut all = vec![0x41u16, 0xd800];
                all.extend(&cut);
                let d2 = d.clone();
                ctx.check("Ucs2String::read_data_le after 0041 d800", &hex(&d), &format!("{:?}", all), move || {
                    let mut a = Ucs2String::new();
                    a.elements = vec![0x41, 0xd800];
                    a.read_data_le(&d2);
                    format!("{:?}", a.elements)
                });
            }
        }
        let exp = format!("{:?} {:?} {} {} {}", cut, cut, cut.len(), cut.is_empty(), cut.iter().map(|c| shown(*c as u32)).collect::<String>());
        let e2 = e.clone();
        ctx.check("Ucs2String::from(&[u16])", &format!("{:x?}", e), &exp, move || {
            let a = Ucs2String::from(e2.as_slice());
            let b = Ucs2String::from(&e2);
            format!("{:?} {:?} {} {} {}", a.elements, b.elements, a.len(), a.is_empty(), a.to_string())
        });
        // order
        let a = elements(ctx);
        let b = if ctx.rng.below(2) == 0 {
            elements(ctx)
        } else {
            let mut b = a.clone();
            if !b.is_empty() {
                let i = ctx.rng.below(b.len() as u64) as usize;
                match ctx.rng.below(3) {
                    0 => b[i] = b[i].wrapping_add(*ctx.rng.pick(&[1, 0x100, 0xffff, 0x8000])),
                    1 => b.truncate(i),
                    _ if ctx.rng.below(8) == 0 => {
                        let n = *ctx.rng.pick(&[128usize, 256, 512, 65536]);
                        b.resize(a.len() + n, 0x41);
                    }
                    _ => {}
                }
            }
            b
        };
        let exp = format!("{:?} {:?}", a.cmp(&b), b.cmp(&a));
        let inp = format!("{:x?} {:x?}", a, b);
        ctx.check("Ucs2String::compare", &inp, &exp, || {
            let (mut x, mut y) = (Ucs2String::new(), Ucs2String::new());
            x.elements = a.clone();
            y.elements = b.clone();
            let (r, s): (Ordering, Ordering) = (x.compare(&y), y.compare(&x));
            format!("{:?} {:?}", r, s)
        });
        // case folding
        let mut m: HashMap<u16, u16> = HashMap::new();
        for x in &a {
            if ctx.rng.below(2) == 0 {
                m.insert(*x, ctx.rng.next() as u16);
            }
        }
        let exp: Vec<u16> = a.iter().map(|x| *m.get(x).unwrap_or(x)).collect();
        let mut ms: Vec<_> = m.iter().collect();
        ms.sort();
        ctx.check("Ucs2String::new_with_case_folding", &format!("{:x?} {:x?}", a, ms), &format!("{:?}", exp), || {
            let mut x = Ucs2String::new();
            x.elements = a.clone();
            format!("{:?}", Ucs2String::new_with_case_folding(&x, &m).elements)
        });
    }
}

pub fn c14(ctx: &mut Ctx) {
    let encodings = [
        CharacterEncoding::Utf8, CharacterEncoding::Ascii, CharacterEncoding::Iso8859_1, CharacterEncoding::Iso8859_7,
        CharacterEncoding::Windows1252, CharacterEncoding::Windows932, CharacterEncoding::MacCyrillic, CharacterEncoding::Koi8R,
        CharacterEncoding::MacDingbats, CharacterEncoding::MacFarsi,
    ];
    while ctx.time_left() {
        let n = ctx.rng.below(14) as usize;
        let ascii = ctx.rng.below(3) == 0;
        let d: Vec<u8> = (0..n)
            .map(|_| match ctx.rng.below(8) {
                0 => 0,
                1 => b'\\',
                2 | 3 if !ascii => 0x80 + ctx.rng.below(0x80) as u8,
                4 if !ascii => *ctx.rng.pick(&[0xc3u8, 0xe2, 0xf0, 0x81, 0xff, 0x88]),
                _ => 0x20 + ctx.rng.below(0x5f) as u8,
            })
            .collect();
        let cut: Vec<u8> = d.iter().cloned().take_while(|x| *x != 0).collect();
        let e1 = ctx.rng.pick(&encodings).clone();
        let e2 = ctx.rng.pick(&encodings).clone();
        let mut exp = b"A".to_vec();
        exp.extend(&cut);
        let d2 = d.clone();
        ctx.check("ByteString::read_data after 41, From<&[u8]>", &hex(&d), &format!("{} {} {}", hex(&exp), hex(&cut), cut.is_empty()), move || {
            let mut s = ByteString::new();
            s.elements.push(0x41);
            s.read_data(&d2);
            let t = ByteString::from(d2.as_slice());
            format!("{} {} {}", hex(&s.elements), hex(&t.elements), t.is_empty())
        });
        let dec: Vec<Option<u32>> = new_character_decoder(&e1, &d).map(|r| r.ok()).collect();
        let exp: String = dec.iter().map(|c| match c { Some(c) => shown(*c), None => "\u{fffd}".to_string() }).collect();
        let inp = format!("{:?} {}", e1, hex(&d));
        let mut s = ByteString::new_with_encoding(&e1);
        s.elements = d.clone();
        let s1 = s.clone();
        ctx.check("ByteString::to_string", &inp, &exp, move || s1.to_string());
        // extending
        let exp = if e1 == e2 {
            let mut x = vec![1u8, 2];
            x.extend(&d);
            format!("Ok {}", hex(&x))
        } else if dec.iter().any(|x| x.is_none()) {
            "Err 0102".to_string()
        } else {
            let cps: Vec<u32> = dec.iter().map(|x| x.unwrap()).collect();
            let enc: Vec<Option<Vec<u8>>> = new_character_encoder(&e2, &cps).map(|r| r.ok().map(|x| x.to_vec())).collect();
            if enc.iter().any(|x| x.is_none()) {
                "Err".to_string()
            } else {
                let mut x = vec![1u8, 2];
                for y in enc { x.extend(y.unwrap()); }
                format!("Ok {}", hex(&x))
            }
        };
        let inp = format!("{:?} bytes 0102 extended with {:?} bytes {}", e2, e1, hex(&d));
        let exp1 = exp.clone();
        ctx.check_if("ByteString::extend", &inp, move || {
            let mut t = ByteString::new_with_encoding(&e2);
            t.elements = vec![1, 2];
            match t.extend(&s) {
                Ok(_) => format!("Ok {}", hex(&t.elements)),
                Err(_) => format!("Err {}", hex(&t.elements)),
            }
        }, |got| if got == exp1 || exp1 == "Err" && got.starts_with("Err") { None } else { Some(exp1.clone()) });
    }
}
