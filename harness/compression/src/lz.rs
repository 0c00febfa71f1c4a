use keramics_compression::{AdcContext, LzvnContext, Lznt1Context};
use wit_common::{Ctx, hex};

// Oracles written from the format descriptions: the data, or None if it is damaged.
struct Out {
    data: Vec<u8>,
    cap: usize,
}
impl Out {
    fn literals(&mut self, src: &[u8], p: &mut usize, n: usize) -> Option<()> {
        if n > src.len() - (*p).min(src.len()) || self.data.len() + n > self.cap {
            return None;
        }
        self.data.extend_from_slice(&src[*p..*p + n]);
        *p += n;
        Some(())
    }
    fn copy(&mut self, from: usize, distance: usize, n: usize) -> Option<()> {
        if distance == 0 || distance > self.data.len() - from || self.data.len() + n > self.cap {
            return None;
        }
        for _ in 0..n {
            self.data.push(self.data[self.data.len() - distance]);
        }
        Some(())
    }
}
fn byte(src: &[u8], p: &mut usize) -> Option<usize> {
    *p += 1;
    src.get(*p - 1).map(|b| *b as usize)
}

fn adc(src: &[u8], cap: usize) -> Option<Vec<u8>> {
    let mut o = Out { data: vec![], cap };
    let mut p = 0;
    while p < src.len() && o.data.len() < cap {
        let op = byte(src, &mut p)?;
        if op >= 128 {
            o.literals(src, &mut p, op - 127)?;
        } else if op >= 64 {
            let d = byte(src, &mut p)? * 256 + byte(src, &mut p)?;
            o.copy(0, d + 1, op - 64 + 4)?;
        } else {
            let d = op % 4 * 256 + byte(src, &mut p)?;
            o.copy(0, d + 1, op / 4 + 3)?;
        }
    }
    Some(o.data)
}

fn lzvn(src: &[u8], cap: usize) -> Option<Vec<u8>> {
    let mut o = Out { data: vec![], cap };
    let mut p = 0;
    let mut dist = 0;
    while p < src.len() && o.data.len() < cap {
        let op = byte(src, &mut p)?;
        let (mut l, mut m) = (op >> 6, (op >> 3 & 7) + 3);
        match op {
            0x06 => break,
            0x0e | 0x16 => {
                l = 0;
                m = 0;
            }
            0x1e | 0x26 | 0x2e | 0x36 | 0x3e | 0x70..=0x7f | 0xd0..=0xdf => return None,
            0xe0 => {
                l = byte(src, &mut p)? + 16;
                m = 0;
            }
            0xe1..=0xef => {
                l = op & 15;
                m = 0;
            }
            0xf0 => {
                l = 0;
                m = byte(src, &mut p)? + 16;
            }
            0xf1..=0xff => {
                l = 0;
                m = op & 15;
            }
            0xa0..=0xbf => {
                let (a, b) = (byte(src, &mut p)?, byte(src, &mut p)?);
                l = op >> 3 & 3;
                m = ((op & 7) << 2 | a & 3) + 3;
                dist = a >> 2 | b << 6;
            }
            _ => match op & 7 {
                7 => dist = byte(src, &mut p)? | byte(src, &mut p)? << 8,
                6 => {}
                _ => dist = (op & 7) << 8 | byte(src, &mut p)?,
            },
        }
        o.literals(src, &mut p, l)?;
        if m > 0 {
            o.copy(0, dist, m)?;
        }
    }
    Some(o.data)
}

fn lznt1(src: &[u8], cap: usize) -> Option<Vec<u8>> {
    let mut o = Out { data: vec![], cap };
    let mut p = 0;
    while p < src.len() && o.data.len() < cap {
        let h = byte(src, &mut p)? + byte(src, &mut p)? * 256;
        if h == 0 {
            break;
        }
        let end = p + (h & 0xfff) + 1;
        if h < 0x8000 {
            { let n = end - p; o.literals(src, &mut p, n)? };
            continue;
        }
        let from = o.data.len();
        'chunk: while p < end && p < src.len() {
            let flags = byte(src, &mut p)?;
            for i in 0..8 {
                if flags >> i & 1 == 0 {
                    { let n = if p < src.len() { 1 } else { usize::MAX / 2 }; o.literals(src, &mut p, n)? };
                } else {
                    let t = byte(src, &mut p)? + byte(src, &mut p)? * 256;
                    let mut bits = 4;
                    while o.data.len() - from > 1 << bits {
                        bits += 1;
                    }
                    if bits > 16 {
                        return None;
                    }
                    o.copy(from, (t >> (16 - bits)) + 1, (t & ((1 << (16 - bits)) - 1)) + 3)?;
                }
                if p >= end {
                    break 'chunk;
                }
                if o.data.len() - from > 1 << 16 {
                    return None;
                }
            }
        }
        p = end;
    }
    Some(o.data)
}

fn gen_adc(ctx: &mut Ctx, len: &mut usize) -> Vec<u8> {
    let r = &mut ctx.rng;
    match r.below(3) {
        0 => {
            let n = r.range(1, 128) as usize;
            let n = if r.below(2) == 0 { n } else { 1 + n % 6 };
            *len += n;
            let mut v = vec![127 + n as u8];
            v.extend(r.bytes(n));
            v
        }
        1 => {
            let n = r.range(0, 15);
            let d = r.below((*len).clamp(1, 1024) as u64);
            *len += n as usize + 3;
            vec![(n << 2 | d >> 8) as u8, d as u8]
        }
        _ => {
            let n = r.range(0, 63);
            let d = r.below((*len).clamp(1, 65536) as u64);
            *len += n as usize + 4;
            vec![(64 + n) as u8, (d >> 8) as u8, d as u8]
        }
    }
}

fn gen_lzvn(ctx: &mut Ctx, len: &mut usize) -> Vec<u8> {
    let r = &mut ctx.rng;
    let l = r.below(4) as usize;
    let far = (*len + l) as u64;
    let op = match r.below(12) {
        0 => *r.pick(&[0x0e, 0x16, 0x06, 0x1e, 0x70, 0xd0]),
        1 => 0xe0,
        2 => 0xf0,
        3 => 0xe1 + r.below(15) as u8,
        4 => 0xf1 + r.below(15) as u8,
        5 => r.next() as u8,
        6 | 7 => 0xa0 | (l << 3) as u8 | r.below(8) as u8,
        _ => (l << 6) as u8 | r.below(64) as u8,
    };
    let mut v = vec![op];
    let lits = |r: &mut wit_common::Rng, v: &mut Vec<u8>, n: usize| {
        for _ in 0..n {
            v.push(r.next() as u8);
        }
    };
    match op {
        0x06 | 0x0e | 0x16 => {}
        0xe0 => {
            let b = *r.pick(&[0u8, 1, 2, 5, 255, 100]);
            v.push(b);
            lits(r, &mut v, b as usize + 16);
            *len += b as usize + 16;
        }
        0xf0 => {
            let b = *r.pick(&[0u8, 1, 2, 5, 255, 100]);
            v.push(b);
            *len += b as usize + 16;
        }
        0xe1..=0xef => {
            lits(r, &mut v, (op & 15) as usize);
            *len += (op & 15) as usize;
        }
        0xf1..=0xff => *len += (op & 15) as usize,
        0xa0..=0xbf => {
            let d = r.range(0, far.min(0x3fff));
            let m = r.below(4);
            v.push((d << 2 | m) as u8);
            v.push((d >> 6) as u8);
            lits(r, &mut v, (op >> 3 & 3) as usize);
            *len += (op >> 3 & 3) as usize + ((op & 7) << 2) as usize + m as usize + 3;
        }
        _ => {
            match op & 7 {
                7 => {
                    let d = r.range(0, far.min(0xffff));
                    v.push(d as u8);
                    v.push((d >> 8) as u8);
                }
                6 => {}
                _ => {
                    let d = r.range(0, far.min(0x5ff));
                    v[0] = op & 0xf8 | (d >> 8) as u8;
                    v.push(d as u8);
                }
            }
            lits(r, &mut v, (op >> 6) as usize);
            *len += (op >> 6) as usize + (op >> 3 & 7) as usize + 3;
        }
    }
    v
}

fn gen_lznt1(ctx: &mut Ctx, len: &mut usize) -> Vec<u8> {
    let r = &mut ctx.rng;
    if r.below(4) == 0 {
        let n = *r.pick(&[1usize, 2, 3, 7, 9, 100, 4095, 4096]);
        let mut v = vec![(n - 1) as u8, 0x30 | ((n - 1) >> 8) as u8];
        v.extend(r.bytes(n));
        *len += n;
        return v;
    }
    let mut body = vec![];
    let mut u = 0usize;
    let groups = *r.pick(&[1u64, 1, 2, 2, 3, 12, 40]);
    // now and then copies that fill the chunk quickly, beyond its 4096 bytes
    let long = r.below(4) == 0;
    'g: for g in 0..groups {
        let at = body.len();
        let mut flags = r.next() as u8;
        if g == 0 {
            flags &= 0xfe;
        }
        body.push(flags);
        for i in 0..8 {
            if flags >> i & 1 == 0 {
                body.push(r.next() as u8);
                u += 1;
            } else {
                let mut bits = 4;
                while u > 1 << bits && bits < 16 {
                    bits += 1;
                }
                let d = r.below((u as u64).min(1 << bits));
                let most = (1u64 << (16 - bits)) - 1;
                let m = if long { most } else { r.below(most.min(40) + 1) };
                let t = d << (16 - bits) | m;
                let t = if r.below(300) == 0 { 0xffff } else { t };
                body.push(t as u8);
                body.push((t >> 8) as u8);
                u += m as usize + 3;
            }
            if body.len() > 4000 || (g + 1 == groups && r.below(6) == 0) {
                // the flags of elements that are not there
                let mask = if i == 7 { 0xff } else { (1u16 << (i + 1)) as u8 - 1 };
                body[at] &= mask;
                break 'g;
            }
        }
    }
    let n = body.len() - 1;
    let mut v = vec![n as u8, 0xb0 | (n >> 8) as u8];
    v.extend(body);
    *len += u;
    v
}

fn show(r: Option<Vec<u8>>, buf0: &[u8]) -> String {
    match r {
        None => "error".into(),
        Some(d) => format!("{} bytes {} rest {}", d.len(), hex(&d), hex(&buf0[d.len()..])),
    }
}

pub fn c21(ctx: &mut Ctx) {
    while ctx.time_left() {
        let kind = ctx.rng.below(3);
        let mut len = 0;
        let mut src = vec![];
        let most = if ctx.rng.below(8) == 0 { 300 } else { 12 };
        for _ in 0..ctx.rng.range(0, most) {
            if src.len() > 9000 {
                break;
            }
            let t = match kind {
                0 => gen_adc(ctx, &mut len),
                1 => gen_lzvn(ctx, &mut len),
                _ => gen_lznt1(ctx, &mut len),
            };
            src.extend(t);
        }
        match ctx.rng.below(8) {
            0 => {
                let n = ctx.rng.below(src.len() as u64 + 1) as usize;
                src.truncate(n);
            }
            1 if !src.is_empty() => {
                let i = ctx.rng.below(src.len() as u64) as usize;
                src[i] = ctx.rng.next() as u8;
            }
            2 => src.extend([0, 0]),
            3 => src.push(6),
            _ => {}
        }
        len = len.min(200000);
        let cap = match ctx.rng.below(6) {
            0 => len / 2,
            1 => len.saturating_sub(1),
            2 => len,
            3 => len + 1,
            _ => len + 300,
        };
        let buf0: Vec<u8> = (0..cap).map(|i| 0xc0 ^ (i as u8)).collect();
        let (name, exp) = match kind {
            0 => ("AdcContext::decompress", adc(&src, cap)),
            1 => ("LzvnContext::decompress", lzvn(&src, cap)),
            _ => ("Lznt1Context::decompress", lznt1(&src, cap)),
        };
        let exp = show(exp, &buf0);
        let inp = format!("data {} buffer {}", hex(&src), cap);
        ctx.check(name, &inp, &exp, || {
            let mut b = buf0.clone();
            let r = match kind {
                0 => {
                    let mut c = AdcContext::new();
                    c.decompress(&src, &mut b).map(|_| c.uncompressed_data_size)
                }
                1 => {
                    let mut c = LzvnContext::new();
                    c.decompress(&src, &mut b).map(|_| c.uncompressed_data_size)
                }
                _ => {
                    let mut c = Lznt1Context::new();
                    c.decompress(&src, &mut b).map(|_| c.uncompressed_data_size)
                }
            };
            match r {
                Err(_) => "error".into(),
                Ok(n) => format!("{} bytes {} rest {}", n, hex(&b[..n.min(b.len())]), hex(&b[n.min(b.len())..])),
            }
        });
    }
}
