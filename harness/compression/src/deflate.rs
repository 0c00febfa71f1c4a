use keramics_compression::{DeflateContext, ZlibContext};
use std::collections::HashMap;
use wit_common::{Ctx, Rng, hex};

// Oracles written from RFC 1951 and RFC 1950: the data, or None if it is damaged.
struct Bits<'a> {
    data: &'a [u8],
    at: usize,
}
impl Bits<'_> {
    fn bit(&mut self) -> u32 {
        let b = self.data.get(self.at / 8).map_or(0, |x| x >> (self.at % 8) & 1);
        self.at += 1;
        b as u32
    }
    fn number(&mut self, n: u32) -> u32 {
        (0..n).map(|i| self.bit() << i).sum()
    }
}

/// The codes of the symbols: (size, code) to symbol; None if they do not form a prefix code.
fn codes(sizes: &[u8]) -> Option<HashMap<(u32, u32), usize>> {
    let mut r = HashMap::new();
    let mut code: u64 = 0;
    for size in 1..=15u32 {
        for (s, _) in sizes.iter().enumerate().filter(|(_, z)| **z as u32 == size) {
            if code >= 1 << size {
                return None;
            }
            r.insert((size, code as u32), s);
            code += 1;
        }
        if code > 1 << size {
            return None;
        }
        code *= 2;
    }
    Some(r)
}
fn symbol(b: &mut Bits, t: &HashMap<(u32, u32), usize>) -> Option<usize> {
    let mut c = 0;
    for n in 1..=15 {
        c = c * 2 + b.bit();
        if let Some(s) = t.get(&(n, c)) {
            return Some(*s);
        }
    }
    None
}
const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
fn size_of(s: usize) -> (u32, u32) {
    match s - 257 {
        28 => (258, 0),
        i if i < 8 => (3 + i as u32, 0),
        i => {
            let e = i as u32 / 4 - 1;
            (3 + (4 + i as u32 % 4) * (1 << e), e)
        }
    }
}
fn distance_of(s: usize) -> (u32, u32) {
    if s < 4 {
        return (s as u32 + 1, 0);
    }
    let e = s as u32 / 2 - 1;
    (1 + (2 + s as u32 % 2) * (1 << e), e)
}
fn fixed() -> (Vec<u8>, Vec<u8>) {
    ((0..288).map(|i| if i < 144 { 8 } else if i < 256 { 9 } else if i < 280 { 7 } else { 8 }).collect(), vec![5; 30])
}
fn trees(b: &mut Bits) -> Option<(Vec<u8>, Vec<u8>)> {
    let (nl, nd, nc) = (b.number(5) as usize + 257, b.number(5) as usize + 1, b.number(4) as usize + 4);
    if nl > 286 || nd > 30 {
        return None;
    }
    let mut cs = [0u8; 19];
    for o in &ORDER[..nc] {
        cs[*o] = b.number(3) as u8;
    }
    let t = codes(&cs)?;
    let mut s = vec![];
    while s.len() < nl + nd {
        match symbol(b, &t)? {
            16 => {
                let x = *s.last()?;
                let n = b.number(2) + 3;
                s.extend((0..n).map(|_| x));
            }
            17 => {
                let n = b.number(3) + 3;
                s.extend((0..n).map(|_| 0));
            }
            18 => {
                let n = b.number(7) + 11;
                s.extend((0..n).map(|_| 0));
            }
            x => s.push(x as u8),
        }
    }
    if s.len() > nl + nd || s[256] == 0 {
        return None;
    }
    let d = s.split_off(nl);
    Some((s, d))
}
fn inflate(b: &mut Bits, cap: usize) -> Option<Vec<u8>> {
    let mut out: Vec<u8> = vec![];
    while b.at.div_ceil(8) < b.data.len() {
        let last = b.bit() == 1;
        let (ls, ds) = match b.number(2) {
            0 => {
                b.at = b.at.div_ceil(8) * 8;
                let (n, m) = (b.number(16) as usize, b.number(16) as usize);
                if n + m != 65535 {
                    return None;
                }
                if n > 0 {
                    let k = b.at / 8;
                    if out.len() + n > cap {
                        return None;
                    }
                    out.extend_from_slice(b.data.get(k..k + n)?);
                    b.at += 8 * n;
                }
                if last {
                    break;
                }
                continue;
            }
            1 => fixed(),
            2 => trees(b)?,
            _ => return None,
        };
        let (lt, dt) = (codes(&ls)?, codes(&ds)?);
        loop {
            let s = symbol(b, &lt)?;
            if s == 256 {
                break;
            } else if s < 256 {
                if out.len() >= cap {
                    return None;
                }
                out.push(s as u8);
            } else if s < 286 {
                let (n, e) = size_of(s);
                let n = (n + b.number(e)) as usize;
                let (d, e) = distance_of(symbol(b, &dt)?);
                let d = (d + b.number(e)) as usize;
                if d > out.len() || out.len() + n > cap {
                    return None;
                }
                for _ in 0..n {
                    out.push(out[out.len() - d]);
                }
            } else {
                return None;
            }
        }
        if last {
            break;
        }
    }
    Some(out)
}
fn adler(s: &[u8]) -> u32 {
    let (mut a, mut b) = (1u64, 0u64);
    for x in s {
        a = (a + *x as u64) % 65521;
        b = (b + a) % 65521;
    }
    (b << 16 | a) as u32
}
fn zlib(src: &[u8], cap: usize) -> Option<Vec<u8>> {
    let (x, y) = (*src.first()? as u32, *src.get(1)? as u32);
    if x % 16 != 8 || x / 16 > 7 || (x * 256 + y) % 31 != 0 {
        return None;
    }
    let h = if y & 0x20 == 0 { 2 } else { 6 };
    if src.len() < h {
        return None;
    }
    let mut b = Bits { data: src, at: 8 * h };
    let o = inflate(&mut b, cap)?;
    let q = b.at.div_ceil(8);
    if q + 4 <= src.len() && src[q..q + 4] != adler(&o).to_be_bytes() {
        return None;
    }
    Some(o)
}

// ---- streams ----
struct Writer {
    data: Vec<u8>,
    n: usize,
}
impl Writer {
    fn bit(&mut self, b: u32) {
        if self.n % 8 == 0 {
            self.data.push(0);
        }
        *self.data.last_mut().unwrap() |= (b as u8 & 1) << (self.n % 8);
        self.n += 1;
    }
    fn number(&mut self, v: u32, n: u32) {
        for i in 0..n {
            self.bit(v >> i);
        }
    }
    fn code(&mut self, (n, c): (u32, u32)) {
        for i in (0..n).rev() {
            self.bit(c >> i);
        }
    }
}
fn encoder(sizes: &[u8]) -> HashMap<usize, (u32, u32)> {
    let mut r = HashMap::new();
    let mut code: u64 = 0;
    for size in 1..=15u32 {
        for (s, _) in sizes.iter().enumerate().filter(|(_, z)| **z as u32 == size) {
            // Over-subscribed sizes leave some symbols without a code.
            if code < 1 << size {
                r.insert(s, (size, code as u32));
            }
            code += 1;
        }
        code *= 2;
    }
    r
}
/// Code sizes for the symbols: a random prefix code, at times incomplete.
fn sizes(r: &mut Rng, symbols: &[usize], n: usize, max: u8) -> Vec<u8> {
    let mut leaves = vec![0u8];
    let extra = if r.below(6) == 0 { 1 } else { 0 };
    while leaves.len() < symbols.len() + extra {
        let deep = r.below(3) == 0;
        let open: Vec<usize> = (0..leaves.len()).filter(|i| leaves[*i] < max).collect();
        let i = if deep { *open.last().unwrap() } else { open[r.below(open.len() as u64) as usize] };
        leaves[i] += 1;
        leaves.push(leaves[i]);
    }
    if r.below(4) == 0 {
        // All sizes the same.
        let z = (0..).find(|z| 1usize << z >= symbols.len()).unwrap_or(0) as u8;
        leaves = vec![z; symbols.len()];
    }
    let mut s = vec![0u8; n];
    for (k, x) in symbols.iter().enumerate() {
        s[*x] = leaves[k].max(1);
    }
    if r.below(16) == 0 {
        // One code too many, at times at the largest size only.
        let i = r.below(n as u64) as usize;
        if s[i] == 0 {
            s[i] = if r.below(2) == 0 { max } else { *s.iter().max().unwrap() };
        }
    }
    s
}
fn subset(r: &mut Rng, lo: usize, hi: usize, most: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..r.below(most as u64 + 1)).map(|_| r.range(lo as u64, hi as u64 - 1) as usize).collect();
    v.sort();
    v.dedup();
    v
}
fn put_trees(r: &mut Rng, w: &mut Writer) -> (Vec<u8>, Vec<u8>) {
    let mut used = subset(r, 0, 256, 30);
    if r.below(12) != 0 {
        used.push(256);
    }
    let tight = r.below(4) == 0;
    if tight {
        used.extend(257..r.range(258, 270) as usize);
    } else {
        used.extend(subset(r, 257, 286, 12));
    }
    let ls = if used.is_empty() { vec![0u8; 286] } else { sizes(r, &used, 286, 15) };
    let used = if r.below(5) == 0 {
        vec![]
    } else if tight {
        (0..r.range(3, 12) as usize).collect()
    } else {
        subset(r, 0, 30, 10)
    };
    let ds = if used.is_empty() { vec![0u8; 30] } else { sizes(r, &used, 30, 15) };
    let cut = |r: &mut Rng, s: &[u8], least: usize| {
        let n = s.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1).max(least);
        if r.below(4) == 0 { s.len() } else { n }
    };
    let (nl, nd) = (cut(r, &ls, 257), cut(r, &ds, 1));
    let all: Vec<u8> = ls[..nl].iter().chain(&ds[..nd]).copied().collect();
    // run lengths
    let mut runs: Vec<(usize, u32, u32)> = vec![];
    let mut i = 0;
    while i < all.len() {
        let n = all[i..].iter().take_while(|x| **x == all[i]).count();
        let bad = if r.below(300) == 0 { 1 } else { 0 };
        if all[i] == 0 && n >= 11 && r.below(5) != 0 {
            let n = n.min(138) - r.below(2).min(n.min(138) as u64 - 11) as usize;
            runs.push((18, (n - 11 + bad) as u32, 7));
            i += n;
        } else if all[i] == 0 && n >= 3 && r.below(5) != 0 {
            let n = n.min(10);
            runs.push((17, (n - 3) as u32, 3));
            i += n;
        } else if i > 0 && all[i] == all[i - 1] && n >= 3 && r.below(5) != 0 {
            let n = n.min(6);
            runs.push((16, (n - 3 + bad) as u32, 2));
            i += n;
        } else {
            runs.push((all[i] as usize, 0, 0));
            i += 1;
        }
    }
    let mut used: Vec<usize> = runs.iter().map(|x| x.0).collect();
    used.sort();
    used.dedup();
    let cs = sizes(r, &used, 19, 7);
    let e = encoder(&cs);
    let nc = (0..19).rev().find(|i| cs[ORDER[*i]] != 0).map_or(0, |i| i + 1).max(4);
    let nc = if r.below(4) == 0 { 19 } else { nc };
    w.number((nl - 257) as u32, 5);
    w.number((nd - 1) as u32, 5);
    w.number((nc - 4) as u32, 4);
    for o in &ORDER[..nc] {
        w.number(cs[*o] as u32, 3);
    }
    for (s, v, n) in runs {
        if let Some(c) = e.get(&s) {
            w.code(*c);
        }
        w.number(v, n);
    }
    (ls[..nl].to_vec(), ds[..nd].to_vec())
}
fn put_block(r: &mut Rng, w: &mut Writer, len: &mut usize, last: bool) {
    w.number(last as u32, 1);
    let most = if r.below(20) == 0 { 7 } else { 6 };
    let kind = [0, 1, 1, 2, 2, 2, 3][r.below(most) as usize];
    w.number(kind, 2);
    let (ls, ds) = match kind {
        0 => {
            while w.n % 8 != 0 {
                let b = r.below(3) as u32 & 1;
                w.bit(b);
            }
            let n = if r.below(4) == 0 { 0 } else { r.range(1, 40) as usize };
            w.number(n as u32, 16);
            w.number(if r.below(20) == 0 { r.next() as u32 & 0xffff } else { 65535 - n as u32 }, 16);
            for _ in 0..n {
                let x = r.next() as u8;
                w.number(x as u32, 8);
            }
            *len += n;
            return;
        }
        1 => fixed(),
        2 => put_trees(r, w),
        _ => return,
    };
    let (le, de) = (encoder(&ls), encoder(&ds));
    let mut lits: Vec<usize> = le.keys().copied().filter(|s| *s < 256).collect();
    let mut reps: Vec<usize> = le.keys().copied().filter(|s| *s > 256).collect();
    let mut dists: Vec<usize> = de.keys().copied().collect();
    lits.sort();
    reps.sort();
    dists.sort();
    let most = if r.below(10) == 0 { 400 } else { 20 };
    for _ in 0..r.below(most) {
        if *len > 60000 {
            break;
        }
        if r.below(3) > 0 || reps.is_empty() {
            if !lits.is_empty() {
                w.code(le[r.pick(&lits)]);
                *len += 1;
            }
            continue;
        }
        let s = *r.pick(&reps);
        let near: Vec<usize> = dists.iter().copied().filter(|d| distance_of(*d).0 as usize <= *len).collect();
        if near.is_empty() && (dists.is_empty() || r.below(10) > 0) {
            continue;
        }
        let from = if near.is_empty() || r.below(40) == 0 { &dists } else { &near };
        let d = *r.pick(from);
        w.code(le[&s]);
        let (n, e) = if s < 286 { size_of(s) } else { (0, 0) };
        let x = r.next() as u32 & ((1 << e) - 1);
        w.number(x, e);
        *len += (n + x) as usize;
        w.code(de[&d]);
        let (n, e) = distance_of(d);
        let mut x = r.next() as u32 & ((1 << e) - 1);
        if n as usize + x as usize > *len && r.below(10) > 0 {
            x = 0;
        }
        w.number(x, e);
    }
    if let Some(c) = le.get(&256) {
        if r.below(40) > 0 {
            w.code(*c);
        }
    }
}

fn show(exp: Option<Vec<u8>>, buf0: &[u8]) -> String {
    match exp {
        None => "error".into(),
        Some(o) => format!("{} bytes {} rest {}", o.len(), hex(&o), hex(&buf0[o.len()..])),
    }
}

pub fn c22(ctx: &mut Ctx) {
    while ctx.time_left() {
        let wrapped = ctx.rng.below(2) == 0;
        let mut w = Writer { data: vec![], n: 0 };
        if wrapped {
            let x = if ctx.rng.below(10) == 0 { ctx.rng.next() as u32 & 255 } else { 8 + 16 * ctx.rng.below(8) as u32 };
            let dict = if ctx.rng.below(10) == 0 { 0x20 } else { 0 };
            let mut y = (ctx.rng.below(4) as u32) << 6 | dict;
            y += (31 - (x * 256 + y) % 31) % 31;
            if ctx.rng.below(12) == 0 {
                y = ctx.rng.next() as u32 & 255;
            }
            w.number(x, 8);
            w.number(y & 255, 8);
            if y & 0x20 != 0 && ctx.rng.below(10) > 0 {
                w.number(ctx.rng.next() as u32, 32);
            }
        }
        let mut len = 0;
        let blocks = ctx.rng.range(1, 4);
        for i in 0..blocks {
            let last = i + 1 == blocks && ctx.rng.below(6) > 0 || ctx.rng.below(30) == 0;
            let mut r = Rng(ctx.rng.next());
            put_block(&mut r, &mut w, &mut len, last);
        }
        let mut src = w.data;
        len = len.min(100000);
        let cap = match ctx.rng.below(6) {
            0 => len / 2,
            1 => len.saturating_sub(1),
            2 | 3 => len,
            4 => len + 1,
            _ => len + 300,
        };
        if wrapped && ctx.rng.below(10) > 0 {
            let h = if src[1] & 0x20 == 0 { 2 } else { 6 };
            let mut b = Bits { data: &src, at: 8 * h };
            let sum = inflate(&mut b, cap).map_or(ctx.rng.next() as u32, |o| adler(&o));
            let sum = match ctx.rng.below(10) {
                0 => sum ^ 1 << ctx.rng.below(32),
                _ => sum,
            };
            src.extend(sum.to_be_bytes());
        }
        match ctx.rng.below(12) {
            0 => {
                let n = ctx.rng.below(src.len() as u64 + 1) as usize;
                src.truncate(n);
            }
            1 if !src.is_empty() => {
                let i = ctx.rng.below(src.len() as u64) as usize;
                src[i] ^= 1 << ctx.rng.below(8);
            }
            2 => {
                let n = ctx.rng.below(6) as usize;
                src.extend(ctx.rng.bytes(n));
            }
            3 => {
                let n = ctx.rng.below(5) as usize;
                src.truncate(src.len() - n.min(src.len()));
            }
            _ => {}
        }
        let buf0: Vec<u8> = (0..cap).map(|i| 0xc0 ^ (i as u8)).collect();
        let (name, exp) = if wrapped { ("ZlibContext::decompress", zlib(&src, cap)) } else { ("DeflateContext::decompress", inflate(&mut Bits { data: &src, at: 0 }, cap)) };
        let exp = show(exp, &buf0);
        let inp = format!("data {} buffer {}", hex(&src), cap);
        ctx.check(name, &inp, &exp, || {
            let mut b = buf0.clone();
            let r = if wrapped {
                let mut c = ZlibContext::new();
                c.decompress(&src, &mut b).map(|_| c.uncompressed_data_size)
            } else {
                let mut c = DeflateContext::new();
                c.decompress(&src, &mut b).map(|_| c.uncompressed_data_size)
            };
            match r {
                Err(_) => "error".into(),
                Ok(n) => format!("{} bytes {} rest {}", n, hex(&b[..n.min(b.len())]), hex(&b[n.min(b.len())..])),
            }
        });
    }
}
