use keramics_sigscan::{PatternType, ScanContext, Scanner, Signature};
use wit_common::{Ctx, hex};

#[derive(Clone, Debug)]
struct Sig {
    kind: u64, // 0 start, 1 end, 2 unbound
    off: usize,
    pat: Vec<u8>,
}
impl Sig {
    fn place(&self, size: u64) -> Option<u64> {
        match self.kind {
            0 => Some(self.off as u64),
            1 => size.checked_sub(self.off as u64),
            _ => None,
        }
    }
    fn at(&self, d: &[u8], p: u64) -> bool {
        let e = p as u128 + self.pat.len() as u128;
        e <= d.len() as u128 && d[p as usize..e as usize] == self.pat[..]
    }
    fn matches(&self, d: &[u8]) -> bool {
        self.place(d.len() as u64).is_some_and(|p| self.at(d, p))
    }
    fn key(&self) -> (u64, usize, Vec<u8>) {
        (self.kind, if self.kind == 2 { 0 } else { self.off }, self.pat.clone())
    }
    /// can both match the same data (at the same place, if unbound)
    fn compatible(&self, o: &Sig) -> bool {
        if self.kind != o.kind {
            return false;
        }
        let (a, b) = match self.kind {
            0 => (self.off as i64, o.off as i64),
            1 => (-(self.off as i64), -(o.off as i64)),
            _ => (0, 0),
        };
        self.pat.iter().enumerate().all(|(i, x)| {
            let j = a + i as i64 - b;
            j < 0 || j >= o.pat.len() as i64 || o.pat[j as usize] == *x
        })
    }
}

fn scanner(sigs: &[Sig]) -> (Scanner, bool) {
    let mut s = Scanner::new();
    for (i, g) in sigs.iter().enumerate() {
        let k = match g.kind {
            0 => PatternType::BoundToStart,
            1 => PatternType::BoundToEnd,
            _ => PatternType::Unbound,
        };
        s.add_signature(Signature::new(&i.to_string(), k, g.off, &g.pat));
    }
    let ok = s.build().is_ok();
    (s, ok)
}

fn results(c: &ScanContext) -> Vec<(u64, usize)> {
    let mut v: Vec<(u64, usize)> = c.results.iter().map(|(o, s)| (*o, s.identifier.parse().unwrap())).collect();
    v.sort();
    v
}

fn gen_sigs(ctx: &mut Ctx, kinds: &[u64]) -> Vec<Sig> {
    let n = ctx.rng.range(1, 9);
    let alpha = *ctx.rng.pick(&[2u64, 3, 4, 256]);
    let base = *ctx.rng.pick(&[0u64, 0, 60, 0x80]);
    let span = *ctx.rng.pick(&[4u64, 12, 40]);
    let mut v: Vec<Sig> = vec![];
    for _ in 0..n {
        let l = *ctx.rng.pick(&[1usize, 1, 2, 2, 3, 4, 8]);
        let kind = *ctx.rng.pick(kinds);
        let s = Sig {
            kind,
            off: match ctx.rng.below(40) {
                0 => 1 << 40,
                _ => ctx.rng.below(span) as usize,
            },
            pat: match ctx.rng.below(6) {
                0 if !v.is_empty() => v[ctx.rng.below(v.len() as u64) as usize].pat.clone(),
                _ => (0..l).map(|_| base.wrapping_add(ctx.rng.below(alpha)) as u8).collect(),
            },
        };
        if v.iter().all(|x| x.key() != s.key()) {
            v.push(s);
        }
    }
    v
}

fn gen_data(ctx: &mut Ctx, sigs: &[Sig]) -> Vec<u8> {
    let n = match ctx.rng.below(4) {
        0 => ctx.rng.below(4) as usize,
        1 => ctx.rng.below(16) as usize,
        _ => ctx.rng.below(90) as usize,
    };
    let mut d: Vec<u8> = match ctx.rng.below(3) {
        0 => vec![0xee; n],
        _ => {
            let all: Vec<u8> = sigs.iter().flat_map(|s| s.pat.clone()).collect();
            (0..n).map(|_| *ctx.rng.pick(&all)).collect()
        }
    };
    for _ in 0..ctx.rng.below(5) {
        let s = ctx.rng.pick(sigs).clone();
        let p = s.place(n as u64).unwrap_or_else(|| ctx.rng.below(n as u64 + 1));
        if s.at(&vec![0; n], p) || (p as u128 + s.pat.len() as u128) <= n as u128 {
            d[p as usize..p as usize + s.pat.len()].copy_from_slice(&s.pat);
            if ctx.rng.below(4) == 0 {
                d[p as usize + ctx.rng.below(s.pat.len() as u64) as usize] ^= 1;
            }
        }
    }
    d
}

fn show(sigs: &[Sig]) -> String {
    sigs.iter()
        .map(|s| format!("{}{}:{}", ["start+", "end-", "any"][s.kind as usize], if s.kind == 2 { String::new() } else { s.off.to_string() }, hex(&s.pat)))
        .collect::<Vec<_>>()
        .join(" ")
}

/// Every reported signature is at its place in the data, whatever the buffers.
pub fn c18(ctx: &mut Ctx) {
    while ctx.time_left() {
        let sigs = gen_sigs(ctx, &[0, 1, 2]);
        let data = gen_data(ctx, &sigs);
        let size = match ctx.rng.below(4) {
            0 => ctx.rng.below(data.len() as u64 + 3),
            1 => data.len() as u64 + ctx.rng.below(20),
            _ => data.len() as u64,
        };
        let mut cuts: Vec<usize> = vec![];
        let mut p = 0;
        while p < data.len() {
            let k = match ctx.rng.below(3) {
                0 => data.len(),
                1 => 1 + ctx.rng.below(4) as usize,
                _ => 1 + ctx.rng.below(data.len() as u64) as usize,
            };
            p = data.len().min(p + k);
            cuts.push(p);
            if ctx.rng.below(5) == 0 {
                cuts.push(p);
            }
        }
        let inp = format!("signatures [{}] data size {} data {} buffers end at {:?}", show(&sigs), size, hex(&data), cuts);
        ctx.check_if(
            "ScanContext::scan_buffer",
            &inp,
            || {
                let (s, ok) = scanner(&sigs);
                if !ok {
                    return format!("{} ", data.len());
                }
                let mut c = ScanContext::new(&s, size);
                let mut a = 0;
                for e in &cuts {
                    c.scan_buffer(&data[a..*e]);
                    a = *e;
                }
                let off = c.data_offset;
                format!("{} {}", off, results(&c).iter().map(|(o, i)| format!("{}@{}", i, o)).collect::<Vec<_>>().join(" "))
            },
            |got| {
                let mut it = got.split(' ');
                if it.next() != Some(&data.len().to_string()) {
                    return Some(format!("a position of {}", data.len()));
                }
                for w in it.filter(|w| !w.is_empty()) {
                    let (i, o) = match w.split_once('@').and_then(|(i, o)| Some((i.parse::<usize>().ok()?, o.parse::<u64>().ok()?))) {
                        Some(x) => x,
                        None => return Some("results".to_string()),
                    };
                    let s = &sigs[i];
                    let inside = o as u128 + s.pat.len() as u128 <= size as u128;
                    if !s.at(&data, o) || !inside || s.place(size).is_some_and(|p| p != o) || (s.kind == 1 && s.place(size).is_none()) {
                        return Some(format!("no signature {} at {}", i, o));
                    }
                }
                None
            },
        );
    }
}

/// Data scanned as one buffer: what is there is found.
pub fn c19(ctx: &mut Ctx) {
    while ctx.time_left() {
        let kind = ctx.rng.below(3);
        let kinds: &[u64] = match ctx.rng.below(3) {
            0 => &[0, 1],
            _ => &[kind],
        };
        let sigs = gen_sigs(ctx, kinds);
        let data = gen_data(ctx, &sigs);
        let size = data.len() as u64;
        let inp = format!("signatures [{}] data {}", show(&sigs), hex(&data));
        let footer: usize = sigs.iter().filter(|s| s.kind == 1).map(|s| s.off + s.pat.len()).max().unwrap_or(0);
        ctx.check_if(
            "Scanner::build, ScanContext::scan_buffer",
            &inp,
            || {
                let (s, ok) = scanner(&sigs);
                if !ok {
                    return "build error".to_string();
                }
                let mut c = ScanContext::new(&s, size);
                c.scan_buffer(&data);
                results(&c).iter().map(|(o, i)| format!("{}@{}", i, o)).collect::<Vec<_>>().join(" ")
            },
            |got| {
                if got == "build error" {
                    for (i, a) in sigs.iter().enumerate() {
                        for b in &sigs[..i] {
                            if a.compatible(b) {
                                return None;
                            }
                        }
                    }
                    return Some("a scan tree: no two signatures can both match".to_string());
                }
                let mut found: Vec<(usize, u64)> = vec![];
                for w in got.split(' ').filter(|w| !w.is_empty()) {
                    match w.split_once('@').and_then(|(i, o)| Some((i.parse::<usize>().ok()?, o.parse::<u64>().ok()?))) {
                        Some(x) => found.push(x),
                        None => return Some("results".to_string()),
                    }
                }
                for k in 0..2 {
                    if k == 1 && footer as u64 > size {
                        continue;
                    }
                    let m: Vec<usize> = (0..sigs.len()).filter(|i| sigs[*i].kind == k && sigs[*i].matches(&data)).collect();
                    // a header and a footer signature at the same offset share one result
                    let hit = found.iter().any(|(i, o)| sigs[*i].kind == k || m.iter().any(|j| sigs[*j].place(size) == Some(*o)));
                    if hit != !m.is_empty() {
                        return Some(format!("one of the signatures {:?}", m));
                    }
                }
                if kinds == [2] {
                    let mut p = 0u64;
                    let mut left = found.clone();
                    while p < size {
                        let m: Vec<usize> = (0..sigs.len()).filter(|i| sigs[*i].at(&data, p)).collect();
                        match left.iter().position(|(_, o)| *o == p) {
                            Some(x) => {
                                let (i, _) = left.remove(x);
                                if !m.contains(&i) {
                                    return Some(format!("no signature {} at {}", i, p));
                                }
                                p += sigs[i].pat.len() as u64;
                            }
                            None if m.is_empty() => p += 1,
                            None => return Some(format!("one of the signatures {:?} at {}", m, p)),
                        }
                    }
                    if !left.is_empty() {
                        return Some(format!("no results {:?}", left));
                    }
                }
                None
            },
        );
    }
}
