use crate::disks::{B, expect, reads};
use crate::files::Img;
use crate::volumes::actual;
use keramics_core::{DataStreamReference, ErrorTrace};
use keramics_formats::ewf::EwfImage;
use keramics_formats::{FileResolver, PathComponent};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;
use wit_common::{Ctx, Rng, hex};

struct Files(HashMap<String, Img>);
impl FileResolver for Files {
    fn get_data_stream(&self, path: &[PathComponent]) -> Result<Option<DataStreamReference>, ErrorTrace> {
        Ok(match path {
            [PathComponent::String(s)] => self.0.get(s).map(|x| x.reference()),
            _ => None,
        })
    }
}
fn adler32(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in d {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}
fn zlib(r: &mut Rng, plain: &[u8]) -> Vec<u8> {
    let mut s = vec![0x78, 1];
    let most = r.range(2000, 65535) as usize;
    let last = plain.len().div_ceil(most).max(1) - 1;
    for (i, c) in plain.chunks(most).enumerate() {
        s.push((i == last) as u8);
        s.extend((c.len() as u16).to_le_bytes());
        s.extend((!(c.len() as u16)).to_le_bytes());
        s.extend(c);
    }
    s.extend(adler32(plain).to_be_bytes());
    s
}
fn summed(mut d: Vec<u8>) -> Vec<u8> {
    let a = adler32(&d);
    d.extend(a.to_le_bytes());
    d
}
/// The extension of the k-th segment file.
fn extension(k: u64, first: char) -> String {
    if k < 100 {
        return format!("{}{:02}", first, k);
    }
    let a = if first.is_ascii_uppercase() { b'A' } else { b'a' } as u64;
    let n = k - 100;
    [(first as u64 + n / 676) as u8, (a + n / 26 % 26) as u8, (a + n % 26) as u8].iter().map(|x| *x as char).collect()
}
/// A segment file as it is made: the bytes and where its section headers are.
struct Seg {
    d: Vec<u8>,
    heads: Vec<usize>,
}
impl Seg {
    fn new(number: u16) -> Seg {
        let mut d = vec![0x45, 0x56, 0x46, 9, 13, 10, 255, 0, 1];
        d.extend(number.to_le_bytes());
        d.extend([0, 0]);
        Seg { d, heads: vec![] }
    }
    /// A header with room for `len` bytes after it.
    fn head(&mut self, r: &mut Rng, ty: &str, len: usize) {
        let at = self.d.len();
        self.heads.push(at);
        let mut h = vec![0u8; 72];
        h[..ty.len()].copy_from_slice(ty.as_bytes());
        let ends = ty == "done" || ty == "next";
        let next = if ends { at } else { at + 76 + len };
        h[16..24].copy_from_slice(&(next as u64).to_le_bytes());
        if r.below(4) > 0 || ty == "volume" || ty == "disk" {
            h[24..32].copy_from_slice(&(76 + len as u64).to_le_bytes());
        }
        for x in h[32..].iter_mut() {
            *x = r.below(3) as u8;
        }
        self.d.extend(summed(h));
    }
    fn section(&mut self, r: &mut Rng, ty: &str, body: &[u8]) {
        self.head(r, ty, body.len());
        self.d.extend(body);
    }
    /// A section header with another value.
    fn alter(&mut self, at: usize, k: usize, v: u64) {
        self.d[at + k..at + k + 8].copy_from_slice(&v.to_le_bytes());
        let a = adler32(&self.d[at..at + 72]);
        self.d[at + 72..at + 76].copy_from_slice(&a.to_le_bytes());
    }
}
fn volume(r: &mut Rng, e01: bool, media: u8, chunks: u32, spc: u32, bps: u32, sectors: u64, gran: u32, set: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; if e01 { 1048 } else { 90 }];
    for x in v.iter_mut() {
        *x = r.below(5) as u8;
    }
    v[0] = media;
    v[4..8].copy_from_slice(&chunks.to_le_bytes());
    v[8..12].copy_from_slice(&spc.to_le_bytes());
    v[12..16].copy_from_slice(&bps.to_le_bytes());
    if e01 {
        v[16..24].copy_from_slice(&sectors.to_le_bytes());
        v[56..60].copy_from_slice(&gran.to_le_bytes());
        v[64..80].copy_from_slice(set);
    } else {
        v[16..20].copy_from_slice(&(sectors as u32).to_le_bytes());
    }
    summed(v)
}
fn table(r: &mut Rng, base: u64, entries: &[u32]) -> Vec<u8> {
    let mut t = vec![0u8; 20];
    t[0..4].copy_from_slice(&(entries.len() as u32).to_le_bytes());
    t[4] = r.below(2) as u8;
    t[8..16].copy_from_slice(&base.to_le_bytes());
    let mut t = summed(t);
    let e: Vec<u8> = entries.iter().flat_map(|x| x.to_le_bytes()).collect();
    t.extend(summed(e));
    t
}
fn uuid(set: &[u8]) -> String {
    let p = |k: &[usize]| k.iter().map(|i| format!("{:02x}", set[*i])).collect::<String>();
    format!("{}-{}-{}-{}-{}", p(&[3, 2, 1, 0]), p(&[5, 4]), p(&[7, 6]), p(&[8, 9]), p(&[10, 11, 12, 13, 14, 15]))
}
/// What is in a chunk: nothing that can be had, these bytes, or what an image holds from an offset on.
#[derive(Clone)]
enum Chunk {
    Bad,
    Bytes(Rc<Vec<u8>>),
    Image(Rc<Img>, u64, u64),
}
fn ewf(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let first = *r.pick(&['E', 'E', 'S', 'e', 's']);
    let stem = *r.pick(&["image", "image", "a.b", "\u{e9}t\u{e9}", "x y", "E01"]);
    let e01 = r.below(4) > 0;
    let huge = r.below(12) == 0;
    let (spc, bps) = if huge { (1u32 << 20, 512u32) } else { (*r.pick(&[1u32, 2, 3, 8, 64]), *r.pick(&[512u32, 512, 100, 1, 4096])) };
    let block = spc as u64 * bps as u64;
    let segs = if huge { 1 } else { *r.pick(&[1u64, 1, 2, 2, 3, 5, 17, 18, 25, 104]) };
    let many = if huge { r.range(3, 9) } else { (500_000 / block).clamp(1, 60) };
    let total = if segs > 16 { r.range(segs / 2, segs * 2).min(many.max(segs)) } else { r.range(1, many) };
    let sectors = (total * spc as u64 - r.below(spc as u64)).max(1);
    let size = sectors * bps as u64;
    let mut chunks_field = total + r.below(2) * r.below(3);
    let media = *r.pick(&[0u8, 1, 3, 0x0e, 0x10, 2, 0xff]);
    let gran = r.below(100) as u32;
    let set = r.bytes(16);
    let damage = if r.below(4) == 0 { Some(r.below(18)) } else { None };
    let mut bad = false;
    if damage == Some(0) && total > 1 {
        chunks_field = r.range(0, total - 1);
        bad = true;
    }
    let mut files: HashMap<String, Img> = HashMap::new();
    let mut chunks: Vec<Chunk> = vec![];
    let (mut md5, mut sha1) = (vec![0u8; 16], vec![0u8; 20]);
    let hurt = r.below(segs) as usize;
    let mut made: Vec<Seg> = vec![];
    let mut todo = total;
    let mut text = vec![];
    for k in 1..=segs {
        let mut f = Seg::new(k as u16);
        let strange = |r: &mut Rng, f: &mut Seg| {
            if r.below(8) == 0 {
                let n = r.below(40) as usize;
                let b = r.bytes(n);
                let ty = *r.pick(&["xyz", "ltree", "session", "incomplete"]);
                f.section(r, ty, &b);
            }
        };
        if k == 1 {
            if r.below(2) == 0 {
                let z = zlib(r, b"1\nmain\nc\tn\r\n12\tabc\n\n");
                f.section(r, "header", &z);
            }
            strange(r, &mut f);
            let v = volume(r, e01, media, chunks_field as u32, spc, bps, sectors, gran, &set);
            let name = *r.pick(&["volume", "disk"]);
            if damage == Some(1) {
                bad = true;
                match r.below(3) {
                    0 => {
                        let mut w = v.clone();
                        let n = r.below(w.len() as u64) as usize;
                        w[n] ^= 1 << r.below(8);
                        f.section(r, name, &w);
                    }
                    1 => {
                        let mut w = v.clone();
                        w.push(0);
                        f.section(r, name, &w);
                    }
                    // more than fits
                    _ => {
                        let w = volume(r, true, media, 1, 1 << 20, 1 << 20, 1, gran, &set);
                        f.section(r, name, &w);
                    }
                }
            } else {
                f.section(r, name, &v);
            }
            if damage == Some(2) {
                bad = true;
                f.section(r, name, &v);
            }
        } else if damage == Some(2) && r.below(segs) == 0 {
            bad = true;
            let v = volume(r, e01, media, 1, 1, 512, 1, gran, &set);
            f.section(r, "volume", &v);
        }
        let groups = if k == segs { 1 } else { r.below(3) };
        let mut sectors_seen = false;
        for g in 0..groups {
            let n = if k == segs && g + 1 == groups { todo } else { r.below(todo.min(1 + 2 * total / segs) + 1) };
            if n == 0 {
                if damage == Some(3) {
                    bad = true;
                    let t = table(r, 0, &[]);
                    f.section(r, "table", &t);
                }
                continue;
            }
            if huge {
                break;
            }
            strange(r, &mut f);
            // the chunks
            let mut body = vec![];
            let mut at = vec![];
            let mut here = vec![];
            for i in 0..n {
                let start = (total - todo + i) * block;
                let want = block.min(size - start.min(size)) as usize;
                let k0 = r.below(251);
                let len = if r.below(2) == 0 { block as usize } else { want.max(1) };
                let mut plain: Vec<u8> = (0..len as u64).map(|x| (x * 5 + x / 256 + k0) as u8).collect();
                let comp = r.below(2) == 0;
                at.push((body.len(), comp));
                let mut ok = true;
                if comp {
                    if r.below(60) == 0 {
                        // too little
                        plain.truncate((want - 1).max(1));
                        ok = plain.len() >= want;
                    }
                    let mut z = zlib(r, &plain);
                    if r.below(60) == 0 {
                        z[0] = 0;
                        ok = false;
                    }
                    body.extend(z);
                } else {
                    let mut z = summed(plain.clone());
                    if r.below(60) == 0 {
                        z.truncate((want as u64).min(r.range(1, want.max(1) as u64)) as usize);
                        plain = z.clone();
                    } else {
                        plain = z.clone();
                    }
                    body.extend(z);
                    if r.below(8) == 0 {
                        body.push(7);
                        plain.push(7);
                    }
                }
                here.push(if ok { Chunk::Bytes(Rc::new(plain)) } else { Chunk::Bad });
            }
            // where they are
            let own = sectors_seen || r.below(8) > 0;
            let mut start = f.d.len() + 76;
            if own {
                f.section(r, "sectors", &body);
                sectors_seen = true;
            } else {
                start += 28 + 4 * n as usize;
            }
            let base = if r.below(2) == 0 { 0 } else { r.below(start as u64 + 1) };
            let mut es: Vec<u32> = at.iter().map(|(o, c)| (start as u64 - base + *o as u64) as u32 | (*c as u32) << 31).collect();
            if damage == Some(4) && !bad && es.len() > 2 {
                let i = r.below(es.len() as u64 - 2) as usize;
                if es[i] < 1 << 31 {
                    es.swap(i, i + 1);
                    if es[i + 1] < 1 << 31 && es[i] < 1 << 31 {
                        bad = true;
                    } else {
                        es.swap(i, i + 1);
                    }
                }
            }
            if damage == Some(5) && !bad {
                let i = es.len() - 1;
                es[i] = (es[i] & 1 << 31) | (f.d.len() as u64 + 1 + r.below(1000) + 76 + es.len() as u64 * 4 + 28 + if own { 0 } else { body.len() as u64 } - base) as u32;
                bad = true;
            }
            let mut t = table(r, base, &es);
            if damage == Some(6) && !bad {
                bad = true;
                if r.below(2) == 0 {
                    let i = r.below(t.len() as u64) as usize;
                    // the bytes of the header that are not summed up do not exist
                    t[i] ^= 1 << r.below(8);
                } else {
                    t[0..4].copy_from_slice(&(es.len() as u32 + r.range(1, 1 << 20) as u32 + body.len() as u32).to_le_bytes());
                    let a = adler32(&t[..20]);
                    t[20..24].copy_from_slice(&a.to_le_bytes());
                }
            }
            let t2 = t.clone();
            if !own {
                t.extend(&body);
            }
            f.section(r, "table", &t);
            if r.below(2) == 0 {
                let mut t2 = t2;
                if damage == Some(7) && !bad {
                    let i = r.below(t2.len() as u64) as usize;
                    t2[i] ^= 1 << r.below(8);
                    bad = true;
                }
                f.section(r, "table2", &t2);
            }
            text.push(format!("segment {}: {} chunks ({}) at {} with base {}", k, n, at.iter().map(|x| format!("{}{}", x.0, if x.1 { "z" } else { "" })).collect::<Vec<_>>().join(" "), start, base));
            chunks.extend(here);
            todo -= n;
        }
        if huge {
            break_huge(r, &mut f, total, block, &mut chunks, &mut files, &mut text, &format!("{}.{}", stem, extension(1, first)));
            made.push(f);
            break;
        }
        if e01 && r.below(3) == 0 {
            let mut v = volume(r, true, media, chunks_field as u32, spc, bps, sectors, gran, &set);
            if damage == Some(8) {
                bad = true;
                if r.below(2) == 0 {
                    v[64 + r.below(16) as usize] ^= 1;
                    let a = adler32(&v[..1048]);
                    v[1048..1052].copy_from_slice(&a.to_le_bytes());
                } else {
                    v[r.below(1052) as usize] ^= 1;
                }
            }
            f.section(r, "data", &v);
        }
        if r.below(4) == 0 {
            let n = r.below(5);
            let mut e = vec![0u8; 516];
            e[0..4].copy_from_slice(&(n as u32).to_le_bytes());
            let mut e = summed(e);
            let body = r.bytes(8 * n as usize);
            e.extend(summed(body));
            if damage == Some(9) {
                bad = true;
                if r.below(2) == 0 {
                    let i = r.below(e.len() as u64) as usize;
                    e[i] ^= 4;
                } else {
                    e[0..4].copy_from_slice(&(n as u32 + r.range(1, 4)  as u32 * 3).to_le_bytes());
                    let a = adler32(&e[..516]);
                    e[516..520].copy_from_slice(&a.to_le_bytes());
                }
            }
            f.section(r, "error2", &e);
        }
        if r.below(4) == 0 {
            let d = r.bytes(76);
            let mut e = summed(d.clone());
            (md5, sha1) = (d[0..16].to_vec(), d[16..36].to_vec());
            if damage == Some(10) {
                bad = true;
                e[r.below(80) as usize] ^= 1;
            }
            f.section(r, "digest", &e);
        }
        if r.below(4) == 0 {
            let d = r.bytes(32);
            let mut e = summed(d.clone());
            md5 = d[0..16].to_vec();
            if damage == Some(10) {
                bad = true;
                e[r.below(36) as usize] ^= 1;
            }
            f.section(r, "hash", &e);
        }
        strange(r, &mut f);
        f.section(r, if k == segs { "done" } else { "next" }, &[]);
        made.push(f);
    }
    if let (Some(d), false) = (damage, huge) {
        let n = made[hurt].heads.len() as u64;
        let i = r.below(n) as usize;
        let f = &mut made[hurt];
        let h = f.heads[i];
        let last = i as u64 + 1 == n;
        match d {
            11 => {
                bad = true;
                f.d[h + r.below(76) as usize] ^= 1 << r.below(8);
            }
            12 => {
                bad = true;
                let n = f.d.len() - r.range(1, 75) as usize;
                f.d.truncate(n);
            }
            13 => {
                bad = true;
                f.d.push(0);
            }
            14 => {
                bad = true;
                let z = if last { 76 } else { f.heads[i + 1] - h } as u64;
                let v = *r.pick(&[z + 1, z - 1, 1, u64::MAX]);
                f.alter(h, 24, v);
            }
            15 => {
                bad = true;
                let v = *r.pick(&[0u64, h as u64 + if last { 1 } else { 0 }, h as u64 + 75, u64::MAX, 1 << 63]);
                f.alter(h, 16, v);
            }
            16 => {
                bad = true;
                match r.below(3) {
                    0 => f.d[r.below(8) as usize] ^= 1,
                    1 => f.d[8 + *r.pick(&[0usize, 3, 4])] ^= 2,
                    _ => f.d[9 + r.below(2) as usize] ^= 4,
                }
            }
            17 if hurt + 1 == made.len() => {
                // no end
                bad = true;
                let f = &mut made[hurt];
                let h = *f.heads.last().unwrap();
                let v = u64::from_le_bytes(*b"next\0\0\0\0");
                f.alter(h, 0, v);
            }
            _ => {}
        }
    }
    let mut shown = vec![];
    for (i, f) in made.into_iter().enumerate() {
        let name = format!("{}.{}", stem, extension(i as u64 + 1, first));
        if huge {
            continue;
        }
        if damage == Some(17) && i == hurt && !bad {
            bad = true;
            continue;
        }
        shown.push(format!("{}: {}", name, hex(&f.d[..f.d.len().min(if segs > 5 { 200 } else { 2400 })])));
        let mut im = Img::new(f.d.len() as u64, usize::MAX);
        im.over.push((0, f.d));
        files.insert(name, im);
    }
    let ops = reads(r, size);
    let map = |o: u64| match chunks.get((o / block) as usize) {
        None | Some(Chunk::Bad) => B::Bad,
        Some(Chunk::Bytes(d)) => d.get((o % block) as usize).map_or(B::Bad, |x| B::V(*x)),
        Some(Chunk::Image(im, at, n)) => {
            let p = o % block;
            if p < *n && at + p < im.size { B::V(im.byte(at + p)) } else { B::Bad }
        }
    };
    let kind = match (e01, media) {
        (false, _) => "Unknown",
        (_, 0) => "RemoveableDisk",
        (_, 1) => "FixedDisk",
        (_, 3) => "OpticalDisk",
        (_, 0x0e) => "LogicalEvidence",
        (_, 0x10) => "Memory",
        _ => "Unknown",
    };
    let exp = if bad {
        "error".to_string()
    } else {
        let id = if e01 { uuid(&set) } else { uuid(&[0; 16]) };
        format!("{} {} {} {} {} {} {} {} {}; {}", kind, spc, bps, sectors, if e01 { gran } else { 0 }, id, hex(&md5), hex(&sha1), size, expect(&map, size, usize::MAX, &ops))
    };
    let inp = format!("damage {:?}, seeks and reads {:?}, {} chunks of {} sectors of {} bytes, {} sectors, {}; {}", damage, ops, chunks_field, spc, bps, sectors, text.join("; "), shown.join(", "));
    let name = format!("{}.{}", stem, extension(1, first));
    ctx.check("EwfImage", &inp, &exp, || {
        let resolver: keramics_formats::FileResolverReference = Arc::new(Box::new(Files(files)));
        let mut f = EwfImage::new();
        match f.open(&resolver, &PathComponent::from(&name)) {
            Ok(()) => {
                let ty = match f.media_type {
                    keramics_formats::ewf::EwfMediaType::RemoveableDisk => "RemoveableDisk",
                    keramics_formats::ewf::EwfMediaType::FixedDisk => "FixedDisk",
                    keramics_formats::ewf::EwfMediaType::OpticalDisk => "OpticalDisk",
                    keramics_formats::ewf::EwfMediaType::LogicalEvidence => "LogicalEvidence",
                    keramics_formats::ewf::EwfMediaType::Memory => "Memory",
                    _ => "Unknown",
                };
                let head = format!("{} {} {} {} {} {} {} {} {}", ty, f.sectors_per_chunk, f.bytes_per_sector, f.number_of_sectors, f.error_granularity, f.set_identifier.to_string(), hex(&f.md5_hash), hex(&f.sha1_hash), f.media_size);
                format!("{}; {}", head, actual(&mut f, &ops))
            }
            Err(e) => {
                if std::env::var("KXDBG").is_ok() {
                    eprintln!("{}", e);
                }
                "error".into()
            }
        }
    });
}
/// Chunks of 512 MiB that go beyond 2 GiB.
fn break_huge(r: &mut Rng, f: &mut Seg, total: u64, block: u64, chunks: &mut Vec<Chunk>, files: &mut HashMap<String, Img>, text: &mut Vec<String>, name: &str) {
    let body = total * block;
    let h = f.d.len();
    f.head(r, "sectors", 0);
    f.alter(h, 16, h as u64 + 76 + body);
    f.alter(h, 24, 76 + body);
    let start = f.d.len() as u64;
    let base = if r.below(2) == 0 { 0 } else { start - r.below(1) };
    let es: Vec<u64> = (0..total).map(|i| start - base + i * block).collect();
    // the offsets have to fit
    let n = es.iter().take_while(|x| **x <= u32::MAX as u64).count();
    let es: Vec<u32> = es[..n].iter().map(|x| *x as u32).collect();
    let mut im = Img::new(0, usize::MAX);
    im.over.push((0, f.d.clone()));
    let after = start + body;
    let mut g = Seg { d: vec![0; 0], heads: vec![] };
    let t = table(r, base, &es);
    let mut add = |r: &mut Rng, ty: &str, b: &[u8]| {
        let at = g.d.len();
        g.section(r, ty, b);
        let ends = ty == "done";
        g.alter(at, 16, after + at as u64 + if ends { 0 } else { 76 + b.len() as u64 });
    };
    add(r, "table", &t);
    add(r, "done", &[]);
    im.size = after + g.d.len() as u64;
    im.over.push((after, g.d));
    let im2 = Rc::new(im.clone());
    for i in 0..n as u64 {
        let o = start + i * block;
        // the last one goes to the end of the sectors
        chunks.push(Chunk::Image(im2.clone(), o, if i + 1 < n as u64 { block } else { after - o }));
    }
    text.push(format!("{} chunks of {} bytes at {} with base {}", n, block, start, base));
    files.insert(name.to_string(), im);
}
pub fn c30(ctx: &mut Ctx) {
    while ctx.time_left() {
        ewf(ctx);
    }
}
