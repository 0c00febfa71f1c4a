use crate::disks::{B, at, expect, reads, show};
use crate::files::{Img, most};
use crate::volumes::actual;
use keramics_formats::udif::UdifFile;
use std::rc::Rc;
use wit_common::{Ctx, Rng};

/// The bytes i*n+7, each 64 times, of n sectors, compressed.
const BZIP2: [(u64, &str); 3] = [(1, "425a68393141592653595677bc4c000000480000ff0004200031064c415f9501faa48e4743b1e0f47c36315557c5dc914e1424159def1300"), (2, "425a68393141592653593827ed79000000780000aaaaaaaa000004200054630004dfeaa857e551930136908f83e8cc683f0d46c371c0e4743b1fc78312940001f8bb9229c28481c13f6bc8"), (5, "425a683931415926535917ed1f540000007ffc00842108421084250842108421084210842108421084210842102000883bfcaa601bd5000000010fff2aa9a608c4c0833ff5550c83351841fe0b40b60b80ba0bc0be0c00c20b07a92492493228e4966dbbb7f0f4f5f6f7e3caf8f9fae7d3eff3f7fbaf6c3918430c30c30c30c30c30c30c30c30c30c30c30c30c380ff8bb9229c28480bf68faa0")];

fn base64(d: &[u8]) -> String {
    let a = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            s.push(if k <= c.len() { a[(v >> (18 - 6 * k)) as usize & 63] as char } else { '=' });
        }
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn adler32(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in d {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}
/// The plain bytes and what is stored for them.
fn pack(r: &mut Rng, kind: u32, sectors: u64) -> (Vec<u8>, Vec<u8>) {
    let n = sectors as usize * 512;
    let k = r.below(251);
    let mut plain: Vec<u8> = (0..n as u64).map(|i| (i * 5 + i / 256 + k) as u8).collect();
    let mut s = vec![];
    match kind {
        0x80000004 => {
            for c in plain.chunks(r.range(100, 128) as usize) {
                s.push(0x80 | (c.len() - 1) as u8);
                s.extend(c);
            }
        }
        0x80000005 => {
            s.extend([0x78, 1]);
            let most = r.range(20000, 65535) as usize;
            let last = n.div_ceil(most) - 1;
            for (i, c) in plain.chunks(most).enumerate() {
                s.push((i == last) as u8);
                s.extend((c.len() as u16).to_le_bytes());
                s.extend((!(c.len() as u16)).to_le_bytes());
                s.extend(c);
            }
            s.extend(adler32(&plain).to_be_bytes());
        }
        0x80000006 => {
            if let Some((_, h)) = BZIP2.iter().find(|x| x.0 == sectors) {
                plain = (0..n as u64).map(|i| (i / 64 * sectors + 7) as u8).collect();
                s = unhex(h);
            }
        }
        _ => {
            for c in plain.chunks(r.range(3000, 100000) as usize) {
                s.extend(b"bvx-");
                s.extend((c.len() as u32).to_le_bytes());
                s.extend(c);
            }
            s.extend(b"bvx$");
        }
    }
    (plain, s)
}
#[derive(Clone)]
struct Entry {
    kind: u32,
    start: u64,
    sectors: u64,
    offset: u64,
    size: u64,
}
/// A part of the disk.
struct Part {
    start: u64,
    end: u64,
    kind: u32,
    offset: u64,
    size: u64,
}
fn udif(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let f0 = *r.pick(&[0u64, 0, 0, 1, 100, 4096]);
    let mut im = Img::new(0, most(r));
    let mut packed: Vec<(u64, u64, Rc<Vec<u8>>)> = vec![];
    let mut tables: Vec<(u64, Vec<Entry>)> = vec![];
    let mut next = f0;
    let mut sector = 0u64;
    let method = *r.pick(&[0x80000004u32, 0x80000005, 0x80000006, 0x80000007]);
    let longest = *r.pick(&[3u64, 20, 20, 400, 2048]);
    let plist = r.below(8) > 0;
    if plist {
        let many = if r.below(6) == 0 { r.range(60, 150) } else { 8 };
        for _ in 0..*r.pick(&[1u64, 1, 2, 3, 0]) {
            let first = sector;
            let mut es = vec![];
            for _ in 0..r.below(many + 1) {
                let kind = *r.pick(&[0u32, 2, 1, 1, method, method, method, 0x7ffffffe]);
                let mut e = Entry { kind, start: sector - first, sectors: r.range(1, longest), offset: r.below(1 << 20), size: 0 };
                if kind == 0x7ffffffe {
                    e.sectors = r.below(3);
                    e.size = r.below(1 << 40);
                    es.push(e);
                    continue;
                }
                if kind == 1 {
                    next += r.below(2) * r.below(700);
                    e.offset = next;
                    e.size = e.sectors * 512;
                    next += e.size;
                    if r.below(6) == 0 {
                        e.size = r.below(e.size);
                    }
                } else if kind == method {
                    if method == 0x80000006 {
                        e.sectors = r.pick(&BZIP2).0;
                    }
                    if packed.len() > 0 && r.below(8) == 0 {
                        let (o, n, p) = r.pick(&packed);
                        (e.offset, e.size, e.sectors) = (*o, *n, p.len() as u64 / 512);
                    } else if im.over.len() < 120 {
                        let (plain, mut stored) = pack(r, method, e.sectors);
                        next += r.below(2) * r.below(700);
                        e.offset = next;
                        e.size = stored.len() as u64;
                        next += e.size;
                        match r.below(60) {
                            // a block that does not decompress
                            0 => stored[0] = 0,
                            // or to less
                            1 => e.sectors += 1,
                            _ => packed.push((e.offset, e.size, Rc::new(plain))),
                        }
                        if stored[0] == 0 && method == 0x80000004 {
                            stored.truncate(1);
                        }
                        im.over.push((e.offset, stored));
                    } else {
                        continue;
                    }
                } else if r.below(12) == 0 {
                    e.sectors = r.range(1, 100000);
                }
                sector += e.sectors;
                es.push(e);
            }
            if r.below(2) == 0 {
                es.push(Entry { kind: 0xffffffff, start: sector - first, sectors: 0, offset: next, size: 0 });
                if r.below(4) == 0 {
                    es.push(Entry { kind: 1, start: 0, sectors: 1, offset: 0, size: 512 });
                }
            }
            tables.push((first, es));
        }
    }
    let mut f1 = next + r.below(2) * r.below(2000);
    if !plist {
        f1 = f0 + r.below(20000);
        next = f1;
    }
    // a damaged table
    let mut bad = false;
    let mut cut = usize::MAX;
    if tables.len() > 0 && r.below(5) == 0 {
        let i = r.below(tables.len() as u64) as usize;
        let t = &mut tables[i];
        if r.below(6) == 0 {
            t.0 = *r.pick(&[t.0 + 1, t.0.wrapping_sub(1), u64::MAX, 1 << 55]);
        } else if t.1.len() > 0 {
            let k = r.below(t.1.len() as u64) as usize;
            let first = t.0;
            let e = &mut t.1[k];
            match r.below(12) {
                0 => e.start = *r.pick(&[e.start + 1, e.start.wrapping_sub(1), e.start.wrapping_sub(1 << 55), u64::MAX - 3]),
                1 => e.start = e.start.wrapping_sub(first),
                2 => e.sectors = *r.pick(&[0u64, 1 << 55, u64::MAX, u64::MAX / 512, u64::MAX / 512 + 2, 1 << 63]),
                3 if e.kind == method => e.sectors = 2049,
                4 if e.kind == 1 => e.sectors = (f1 - e.offset) / 512 + r.below(3),
                5 => e.offset = *r.pick(&[f0.wrapping_sub(1), f1, f1.saturating_sub(1), u64::MAX, u64::MAX - 511]),
                6 => e.size = *r.pick(&[f1 - e.offset.min(f1) + 1, u64::MAX, 1 << 32, u64::MAX - e.offset.max(1) + 1]),
                7 => e.kind = *r.pick(&[3u32, 0x80000003, 0x80000008, 0x7fffffff, 0xfffffffe, 0x80000009]),
                8 if e.kind == 0 || e.kind == 2 => {
                    (e.kind, e.offset, e.size) = (method ^ 1, f0, 1.min(f1 - f0));
                }
                9 => e.kind = 0xffffffff,
                10 if r.below(2) == 0 => {
                    // more than fits in a sector number
                    e.kind = 0;
                    e.sectors = 36028797018947585 - first - e.start;
                }
                _ => {
                    t.1.remove(k);
                }
            }
        }
    }
    if r.below(30) == 0 {
        f1 = f1.saturating_sub(r.range(1, 2000)).max(f0);
    }
    let (mut fork, mut fork_size) = (f0, f1 - f0);
    if r.below(40) == 0 {
        (fork, fork_size) = *r.pick(&[(u64::MAX, 1u64), (u64::MAX - 5, 5), (1, u64::MAX), (f0, u64::MAX - f0)]);
    }
    let f1 = fork as u128 + fork_size as u128;
    bad |= f1 > u64::MAX as u128;
    // what the tables say
    let mut parts: Vec<Part> = vec![];
    let mut s = 0u128;
    let mut used = 0;
    let limit = 36028797018947584u128;
    for (first, es) in &tables {
        bad |= *first as u128 != s;
        for e in es {
            if bad || e.kind == 0xffffffff {
                break;
            }
            if e.kind == 0x7ffffffe {
                continue;
            }
            if *first as u128 + e.start as u128 != s || e.sectors == 0 || s + e.sectors as u128 > limit {
                bad = true;
                break;
            }
            if e.kind != 0 && e.kind != 2 {
                bad |= e.offset < fork || e.offset as u128 >= f1 || e.offset as u128 + e.size as u128 > f1;
                match e.kind {
                    1 => bad |= e.offset as u128 + e.sectors as u128 * 512 > f1,
                    0x80000004..=0x80000007 => {
                        bad |= e.sectors > 2048 || e.size > u32::MAX as u64 || (used != 0 && used != e.kind);
                        used = e.kind;
                    }
                    _ => bad = true,
                }
            }
            if !bad {
                parts.push(Part { start: s as u64 * 512, end: (s as u64 + e.sectors) * 512, kind: e.kind, offset: e.offset, size: e.size });
            }
            s += e.sectors as u128;
        }
    }
    // too much to be worth a tree
    if !bad && s > 4_000_000 {
        return;
    }
    let mut text = String::new();
    if r.below(4) > 0 {
        text.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE plist PUBLIC \"-//Apple//DTD PLIST 1.0//EN\" \"http://www.apple.com/DTDs/PropertyList-1.0.dtd\">\n");
    }
    text.push_str("<plist version=\"1.0\">\n<dict>\n<key>resource-fork</key>\n<dict>\n<key>blkx</key>\n<array>\n");
    let broken = if r.below(40) == 0 { Some(r.below(8)) } else { None };
    for (i, (first, es)) in tables.iter().enumerate() {
        let mut t = vec![0u8; 204];
        t[0..4].copy_from_slice(b"mish");
        t[7] = 1;
        t[8..16].copy_from_slice(&first.to_be_bytes());
        t[16..24].copy_from_slice(&es.iter().fold(0u64, |a, e| a.wrapping_add(e.sectors)).to_be_bytes());
        t[200..204].copy_from_slice(&(es.len() as u32).to_be_bytes());
        for e in es {
            t.extend(e.kind.to_be_bytes());
            t.extend([0, 0, 0, 0]);
            for x in [e.start, e.sectors, e.offset, e.size] {
                t.extend(x.to_be_bytes());
            }
        }
        if r.below(4) == 0 {
            t.extend([1u8; 50].iter().take(r.below(50) as usize));
        }
        match broken {
            Some(0) => t[r.below(4) as usize] ^= 1,
            Some(1) => t[7] = 2,
            Some(2) => t[200..204].copy_from_slice(&(r.pick(&[es.len() as u32 + 2, u32::MAX])).to_be_bytes()),
            Some(3) => {
                cut = r.below(204 + 40 * es.len() as u64) as usize;
                t.truncate(cut);
            }
            _ => {}
        }
        if broken == Some(4) {
            text.push_str("<dict><key>Name</key><string>x</string></dict>\n");
            continue;
        }
        let b = base64(&t);
        text.push_str("<dict>\n");
        if r.below(2) == 0 {
            text.push_str(&format!("<key>Attributes</key><string>0x0050</string>\n<key>ID</key><string>{}</string>\n", i));
        }
        text.push_str("<key>Data</key>\n<data>");
        if r.below(2) == 0 {
            text.push_str(&b);
        } else {
            for c in b.as_bytes().chunks(44) {
                text.push_str("\n\t");
                text.push_str(std::str::from_utf8(c).unwrap());
            }
            text.push_str("\n");
        }
        text.push_str("</data>\n</dict>\n");
    }
    text.push_str("</array>\n</dict>\n</dict>\n</plist>");
    match broken {
        Some(0..=4) => bad |= plist && tables.len() > 0,
        Some(5) => {
            text = text.replace("blkx", "blk");
            bad |= plist;
        }
        Some(6) => {
            text = text.replace("resource-fork", "resource");
            bad |= plist;
        }
        Some(_) => {
            text.truncate(text.len() - 3);
            bad |= plist;
        }
        None => {}
    }
    let _ = cut;
    if r.below(2) == 0 {
        text.push('\n');
    }
    let mut text = text.into_bytes();
    if r.below(60) == 0 {
        text.resize(65536 + r.below(2) as usize, b' ');
    }
    let mut at_plist = next + r.below(100);
    let mut plist_size = if plist { text.len() as u64 } else { 0 };
    im.size = at_plist + 512;
    if plist {
        bad |= text.len() > 65536;
        im.over.push((at_plist, text));
        im.size = at_plist + plist_size + 512 + r.below(2) * r.below(600);
        if r.below(60) == 0 {
            bad = true;
            match r.below(3) {
                0 => at_plist = *r.pick(&[u64::MAX, im.size, im.size - plist_size + 1, u64::MAX - plist_size + 1]),
                1 => plist_size = *r.pick(&[65537u64, 1 << 32, u64::MAX, 1 << 63]),
                _ => at_plist += 1,
            }
        }
    } else {
        at_plist = r.below(1 << 40);
    }
    let mut h = vec![0u8; 512];
    h[0..4].copy_from_slice(b"koly");
    h[7] = 4;
    h[10] = 2;
    h[24..32].copy_from_slice(&fork.to_be_bytes());
    h[32..40].copy_from_slice(&fork_size.to_be_bytes());
    h[216..224].copy_from_slice(&at_plist.to_be_bytes());
    h[224..232].copy_from_slice(&plist_size.to_be_bytes());
    h[488..492].copy_from_slice(&1u32.to_be_bytes());
    h[492..500].copy_from_slice(&(s as u64).to_be_bytes());
    if r.below(60) == 0 {
        bad = true;
        match r.below(3) {
            0 => h[r.below(4) as usize] ^= 1,
            1 => h[7] = *r.pick(&[3u8, 5, 0]),
            _ => h[4 + r.below(3) as usize] = 1,
        }
    }
    im.over.push((im.size - 512, h));
    if r.below(60) == 0 {
        bad = true;
        im.over = vec![];
        im.size = r.below(512);
    }
    let size = if plist { s as u64 * 512 } else { fork_size };
    let ops = reads(r, size.min(1 << 62));
    let j = im.clone();
    let map = |o: u64| {
        if !plist {
            return at(&j, fork + o);
        }
        let k = parts.partition_point(|p| p.end <= o);
        let p = &parts[k];
        match p.kind {
            0 | 2 => B::V(0),
            1 => at(&j, p.offset + o - p.start),
            _ => match packed.iter().find(|x| x.0 == p.offset && x.1 == p.size && x.2.len() as u64 == p.end - p.start) {
                Some(x) => B::V(x.2[(o - p.start) as usize]),
                None => B::Bad,
            },
        }
    };
    // without tables a read is one of the image
    if !bad && !plist && im.most < 1 << 20 && f1 + 512 > im.size as u128 {
        return;
    }
    let once = if plist { usize::MAX } else { im.most };
    let exp = if bad { "error".to_string() } else { expect(&map, size, once, &ops) };
    let ranges: Vec<String> = tables.iter().map(|(f, es)| format!("table at sector {}: {}", f, es.iter().map(|e| format!("{:x}/{}/{}/{}/{}", e.kind, e.start, e.sectors, e.offset, e.size)).collect::<Vec<_>>().join(" "))).collect();
    let inp = format!("seeks and reads {:?}, tables [{}] (type/sector/sectors/offset/size), {}", ops, ranges.join("; "), show(&im));
    ctx.check("UdifFile", &inp, &exp, || {
        let mut f = UdifFile::new();
        match f.read_data_stream(&j.reference()) {
            Ok(()) => actual(&mut f, &ops),
            Err(e) => {
                if std::env::var("KXDBG").is_ok() {
                    eprintln!("{}", e);
                }
                "error".into()
            }
        }
    });
}
pub fn c29(ctx: &mut Ctx) {
    while ctx.time_left() {
        udif(ctx);
    }
}
