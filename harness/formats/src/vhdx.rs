use crate::disks::{B, Map, at, expect, reads, show};
use crate::files::{Img, most};
use crate::volumes::actual;
use keramics_core::ErrorTrace;
use keramics_formats::vhdx::VhdxFile;
use std::rc::Rc;
use std::sync::{Arc, OnceLock, RwLock};
use wit_common::{Ctx, Rng};

const MIB: u64 = 1 << 20;
/// CRC-32 of Castagnoli.
fn crc32c(d: &[u8]) -> u32 {
    static T: OnceLock<Vec<u32>> = OnceLock::new();
    let t = T.get_or_init(|| (0..256u32).map(|i| (0..8).fold(i, |c, _| if c & 1 == 1 { c >> 1 ^ 0x82f6_3b78 } else { c >> 1 })).collect());
    !d.iter().fold(!0u32, |c, b| c >> 8 ^ t[((c ^ *b as u32) & 255) as usize])
}
/// The bytes of an identifier that is written first field first in hexadecimal digits.
fn guid(text: &str) -> Vec<u8> {
    let d: Vec<u8> = text.chars().filter(|c| *c != '-').collect::<Vec<char>>().chunks(2).map(|p| p.iter().collect::<String>()).map(|p| u8::from_str_radix(&p, 16).unwrap()).collect();
    [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15].map(|k| d[k]).to_vec()
}
const BAT: &str = "2dc27766-f623-4200-9d64-115e9bfd4a08";
const META: &str = "8b7ca206-4790-4b9a-b8fe-575f050f886e";
const PARAMETERS: &str = "caa16737-fa36-4d43-b3b6-33f0aa44e76b";
const SIZE: &str = "2fa54224-cd1b-4876-b211-5dbed83bf4b8";
const LOGICAL: &str = "8141bf1d-a96f-4709-ba47-f233a8faab5f";
const PHYSICAL: &str = "cda348c7-445d-4471-9cc9-e9885251c556";
const DISK: &str = "beca12ab-b2e6-4523-93ef-c309e000c746";
const LOCATOR: &str = "a8d35f2d-b30b-454d-abf7-d3d84834ab0c";
const LOCATOR_TYPE: &str = "b04aefb7-d19e-4a81-b789-25b8e9445913";

fn id_text(k: u8) -> String {
    if k == 0 { "00000000-0000-0000-0000-000000000000".into() } else { format!("{:02x}010203-0405-0607-0809-0a0b0c0d0e{:02X}", k, 200 ^ k) }
}
pub struct Vhdx {
    im: Img,
    id: u8,
    /// The identifier of the parent, when the image has one.
    needs: Option<u8>,
    size: u64,
    bad: bool,
    map: Map,
    parent: Option<Box<Vhdx>>,
}
fn region(id: &str, offset: u64, size: u32, r: &mut Rng) -> Vec<u8> {
    let mut e = guid(id);
    e.extend(offset.to_le_bytes());
    e.extend(size.to_le_bytes());
    e.extend((r.below(2) as u32).to_le_bytes());
    e
}
fn item(id: &str, offset: u32, size: u32) -> Vec<u8> {
    let mut e = guid(id);
    e.extend(offset.to_le_bytes());
    e.extend(size.to_le_bytes());
    e.extend([6, 0, 0, 0, 0, 0, 0, 0]);
    e
}
fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let k = r.below(i as u64 + 1) as usize;
        v.swap(i, k);
    }
}
/// The checksum of a structure, or none.
fn seal(r: &mut Rng, d: &mut [u8]) -> bool {
    d[4..8].fill(0);
    let mut wrong = false;
    if r.below(3) > 0 {
        let mut c = crc32c(d);
        if r.below(60) == 0 {
            c ^= 1 << r.below(32);
            wrong = c != 0;
        }
        d[4..8].copy_from_slice(&c.to_le_bytes());
    }
    wrong
}
fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|x| x.to_le_bytes()).collect()
}
fn locator(r: &mut Rng, needs: Option<u8>, bad: &mut bool) -> Vec<u8> {
    let mut pairs: Vec<(String, String)> = vec![];
    if let Some(k) = needs {
        let t = id_text(k);
        if r.below(6) == 0 {
            pairs.push(("parent_linkage".into(), id_text(k ^ 3)));
        }
        pairs.push(("parent_linkage".into(), if r.below(4) == 0 { t } else { format!("{{{}}}", t) }));
        if r.below(40) == 0 {
            *bad = true;
            pairs.push(("parent_linkage".into(), (*r.pick(&["", "{}", "x2010203-0405-0607-0809-0a0b0c0d0e0f"])).into()));
        }
    }
    for (k, v) in [("relative_path", ".\\p.vhdx"), ("parent_linkage2", "{}"), ("volume_path", "\\\\?\\p.vhdx"), ("absolute_win32_path", "C:\\p.vhdx")] {
        if r.below(2) == 0 {
            let i = r.below(pairs.len() as u64 + 1) as usize;
            pairs.insert(i, (k.into(), v.into()));
        }
    }
    let mut d = guid(LOCATOR_TYPE);
    d.extend([0, 0]);
    d.extend((pairs.len() as u16).to_le_bytes());
    let mut place = 20 + 12 * pairs.len() as u32 + r.below(3) as u32;
    let mut texts = vec![];
    for (k, v) in &pairs {
        let (k, v) = (utf16(k), utf16(v));
        let mut e: Vec<u8> = place.to_le_bytes().to_vec();
        e.extend((place + k.len() as u32).to_le_bytes());
        e.extend((k.len() as u16).to_le_bytes());
        e.extend((v.len() as u16).to_le_bytes());
        d.extend(e);
        texts.push((place, [k.clone(), v.clone()].concat()));
        place += (k.len() + v.len()) as u32;
    }
    d.resize(place as usize + 1, 0);
    for (p, t) in texts {
        d[p as usize..p as usize + t.len()].copy_from_slice(&t);
    }
    if r.below(60) == 0 {
        *bad = true;
        d[r.below(16) as usize] ^= 1;
    }
    if !pairs.is_empty() && r.below(60) == 0 {
        *bad = true;
        let n = d.len() as u32;
        match r.below(3) {
            0 => d[18..20].copy_from_slice(&((n / 12) as u16 + 1).to_le_bytes()),
            1 => d[20..24].copy_from_slice(&r.range(n as u64, n as u64 + 9).to_le_bytes()[..4]),
            _ => d[24..28].copy_from_slice(&(r.below(20) as u32).to_le_bytes()),
        }
    }
    d
}
fn vhdx(r: &mut Rng, kind: u32, id: u8, parent: Option<Vhdx>) -> Vhdx {
    let bs = MIB << r.below(9);
    let bps = *r.pick(&[512u64, 4096]);
    let epc = (1 << 23) * bps / bs;
    let bms = MIB / epc;
    let mut blocks = *r.pick(&[1u64, 2, 3, 9, 15, 17, 40]);
    if epc <= 1024 && r.below(3) == 0 {
        blocks = *r.pick(&[epc - 1, epc, epc + 1, 2 * epc + 3]);
    }
    let size = match r.below(4) {
        0 => blocks * bs,
        1 => blocks * bs - r.below(bs),
        2 => r.below(blocks * bs + 1),
        _ => blocks * bs - r.below(bs / bps) * bps,
    };
    let mut im = Img::new(0, most(r));
    let mut bad = false;
    let count = (blocks.div_ceil(epc) * (epc + 1)).min(4 * blocks + 2 * epc + 4);
    // where the regions are
    let (mut meta, mut bat) = (0x50000 + r.below(3) * 1000, 0x100000 + r.below(3) * 8);
    if r.below(3) == 0 {
        meta = 0x180000 + r.below(100);
        bat = 0x50000;
    }
    if r.below(20) == 0 {
        bat = *r.pick(&[u64::MAX, u64::MAX - 7, 1 << 62]);
    }
    let first = 0x300000u64;
    let far = r.below(8) == 0;
    let mut used = first;
    let mut table = vec![0u64; count as usize];
    let mut bitmaps = vec![];
    for b in 0..blocks {
        let i = b / epc * (epc + 1) + b % epc;
        let state = match r.below(6) {
            0 => 0,
            1 => *r.pick(&[1u64, 2, 3, 4, 5]),
            2 => 6,
            _ => 7,
        };
        let mut offset = (first + b * bs).div_ceil(MIB) * MIB;
        if far && r.below(4) == 0 {
            offset = (0xffff_ffff_fff0_0000 - r.below(600) * MIB) / MIB * MIB;
        } else if state >= 6 {
            used = used.max(offset + bs);
        }
        table[i as usize] = offset | state | r.below(1 << 17) << 3;
    }
    for k in 0..blocks.div_ceil(epc) {
        let i = (k + 1) * (epc + 1) - 1;
        let mut offset = first + (blocks + k) * bs;
        if r.below(12) == 0 {
            offset = *r.pick(&[0xffff_ffff_fff0_0000, 1 << 60, 0]);
            im.most = usize::MAX;
        }
        if i < count {
            table[i as usize] = offset | *r.pick(&[6u64, 6, 6, 0]);
        }
        if kind == 2 && offset >= first && offset < 1 << 59 {
            used = used.max(offset + MIB);
            for b in k * epc..blocks.min((k + 1) * epc) {
                if bitmaps.len() < 40 {
                    bitmaps.push(offset + b % epc * bms);
                }
            }
        }
    }
    let shown = if r.below(20) == 0 { count.saturating_sub(r.below(epc + 2)) } else { count };
    if size > shown * bs {
        bad = true;
    }
    im.size = used - if r.below(6) == 0 { r.below(used - first + 1) } else { 0 };
    if bitmaps.len() == 40 {
        im.most = usize::MAX;
    }
    // the headers
    let mut sign = b"vhdxfile".to_vec();
    if r.below(80) == 0 {
        bad = true;
        sign[r.below(8) as usize] ^= 8;
    }
    im.over.push((0, sign));
    let s = (r.below(1 << 40), r.below(3));
    let (s1, s2) = if r.below(2) == 0 { (s.0, s.0 + s.1) } else { (s.0 + s.1, s.0) };
    for (p, q, other) in [(0x10000u64, s1, s2), (0x20000, s2, s1)] {
        let wins = if p == 0x10000 { q > other } else { q >= other };
        let mut h = vec![0u8; 4096];
        h[0..4].copy_from_slice(b"head");
        h[8..16].copy_from_slice(&q.to_le_bytes());
        h[16..32].copy_from_slice(&guid(&id_text(101)));
        h[32..48].copy_from_slice(&guid(&id_text(if wins { id } else { 102 })));
        h[48..64].copy_from_slice(&guid(&id_text(103)));
        h[66] = 1;
        h[r.range(80, 4095) as usize] = 1;
        bad |= seal(r, &mut h);
        if r.below(160) == 0 {
            bad = true;
            h[r.below(4) as usize] ^= 8;
        }
        im.over.push((p, h));
    }
    // the metadata
    let mut flags = kind | (r.below(1 << 20) as u32) << 2;
    if r.below(60) == 0 {
        flags |= 3;
    }
    let mut at_most = 65536u32;
    let mut items: Vec<(&str, Vec<u8>)> = vec![
        (PARAMETERS, [(bs as u32).to_le_bytes(), flags.to_le_bytes()].concat()),
        (SIZE, size.to_le_bytes().to_vec()),
        (LOGICAL, (bps as u32).to_le_bytes().to_vec()),
        (DISK, guid(&id_text(104))),
    ];
    if r.below(3) > 0 {
        items.push((PHYSICAL, (*r.pick(&[512u32, 4096])).to_le_bytes().to_vec()));
    }
    let mut needs = None;
    if kind == 2 && r.below(12) > 0 {
        needs = Some(parent.as_ref().map_or(9, |p| p.id));
        if r.below(10) == 0 {
            needs = Some(77);
        }
    }
    if needs.is_some() || r.below(8) == 0 {
        let d = locator(r, needs, &mut bad);
        items.push((LOCATOR, d));
    }
    if r.below(12) == 0 {
        let (which, before) = (r.below(7), bad);
        bad = true;
        match which {
            0 => items[0].1[0..4].copy_from_slice(&(*r.pick(&[0u32, 512 << 10, 3 << 20, (1 << 20) + 1, 512 << 20, 255 << 20])).to_le_bytes()),
            1 => items[1].1 = (shown * bs + r.range(1, 9)).to_le_bytes().to_vec(),
            2 => items[2].1 = (*r.pick(&[0u32, 1, 511, 1024, 8192, 65536 + 512])).to_le_bytes().to_vec(),
            3 if items.iter().any(|x| x.0 == PHYSICAL) => items[4].1 = (*r.pick(&[0u32, 1024, 65536 + 512])).to_le_bytes().to_vec(),
            4 => {
                items.remove(r.below(4) as usize);
            }
            5 => {
                let k = r.below(4) as usize;
                items[k].1.push(0);
            }
            _ => bad = before,
        }
    }
    shuffle(r, &mut items);
    if r.below(3) == 0 {
        items.insert(0, (SIZE, vec![1; 7]));
    }
    if r.below(3) == 0 {
        items.push(("00112233-4455-6677-8899-aabbccddeeff", vec![1; 7]));
    }
    let mut mt = vec![0u8; 65536];
    mt[0..8].copy_from_slice(b"metadata");
    mt[10..12].copy_from_slice(&(items.len() as u16).to_le_bytes());
    let mut patches = vec![];
    for (k, (i, d)) in items.iter().enumerate() {
        at_most += r.below(3) as u32;
        mt[32 + 32 * k..64 + 32 * k].copy_from_slice(&item(i, at_most, d.len() as u32));
        patches.push((meta + at_most as u64, d.clone()));
        at_most += d.len() as u32;
    }
    if r.below(40) == 0 {
        bad = true;
        match r.below(3) {
            0 => mt[r.below(8) as usize] ^= 8,
            1 => mt[10..12].copy_from_slice(&(*r.pick(&[2048u16, 65535])).to_le_bytes()),
            _ => mt[48..52].copy_from_slice(&(r.below(65536) as u32).to_le_bytes()),
        }
    }
    im.over.push((meta, mt));
    im.over.extend(patches);
    // the region tables
    let mut room = (shown * 8 + r.below(8)) as u32;
    let mut space = 65536 + r.below(1 << 20) as u32;
    if r.below(60) == 0 {
        bad = true;
        space = r.below(65536) as u32;
    }
    if r.below(100) == 0 && !bad {
        bad = size > 0;
        room = 7;
    }
    let mut regions = vec![region(BAT, bat, room, r), region(META, meta, space, r)];
    shuffle(r, &mut regions);
    if r.below(4) == 0 {
        regions.insert(0, region(if r.below(2) == 0 { BAT } else { META }, 77, 5, r));
    }
    if r.below(60) == 0 {
        bad = true;
        let gone = guid(if r.below(2) == 0 { BAT } else { META });
        regions.retain(|x| x[..16] != gone);
    }
    for p in [0x30000u64, 0x40000] {
        let mut t = vec![0u8; 65536];
        t[0..4].copy_from_slice(b"regi");
        if p == 0x40000 && r.below(2) == 0 {
            regions.clear();
        }
        t[8..12].copy_from_slice(&(regions.len() as u32).to_le_bytes());
        for (k, e) in regions.iter().enumerate() {
            t[16 + 32 * k..48 + 32 * k].copy_from_slice(e);
        }
        bad |= seal(r, &mut t);
        if r.below(160) == 0 {
            bad = true;
            t[r.below(4) as usize] ^= 8;
        }
        if r.below(160) == 0 {
            bad = true;
            t[8..12].copy_from_slice(&(*r.pick(&[2048u32, u32::MAX])).to_le_bytes());
            t[4..8].fill(0);
        }
        im.over.push((p, t));
    }
    let n = room as u64 / 8;
    if bat < 1 << 60 {
        im.over.push((bat, table.iter().flat_map(|e| e.to_le_bytes()).collect()));
    }
    for p in bitmaps {
        let mut d = vec![0u8; bms as usize];
        let style = r.below(6);
        let mut on = r.below(2) == 0;
        for k in 0..8 * bms {
            let v = match style {
                0 => true,
                1 => false,
                2 => k >= 8 * bms / 2,
                3 => r.below(2) == 0,
                _ => {
                    if r.below(7) == 0 {
                        on = !on;
                    }
                    on
                }
            };
            if v {
                d[(k / 8) as usize] |= 1 << (k % 8);
            }
        }
        im.over.push((p, d));
    }
    let j = im.clone();
    let up = parent.as_ref().map(|p| (p.map.clone(), p.size));
    let usable = parent.as_ref().is_some_and(|p| !p.bad && needs == Some(p.id));
    let diff = flags & 3 == 2;
    let entry = {
        let j = j.clone();
        move |i: u64| -> Option<u64> {
            if i >= n || bat.checked_add(8 * i + 8).is_none_or(|q| q > j.size) {
                return None;
            }
            Some(u64::from_le_bytes([0, 1, 2, 3, 4, 5, 6, 7].map(|k| j.byte(bat + 8 * i + k))))
        }
    };
    let map = move |o: u64| {
        let b = o / bs;
        let Some(e) = entry(b / epc * (epc + 1) + b % epc) else { return B::Bad };
        let (state, offset) = (e & 7, e >> 20 << 20);
        if state >= 6 && offset.checked_add(bs).is_none() {
            return B::Bad;
        }
        let mut above = diff && state == 0;
        if diff && state == 7 {
            let Some(x) = entry((b / epc + 1) * (epc + 1) - 1) else { return B::Bad };
            let p = (x >> 20 << 20) + b % epc * bms;
            if p.checked_add(bms).is_none_or(|q| q > j.size) {
                return B::Bad;
            }
            let k = o % bs / bps;
            above = j.byte(p + k / 8) >> (k % 8) & 1 == 0;
        }
        match &up {
            _ if !above && state < 6 => B::V(0),
            _ if !above => at(&j, offset + o % bs),
            Some((m, s)) if usable => {
                if o < *s {
                    m(o)
                } else {
                    B::Out
                }
            }
            _ => B::Bad,
        }
    };
    Vhdx { im, id, needs, size, bad, map: Rc::new(map), parent: parent.map(Box::new) }
}
fn open(v: &Vhdx) -> Result<VhdxFile, ErrorTrace> {
    let mut f = VhdxFile::new();
    f.read_data_stream(&v.im.reference())?;
    if let Some(p) = &v.parent {
        if let Ok(g) = open(p) {
            let taken = f.set_parent(&Arc::new(RwLock::new(g))).is_ok();
            if taken != (v.needs == Some(p.id)) {
                return Err(ErrorTrace::new("parent taken or refused".into()));
            }
        }
    }
    Ok(f)
}
fn chain(v: &Vhdx) -> String {
    let s = show(&v.im);
    match &v.parent {
        Some(p) => format!("{}; parent {}", s, chain(p)),
        None => s,
    }
}
fn vhdxs(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let kind = *r.pick(&[0u32, 1, 1, 2, 2, 2]);
    let mut v = None;
    if kind == 2 {
        for k in 0..r.below(4) {
            let t = if k == 0 { r.below(2) as u32 } else { 2 };
            v = Some(vhdx(r, t, k as u8, v));
        }
    }
    let v = vhdx(r, kind, 9, v);
    let ops = reads(r, v.size);
    let exp = if v.bad { "error".to_string() } else { expect(&*v.map, v.size, usize::MAX, &ops) };
    let inp = format!("disk type {} seeks and reads {:?}, {}", kind, ops, chain(&v));
    ctx.check("VhdxFile", &inp, &exp, || match open(&v) {
        Ok(mut f) => actual(&mut f, &ops),
        Err(e) => {
            if std::env::var("KXDBG").is_ok() {
                eprintln!("{}", e);
            }
            "error".into()
        }
    });
}
pub fn c27(ctx: &mut Ctx) {
    while ctx.time_left() {
        vhdxs(ctx);
    }
}
