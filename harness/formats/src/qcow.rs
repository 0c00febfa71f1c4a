use crate::disks::{B, Map, at, expect, reads, show};
use crate::files::{Img, most};
use crate::volumes::actual;
use keramics_core::ErrorTrace;
use keramics_formats::qcow::QcowFile;
use std::rc::Rc;
use std::sync::{Arc, RwLock};
use wit_common::{Ctx, Rng};

pub struct Qcow {
    im: Img,
    size: u64,
    bad: bool,
    name: Option<Vec<u8>>,
    map: Map,
    /// Reading builds nodes of a block tree with this many elements.
    nodes: u128,
    backing: Option<Box<Qcow>>,
}
fn be(j: &Img, p: u64) -> u64 {
    u64::from_be_bytes([0, 1, 2, 3, 4, 5, 6, 7].map(|k| j.byte(p + k)))
}
fn entry(j: &Img, table: u64, i: u64) -> Option<u64> {
    let p = table as u128 + 8 * i as u128;
    if p + 8 > j.size as u128 { None } else { Some(be(j, p as u64)) }
}
fn qcow(r: &mut Rng, backing: Option<Qcow>) -> Qcow {
    let version = r.range(1, 3) as u32;
    let mut bad = false;
    let (cb, tb) = if version == 1 {
        if r.below(10) == 0 {
            (r.below(64) as u32, r.below(64) as u32)
        } else {
            (*r.pick(&[9u32, 12, 16, 10, 0, 3]), *r.pick(&[9u32, 0, 1, 3, 5, 13]))
        }
    } else {
        let cb = if r.below(10) == 0 { r.range(9, 62) as u32 } else { *r.pick(&[9u32, 9, 10, 12, 16]) };
        (cb, cb - 3)
    };
    let (mut cb_field, mut tb_field) = (cb, tb);
    let tb_real = tb;
    let (mut cs, mut span) = (1u128 << cb, 1u128 << (cb + tb));
    if cb + tb > 63 {
        bad = true;
        (cs, span) = (512, 512 << 6);
    }
    let n1 = *r.pick(&[1u128, 1, 2, 3, 9]);
    let full = (n1 * span).min(u64::MAX as u128);
    let mut size = match r.below(5) {
        0 => full,
        1 => full - r.below(cs.min(1 << 62) as u64) as u128 % full,
        2 => r.below(full as u64) as u128,
        3 => full - span.min(full) * r.below(1000) as u128 / 1000,
        _ => full.min(cs * r.range(1, 40) as u128),
    } as u64;
    if r.below(30) == 0 {
        size = u64::MAX - r.below(3) * (cs.min(1 << 60) as u64);
    }
    let l1_needed = (size as u128).div_ceil(span);
    if version == 1 && l1_needed > u32::MAX as u128 {
        bad = true;
    }
    if (size as u128).div_ceil(cs) * cs > u64::MAX as u128 {
        bad = true;
    }
    let count = match r.below(20) {
        _ if version == 1 => l1_needed.min(u32::MAX as u128) as u64,
        0 => (l1_needed.min(2000) as u64).saturating_sub(1),
        1 => r.below(5),
        _ => l1_needed.min(2000) as u64 + r.below(2),
    };
    let refs = 1u64 << tb.min(13);
    let mut im = Img::new(0, most(r));
    let wide = if version == 1 { 0x7fff_ffff_ffff_ffffu64 } else { 0x3fff_ffff_ffff_ffff };
    let flag = wide + 1;
    let low = wide >> 8 & !0xff;
    // the name of the backing file
    let header = if version == 1 { 48u64 } else if version == 2 { 72 } else { *r.pick(&[104u64, 112]) };
    let mut name = None;
    let (mut name_offset, mut name_size) = (0u64, 0u32);
    if backing.is_some() || r.below(10) == 0 {
        let mut t = b"disk.qcow2".to_vec();
        if r.below(3) == 0 {
            t.insert(4, 0);
        }
        name_offset = header.max(112) + r.below(3) * 8;
        name_size = t.len() as u32;
        if r.below(40) == 0 {
            t.resize(65536 + r.below(2) as usize, 65);
            name_size = t.len() as u32;
        }
        im.over.push((name_offset, t.clone()));
        name = Some(t.split(|x| *x == 0).next().unwrap().to_vec());
        match r.below(30) {
            0 => name_offset = 0,
            1 => name_size = 0,
            2 => {
                name_offset = r.range(1, header - 1);
                bad = true;
            }
            3 => {
                name_offset = *r.pick(&[u64::MAX, u64::MAX - 5, 1 << 60]);
                bad = true;
            }
            _ => {}
        }
        if name_offset == 0 || name_size == 0 {
            name = None;
        } else {
            bad |= name_size > 65536;
        }
    } else if r.below(8) == 0 {
        name_size = 4;
    }
    // the tables
    let base = 112 + 24 + 10 + if name_size > 1000 { name_size as u64 } else { 0 };
    let mut l1 = base + r.below(20);
    let mut next = l1 + 8 * count.min(4000) + r.below(9);
    let align = if r.below(2) == 0 { 512 } else { 1 };
    let mut e1 = vec![];
    let mut used = next;
    let whole = r.below(4);
    for _ in 0..count.min(40) {
        if r.below(4) == 0 {
            e1.push(if r.below(3) == 0 { flag } else { 0 });
            continue;
        }
        let place = (next + r.below(10)).div_ceil(align) * align;
        let n = refs.min(600);
        next = place + 8 * refs;
        let mut e2 = vec![];
        let step = cs.min(1 << 40) as u64;
        for k in 0..n {
            let mut e = match r.below(8) {
                0 => 0,
                1 if version == 3 => 1,
                2 if version == 3 => (next + k * step) | 1,
                3 if r.below(8) == 0 => flag | r.below(1 << 40),
                4 if r.below(8) == 0 => low - r.below(1 << 20),
                5 if r.below(8) == 0 => r.below(1 << 16),
                6 if r.below(8) == 0 => wide,
                _ => next + (k ^ 1) * step,
            };
            if r.below(3) == 0 && version != 1 {
                e |= 1 << 63;
            }
            e2.push(e);
        }
        if whole > 0 {
            used = used.max(next + n.min(9) * step);
        }
        im.over.push((place, e2.iter().flat_map(|e| e.to_be_bytes()).collect()));
        let mut e = if r.below(40) == 0 { *r.pick(&[wide, wide - 7, low]) } else { place };
        if r.below(2) == 0 {
            e |= 1 << 63;
        }
        e1.push(e);
        next = next.max(used);
    }
    if version == 1 && e1.iter().any(|e| e >> 63 == 1) && r.below(2) == 0 {
        e1.iter_mut().for_each(|e| *e &= wide);
    }
    used = used.max(next);
    im.size = used.max(200);
    if r.below(5) == 0 {
        im.size = 112 + r.below(im.size - 112);
    }
    if count > 40 || refs > 600 {
        im.most = im.most.max(100);
    }
    if r.below(30) == 0 {
        im.most = im.most.max(100);
        l1 = *r.pick(&[u64::MAX, u64::MAX - 7, 1 << 62, 0]);
    } else {
        im.over.push((l1, e1.iter().flat_map(|e| e.to_be_bytes()).collect()));
    }
    if name.is_some() && !bad && name_offset + name_size as u64 > im.size {
        bad = true;
    }
    // the header
    let mut method = 0u32;
    if r.below(60) == 0 {
        method = r.range(1, 3) as u32;
        bad = true;
    }
    let mut h = vec![0u8; 112];
    h[0..4].copy_from_slice(b"QFI\xfb");
    h[4..8].copy_from_slice(&version.to_be_bytes());
    h[8..16].copy_from_slice(&name_offset.to_be_bytes());
    h[16..20].copy_from_slice(&name_size.to_be_bytes());
    h[24..32].copy_from_slice(&size.to_be_bytes());
    h[40..48].copy_from_slice(&l1.to_be_bytes());
    if r.below(40) == 0 {
        bad = true;
        if version == 1 {
            let x = r.range(64, 255) as u32;
            if r.below(2) == 0 { cb_field = x } else { tb_field = x }
        } else {
            cb_field = *r.pick(&[0u32, 3, 8, 63, 64, 256 + 9, u32::MAX]);
        }
    }
    if version == 1 {
        h[20..24].copy_from_slice(&(r.below(1 << 32) as u32).to_be_bytes());
        h[32] = cb_field as u8;
        h[33] = tb_field as u8;
        h[36..40].copy_from_slice(&method.to_be_bytes());
    } else {
        h[20..24].copy_from_slice(&cb_field.to_be_bytes());
        h[32..36].copy_from_slice(&method.to_be_bytes());
        h[36..40].copy_from_slice(&(count as u32).to_be_bytes());
    }
    h[48..56].copy_from_slice(&r.below(1 << 40).to_be_bytes());
    if version == 3 {
        h[72..80].copy_from_slice(&r.below(2).to_be_bytes());
        h[80..88].copy_from_slice(&r.below(2).to_be_bytes());
        h[100..104].copy_from_slice(&(header as u32).to_be_bytes());
        h[104] = r.below(2) as u8;
        if r.below(60) == 0 {
            bad = true;
            match r.below(3) {
                0 => h[72 + r.below(7) as usize] ^= 4,
                1 => h[87] |= 2,
                _ => h[103] = 108,
            }
        }
    }
    if r.below(60) == 0 {
        bad = true;
        match r.below(3) {
            0 => h[r.below(4) as usize] ^= 1,
            1 => h[7] = *r.pick(&[0u8, 4, 255]),
            _ => h[4 + r.below(3) as usize] = 1,
        }
    }
    if r.below(60) == 0 {
        bad = true;
        im.size = r.below(112);
    }
    im.over.push((0, h));
    let j = im.clone();
    let up = backing.as_ref().map(|p| (p.map.clone(), p.size, p.bad));
    let backed = name.is_some();
    let (cs, span) = (cs as u64, span as u64);
    let map = move |o: u64| {
        let absent = || {
            if !backed {
                return B::V(0);
            }
            match &up {
                Some((m, s, false)) => {
                    if o < *s {
                        m(o)
                    } else {
                        B::V(0)
                    }
                }
                _ => B::Bad,
            }
        };
        if o / span >= count {
            return B::Bad;
        }
        let Some(e) = entry(&j, l1, o / span) else { return B::Bad };
        if e & wide == 0 {
            return absent();
        }
        let Some(e) = entry(&j, e & wide, o % span / cs) else { return B::Bad };
        if version == 3 && e & flag == 0 && e & 1 == 1 {
            B::V(0)
        } else if e & wide == 0 {
            absent()
        } else if e & flag != 0 {
            B::Bad
        } else {
            at(&j, (e & wide) + o % cs)
        }
    };
    let nodes = (1u128 << tb_real).min(size as u128 / cs as u128 + 1);
    let nodes = nodes.max(backing.as_ref().map_or(0, |p| p.nodes));
    Qcow { nodes, im, size, bad, name, map: Rc::new(map), backing: backing.map(Box::new) }
}
fn open(v: &Qcow) -> Result<QcowFile, ErrorTrace> {
    let mut f = QcowFile::new();
    f.read_data_stream(&v.im.reference())?;
    if f.get_backing_file_name().map(|n| n.to_string()) != v.name.as_ref().map(|n| String::from_utf8_lossy(n).to_string()) {
        return Err(ErrorTrace::new("other name of the backing file".into()));
    }
    if let Some(p) = &v.backing {
        if let Ok(g) = open(p) {
            f.set_backing_file(&Arc::new(RwLock::new(g)))?;
        }
    }
    Ok(f)
}
fn chain(v: &Qcow) -> String {
    let s = show(&v.im);
    match &v.backing {
        Some(p) => format!("{}; backing file {}", s, chain(p)),
        None => s,
    }
}
fn qcows(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut v = None;
    for _ in 0..*r.pick(&[0u64, 0, 1, 1, 2, 3]) {
        v = Some(qcow(r, v));
    }
    let v = qcow(r, v);
    let ops = if v.nodes > 1 << 18 { vec![] } else { reads(r, v.size.min(1 << 62)) };
    let exp = if v.bad { "error".to_string() } else { expect(&*v.map, v.size, usize::MAX, &ops) };
    let inp = format!("seeks and reads {:?}, {}", ops, chain(&v));
    ctx.check("QcowFile", &inp, &exp, || match open(&v) {
        Ok(mut f) => actual(&mut f, &ops),
        Err(e) => {
            if std::env::var("KXDBG").is_ok() {
                eprintln!("{}", e);
            }
            "error".into()
        }
    });
}
pub fn c28(ctx: &mut Ctx) {
    while ctx.time_left() {
        qcows(ctx);
    }
}
