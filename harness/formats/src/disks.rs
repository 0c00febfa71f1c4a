use crate::files::{Img, most};
use crate::volumes::{actual, script};
use keramics_core::{DataStreamReference, ErrorTrace};
use keramics_formats::sparseimage::SparseImageFile;
use keramics_formats::vhd::VhdFile;
use std::io::SeekFrom;
use std::rc::Rc;
use std::sync::{Arc, RwLock};
use wit_common::{Ctx, Rng, hex};

/// What is at a byte of a disk: a value, nothing because the image ends before it, or nothing
/// because what locates it is damaged.
#[derive(Clone, Copy)]
pub enum B {
    V(u8),
    Out,
    Bad,
}
pub type Map = Rc<dyn Fn(u64) -> B>;
/// What the seeks and reads on a disk with this content give; a read returns at most `once` bytes.
pub fn expect(map: &dyn Fn(u64) -> B, size: u64, once: usize, ops: &[(SeekFrom, usize)]) -> String {
    let mut p: u64 = 0;
    let mut s = format!("size {}", size);
    for (seek, n) in ops {
        let t: i128 = match seek {
            SeekFrom::Start(x) => *x as i128,
            SeekFrom::End(x) => size as i128 + *x as i128,
            SeekFrom::Current(x) => p as i128 + *x as i128,
        };
        match u64::try_from(t) {
            Ok(x) => {
                p = x;
                s.push_str(&format!("; at {}", p));
            }
            Err(_) => s.push_str("; error"),
        }
        let n = (*n as u64).min(once as u64).min(size.saturating_sub(p));
        let mut b = vec![];
        let mut bad = false;
        for i in 0..n {
            match map(p + i) {
                B::V(v) => b.push(v),
                B::Out => break,
                B::Bad => {
                    bad = true;
                    break;
                }
            }
        }
        if bad {
            s.push_str(" error");
        } else {
            s.push_str(&format!(" {}", hex(&b)));
            p += b.len() as u64;
        }
    }
    s
}
pub fn show(im: &Img) -> String {
    let over: Vec<String> = im.over.iter().map(|(o, d)| format!("{}: {}", o, hex(&d[..d.len().min(1200)]))).collect();
    format!("image of {} bytes (byte i is (7*i+i/251+i/2^31+3)|1 but for [{}]) that delivers at most {} at once", im.size, over.join(", "), im.most)
}
pub fn at(im: &Img, p: u64) -> B {
    if p < im.size { B::V(im.byte(p)) } else { B::Out }
}
/// Seeks and reads, few of them of much.
pub fn reads(r: &mut Rng, size: u64) -> Vec<(SeekFrom, usize)> {
    let mut ops = script(r, size);
    if r.below(8) > 0 {
        for x in ops.iter_mut() {
            x.1 = x.1.min(6000);
        }
    }
    ops
}
fn sparse(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let spb = *r.pick(&[1u32, 2, 3, 8, 100, 2048, 65536, 8388607]);
    let bands = *r.pick(&[0u64, 1, 2, 5, 20, 200, 1008]);
    let mut sectors = (bands * spb as u64).saturating_sub(r.below(2) * r.below(spb as u64)).min(u32::MAX as u64);
    let n = sectors.div_ceil(spb as u64);
    let bs = spb as u64 * 512;
    // which band of the disk is where
    let mut order: Vec<u32> = (1..=n as u32).collect();
    for i in (1..order.len()).rev() {
        let k = r.below(i as u64 + 1) as usize;
        order.swap(i, k);
    }
    let holes = r.below(3);
    for x in order.iter_mut() {
        if holes > 0 && r.below(4) < holes {
            *x = 0;
        }
    }
    let mut bad = false;
    if n > 1 && r.below(16) == 0 {
        let (i, k) = (r.below(n) as usize, r.below(n) as usize);
        bad = i != k && order[i] != 0;
        order[k] = order[i];
    }
    if n > 0 && r.below(24) == 0 {
        order[r.below(n) as usize] = n as u32 + r.range(1, 3) as u32;
        bad = true;
    }
    let full = 4096 + n * bs;
    let mut im = Img::new(if r.below(3) == 0 { r.range(4096, full) } else { full }, most(r));
    let mut spb_field = spb;
    match r.below(40) {
        0 => {
            im.size = r.below(4096);
            bad = true;
        }
        1 => {
            spb_field = 0;
            bad = true;
        }
        2 => {
            spb_field = *r.pick(&[8388608, u32::MAX]);
            bad = true;
        }
        3 if !bad => {
            sectors = 1009 * spb as u64;
            if sectors > u32::MAX as u64 {
                sectors = u32::MAX as u64;
            }
            bad = bad || sectors.div_ceil(spb as u64) > 1008;
        }
        _ => {}
    }
    if sectors.div_ceil(spb as u64) != n && !bad {
        sectors = n * spb as u64;
        if sectors > u32::MAX as u64 {
            return;
        }
    }
    let mut h = b"sprs\0\0\0\x03".to_vec();
    h.extend(spb_field.to_be_bytes());
    h.extend([0, 0, 0, 1]);
    h.extend((sectors as u32).to_be_bytes());
    if r.below(40) == 0 {
        h[r.below(4) as usize] ^= 1;
        bad = true;
    }
    let mut a: Vec<u8> = order.iter().flat_map(|x| x.to_be_bytes()).collect();
    a.resize(4 * 1008, 0);
    im.over.push((0, h));
    im.over.push((64, a));
    let size = sectors * 512;
    let ops = reads(r, size);
    let exp = if bad {
        "error".to_string()
    } else {
        let mut place = vec![None; n as usize + 1];
        for (i, x) in order.iter().enumerate() {
            place[*x as usize] = Some(i as u64);
        }
        let map = |o: u64| match place[(o / bs) as usize + 1] {
            Some(i) => at(&im, 4096 + i * bs + o % bs),
            None => B::V(0),
        };
        expect(&map, size, usize::MAX, &ops)
    };
    let inp = format!("sectors per band {} number of sectors {} bands {:?} seeks and reads {:?}, {}", spb_field, sectors, order, ops, show(&im));
    ctx.check("SparseImageFile", &inp, &exp, || {
        let mut f = SparseImageFile::new();
        if f.read_data_stream(&im.reference()).is_err() {
            return "error".into();
        }
        actual(&mut f, &ops)
    });
}
/// A VHD image: how to make a file of it, and what it holds.
struct Vhd {
    im: Img,
    id: u8,
    /// The identifier of the parent.
    needs: u8,
    size: u64,
    once: usize,
    bad: bool,
    map: Map,
    parent: Option<Box<Vhd>>,
    /// The parent in place does not have the identifier the image asks for.
    refused: bool,
}
fn uuid(k: u8) -> [u8; 16] {
    if k == 0 { [0; 16] } else { [k, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 200 ^ k] }
}
fn vhd(r: &mut Rng, kind: u32, id: u8, parent: Option<Vhd>) -> Vhd {
    let bs = *r.pick(&[512u64, 1024, 1536, 4096, 4608, 65536, 2 << 20, 2100 * 1024]);
    let blocks = *r.pick(&[1u64, 2, 3, 9, 40]);
    let size = match r.below(4) {
        0 => blocks * bs,
        1 => blocks * bs - r.below(bs),
        2 => r.below(blocks * bs + 1),
        _ => blocks * bs - r.below(bs / 512) * 512,
    };
    let mut im = Img::new(0, most(r));
    let mut bad = false;
    let mut footer = b"conectix\0\0\0\x02\0\x01\0\0".to_vec();
    footer.resize(512, 0);
    footer[60..64].copy_from_slice(&kind.to_be_bytes());
    footer[68..84].copy_from_slice(&uuid(id));
    footer[40..48].copy_from_slice(&r.below(2 * size + 2).to_be_bytes());
    footer[48..56].copy_from_slice(&size.to_be_bytes());
    let next = if kind == 2 { u64::MAX } else { *r.pick(&[512u64, 512, 1024, 513]) };
    footer[16..24].copy_from_slice(&next.to_be_bytes());
    if r.below(30) == 0 {
        bad = true;
        match r.below(4) {
            0 => footer[r.below(8) as usize] ^= 4,
            1 => footer[r.range(12, 15) as usize] ^= 2,
            2 => footer[60..64].copy_from_slice(&(*r.pick(&[0u32, 1, 5, 0x0200_0000])).to_be_bytes()),
            _ => footer[16..24].copy_from_slice(&(if kind == 2 { 512u64 } else { *r.pick(&[0, 511, u64::MAX, 1 << 60]) }).to_be_bytes()),
        }
    }
    if kind == 2 {
        im.size = size + 512;
        if r.below(4) == 0 {
            im.size = 512 + r.below(size + 1);
        }
        im.over.push((im.size - 512, footer));
        im.most = usize::MAX;
        let once = im.most;
        let j = im.clone();
        return Vhd { im, id, needs: 0, size, once, bad, map: Rc::new(move |o| at(&j, o)), parent: None, refused: false };
    }
    let bat = if r.below(12) == 0 { *r.pick(&[u64::MAX, u64::MAX - 3, 1 << 62]) } else { next + 1024 + r.below(3) * 512 };
    let mut needs = 0;
    let mut refused = false;
    let mut head = b"cxsparse\xff\xff\xff\xff\xff\xff\xff\xff".to_vec();
    head.resize(1024, 0);
    head[16..24].copy_from_slice(&bat.to_be_bytes());
    head[24..28].copy_from_slice(&[0, 1, 0, 0]);
    head[28..32].copy_from_slice(&(blocks as u32).to_be_bytes());
    head[32..36].copy_from_slice(&(bs as u32).to_be_bytes());
    if kind == 4 {
        needs = parent.as_ref().map_or(9, |p| p.id);
        if r.below(10) == 0 {
            needs = 77;
            refused = true;
        }
        head[40..56].copy_from_slice(&uuid(needs));
        head[64..70].copy_from_slice(b"\0p\0.\0v");
    }
    if r.below(30) == 0 {
        let before = bad;
        bad = true;
        match r.below(5) {
            0 => head[r.below(16) as usize] ^= 4,
            1 => head[r.range(24, 27) as usize] ^= 2,
            2 => head[32..36].copy_from_slice(&(*r.pick(&[0u32, 1, 511, bs as u32 + 1, bs as u32 + 256])).to_be_bytes()),
            3 => {
                bad = before || size > (blocks - 1) * bs;
                head[28..32].copy_from_slice(&(blocks as u32 - 1).to_be_bytes());
            }
            _ => {
                let more = blocks * bs + r.range(1, 600);
                footer[48..56].copy_from_slice(&more.to_be_bytes());
            }
        }
    }
    let bitmap = (bs / 512).div_ceil(8).div_ceil(512) * 512;
    let first = (next + 1024 + 1024 + 4 * blocks).div_ceil(512);
    let step = (bitmap + bs) / 512;
    let mut entries: Vec<u32> = vec![];
    let far = r.below(8) == 0;
    let mut used = first;
    for b in 0..blocks {
        let e = match r.below(5) {
            0 => 0xffff_ffff,
            1 if far => 0xffff_fffe - (r.below(1 << 20) * step) as u32,
            2 if r.below(6) == 0 => (first + blocks * step + r.below(4) * 1000) as u32,
            _ => (first + b * step) as u32,
        };
        if e != 0xffff_ffff {
            used = used.max(e as u64 + step);
        }
        entries.push(e);
    }
    if r.below(5) == 0 {
        let (i, k) = (r.below(blocks) as usize, r.below(blocks) as usize);
        entries.swap(i, k);
    }
    im.size = used * 512 + 512 - if r.below(6) == 0 { r.below((step.min(used - first) * 512).max(1)) } else { 0 };
    im.over.push((next, head));
    if bat < 1 << 60 {
        im.over.push((bat, entries.iter().flat_map(|e| e.to_be_bytes()).collect()));
    }
    for e in &entries {
        if *e == 0xffff_ffff {
            continue;
        }
        let n = bs / 512;
        let mut d = vec![0u8; bitmap as usize];
        let style = r.below(6);
        let mut on = r.below(2) == 0;
        for k in 0..8 * bitmap {
            let v = match style {
                0 => true,
                1 => false,
                2 => k >= n,
                3 => r.below(2) == 0,
                _ => {
                    if r.below(7) == 0 {
                        on = !on;
                    }
                    on
                }
            };
            if v {
                d[(k / 8) as usize] |= 0x80 >> (k % 8);
            }
        }
        im.over.push((*e as u64 * 512, d));
    }
    im.over.push((im.size - 512, footer));
    let j = im.clone();
    let up = parent.as_ref().map(|p| (p.map.clone(), p.size, p.bad));
    let usable = match &parent {
        Some(p) => !p.bad && !refused && (p.needs == 0 || p.parent.is_some()),
        None => false,
    };
    let map = move |o: u64| {
        let b = o / bs;
        if bat.checked_add(4 * b + 4).is_none_or(|q| q > j.size) {
            return B::Bad;
        }
        let e = u32::from_be_bytes([0, 1, 2, 3].map(|k| j.byte(bat + 4 * b + k))) as u64;
        let k = o % bs / 512;
        if e != 0xffff_ffff {
            if e * 512 + bitmap > j.size {
                return B::Bad;
            }
            if j.byte(e * 512 + k / 8) >> (7 - k % 8) & 1 == 1 {
                return at(&j, e * 512 + bitmap + o % bs);
            }
        }
        match &up {
            _ if kind == 3 => B::V(0),
            Some((m, n, _)) if usable => {
                if o < *n {
                    m(o)
                } else {
                    B::Out
                }
            }
            _ => B::Bad,
        }
    };
    Vhd { im, id, needs, size, once: usize::MAX, bad, map: Rc::new(map), parent: parent.map(Box::new), refused }
}
fn open(v: &Vhd) -> Result<VhdFile, ErrorTrace> {
    let mut f = VhdFile::new();
    let s: DataStreamReference = v.im.reference();
    f.read_data_stream(&s)?;
    if let Some(p) = &v.parent {
        if let Ok(g) = open(p) {
            let taken = f.set_parent(&Arc::new(RwLock::new(g))).is_ok();
            if taken == v.refused {
                return Err(ErrorTrace::new("parent taken or refused".into()));
            }
        }
    }
    Ok(f)
}
fn chain(v: &Vhd) -> String {
    let s = show(&v.im);
    match &v.parent {
        Some(p) => format!("{}; parent {}", s, chain(p)),
        None => s,
    }
}
fn vhds(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut kind = *r.pick(&[2u32, 3, 3, 4, 4, 4]);
    let mut v = None;
    if kind == 4 {
        for k in 0..r.below(4) {
            let t = if k == 0 { r.range(2, 3) as u32 } else { 4 };
            v = Some(vhd(r, t, k as u8 + 1, v));
        }
    }
    if r.below(20) == 0 {
        kind = 3;
        v = None;
    }
    let v = vhd(r, kind, 9, v);
    let ops = reads(r, v.size);
    // an image with a parent that is not taken has none
    let exp = if v.bad { "error".to_string() } else { expect(&*v.map, v.size, v.once, &ops) };
    let inp = format!("disk type {} seeks and reads {:?}, {}", kind, ops, chain(&v));
    ctx.check("VhdFile", &inp, &exp, || match open(&v) {
        Ok(mut f) => actual(&mut f, &ops),
        Err(_) => "error".into(),
    });
}
pub fn c26(ctx: &mut Ctx) {
    while ctx.time_left() {
        sparse(ctx);
        vhds(ctx);
    }
}
