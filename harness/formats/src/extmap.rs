use keramics_core::DataStreamReference;
use keramics_formats::ext::block_range::{ExtBlockRange, ExtBlockRangeType};
use keramics_formats::ext::inode::ExtInode;
use crate::files::Img;
use wit_common::{Ctx, Rng, hex};

fn le(d: &[u8], o: usize, n: usize) -> u64 {
    (0..n).map(|k| (d[o + k] as u64) << (8 * k)).sum()
}
type Range = (u64, u64, u64, bool);
/// The ranges of an extents tree node.
fn node(img: &[u8], bs: u64, d: &[u8], limit: u64, at: &mut u64, out: &mut Vec<Range>) -> bool {
    if d[..2] != [0x0a, 0xf3] {
        return false;
    }
    let (n, depth) = (le(d, 2, 2), le(d, 6, 2));
    if depth > 5 || depth >= limit || 12 + 12 * n > d.len() as u64 {
        return false;
    }
    for k in 0..n as usize {
        let e = &d[12 + 12 * k..24 + 12 * k];
        if depth > 0 {
            let o = (le(e, 4, 4) + (le(e, 8, 2) << 32)) as u128 * bs as u128;
            if o + bs as u128 > img.len() as u128 {
                return false;
            }
            let o = o as usize;
            if !node(img, bs, &img[o..o + bs as usize], depth, at, out) {
                return false;
            }
        } else {
            let (b, mut n, p) = (le(e, 0, 4), le(e, 4, 2), le(e, 8, 4) + (le(e, 6, 2) << 32));
            if b > *at {
                out.push((*at, 0, b - *at, false));
            }
            let mut data = p != 0;
            if n > 32768 {
                n -= 32768;
                data = false;
            }
            out.push((b, p, n, data));
            *at = b + n;
        }
    }
    true
}
/// The block of each of the first n blocks of a file: one pointer, so many levels up.
fn below(img: &[u8], bs: u64, p: u64, level: u32, n: u64, out: &mut Vec<u64>) -> bool {
    if out.len() as u64 >= n {
        return true;
    }
    if level == 0 {
        out.push(p);
        return true;
    }
    if p == 0 {
        let m = (n - out.len() as u64).min((bs / 4).pow(level));
        out.extend((0..m).map(|_| 0));
        return true;
    }
    if p * bs + bs > img.len() as u64 {
        return false;
    }
    (0..bs / 4).all(|k| below(img, bs, le(img, (p * bs + 4 * k) as usize, 4), level - 1, n, out))
}
fn show(v: &[Range]) -> String {
    v.iter().map(|x| format!("{}+{}{}", x.0, x.2, if x.3 { format!("@{}", x.1) } else { "-".into() })).collect::<Vec<_>>().join(" ")
}
fn real(i: &ExtInode) -> Vec<Range> {
    i.block_ranges.iter().map(|x: &ExtBlockRange| (x.logical_block_number, x.physical_block_number, x.number_of_blocks, x.range_type == ExtBlockRangeType::InFile)).collect()
}
/// Joins ranges that belong together.
fn joined(v: &[Range]) -> Vec<Range> {
    let mut out: Vec<Range> = vec![];
    for x in v {
        if let Some(l) = out.last_mut() {
            if l.0 + l.2 == x.0 && l.3 == x.3 && (!x.3 || l.1 + l.2 == x.1) {
                l.2 += x.2;
                continue;
            }
        }
        out.push((x.0, if x.3 { x.1 } else { 0 }, x.2, x.3));
    }
    out
}
fn run(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let trees = r.below(2) == 0;
    let bs = if trees { *r.pick(&[36u64, 48, 64, 1024]) } else { *r.pick(&[16u64, 20, 64, 1024]) };
    let many = if bs == 1024 { r.range(3, 12) } else { r.range(3, 40) };
    let mut img = vec![0u8; (bs * many) as usize + r.below(bs) as usize];
    let fill_tree = |r: &mut Rng, d: &mut [u8], depth: u64, from: u64| {
        d[..2].copy_from_slice(if r.below(40) == 0 { &[0x0a, 0xf2] } else { &[0x0a, 0xf3] });
        let room = (d.len() as u64 - 12) / 12;
        let n = if r.below(40) == 0 { room + r.below(3) } else { r.below(room.min(9) + 1) };
        d[2..4].copy_from_slice(&(n as u16).to_le_bytes());
        d[4..6].copy_from_slice(&(room as u16).to_le_bytes());
        d[6..8].copy_from_slice(&(depth as u16).to_le_bytes());
        let mut at = from;
        for k in 0..n.min(room) as usize {
            let e = &mut d[12 + 12 * k..24 + 12 * k];
            if depth > 0 {
                let b = if r.below(50) == 0 { r.below(1 << 47) } else if r.below(6) == 0 { r.below(many + 2) } else { (r.below(many) / 4 * 4 + depth - 1).min(many - 1) };
                e[0..4].copy_from_slice(&(at as u32).to_le_bytes());
                e[4..8].copy_from_slice(&(b as u32).to_le_bytes());
                e[8..10].copy_from_slice(&((b >> 32) as u16).to_le_bytes());
            } else {
                at += r.below(2) * r.below(50);
                if r.below(30) == 0 {
                    at = r.below(1 << 32);
                }
                let n = if r.below(6) == 0 { r.below(1 << 16) } else if r.below(6) == 0 { r.range(32766, 32770) } else { r.range(1, 20) };
                let p = if r.below(6) == 0 { 0 } else if r.below(4) == 0 { r.below(1 << 48) } else { r.below(1000) };
                e[0..4].copy_from_slice(&(at as u32).to_le_bytes());
                e[4..6].copy_from_slice(&(n as u16).to_le_bytes());
                e[6..8].copy_from_slice(&((p >> 32) as u16).to_le_bytes());
                e[8..12].copy_from_slice(&(p as u32).to_le_bytes());
                at += n % 32768;
            }
        }
    };
    let holes = r.range(2, 6);
    let far = r.below(4) == 0;
    let fill_pointers = |r: &mut Rng, d: &mut [u8]| {
        let mut p = r.below(many);
        for k in 0..d.len() / 4 {
            p = if r.below(holes) == 0 { 0 } else if r.below(2) == 0 { p + 1 } else { r.below(many) };
            if far && r.below(30) == 0 {
                p = r.below(1 << 32);
            }
            d[4 * k..4 * k + 4].copy_from_slice(&(p as u32).to_le_bytes());
        }
    };
    let mut reference = vec![0u8; 60];
    let shape = r.below(4);
    for k in 0..many as usize {
        let d = &mut img[k * bs as usize..(k + 1) * bs as usize];
        if trees {
            let from = r.below(400);
            fill_tree(r, d, k as u64 % 4, from);
        } else {
            fill_pointers(r, d);
        }
    }
    if trees {
        let depth = if r.below(20) == 0 { r.below(8) } else { r.below(4) };
        let from = r.below(2) * r.below(10);
        fill_tree(r, &mut reference, depth, from);
    } else {
        fill_pointers(r, &mut reference);
        if shape == 0 {
            for x in reference[48..].iter_mut() {
                *x = 0;
            }
        }
    }
    let version = if r.below(12) == 0 { *r.pick(&[2u8, 3, 4]) } else if trees { 4 } else { *r.pick(&[2u8, 3, 4]) };
    let flags = (if trees || r.below(30) == 0 { 0x80000u32 } else { 0 }) | (r.below(2) as u32 * 0x80);
    let as_tree = version == 4 && flags & 0x80000 != 0;
    let mode = *r.pick(&[0x81a4u16, 0x81a4, 0x41ed, 0x21b6, 0x61b0, 0xa1ff]);
    let q = bs / 4;
    let most = if as_tree { 100_000 } else { (12 + q + q * q + q * q * q + 20).min(20_000) };
    let size = match r.below(5) {
        0 => r.below(12 * bs + 2),
        1 => r.below((12 + q + 3) * bs),
        _ => r.below(most * bs),
    };
    let blocks = if r.below(3) == 0 { r.below(most) } else { size / 512 % most };
    let mut i = ExtInode::new();
    i.file_mode = mode;
    i.flags = flags;
    i.data_size = size;
    i.number_of_blocks = blocks;
    i.data_reference.copy_from_slice(&reference);
    let n = size.div_ceil(bs).max(blocks);
    let inp = format!("version {} flags {:x} mode {:o} size {} blocks {} of {} bytes, reference {}, image {}", version, flags, mode, size, blocks, bs, hex(&reference), hex(&img));
    let mut im = Img::new(img.len() as u64, usize::MAX);
    im.over = vec![(0, img.clone())];
    let s: DataStreamReference = im.reference();
    let device = mode & 0xf000 == 0x2000 || mode & 0xf000 == 0x6000;
    let exp = if device {
        String::new()
    } else if as_tree {
        let (mut at, mut out) = (0, vec![]);
        if node(&img, bs, &reference, 6, &mut at, &mut out) {
            if at < n {
                out.push((at, 0, n - at, false));
            }
            show(&out)
        } else {
            "error".into()
        }
    } else {
        let mut out = vec![];
        let ok = (0..15).all(|k| below(&img, bs, le(&reference, 4 * k, 4), if k < 12 { 0 } else { k as u32 - 11 }, n, &mut out));
        if ok {
            out.resize(n as usize, 0);
            let v: Vec<Range> = out.iter().enumerate().map(|(k, p)| (k as u64, *p, 1, *p != 0)).collect();
            show(&joined(&v))
        } else {
            "error".into()
        }
    };
    ctx.check("ExtInode::read_data_reference", &inp, &exp, || match i.read_data_reference(version, &s, bs as u32) {
        Ok(()) => {
            let v = real(&i);
            show(&if as_tree || device { v } else { joined(&v) })
        }
        Err(_) => "error".into(),
    });
}
pub fn c31(ctx: &mut Ctx) {
    while ctx.time_left() {
        run(ctx);
    }
}
