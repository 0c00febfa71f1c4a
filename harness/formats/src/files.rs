use crate::volumes::{actual, script};
use keramics_core::{DataStream, DataStreamReference, ErrorTrace};
use keramics_formats::block_tree::BlockTree;
use keramics_formats::ext::block_range::{ExtBlockRange, ExtBlockRangeType};
use keramics_formats::ext::block_stream::ExtBlockStream;
use keramics_formats::fat::block_allocation_table::FatBlockAllocationTable;
use keramics_formats::fat::block_stream::FatBlockStream;
use keramics_formats::fat::enums::FatFormat;
use keramics_formats::ntfs::block_stream::NtfsBlockStream;
use keramics_formats::ntfs::cluster_group::NtfsClusterGroup;
use keramics_formats::ntfs::data_run::{NtfsDataRun, NtfsDataRunType};
use keramics_formats::ntfs::mft_attribute::NtfsMftAttribute;
use std::io::SeekFrom;
use std::sync::{Arc, RwLock};
use wit_common::{Ctx, hex};

/// Byte i of the image that all cases use.
pub fn image_byte(i: u64) -> u8 {
    (i.wrapping_mul(7).wrapping_add(i / 251).wrapping_add(i >> 31).wrapping_add(3)) as u8 | 1
}
/// An image of any size: calculated bytes, overwritten in some places.
#[derive(Clone)]
pub struct Img {
    pub size: u64,
    pub over: Vec<(u64, Vec<u8>)>,
    /// No read returns more than this, but for those that start in an overwritten place: what the
    /// code reads as an exact amount it takes as an error if it does not come at once.
    pub most: usize,
    at: u64,
}
impl Img {
    pub fn new(size: u64, most: usize) -> Img {
        Img { size, over: vec![], most, at: 0 }
    }
    pub fn byte(&self, i: u64) -> u8 {
        for (a, d) in self.over.iter().rev() {
            if i >= *a && i - a < d.len() as u64 {
                return d[(i - a) as usize];
            }
        }
        image_byte(i)
    }
    pub fn reference(&self) -> DataStreamReference {
        Arc::new(RwLock::new(self.clone()))
    }
}
impl DataStream for Img {
    fn get_size(&mut self) -> Result<u64, ErrorTrace> {
        Ok(self.size)
    }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, ErrorTrace> {
        let mut n = (self.size.saturating_sub(self.at)).min(buf.len() as u64);
        if !self.over.iter().any(|(a, d)| self.at >= *a && self.at - a < d.len() as u64) {
            n = n.min(self.most as u64);
        }
        let n = n as usize;
        for k in 0..n {
            buf[k] = self.byte(self.at + k as u64);
        }
        self.at += n as u64;
        Ok(n)
    }
    fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
        let t: i128 = match pos {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.size as i128 + x as i128,
            SeekFrom::Current(x) => self.at as i128 + x as i128,
        };
        match u64::try_from(t) {
            Ok(x) => {
                self.at = x;
                Ok(x)
            }
            Err(_) => Err(ErrorTrace::new("out of bounds".into())),
        }
    }
}
pub fn most(r: &mut wit_common::Rng) -> usize {
    *r.pick(&[1usize, 3, 100, 1000, 5000, 100000, usize::MAX, usize::MAX, usize::MAX])
}
/// Where the bytes of a file are.
#[derive(Clone, Copy)]
enum B {
    Zero,
    At(u64),
    Missing,
}
/// What the seeks and reads on such a file give.
fn expect(map: &dyn Fn(u64) -> B, image: &Img, size: u64, ops: &[(SeekFrom, usize)]) -> String {
    let mut p: u64 = 0;
    let mut s = format!("size {}", size);
    for (seek, n) in ops {
        let t: i128 = match seek {
            SeekFrom::Start(x) => *x as i128,
            SeekFrom::End(x) => size as i128 + *x as i128,
            SeekFrom::Current(x) => p as i128 + *x as i128,
        };
        match u64::try_from(t) {
            Ok(x) => {
                p = x;
                s.push_str(&format!("; at {}", p));
            }
            Err(_) => s.push_str("; error"),
        }
        let n = (*n as u64).min(size.saturating_sub(p));
        let mut b = vec![];
        let mut bad = false;
        for i in 0..n {
            match map(p + i) {
                B::Zero => b.push(0),
                B::At(q) if q < image.size => b.push(image.byte(q)),
                B::At(_) => break,
                B::Missing => {
                    bad = true;
                    break;
                }
            }
        }
        if bad {
            s.push_str(" error");
        } else {
            s.push_str(&format!(" {}", hex(&b)));
            p += b.len() as u64;
        }
    }
    s
}
fn ext(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut bs = *r.pick(&[4u64, 16, 512, 1024]);
    let blocks = *r.pick(&[1u64, 3, 12, 40, 300, 1000]);
    let mut in_image = r.range(1, 40);
    if r.below(6) == 0 {
        bs = *r.pick(&[1024u64, 65536, 1 << 24, 1 << 31]);
        in_image = r.range(1, (1 << 62) / bs);
    }
    let image_size = in_image * bs - r.below(2) * r.below(bs);
    let mut ranges: Vec<(u64, u64, u64, bool)> = vec![];
    let mut at = r.below(3) * r.below(2);
    while at < blocks && ranges.len() < 30 {
        let n = match r.below(4) {
            0 => 1,
            1 => r.range(1, 5),
            2 => r.range(1, blocks - at),
            _ => r.range(1, 40),
        }
        .min(blocks - at);
        ranges.push((at, r.below(image_size / bs + 2), n, r.below(4) == 0));
        at += n + if r.below(12) == 0 { r.below(4) } else { 0 };
    }
    if r.below(4) == 0 && ranges.len() > 1 {
        let k = ranges.len() as u64;
        ranges.swap(r.below(k) as usize, r.below(k) as usize);
    }
    if r.below(20) == 0 {
        let k = ranges.len() as u64;
        if k > 0 {
            let i = r.below(k) as usize;
            ranges[i].0 += r.below(4);
        }
    }
    let size = match r.below(3) {
        0 => blocks * bs,
        1 => blocks * bs - r.below(bs),
        _ => r.below(blocks * bs + 1),
    };
    let ops = script(r, size);
    let map = |o: u64| {
        for (l, p, n, sparse) in &ranges {
            if o / bs >= *l && o / bs < l + n {
                return if *sparse { B::Zero } else { B::At(p * bs + o - l * bs) };
            }
        }
        B::Missing
    };
    let mut used = vec![false; blocks as usize];
    let mut bad = false;
    for (l, _, n, _) in &ranges {
        for k in *l..l + n {
            if k >= blocks || used[k as usize] {
                bad = true;
            } else {
                used[k as usize] = true;
            }
        }
    }
    let im = Img::new(image_size, most(r));
    let exp = if bad { "error".to_string() } else { expect(&map, &im, size, &ops) };
    let inp = format!(
        "block size {} number of blocks {} file size {} image of {} bytes (byte i is (7*i+i/251+i/2^31+3)|1) that delivers at most {} at once, ranges (logical, physical, blocks, sparse) {:?} seeks and reads {:?}",
        bs, blocks, size, image_size, im.most, ranges, ops
    );
    ctx.check("ExtBlockStream", &inp, &exp, || {
        let s: DataStreamReference = im.reference();
        let mut f = ExtBlockStream::new(bs as u32, size);
        let v: Vec<ExtBlockRange> = ranges
            .iter()
            .map(|(l, p, n, z)| ExtBlockRange::new(*l, *p, *n, if *z { ExtBlockRangeType::Sparse } else { ExtBlockRangeType::InFile }))
            .collect();
        if f.open(&s, blocks, &v).is_err() {
            return "error".into();
        }
        actual(&mut f, &ops)
    });
}
fn put_entry(d: &mut Img, kind: u64, at: u64, n: u64, value: u32, upper: u32) {
    let v = match kind {
        12 => {
            let o = at + n + n / 2;
            let w = d.byte(o) as u32 | (d.byte(o + 1) as u32) << 8;
            let w = if n % 2 == 0 { w & 0xf000 | value } else { w & 15 | value << 4 };
            d.over.push((o, vec![w as u8, (w >> 8) as u8]));
            return;
        }
        16 => (value as u16).to_le_bytes().to_vec(),
        _ => (value | upper << 28).to_le_bytes().to_vec(),
    };
    d.over.push((at + n * (kind / 8), v));
}
fn fat(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let bs = *r.pick(&[4u64, 16, 512, 1024, 1024, 1 << 20, 1 << 26]);
    let kind = *r.pick(&[12u64, 16, 32]);
    let top: u32 = match kind {
        12 => 0xff0,
        16 => 0xfff0,
        _ => 0x0fff_fff0,
    };
    let entries = match r.below(4) {
        0 => r.range(64, top as u64),
        1 => top as u64,
        _ => r.range(4, 60),
    };
    let at = r.range(0, 3) * 16;
    let first = if r.below(8) == 0 { r.range(1 << 30, 1 << 50) } else { at + 400 + entries * 4 };
    let clusters = if entries < 64 { r.range(entries.min(4), entries) } else { entries };
    let image_size = first + clusters * bs - r.below(2) * r.below(bs);
    // a random order of the clusters of the file, then what ends it
    let mut all: Vec<u32> = (2..clusters as u32).take(60).collect();
    if entries >= 64 {
        all = (0..20).map(|_| r.range(2, clusters - 1) as u32).collect();
        for k in 1..8 {
            all.push(clusters as u32 - k);
        }
        all.sort();
        all.dedup();
    }
    let mut chain: Vec<u32> = vec![];
    let n = match r.below(4) {
        0 => r.below(3),
        1 => all.len() as u64,
        _ => r.below(all.len() as u64 + 1),
    };
    let ordered = r.below(3) == 0;
    for _ in 0..n.min(all.len() as u64) {
        let k = if ordered { 0 } else { r.below(all.len() as u64) as usize };
        chain.push(all.remove(k));
    }
    let mut im = Img::new(image_size, most(r));
    // a read of an entry of the table does not retry
    if im.most < 4 {
        im.most = 4;
    }
    let mut end = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => top,
        3 => top + 7,
        _ => top + 8 + r.below(8) as u32,
    };
    // a chain that comes back, or leaves the table
    let mut bad = false;
    if !chain.is_empty() {
        match r.below(16) {
            0 => {
                end = chain[r.below(chain.len() as u64) as usize];
                bad = true;
            }
            1 => {
                end = entries as u32 + r.below(4) as u32;
                bad = end < top;
            }
            _ => {}
        }
    }
    let upper = r.below(16) as u32;
    for i in 0..chain.len() {
        let next = chain.get(i + 1).copied().unwrap_or(end);
        put_entry(&mut im, kind, at, chain[i] as u64, next, upper);
    }
    let size = match r.below(4) {
        0 => chain.len() as u64 * bs,
        1 => r.below(chain.len() as u64 * bs + bs),
        _ => (chain.len() as u64 * bs).saturating_sub(r.below(bs)),
    };
    // a chain longer than the file does not open
    if (chain.len() as u64) > size.div_ceil(bs) {
        bad = true;
    }
    let start = chain.first().copied().unwrap_or(end);
    let ops = script(r, size);
    let map = |o: u64| match chain.get((o / bs) as usize) {
        Some(c) => B::At(first + (*c as u64 - 2) * bs + o % bs),
        None => B::Missing,
    };
    let exp = if bad { "error".to_string() } else { expect(&map, &im, size, &ops) };
    let inp = format!(
        "FAT-{} table at {} of {} entries with chain {:?}, cluster 2 at {} cluster size {}, file size {} first cluster {} seeks and reads {:?}, image of {} bytes (byte i is (7*i+i/251+i/2^31+3)|1 but in the table) that delivers at most {} at once",
        kind, at, entries, chain.iter().chain([&end]).collect::<Vec<_>>(), first, bs, size, start, ops, image_size, im.most
    );
    ctx.check("FatBlockStream", &inp, &exp, || {
        let s: DataStreamReference = im.reference();
        let f = match kind {
            12 => FatFormat::Fat12,
            16 => FatFormat::Fat16,
            _ => FatFormat::Fat32,
        };
        let t = Arc::new(FatBlockAllocationTable::new(&f, at, entries as u32, first, bs as u32));
        let mut f = FatBlockStream::new(bs as u32, size as u32);
        if f.open(&s, &t, start).is_err() {
            return "error".into();
        }
        actual(&mut f, &ops)
    });
}
fn ntfs(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut cs = *r.pick(&[4u64, 16, 512, 4096]);
    let mut in_image = r.range(1, 40);
    if r.below(6) == 0 {
        cs = *r.pick(&[1024u64, 65536, 1 << 21, 1 << 31]);
        in_image = r.range(1, (1 << 62) / cs);
    }
    let image_size = in_image * cs - r.below(2) * r.below(cs);
    // groups of runs (block, blocks, sparse)
    let mut groups: Vec<(u64, u64, Vec<(u64, u64, bool)>)> = vec![];
    let mut vcn = 0;
    for _ in 0..*r.pick(&[0u64, 1, 1, 1, 2, 3]) {
        let first = vcn;
        let mut runs = vec![];
        for _ in 0..r.range(0, 6) {
            let n = match r.below(4) {
                0 => 1,
                1 => r.range(0, 300),
                _ => r.range(1, 6),
            };
            runs.push((r.below(image_size / cs + 2), n, r.below(4) == 0));
            vcn += n;
        }
        let last = if r.below(4) == 0 || vcn == 0 { u64::MAX } else { vcn - 1 };
        groups.push((first, last, runs));
    }
    let mut allocated = vcn * cs;
    let mut bad = false;
    match r.below(16) {
        0 => allocated += r.range(1, 3) * cs,
        1 => allocated -= allocated.min(r.below(cs)),
        2 if vcn > 1 => {
            allocated -= cs;
            bad = true;
        }
        3 if groups.len() > 1 && allocated > 0 => {
            groups[1].0 += 1;
            bad = true;
        }
        4 if !groups.is_empty() && groups[0].1 != u64::MAX && allocated > 0 => {
            groups[0].1 += 1;
            bad = true;
        }
        _ => {}
    }
    if allocated == 0 {
        bad = false;
    }
    let size = match r.below(4) {
        0 => allocated,
        1 => r.below(allocated + 1),
        2 => allocated + r.below(2) * r.below(2 * cs),
        _ => allocated - r.below(cs).min(allocated),
    };
    let valid = match r.below(3) {
        0 => size,
        1 => r.below(size + 1),
        _ => size + r.below(2) * r.below(2 * cs),
    };
    let compressed = r.below(6) == 0;
    let (s, v) = if compressed { (allocated, allocated) } else { (size, valid) };
    let ops = script(r, s);
    let map = |o: u64| {
        if o >= v {
            return B::Zero;
        }
        if allocated == 0 {
            return B::Missing;
        }
        let mut at = 0;
        for (_, _, runs) in &groups {
            for (b, n, sparse) in runs {
                if o >= at && o < at + n * cs {
                    return if *sparse { B::Zero } else { B::At(b * cs + o - at) };
                }
                at += n * cs;
            }
        }
        B::Missing
    };
    let im = Img::new(image_size, most(r));
    let exp = if bad { "error".to_string() } else { expect(&map, &im, s, &ops) };
    let inp = format!(
        "cluster size {} allocated size {} size {} valid size {} compressed {} image of {} bytes (byte i is (7*i+i/251+i/2^31+3)|1) that delivers at most {} at once, groups (first VCN, last VCN, runs (block, blocks, sparse)) {:?} seeks and reads {:?}",
        cs, allocated, size, valid, compressed, image_size, im.most, groups, ops
    );
    ctx.check("NtfsBlockStream", &inp, &exp, || {
        let st: DataStreamReference = im.reference();
        let mut a = NtfsMftAttribute::new();
        a.non_resident_flag = 1;
        a.data_flags = compressed as u16;
        a.allocated_data_size = allocated;
        a.data_size = size;
        a.valid_data_size = valid;
        for (first, last, runs) in &groups {
            let mut g = NtfsClusterGroup::new(*first, *last);
            for (b, n, sparse) in runs {
                let mut d = NtfsDataRun::new();
                d.block_number = *b;
                d.number_of_blocks = *n;
                d.run_type = if *sparse { NtfsDataRunType::Sparse } else { NtfsDataRunType::InFile };
                g.data_runs.push(d);
            }
            a.data_cluster_groups.push(g);
        }
        let mut f = NtfsBlockStream::new(cs as u32);
        if f.open(&st, &a).is_err() {
            return "error".into();
        }
        actual(&mut f, &ops)
    });
}
/// Ranges of a block tree, and what each offset gives.
fn tree(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let leaf = *r.pick(&[1u64, 4, 16]);
    let e = *r.pick(&[0u64, 1, 2, 3, 4, 16, 256]);
    let n = *r.pick(&[0u64, 1, 5, 16, 17, 64, 100, 300]);
    let data_size = n * leaf + r.below(2) * r.below(leaf);
    let mut ins: Vec<(u64, u64)> = vec![];
    for _ in 0..r.range(1, 12) {
        let a = r.below(n + 1);
        let b = match r.below(3) {
            0 => 1,
            1 => r.below(n + 2 - a.min(n)),
            _ => r.range(0, 9),
        };
        let odd = if r.below(20) == 0 { 1 } else { 0 };
        ins.push((a * leaf + odd * r.below(leaf), b * leaf));
    }
    let mut m: Vec<Option<usize>> = vec![None; data_size as usize];
    let mut exp = String::new();
    for (k, (a, b)) in ins.iter().enumerate() {
        let ok = a + b <= data_size && a % leaf == 0 && (0..*b).all(|i| m[(a + i) as usize].is_none());
        exp.push(if ok { '+' } else { '-' });
        if !ok {
            break;
        }
        for i in 0..*b {
            m[(a + i) as usize] = Some(k);
        }
    }
    if !exp.contains('-') {
        for x in &m {
            exp.push_str(&x.map_or(".".into(), |k| format!("{:x}", k)));
        }
        exp.push('.');
    }
    let inp = format!("data size {} elements per node {} leaf value size {} inserted (offset, size) {:?}", data_size, e, leaf, ins);
    ctx.check("BlockTree", &inp, &exp, || {
        let mut t: BlockTree<usize> = BlockTree::new(data_size, e, leaf);
        let mut s = String::new();
        for (k, (a, b)) in ins.iter().enumerate() {
            let ok = t.insert_value(*a, *b, k).is_ok();
            s.push(if ok { '+' } else { '-' });
            if !ok {
                return s;
            }
        }
        for o in 0..=data_size {
            s.push_str(&t.get_value(o).map_or(".".into(), |k| format!("{:x}", k)));
        }
        s
    });
}
pub fn c25(ctx: &mut Ctx) {
    while ctx.time_left() {
        tree(ctx);
        ext(ctx);
        fat(ctx);
        ntfs(ctx);
    }
}
