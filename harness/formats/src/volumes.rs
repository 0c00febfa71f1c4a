use keramics_core::{DataStream, DataStreamReference, open_fake_data_stream};
use keramics_formats::apm::ApmVolumeSystem;
use keramics_formats::gpt::GptVolumeSystem;
use keramics_formats::mbr::MbrVolumeSystem;
use std::io::SeekFrom;
use wit_common::{Ctx, Rng, hex};

/// A sparse image, described completely by its size and the pieces that were put in it.
struct Image {
    d: Vec<u8>,
    put: Vec<(usize, usize)>,
}
impl Image {
    fn new(size: usize) -> Self {
        Image { d: vec![0; size], put: vec![] }
    }
    fn put(&mut self, o: usize, b: &[u8]) {
        if o + b.len() <= self.d.len() {
            self.d[o..o + b.len()].copy_from_slice(b);
            self.put.push((o, b.len()));
        }
    }
    fn fill(&mut self, r: &mut Rng) {
        for (i, x) in self.d.iter_mut().enumerate() {
            *x = (i as u64 * 7 + i as u64 / 251 + r.0) as u8;
        }
    }
    fn show(&self) -> String {
        let mut s = format!("image of {} bytes", self.d.len());
        for (o, n) in &self.put {
            s.push_str(&format!(" @{}:{}", o, hex(&self.d[*o..*o + *n])));
        }
        s
    }
    fn stream(&self) -> DataStreamReference {
        open_fake_data_stream(&self.d)
    }
}
fn le32(d: &[u8], o: usize) -> u64 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as u64
}
fn le64(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
fn be32(d: &[u8], o: usize) -> u64 {
    u32::from_be_bytes(d[o..o + 4].try_into().unwrap()) as u64
}
fn crc32(parts: &[&[u8]]) -> u32 {
    let mut c = !0u32;
    for b in parts.iter().flat_map(|x| x.iter()) {
        c ^= *b as u32;
        for _ in 0..8 {
            c = c >> 1 ^ if c & 1 == 1 { 0xedb88320 } else { 0 };
        }
    }
    !c
}
/// The bytes at an offset, None if they are not all in the image.
fn at(d: &[u8], o: u64, n: u64) -> Option<&[u8]> {
    d.get(usize::try_from(o).ok()?..usize::try_from(o.checked_add(n)?).ok()?)
}

// ---- MBR: an oracle of the partitions ----
#[derive(Clone, Debug)]
struct Part {
    index: usize,
    offset: u64,
    size: u64,
    kind: String,
}
fn signed(s: &[u8]) -> bool {
    s[510] == 0x55 && s[511] == 0xaa
}
fn extended(t: u8) -> bool {
    t == 5 || t == 15
}
struct Entry {
    index: usize,
    base: u64,
    flags: u8,
    kind: u8,
    lba: u64,
    count: u64,
}
fn entry(s: &[u8], k: usize, index: usize, base: u64) -> Entry {
    let o = 446 + 16 * k;
    Entry { index, base, flags: s[o], kind: s[o + 4], lba: le32(s, o + 8), count: le32(s, o + 12) }
}
/// The sector size, the disk identity and the partitions; None where reading fails.
fn mbr(d: &[u8], set: u64) -> Option<(u64, u64, Vec<Part>)> {
    let s = at(d, 0, 512)?;
    if !signed(s) {
        return None;
    }
    let first: Vec<Entry> = (0..4).map(|k| entry(s, k, k, 0)).collect();
    let mut b = set;
    if b == 0 {
        if let Some(e) = first.iter().find(|e| extended(e.kind)) {
            b = [512, 1024, 2048, 4096].into_iter().find(|x| at(d, e.lba * x + 510, 2).is_some_and(|y| y == [0x55, 0xaa])).unwrap_or(0);
            if b == 0 {
                return None;
            }
        }
    }
    let mut all: Vec<Entry> = vec![];
    let mut start = 0;
    for e in first {
        if extended(e.kind) {
            if start != 0 {
                return None;
            }
            start = e.lba * b;
        } else if e.kind != 0 {
            all.push(e);
        }
    }
    let mut at_offset = start;
    let mut index = 4;
    while at_offset != 0 {
        if index >= 1024 {
            return None;
        }
        let s = at(d, at_offset, 512)?;
        if !signed(s) {
            return None;
        }
        let mut next = 0;
        let mut n = 0;
        for k in 0..4 {
            let e = entry(s, k, index + n, at_offset);
            if e.kind == 0 {
                continue;
            }
            n += 1;
            if e.kind == 5 {
                if next != 0 {
                    return None;
                }
                next = start + e.lba * b;
            } else {
                all.push(e);
            }
        }
        at_offset = next;
        index += 4;
    }
    if b == 0 {
        if let Some(e) = all.iter().max_by_key(|e| e.lba) {
            for x in [512, 1024, 2048, 4096] {
                if (e.lba + e.count) * x <= d.len() as u64 {
                    b = x;
                }
            }
        }
    }
    let parts = all.iter().map(|e| Part { index: e.index, offset: e.base + e.lba * b, size: e.count * b, kind: format!("{:02x} flags {:02x}", e.kind, e.flags) }).collect();
    Some((b, le32(s, 440), parts))
}
fn show(x: Option<(u64, String, Vec<Part>)>) -> String {
    match x {
        None => "error".into(),
        Some((b, id, p)) => {
            let mut s = format!("{} bytes per sector, id {}, {} partitions", b, id, p.len());
            for x in &p {
                if b == 0 {
                    s.push_str("; error");
                } else {
                    s.push_str(&format!("; #{} {} size {} type {}", x.index, x.offset, x.size, x.kind));
                }
            }
            s
        }
    }
}
fn put_entry(im: &mut Image, base: usize, k: usize, flags: u8, kind: u8, lba: u64, count: u64) {
    let mut e = [0u8; 16];
    e[0] = flags;
    e[1] = 0xfe;
    e[4] = kind;
    e[8..12].copy_from_slice(&(lba as u32).to_le_bytes());
    e[12..16].copy_from_slice(&(count as u32).to_le_bytes());
    im.put(base + 446 + 16 * k, &e);
}
const KINDS: [u8; 7] = [1, 6, 7, 0x0b, 0x82, 0x83, 0xee];
fn mbr_image(r: &mut Rng) -> (Image, u64) {
    let b = *r.pick(&[512usize, 512, 512, 1024, 2048, 4096]);
    let sectors = r.range(8, 48) as usize;
    let mut im = Image::new(b * sectors + if r.below(8) == 0 { 512 } else { 0 });
    im.put(440, &(r.next() as u32).to_le_bytes());
    im.put(510, &[0x55, if r.below(40) == 0 { 0 } else { 0xaa }]);
    let ext = if r.below(3) > 0 { r.below(4) as usize } else { 9 };
    let mut at = 1u64;
    let mut sector0 = 0u64;
    for k in 0..4 {
        if k == ext {
            sector0 = at + r.below(3);
            put_entry(&mut im, 0, k, 0, if r.below(3) == 0 { 15 } else { 5 }, sector0, r.range(1, 40));
            at = sector0 + 20;
        } else if r.below(3) > 0 || r.below(60) == 0 {
            let n = r.range(0, 6);
            put_entry(&mut im, 0, k, *r.pick(&[0, 0x80]), *r.pick(&KINDS), at, n);
            at += n + r.range(1, 3);
        }
    }
    if r.below(30) == 0 {
        put_entry(&mut im, 0, r.below(4) as usize, 0, *r.pick(&[5, 15]), r.below(6), 3);
    }
    if ext < 4 {
        let mut o = sector0;
        let links = r.range(1, 6);
        for i in 0..links {
            im.put(o as usize * b + 510, &[0x55, if r.below(60) == 0 { 0 } else { 0xaa }]);
            let last = i + 1 == links;
            let next = o + r.range(1, 3);
            let mut k = 0;
            if r.below(6) > 0 {
                put_entry(&mut im, o as usize * b, k, 0, *r.pick(&KINDS), r.range(1, 4), r.range(0, 5));
                k += 1;
            }
            if r.below(8) == 0 {
                k += 1;
            }
            if !last {
                put_entry(&mut im, o as usize * b, k, 0, 5, next - sector0, 3);
                k += 1;
            } else if r.below(12) == 0 {
                // a loop
                put_entry(&mut im, o as usize * b, k, 0, 5, r.below(3), 3);
                k += 1;
            }
            if k < 4 && r.below(10) == 0 {
                put_entry(&mut im, o as usize * b, k, 0, *r.pick(&[5, 15, 7]), r.below(9), r.below(9));
            }
            o = next;
        }
    }
    if r.below(10) == 0 {
        let k = r.below(4) as usize;
        put_entry(&mut im, 0, k, 0, 7, r.next() & 0xffff_ffff, r.next() & 0xffff_ffff);
    }
    let set = if r.below(3) == 0 { *r.pick(&[512u64, 1024, 2048, 4096]) } else if r.below(3) == 0 { b as u64 } else { 0 };
    (im, set)
}
fn check_mbr(ctx: &mut Ctx) {
    let (im, set) = mbr_image(&mut ctx.rng);
    let exp = show(mbr(&im.d, set).map(|(b, i, p)| (b, i.to_string(), p)));
    let inp = format!("{} sector size set to {}", im.show(), set);
    let first = le32(&im.d, 440);
    ctx.check("MbrVolumeSystem::read_data_stream", &inp, &exp, || {
        let _ = first;
        let mut v = MbrVolumeSystem::new();
        if set != 0 && v.set_bytes_per_sector(set as u16).is_err() {
            return "sector size not accepted".into();
        }
        if v.read_data_stream(&im.stream()).is_err() {
            return "error".into();
        }
        let mut s = format!("{} bytes per sector, id {}, {} partitions", v.bytes_per_sector, v.disk_identity, v.get_number_of_partitions());
        for i in 0..v.get_number_of_partitions() {
            match v.get_partition_by_index(i) {
                Ok(p) => s.push_str(&format!("; #{} {} size {} type {:02x} flags {:02x}", p.entry_index, p.offset, p.size, p.partition_type, p.flags)),
                Err(_) => s.push_str("; error"),
            }
        }
        if v.get_partition_by_index(v.get_number_of_partitions()).is_ok() {
            s.push_str("; and one more");
        }
        s
    });
}

// ---- GPT ----
fn uuid(b: &[u8]) -> String {
    let h = |r: &[u8]| hex(r);
    let rev = |r: &[u8]| hex(&r.iter().rev().cloned().collect::<Vec<u8>>());
    format!("{}-{}-{}-{}-{}", rev(&b[0..4]), rev(&b[4..6]), rev(&b[6..8]), h(&b[8..10]), h(&b[10..16]))
}
fn header_ok(d: &[u8], o: u64) -> bool {
    at(d, o, 92).is_some_and(|s| {
        let sum = le32(s, 16) as u32;
        s[..8] == *b"EFI PART" && le32(s, 8) == 0x10000 && le32(s, 12) == 92 && (sum == 0 || sum == crc32(&[&s[..16], &[0; 4], &s[20..92]]))
    })
}
fn gpt(d: &[u8], set: u64) -> Option<(u64, String, Vec<Part>)> {
    let b = if set != 0 { set } else { [512, 4096].into_iter().find(|x| header_ok(d, *x))? };
    if !header_ok(d, b) {
        return None;
    }
    let s = at(d, b, 92)?;
    let h = le64(s, 32) as u128 * b as u128;
    if h != 0 && !(u64::try_from(h).is_ok_and(|h| header_ok(d, h))) && !header_ok(d, (d.len() as u64).checked_sub(b)?) {
        return None;
    }
    let (n, size) = (le32(s, 80), le32(s, 84));
    if size != 128 || n > 32 * b / 128 {
        return None;
    }
    let o = u64::try_from(le64(s, 72) as u128 * b as u128).unwrap_or(u64::MAX);
    let t = if n == 0 { &[][..] } else { at(d, o, 128 * n)? };
    if le32(s, 88) != 0 && le32(s, 88) as u32 != crc32(&[t]) {
        return None;
    }
    let mut parts = vec![];
    for i in 0..n as usize {
        let e = &t[128 * i..128 * i + 128];
        if e[..16] == [0; 16] {
            continue;
        }
        let (x, y) = (le64(e, 32), le64(e, 40));
        if x < le64(s, 40) || y < x {
            return None;
        }
        let end = (y as u128 + 1) * b as u128;
        let kind = if end > u64::MAX as u128 { "out of bounds".into() } else { format!("{} {}", uuid(&e[..16]), uuid(&e[16..32])) };
        parts.push(Part { index: i, offset: (x as u128 * b as u128) as u64, size: (end - x as u128 * b as u128) as u64, kind });
    }
    Some((b, uuid(&s[56..72]), parts))
}
fn gpt_header(r: &mut Rng, blocks: u64, n: u64, table: u64, backup: u64, sum: u32) -> Vec<u8> {
    let mut h = vec![0u8; 92];
    h[..8].copy_from_slice(b"EFI PART");
    h[8..12].copy_from_slice(&0x10000u32.to_le_bytes());
    h[12] = 92;
    h[24] = 1;
    h[32..40].copy_from_slice(&backup.to_le_bytes());
    h[40..48].copy_from_slice(&table.to_le_bytes());
    h[48..56].copy_from_slice(&(blocks - 2).to_le_bytes());
    if r.below(10) > 0 {
        let id = r.bytes(16);
        h[56..72].copy_from_slice(&id);
    }
    h[72..80].copy_from_slice(&table.to_le_bytes());
    h[80..84].copy_from_slice(&(n as u32).to_le_bytes());
    h[84..88].copy_from_slice(&128u32.to_le_bytes());
    h[88..92].copy_from_slice(&sum.to_le_bytes());
    match r.below(30) {
        0 => h[84] = 127,
        1 => h[40] = h[40].wrapping_add(4),
        2 => h[40] = 0,
        3 => h[80] = h[80].wrapping_add(1),
        4 => h[72..80].copy_from_slice(&r.next().to_le_bytes()),
        5 => h[9] = 1,
        6 => h[12] = 93,
        7 => h[82] = 1,
        8 => h[88..92].fill(0),
        _ => {}
    }
    let c = crc32(&[&h]);
    h[16..20].copy_from_slice(&c.to_le_bytes());
    match r.below(24) {
        0 => h[16..20].fill(0),
        1 => h[16 + r.below(76) as usize] ^= 1 << r.below(8),
        _ => {}
    }
    h
}
fn gpt_image(r: &mut Rng) -> (Image, u64) {
    let b = *r.pick(&[512usize, 512, 4096]);
    let blocks = r.range(10, 30);
    let mut im = Image::new(b * blocks as usize);
    let most = (32 * b / 128) as u64;
    let n = *r.pick(&[0, 1, 2, 3, 4, 5, 8, most.min(16), most, most + 1]);
    let n = if 2 * b as u64 + 128 * n > im.d.len() as u64 { 4 } else { n };
    let mut t = vec![0u8; 128 * n as usize];
    let first = r.range(3, 8);
    let mut from = first;
    for i in 0..n as usize {
        if r.below(if n > 16 { 20 } else { 3 }) == 0 {
            continue;
        }
        let e = &mut t[128 * i..128 * i + 128];
        if r.below(10) > 0 {
            e[..16].copy_from_slice(&r.bytes(16));
        } else {
            e[r.below(16) as usize] = 1;
        }
        e[16..32].copy_from_slice(&r.bytes(16));
        let (mut x, mut y) = (from, from + r.below(4));
        match r.below(60) {
            0 => x = y + 1,
            1 => x = 1,
            2 => y = *r.pick(&[u64::MAX, u64::MAX / 512, u64::MAX / 512 - 1, u64::MAX / 4096]),
            3 => x = 0,
            _ => {}
        }
        e[32..40].copy_from_slice(&x.to_le_bytes());
        e[40..48].copy_from_slice(&y.to_le_bytes());
        e[48] = r.next() as u8;
        from += r.below(3);
    }
    let sum = crc32(&[&t]);
    let last = blocks - 1;
    let backup = *r.pick(&[last, last, last, last, 0, 3, blocks + 5, u64::MAX / 8]);
    let h = gpt_header(r, blocks, n, 2, backup, sum);
    im.put(if r.below(20) == 0 { 512 } else { b }, &h);
    im.put(2 * b, &t);
    if r.below(20) > 0 {
        let h = gpt_header(r, blocks, n, last - 2, 1, sum);
        im.put(last as usize * b, &h);
    }
    if n > 0 && r.below(20) == 0 {
        let i = r.below(128 * n) as usize;
        let x = im.d[2 * b + i] ^ 1 << r.below(8);
        im.put(2 * b + i, &[x]);
    }
    if r.below(12) == 0 {
        let k = r.below(im.d.len() as u64) as usize;
        im.d.truncate(k);
        im.put.retain(|(o, n)| o + n <= k);
    }
    let set = if r.below(4) == 0 { *r.pick(&[512u64, 4096]) } else { 0 };
    (im, set)
}
fn check_gpt(ctx: &mut Ctx) {
    let (im, set) = gpt_image(&mut ctx.rng);
    let mut exp = show(gpt(&im.d, set));
    // a partition that ends behind 2^64 is not opened
    exp = exp.split("; ").map(|x| if x.ends_with("out of bounds") { "error" } else { x }).collect::<Vec<_>>().join("; ");
    let inp = format!("{} sector size set to {}", im.show(), set);
    ctx.check("GptVolumeSystem::read_data_stream", &inp, &exp, || {
        let mut v = GptVolumeSystem::new();
        if set != 0 && v.set_bytes_per_sector(set as u16).is_err() {
            return "sector size not accepted".into();
        }
        if v.read_data_stream(&im.stream()).is_err() {
            return "error".into();
        }
        let mut s = format!("{} bytes per sector, id {}, {} partitions", v.bytes_per_sector, v.disk_identifier.to_string(), v.get_number_of_partitions());
        for i in 0..v.get_number_of_partitions() {
            match v.get_partition_by_index(i) {
                Ok(p) => s.push_str(&format!("; #{} {} size {} type {} {}", p.entry_index, p.offset, p.size, p.type_identifier.to_string(), p.identifier.to_string())),
                Err(_) => s.push_str("; error"),
            }
        }
        if v.get_partition_by_index(v.get_number_of_partitions()).is_ok() {
            s.push_str("; and one more");
        }
        s
    });
}

// ---- APM ----
fn name(b: &[u8]) -> Vec<u8> {
    b.iter().cloned().take_while(|x| *x != 0).collect()
}
fn apm(d: &[u8]) -> Option<(u64, String, Vec<Part>)> {
    let first = at(d, 512, 512)?;
    if first[..2] != *b"PM" || name(&first[48..80]) != b"Apple_partition_map" {
        return None;
    }
    let n = be32(first, 4);
    let mut parts = vec![];
    for k in 2..=n {
        let s = at(d, 512 * k, 512)?;
        if s[..2] != *b"PM" || be32(s, 4) != n {
            return None;
        }
        parts.push(Part { index: k as usize - 2, offset: be32(s, 8) * 512, size: be32(s, 12) * 512, kind: format!("{} {} {:x}", hex(&name(&s[48..80])), hex(&name(&s[16..48])), be32(s, 88)) });
    }
    Some((512, "0".into(), parts))
}
fn apm_image(r: &mut Rng) -> Image {
    let n = *r.pick(&[0u64, 1, 2, 3, 4, 9]);
    let mut im = Image::new(512 * (n as usize + r.range(1, 20) as usize));
    for k in 1..=n.max(1) {
        let mut s = r.bytes(512);
        s[..2].copy_from_slice(if r.below(60) == 0 { b"PN" } else { b"PM" });
        let m = if r.below(40) == 0 { r.below(6) } else { n };
        s[4..8].copy_from_slice(&(m as u32).to_be_bytes());
        let (x, y) = if r.below(10) == 0 { (r.next() as u32, r.next() as u32) } else { (r.below(20) as u32, r.below(20) as u32) };
        s[8..12].copy_from_slice(&x.to_be_bytes());
        s[12..16].copy_from_slice(&y.to_be_bytes());
        if r.below(3) > 0 {
            s[16..48].fill(0);
            s[16..24].copy_from_slice(b"MyHFS \xca1");
        }
        let t: &[u8] = if k == 1 { b"Apple_partition_map" } else { b"Apple_HFS" };
        if k == 1 || r.below(3) > 0 {
            s[48..80].fill(0);
            s[48..48 + t.len()].copy_from_slice(t);
            match r.below(30) {
                0 => s[48 + t.len()] = b's',
                1 => s[48 + t.len() - 1] = 0,
                2 => s[79] = 7,
                _ => {}
            }
        }
        im.put(512 * k as usize, &s);
    }
    im
}
fn check_apm(ctx: &mut Ctx) {
    let im = apm_image(&mut ctx.rng);
    let exp = show(apm(&im.d));
    let inp = im.show();
    ctx.check("ApmVolumeSystem::read_data_stream", &inp, &exp, || {
        let mut v = ApmVolumeSystem::new();
        if v.read_data_stream(&im.stream()).is_err() {
            return "error".into();
        }
        let mut s = format!("{} bytes per sector, id 0, {} partitions", v.bytes_per_sector, v.get_number_of_partitions());
        for i in 0..v.get_number_of_partitions() {
            match v.get_partition_by_index(i) {
                Ok(p) => s.push_str(&format!("; #{} {} size {} type {} {} {:x}", i, p.offset, p.size, hex(&p.type_identifier.elements), hex(&p.name.elements), p.status_flags)),
                Err(_) => s.push_str("; error"),
            }
        }
        if v.get_partition_by_index(v.get_number_of_partitions()).is_ok() {
            s.push_str("; and one more");
        }
        s
    });
}
pub fn c24(ctx: &mut Ctx) {
    while ctx.time_left() {
        match ctx.rng.below(3) {
            0 => check_mbr(ctx),
            1 => check_gpt(ctx),
            _ => check_apm(ctx),
        }
    }
}

// ---- reading partitions ----
pub fn script(r: &mut Rng, size: u64) -> Vec<(SeekFrom, usize)> {
    let near = |r: &mut Rng, x: u64| x.saturating_add(r.below(5)).saturating_sub(2) as i128;
    let mut p: i128 = 0;
    (0..r.range(1, 8))
        .map(|_| {
            let s = match r.below(12) {
                0..=3 => SeekFrom::Start(r.below(size + 3)),
                4 => SeekFrom::Start(near(r, size) as u64),
                5 => SeekFrom::Start(*r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1])),
                6 | 7 => SeekFrom::End(-(r.below(size + 2) as i64)),
                8 => SeekFrom::End(*r.pick(&[1, i64::MAX, i64::MIN, 0])),
                9 => SeekFrom::Current(*r.pick(&[0, 1, -1, i64::MAX, i64::MIN])),
                _ => {
                    let t = r.below(size + 2) as i128;
                    SeekFrom::Current((t - p) as i64)
                }
            };
            let n = match r.below(6) {
                0 => 0,
                1 => 1,
                2 => r.below((2 * size + 2).min(60000)) as usize,
                3 => size.min(60000) as usize,
                _ => r.below(700) as usize,
            };
            p = r.below(size + 1) as i128;
            (s, n)
        })
        .collect()
}
/// What the seeks and reads on a stream with this content give.
pub fn expect(content: &[u8], size: u64, ops: &[(SeekFrom, usize)]) -> String {
    let mut p: u64 = 0;
    let mut s = format!("size {}", size);
    for (seek, n) in ops {
        let t: i128 = match seek {
            SeekFrom::Start(x) => *x as i128,
            SeekFrom::End(x) => size as i128 + *x as i128,
            SeekFrom::Current(x) => p as i128 + *x as i128,
        };
        match u64::try_from(t) {
            Ok(x) => {
                p = x;
                s.push_str(&format!("; at {}", p));
            }
            Err(_) => s.push_str("; error"),
        }
        let n = (*n as u64).min(size.saturating_sub(p));
        let a = p.min(content.len() as u64) as usize;
        let b = (p.saturating_add(n)).min(content.len() as u64) as usize;
        s.push_str(&format!(" {}", hex(&content[a..b])));
        p += (b - a) as u64;
    }
    s
}
/// The same by the real stream; the part of the buffer behind what was read has to stay as it was.
pub fn actual(d: &mut dyn DataStream, ops: &[(SeekFrom, usize)]) -> String {
    let mut s = match d.get_size() {
        Ok(x) => format!("size {}", x),
        Err(_) => return "error".into(),
    };
    for (seek, n) in ops {
        match d.seek(*seek) {
            Ok(x) => s.push_str(&format!("; at {}", x)),
            Err(_) => s.push_str("; error"),
        }
        let mut b = vec![0xa5u8; *n];
        match d.read(&mut b) {
            Ok(k) => {
                s.push_str(&format!(" {}", hex(&b[..k])));
                if b[k..].iter().any(|x| *x != 0xa5) {
                    s.push_str(" and more");
                }
            }
            Err(e) => {
                if std::env::var("KXDBG").is_ok() {
                    eprintln!("{}", e);
                }
                s.push_str(" error")
            }
        }
    }
    s
}
pub fn c23(ctx: &mut Ctx) {
    while ctx.time_left() {
        let which = ctx.rng.below(3);
        let r = &mut ctx.rng;
        let (sectors, b) = (r.range(12, 24), 512u64);
        let mut im = Image::new((sectors * b) as usize);
        im.fill(r);
        let start = r.range(6, sectors - 1);
        let count = match r.below(4) {
            0 => sectors - start,
            1 => r.range(1, 6),
            2 => 0,
            _ => r.range(1, sectors - start),
        };
        match which {
            0 => {
                im.put(0, &[0; 512]);
                put_entry(&mut im, 0, r.below(4) as usize, 0, 7, start, count);
                im.put(510, &[0x55, 0xaa]);
            }
            1 => {
                let count = count.max(1);
                let mut t = vec![0u8; 128];
                t[0] = 1;
                t[32..40].copy_from_slice(&start.to_le_bytes());
                t[40..48].copy_from_slice(&(start + count - 1).to_le_bytes());
                let mut h = vec![0u8; 92];
                h[..8].copy_from_slice(b"EFI PART");
                h[10] = 1;
                h[12] = 92;
                h[40] = 3;
                h[72] = 2;
                h[80] = 1;
                h[84] = 128;
                im.put(512, &h);
                im.put(1024, &t);
            }
            _ => {
                for k in 1..3u64 {
                    let mut s = vec![0u8; 512];
                    s[..2].copy_from_slice(b"PM");
                    s[7] = 2;
                    s[11] = start as u8;
                    s[15] = count as u8;
                    let t: &[u8] = if k == 1 { b"Apple_partition_map" } else { b"Apple_HFS" };
                    s[48..48 + t.len()].copy_from_slice(t);
                    im.put(512 * k as usize, &s);
                }
            }
        }
        let count = if which == 1 { count.max(1) } else { count };
        let ops = script(r, count * b);
        let lo = (start * b) as usize;
        let content = &im.d[lo..((start + count) * b).min(sectors * b) as usize];
        let exp = expect(content, count * b, &ops);
        let inp = format!("{} partition at {} size {} seeks and reads {:?}", im.show(), lo, count * b, ops);
        let what = ["MbrPartition", "GptPartition", "ApmPartition"][which as usize];
        ctx.check(what, &inp, &exp, || {
            let s = im.stream();
            match which {
                0 => {
                    let mut v = MbrVolumeSystem::new();
                    if v.set_bytes_per_sector(512).is_err() || v.read_data_stream(&s).is_err() {
                        return "error".into();
                    }
                    v.get_partition_by_index(0).map_or("no partition".into(), |mut p| actual(&mut p, &ops))
                }
                1 => {
                    let mut v = GptVolumeSystem::new();
                    if v.read_data_stream(&s).is_err() {
                        return "error".into();
                    }
                    v.get_partition_by_index(0).map_or("no partition".into(), |mut p| actual(&mut p, &ops))
                }
                _ => {
                    let mut v = ApmVolumeSystem::new();
                    if v.read_data_stream(&s).is_err() {
                        return "error".into();
                    }
                    v.get_partition_by_index(0).map_or("no partition".into(), |mut p| actual(&mut p, &ops))
                }
            }
        });
    }
}
