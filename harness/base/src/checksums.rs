use keramics_checksums::{Adler32Context, Crc32Context, ReversedCrc32Context};
use wit_common::{Ctx, hex};

fn adler(mut c: u32, d: &[u8]) -> u32 {
    if d.is_empty() {
        return c;
    }
    let (mut a, mut b) = ((c & 0xffff) as u64, (c >> 16) as u64);
    for x in d {
        a = (a + *x as u64) % 65521;
        b = (b + a) % 65521;
    }
    c = ((b as u32) << 16) | a as u32;
    c
}

fn cuts(ctx: &mut Ctx, n: usize) -> Vec<usize> {
    let k = ctx.rng.below(4) as usize;
    let mut v: Vec<usize> = (0..k)
        .map(|_| match ctx.rng.below(3) {
            0 => (5552 * (1 + ctx.rng.below(3) as usize)).min(n),
            _ => ctx.rng.below(n as u64 + 1) as usize,
        })
        .collect();
    v.sort();
    v.insert(0, 0);
    v.push(n);
    v
}

const SIZES: [usize; 24] = [
    0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 255, 256, 257, 5551, 5552, 5553, 5554, 11103, 11104, 11105, 11106, 16655, 16656, 16657,
];

pub fn c01(ctx: &mut Ctx) {
    let mut i = 0;
    while ctx.time_left() {
        let n = if i < SIZES.len() * 6 { SIZES[i % SIZES.len()] } else if i % 50 == 0 { ctx.rng.below(70000) as usize } else { ctx.rng.below(6000) as usize };
        i += 1;
        let data = match ctx.rng.below(3) {
            0 => vec![0xffu8; n],
            _ => ctx.rng.bytes(n),
        };
        let init = match ctx.rng.below(8) {
            0..=4 => 1u32,
            5 => 0,
            6 => 0xffffffff,
            _ => ctx.rng.next() as u32,
        };
        let cut = cuts(ctx, n);
        let mut e = init;
        for w in cut.windows(2) {
            e = adler(e, &data[w[0]..w[1]]);
        }
        let again = adler(init, &data);
        let input = format!("initial {:#x} data {} split at {:?}", init, hex(&data), cut);
        ctx.check("Adler32Context update/finalize, then the whole data again", &input, &format!("{:08x} {:08x} {:08x}", e, again, init), || {
            let mut c = Adler32Context::new(init);
            for w in cut.windows(2) {
                c.update(&data[w[0]..w[1]]);
            }
            let a = c.finalize();
            c.update(&data);
            let b = c.finalize();
            format!("{:08x} {:08x} {:08x}", a, b, c.finalize())
        });
    }
}

fn crc(poly: u32, mut c: u32, d: &[u8]) -> u32 {
    for x in d {
        c ^= (*x as u32) << 24;
        for _ in 0..8 {
            c = if c & 0x80000000 != 0 { poly ^ (c << 1) } else { c << 1 };
        }
    }
    c
}
fn rcrc(poly: u32, mut c: u32, d: &[u8]) -> u32 {
    for x in d {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { poly ^ (c >> 1) } else { c >> 1 };
        }
    }
    c
}

pub fn c02(ctx: &mut Ctx) {
    let mut i = 0;
    while ctx.time_left() {
        let n = if i < 512 { i % 70 } else if i % 100 == 0 { ctx.rng.below(70000) as usize } else { ctx.rng.below(600) as usize };
        i += 1;
        let data = if i % 16 == 3 && n > 0 { vec![(i / 16) as u8; n.min(3)] } else { ctx.rng.bytes(n) };
        let n = data.len();
        let poly = match ctx.rng.below(6) {
            0 | 1 => 0x04c11db7u32,
            2 => 0xedb88320,
            3 => 0x82f63b78,
            4 => 0x1edc6f41,
            _ => ctx.rng.next() as u32,
        };
        let init = match ctx.rng.below(8) {
            0..=4 => 0u32,
            5 => 0xffffffff,
            6 => 1,
            _ => ctx.rng.next() as u32,
        };
        let cut = cuts(ctx, n);
        let input = format!("polynomial {:#x} initial {:#x} data {} split at {:?}", poly, init, hex(&data), cut);
        let e = crc(poly, init ^ 0xffffffff, &data) ^ 0xffffffff;
        ctx.check("Crc32Context update/finalize twice", &input, &format!("{:08x} {:08x} {:08x}", e, e, init), || {
            let mut c = Crc32Context::new(poly, init);
            for w in cut.windows(2) {
                c.update(&data[w[0]..w[1]]);
            }
            let a = c.finalize();
            c.update(&data);
            let b = c.finalize();
            format!("{:08x} {:08x} {:08x}", a, b, c.finalize())
        });
        let e = rcrc(poly, init ^ 0xffffffff, &data) ^ 0xffffffff;
        ctx.check("ReversedCrc32Context update/finalize twice", &input, &format!("{:08x} {:08x} {:08x}", e, e, init), || {
            let mut c = ReversedCrc32Context::new(poly, init);
            for w in cut.windows(2) {
                c.update(&data[w[0]..w[1]]);
            }
            let a = c.finalize();
            c.update(&data);
            let b = c.finalize();
            format!("{:08x} {:08x} {:08x}", a, b, c.finalize())
        });
    }
}
