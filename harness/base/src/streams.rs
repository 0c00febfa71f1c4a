use keramics_core::{DataStream, FakeDataStream};
use std::io::SeekFrom;
use wit_common::{Ctx, hex};

/// The oracle: data, cut or zero-filled to a size, with a position.
struct Model {
    data: Vec<u8>,
    size: u64,
    pos: u64,
}
impl Model {
    fn read(&mut self, buf: &mut [u8]) -> usize {
        let mut n = 0;
        for b in buf.iter_mut() {
            if self.pos >= self.size {
                break;
            }
            *b = if self.pos < self.data.len() as u64 { self.data[self.pos as usize] } else { 0 };
            self.pos += 1;
            n += 1;
        }
        n
    }
    fn seek(&mut self, p: SeekFrom) -> Option<u64> {
        let t: i128 = match p {
            SeekFrom::Start(o) => o as i128,
            SeekFrom::Current(o) => self.pos as i128 + o as i128,
            SeekFrom::End(o) => self.size as i128 + o as i128,
        };
        if t < 0 || t > u64::MAX as i128 {
            return None;
        }
        self.pos = t as u64;
        Some(self.pos)
    }
}

#[derive(Clone, Debug)]
enum Op {
    Size,
    Read(usize),
    ReadAt(usize, SeekFrom),
    Exact(usize),
    ExactAt(usize, SeekFrom),
    Seek(SeekFrom),
}

pub fn c15(ctx: &mut Ctx) {
    while ctx.time_left() {
        let n = ctx.rng.below(40) as usize;
        let data: Vec<u8> = (0..n).map(|_| 1 + ctx.rng.below(255) as u8).collect();
        let size = match ctx.rng.below(6) {
            0 => n as u64,
            1 => ctx.rng.below(n as u64 + 1),
            2 => u64::MAX - ctx.rng.below(3),
            3 => (1u64 << 32) + ctx.rng.below(40),
            _ => n as u64 + ctx.rng.below(60),
        };
        let seek = |ctx: &mut Ctx| -> SeekFrom {
            let near = match ctx.rng.below(4) {
                0 => size as i128,
                1 => n as i128,
                _ => 0,
            } + ctx.rng.below(24) as i128 - 8;
            match ctx.rng.below(3) {
                0 => SeekFrom::Start(near.clamp(0, u64::MAX as i128) as u64),
                1 => SeekFrom::End((near - size as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64),
                _ => SeekFrom::Current(match ctx.rng.below(8) {
                    0 => i64::MAX,
                    1 => i64::MIN,
                    _ => ctx.rng.below(60) as i64 - 30,
                }),
            }
        };
        let k = ctx.rng.range(1, 6);
        let ops: Vec<Op> = (0..k)
            .map(|_| {
                let m = match ctx.rng.below(4) {
                    0 => 0,
                    _ => ctx.rng.below(70) as usize,
                };
                match ctx.rng.below(6) {
                    0 => Op::Size,
                    1 => Op::Read(m),
                    2 => Op::ReadAt(m, seek(ctx)),
                    3 => Op::Exact(m),
                    4 => Op::ExactAt(m, seek(ctx)),
                    _ => Op::Seek(seek(ctx)),
                }
            })
            .collect();
        let mut m = Model { data: data.clone(), size, pos: 0 };
        let mut exp = String::new();
        for o in &ops {
            exp.push_str(&match o {
                Op::Size => format!("{} ", m.size),
                Op::Read(n) => {
                    let mut b = vec![0xa5; *n];
                    let r = m.read(&mut b);
                    format!("{} {} ", r, hex(&b))
                }
                Op::ReadAt(n, p) => {
                    let mut b = vec![0xa5; *n];
                    match m.seek(*p) {
                        None => "error ".to_string(),
                        Some(_) => {
                            let r = m.read(&mut b);
                            format!("{} {} ", r, hex(&b))
                        }
                    }
                }
                Op::Exact(n) => {
                    let mut b = vec![0xa5; *n];
                    if m.read(&mut b) == *n { format!("ok {} ", hex(&b)) } else { "error ".to_string() }
                }
                Op::ExactAt(n, p) => {
                    let mut b = vec![0xa5; *n];
                    match m.seek(*p) {
                        None => "error ".to_string(),
                        Some(o) => {
                            if m.read(&mut b) == *n { format!("{} {} ", o, hex(&b)) } else { "error ".to_string() }
                        }
                    }
                }
                Op::Seek(p) => match m.seek(*p) {
                    None => "error ".to_string(),
                    Some(o) => format!("{} ", o),
                },
            });
        }
        let inp = format!("data {} size {} {:?}", hex(&data), size, ops);
        ctx.check("FakeDataStream", &inp, &exp, || {
            let mut s = FakeDataStream::new(&data, size);
            let mut out = String::new();
            for o in &ops {
                out.push_str(&match o {
                    Op::Size => format!("{} ", s.get_size().ok().unwrap()),
                    Op::Read(n) => {
                        let mut b = vec![0xa5; *n];
                        match s.read(&mut b) {
                            Ok(r) => format!("{} {} ", r, hex(&b)),
                            Err(_) => "error ".to_string(),
                        }
                    }
                    Op::ReadAt(n, p) => {
                        let mut b = vec![0xa5; *n];
                        match s.read_at_position(&mut b, *p) {
                            Ok(r) => format!("{} {} ", r, hex(&b)),
                            Err(_) => "error ".to_string(),
                        }
                    }
                    Op::Exact(n) => {
                        let mut b = vec![0xa5; *n];
                        match s.read_exact(&mut b) {
                            Ok(_) => format!("ok {} ", hex(&b)),
                            Err(_) => "error ".to_string(),
                        }
                    }
                    Op::ExactAt(n, p) => {
                        let mut b = vec![0xa5; *n];
                        match s.read_exact_at_position(&mut b, *p) {
                            Ok(o) => format!("{} {} ", o, hex(&b)),
                            Err(_) => "error ".to_string(),
                        }
                    }
                    Op::Seek(p) => match s.seek(*p) {
                        Ok(o) => format!("{} ", o),
                        Err(_) => "error ".to_string(),
                    },
                });
            }
            out
        });
    }
}
