//! MD5 (RFC 1321) and SHA (FIPS 180-4) straight from the published descriptions.
// Round constants computed from the cube roots of the first 80 primes.
pub const K512: [u64; 80] = [
    0x428a2f98d728ae22,
    0x7137449123ef65cd,
    0xb5c0fbcfec4d3b2f,
    0xe9b5dba58189dbbc,
    0x3956c25bf348b538,
    0x59f111f1b605d019,
    0x923f82a4af194f9b,
    0xab1c5ed5da6d8118,
    0xd807aa98a3030242,
    0x12835b0145706fbe,
    0x243185be4ee4b28c,
    0x550c7dc3d5ffb4e2,
    0x72be5d74f27b896f,
    0x80deb1fe3b1696b1,
    0x9bdc06a725c71235,
    0xc19bf174cf692694,
    0xe49b69c19ef14ad2,
    0xefbe4786384f25e3,
    0x0fc19dc68b8cd5b5,
    0x240ca1cc77ac9c65,
    0x2de92c6f592b0275,
    0x4a7484aa6ea6e483,
    0x5cb0a9dcbd41fbd4,
    0x76f988da831153b5,
    0x983e5152ee66dfab,
    0xa831c66d2db43210,
    0xb00327c898fb213f,
    0xbf597fc7beef0ee4,
    0xc6e00bf33da88fc2,
    0xd5a79147930aa725,
    0x06ca6351e003826f,
    0x142929670a0e6e70,
    0x27b70a8546d22ffc,
    0x2e1b21385c26c926,
    0x4d2c6dfc5ac42aed,
    0x53380d139d95b3df,
    0x650a73548baf63de,
    0x766a0abb3c77b2a8,
    0x81c2c92e47edaee6,
    0x92722c851482353b,
    0xa2bfe8a14cf10364,
    0xa81a664bbc423001,
    0xc24b8b70d0f89791,
    0xc76c51a30654be30,
    0xd192e819d6ef5218,
    0xd69906245565a910,
    0xf40e35855771202a,
    0x106aa07032bbd1b8,
    0x19a4c116b8d2d0c8,
    0x1e376c085141ab53,
    0x2748774cdf8eeb99,
    0x34b0bcb5e19b48a8,
    0x391c0cb3c5c95a63,
    0x4ed8aa4ae3418acb,
    0x5b9cca4f7763e373,
    0x682e6ff3d6b2b8a3,
    0x748f82ee5defb2fc,
    0x78a5636f43172f60,
    0x84c87814a1f0ab72,
    0x8cc702081a6439ec,
    0x90befffa23631e28,
    0xa4506cebde82bde9,
    0xbef9a3f7b2c67915,
    0xc67178f2e372532b,
    0xca273eceea26619c,
    0xd186b8c721c0c207,
    0xeada7dd6cde0eb1e,
    0xf57d4f7fee6ed178,
    0x06f067aa72176fba,
    0x0a637dc5a2c898a6,
    0x113f9804bef90dae,
    0x1b710b35131c471b,
    0x28db77f523047d84,
    0x32caab7b40c72493,
    0x3c9ebe0a15c9bebc,
    0x431d67c49c100d4c,
    0x4cc5d4becb3e42b6,
    0x597f299cfc657e2a,
    0x5fcb6fab3ad6faec,
    0x6c44198c4a475817,
];
const H512: [u64; 8] = [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179];
const H224: [u32; 8] = [0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4];
const T: [u32; 64] = [0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501, 0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821, 0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8, 0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a, 0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70, 0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665, 0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1, 0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391];

fn pad(d: &[u8], block: usize, big: bool) -> Vec<u8> {
    let lf = block / 8;
    let mut v = d.to_vec();
    v.push(0x80);
    while v.len() % block != block - lf {
        v.push(0);
    }
    let bits = (d.len() as u128) * 8;
    if big {
        v.extend_from_slice(&bits.to_be_bytes()[16 - lf..]);
    } else {
        v.extend_from_slice(&bits.to_le_bytes()[..lf]);
    }
    v
}

pub fn md5(d: &[u8]) -> Vec<u8> {
    const S: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    for b in pad(d, 64, false).chunks(64) {
        let m: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        let [mut a, mut bb, mut c, mut dd] = h;
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => ((bb & c) | (!bb & dd), i),
                1 => ((dd & bb) | (!dd & c), (5 * i + 1) % 16),
                2 => (bb ^ c ^ dd, (3 * i + 5) % 16),
                _ => (c ^ (bb | !dd), (7 * i) % 16),
            };
            let f = f.wrapping_add(a).wrapping_add(T[i]).wrapping_add(m[g]);
            a = dd;
            dd = c;
            c = bb;
            bb = bb.wrapping_add(f.rotate_left(S[i / 16][i % 4]));
        }
        h = [h[0].wrapping_add(a), h[1].wrapping_add(bb), h[2].wrapping_add(c), h[3].wrapping_add(dd)];
    }
    h.iter().flat_map(|x| x.to_le_bytes()).collect()
}

pub fn sha1(d: &[u8]) -> Vec<u8> {
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    for b in pad(d, 64, true).chunks(64) {
        let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
        for t in 16..80 {
            w.push((w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1));
        }
        let [mut a, mut bb, mut c, mut dd, mut e] = h;
        for t in 0..80 {
            let (f, k) = match t / 20 {
                0 => ((bb & c) ^ (!bb & dd), 0x5a827999),
                1 => (bb ^ c ^ dd, 0x6ed9eba1),
                2 => ((bb & c) ^ (bb & dd) ^ (c & dd), 0x8f1bbcdcu32),
                _ => (bb ^ c ^ dd, 0xca62c1d6),
            };
            let x = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[t]);
            e = dd;
            dd = c;
            c = bb.rotate_left(30);
            bb = a;
            a = x;
        }
        for (i, v) in [a, bb, c, dd, e].iter().enumerate() {
            h[i] = h[i].wrapping_add(*v);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

fn sha2_32(d: &[u8], mut h: [u32; 8]) -> Vec<u8> {
    for b in pad(d, 64, true).chunks(64) {
        let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
        for t in 16..64 {
            let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
            let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
            w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
        }
        let mut v = h;
        for t in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add((K512[t] >> 32) as u32).wrapping_add(w[t]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let t2 = s0.wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

pub fn sha256(d: &[u8]) -> Vec<u8> {
    let mut h = [0u32; 8];
    for i in 0..8 {
        h[i] = (H512[i] >> 32) as u32;
    }
    sha2_32(d, h)
}

pub fn sha224(d: &[u8]) -> Vec<u8> {
    sha2_32(d, H224)[..28].to_vec()
}

pub fn sha512(d: &[u8]) -> Vec<u8> {
    let mut h = H512;
    for b in pad(d, 128, true).chunks(128) {
        let mut w: Vec<u64> = b.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect();
        for t in 16..80 {
            let s0 = w[t - 15].rotate_right(1) ^ w[t - 15].rotate_right(8) ^ (w[t - 15] >> 7);
            let s1 = w[t - 2].rotate_right(19) ^ w[t - 2].rotate_right(61) ^ (w[t - 2] >> 6);
            w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
        }
        let mut v = h;
        for t in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K512[t]).wrapping_add(w[t]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let t2 = s0.wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

use keramics_hashes::{DigestHashContext, Md5Context, Sha1Context, Sha224Context, Sha256Context, Sha512Context};
use wit_common::{Ctx, hex};

type Oracle = fn(&[u8]) -> Vec<u8>;
const KINDS: [(&str, Oracle); 5] = [("Md5", md5), ("Sha1", sha1), ("Sha224", sha224), ("Sha256", sha256), ("Sha512", sha512)];

fn make(k: usize) -> Box<dyn DigestHashContext> {
    match k {
        0 => Box::new(Md5Context::new()),
        1 => Box::new(Sha1Context::new()),
        2 => Box::new(Sha224Context::new()),
        3 => Box::new(Sha256Context::new()),
        _ => Box::new(Sha512Context::new()),
    }
}

/// Whole messages.
pub fn c03(ctx: &mut Ctx) {
    let mut i = 0usize;
    while ctx.time_left() {
        let n = if i < 520 { i / 2 } else if i % 4000 == 0 { 70000 + ctx.rng.below(40000) as usize } else if i % 200 == 0 { ctx.rng.below(9000) as usize } else { ctx.rng.below(600) as usize };
        i += 1;
        let d = ctx.rng.bytes(n);
        for (k, (name, f)) in KINDS.iter().enumerate() {
            let e = hex(&f(&d));
            let what = format!("{}Context update, finalize", name);
            ctx.check(&what, &hex(&d), &e, || {
                let mut c = make(k);
                c.update(&d);
                hex(&c.finalize())
            });
        }
        if i == 600 {
            // a message longer than 2^29 bytes (its bit count does not fit 32 bits): one
            // kind when the proof went through, every kind when it did not
            let big = vec![0x5au8; (1usize << 29) + 3];
            let long = ctx.deadline.duration_since(ctx.start).as_secs() > 20;
            for (k, (name, f)) in KINDS.iter().enumerate() {
                if !long && k as u64 != ctx.seed % 5 {
                    continue;
                }
                let e = hex(&f(&big));
                let what = format!("{}Context update, finalize", name);
                ctx.check(&what, "2^29 + 3 bytes of 0x5a", &e, || {
                    let mut c = make(k);
                    c.update(&big);
                    hex(&c.finalize())
                });
            }
        }
    }
}

/// Any chunking, and reuse after finalize.
pub fn c04(ctx: &mut Ctx) {
    let mut i = 0usize;
    while ctx.time_left() {
        i += 1;
        let rounds = 1 + ctx.rng.below(3) as usize;
        let mut plan: Vec<Vec<Vec<u8>>> = vec![];
        for _ in 0..rounds {
            let pieces = ctx.rng.below(6) as usize;
            plan.push(
                (0..pieces)
                    .map(|_| {
                        let n = match ctx.rng.below(8) {
                            0 => 0,
                            1 => 1,
                            2 => 55 + ctx.rng.below(20) as usize,
                            3 => 110 + ctx.rng.below(20) as usize,
                            4 => 64 * ctx.rng.below(5) as usize,
                            5 => 128 * ctx.rng.below(3) as usize,
                            6 => ctx.rng.below(20) as usize,
                            _ => ctx.rng.below(400) as usize,
                        };
                        ctx.rng.bytes(n)
                    })
                    .collect(),
            );
        }
        let input = plan.iter().map(|r| r.iter().map(|p| hex(p)).collect::<Vec<_>>().join("|")).collect::<Vec<_>>().join(" finalize ");
        for (k, (name, f)) in KINDS.iter().enumerate() {
            let e = plan.iter().map(|r| hex(&f(&r.concat()))).collect::<Vec<_>>().join(" ");
            let what = format!("{}Context update per piece, finalize per message, one context", name);
            ctx.check(&what, &input, &e, || {
                let mut c = make(k);
                let mut out = vec![];
                for r in &plan {
                    for p in r {
                        c.update(p);
                    }
                    out.push(hex(&c.finalize()));
                }
                out.join(" ")
            });
        }
    }
    let _ = i;
}
