//! Key universes and the value table.
use crate::util::Rng;

pub const NV: usize = 20;

/// Value ids 0..NV-1 stand for these machine words.
pub fn values() -> [usize; NV] {
    let stack = &NV as *const usize as usize;
    [
        0,
        1,
        usize::MAX,
        1 << 63,
        2,
        3,
        48,
        47,
        stack,
        0x7fff_ffff_ffff_fff8,
        usize::MAX - 1,
        255,
        256,
        1 << 32,
        0xA5A5_A5A5_A5A5_A5A5,
        64,
        0x0100_0000_0000_0000,
        0xff00_0000_0000_0000,
        4,
        16,
    ]
}

fn bytes(b: [u8; 8]) -> u64 {
    u64::from_be_bytes(b)
}
fn rbase(r: &mut Rng) -> [u8; 8] {
    match r.below(5) {
        0 => [0; 8],
        1 => [0xff; 8],
        2 => {
            let p = [0u8, 1, 0x7f, 0x80, 0xfe, 0xff];
            let mut b = [0; 8];
            for x in b.iter_mut() {
                *x = *r.pick(&p);
            }
            b
        }
        _ => r.next().to_be_bytes(),
    }
}

pub const PROFILES: usize = 10;

/// A sorted universe of distinct keys.  `big` allows hundreds of keys.
pub fn universe(r: &mut Rng, profile: usize, big: bool) -> Vec<u64> {
    let mut v: Vec<u64> = Vec::new();
    match profile {
        // fan-out at one byte position, crossing the node size boundaries
        0 | 1 => {
            let lv = if profile == 0 { 7 } else { r.below(8) };
            let n = if big {
                *r.pick(&[6usize, 18, 20, 50, 52, 70, 120, 256])
            } else {
                *r.pick(&[5usize, 6, 17, 18, 20, 50])
            };
            let base = rbase(r);
            let mut bs: Vec<u8> = (0..=255).collect();
            r.shuffle(&mut bs);
            if r.pct(60) {
                // make the extreme bytes likely
                for e in [0u8, 255, 1, 254, 127, 128] {
                    if r.pct(70) {
                        let i = bs.iter().position(|x| *x == e).unwrap();
                        let j = r.below(n.min(256));
                        bs.swap(i, j);
                    }
                }
            }
            let vary = r.pct(50);
            for b in bs.iter().take(n) {
                let mut k = base;
                k[lv] = *b;
                if vary {
                    for x in k.iter_mut().skip(lv + 1) {
                        if r.pct(50) {
                            *x = *r.pick(&[0u8, 1, 255, 128]);
                        }
                    }
                }
                v.push(bytes(k));
                if lv < 7 && r.pct(15) {
                    let p = lv + 1 + r.below(7 - lv);
                    k[p] = k[p].wrapping_add(1);
                    v.push(bytes(k));
                }
            }
            // a few keys leaving the common path above the fan
            for _ in 0..r.below(4) {
                let mut k = base;
                let p = r.below(8);
                k[p] ^= 1 << r.below(8);
                v.push(bytes(k));
            }
        }
        // few byte values at each position: splits at all depths
        2 => {
            let p: Vec<u8> = {
                let mut p = vec![0u8, 1, 0x7f, 0x80, 0xff, 0xfe];
                r.shuffle(&mut p);
                p.truncate(2 + r.below(2));
                p
            };
            let n = if big { 24 + r.below(60) } else { 6 + r.below(14) };
            for _ in 0..n {
                let mut k = [0; 8];
                for x in k.iter_mut() {
                    *x = *r.pick(&p);
                }
                v.push(bytes(k));
            }
        }
        // each key leaves a common path at a chosen depth
        3 => {
            let base = rbase(r);
            v.push(bytes(base));
            for lv in 0..8 {
                for _ in 0..1 + r.below(if big { 6 } else { 2 }) {
                    let mut k = base;
                    k[lv] = k[lv].wrapping_add(1 + r.below(255) as u8);
                    for x in k.iter_mut().skip(lv + 1) {
                        if r.pct(30) {
                            *x = r.below(256) as u8;
                        }
                    }
                    v.push(bytes(k));
                }
            }
        }
        // neighbours in the integer order
        4 => {
            let c = match r.below(5) {
                0 => 0u64,
                1 => u64::MAX,
                2 => 1 << (8 * r.below(8)),
                3 => (r.next() >> 8) << 8,
                _ => r.next(),
            };
            let n = if big { 40 + r.below(80) } else { 12 + r.below(12) } as u64;
            for i in 0..n {
                v.push(c.wrapping_add(i).wrapping_sub(n / 2));
            }
        }
        // dense small integers across a 256 boundary
        5 => {
            let n = if big { 300 } else { 40 };
            let off = *r.pick(&[0u64, 230, 65500, u64::MAX - 400]);
            for i in 0..n {
                v.push(off + i);
            }
        }
        // two-level fan: an inner and a last byte
        6 => {
            let a = r.below(7);
            let base = rbase(r);
            let n = if big { 20 } else { 6 };
            for _ in 0..n {
                let mut k = base;
                k[a] = r.below(256) as u8;
                for _ in 0..1 + r.below(5) {
                    k[7] = r.below(256) as u8;
                    v.push(bytes(k));
                }
            }
        }
        // multiples of a power of 256: long shared tails, each key its own path
        7 => {
            let s = 8 * r.below(8);
            let n = if big { 64 } else { 12 };
            for i in 0..n {
                v.push((i as u64) << s);
            }
            v.push(1);
            v.push(256);
        }
        // uniformly random
        8 => {
            let n = if big { 100 } else { 16 };
            for _ in 0..n {
                v.push(r.next());
            }
        }
        // the ends of the key space
        _ => {
            for i in 0..if big { 20 } else { 6 } {
                v.push(i);
                v.push(u64::MAX - i);
                v.push((1 << 63) - 3 + i);
            }
        }
    }
    if r.pct(20) {
        v.push(0);
    }
    if r.pct(20) {
        v.push(u64::MAX);
    }
    v.sort();
    v.dedup();
    v
}
