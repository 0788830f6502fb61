//! Hostile traffic: mutated, structure-aware and random.
use crate::prng::Rng;
use crate::refp256 as rp;
use crate::sim::*;
use crate::wire;
use num_bigint::BigUint;

/// change `b` in one way
pub fn bytes(r: &mut Rng, b: &mut Vec<u8>) {
    let n = b.len();
    let at = r.below(n.max(1)).min(n);
    match r.below(14) {
        0 if n > 0 => b[at] ^= 1 << r.below(8),
        1 if n > 0 => b[at] = r.u8(),
        2 if n > 0 => b[at] = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xfe, 0xff]),
        3 => {
            let k = r.range(1, 9);
            let x = r.bytes(k);
            b.splice(at..at, x);
        }
        4 if n > 0 => {
            let k = r.range(1, 9).min(n - at);
            b.drain(at..at + k);
        }
        5 => b.truncate(at),
        6 => {
            let k = r.range(1, 40);
            let x = if r.chance(1, 2) { vec![0; k] } else { r.bytes(k) };
            b.extend(x);
        }
        7 if n > 0 => {
            let k = r.range(1, 60).min(n - at);
            let x = b[at..at + k].to_vec();
            b.splice(at..at, x);
        }
        // a length of 16 or 24 bits
        8 if n > 1 => {
            let at = at.min(n - 2);
            let v = (b[at] as u16) << 8 | b[at + 1] as u16;
            let v = match r.below(5) {
                0 => v.wrapping_add(1),
                1 => v.wrapping_sub(1),
                2 => 0xffff,
                3 => 0,
                _ => v.wrapping_mul(2),
            };
            b[at..at + 2].copy_from_slice(&v.to_be_bytes());
        }
        9 if n > 2 => {
            let at = at.min(n - 3);
            let v = *r.pick(&[0u32, 1, 0xff_ffff, 0x80_0000, 0x00_4000, 0x01_0000]);
            b[at..at + 3].copy_from_slice(&v.to_be_bytes()[1..]);
        }
        10 => {
            let k = r.size(300);
            *b = r.bytes(k);
        }
        // numbers the code knows, in fields of 8 to 32 bits
        11 | 12 if n > 0 => {
            let k = *r.pick(&[1usize, 2, 3, 4]);
            let k = k.min(n);
            let at = at.min(n - k);
            if let Some(v) = r.number((1usize << (8 * k)) - 1) {
                b[at..at + k].copy_from_slice(&(v as u32).to_be_bytes()[4 - k..]);
            }
        }
        _ => b.clear(),
    }
}

pub fn several(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        bytes(r, b);
    }
}

/// a point of some hostile class
pub fn point(r: &mut Rng) -> Vec<u8> {
    let c = rp::curve();
    let good = rp::encode(&rp::mul(&BigUint::from(r.range(1, 20) as u32), &rp::g()));
    match r.below(12) {
        0 => vec![],
        1 => vec![0],
        2 => {
            let k = r.size(254);
            r.bytes(k)
        }
        3 => {
            let mut v = vec![4];
            v.extend(r.bytes(64));
            v
        }
        4 => {
            let mut v = vec![4];
            v.extend([0; 64]);
            v
        }
        5 => {
            let mut v = vec![4];
            v.extend([0xff; 64]);
            v
        }
        6 => {
            let mut v = vec![4];
            v.extend(rp::be32(&c.p));
            v.extend(rp::be32(&c.p));
            v
        }
        7 => {
            let mut v = good;
            let k = r.range(1, 64);
            v.truncate(k);
            v
        }
        8 => {
            let mut v = good;
            v[0] = r.u8();
            v
        }
        9 => {
            // minus the generator, small multiples near the order
            let k = &c.n - BigUint::from(r.range(1, 3) as u32);
            rp::encode(&rp::mul(&k, &rp::g()))
        }
        10 => {
            let mut v = good;
            v[64] ^= 1;
            v
        }
        _ => good,
    }
}

fn vary_setup(r: &mut Rng, su: &mut Setup) {
    for _ in 0..r.range(0, 3) {
        match r.below(12) {
            0 => su.sh.version = (r.u8(), r.u8()),
            1 => {
                let n = r.range(0, 255);
                su.sh.session_id = r.bytes(n)
            }
            2 => su.sh.suite = r.u64() as u16,
            3 => su.sh.comp = r.u8(),
            4 => {
                let n = r.below(6);
                su.sh.exts = Some(
                    (0..n)
                        .map(|_| {
                            let t = if r.chance(1, 2) { *r.pick(&[10, 11, 13, 0]) } else { r.u64() as u16 };
                            let k = r.size(60);
                            (t, r.bytes(k))
                        })
                        .collect(),
                )
            }
            5 => {
                let n = r.below(40);
                su.certs = (0..n)
                    .map(|_| {
                        let k = r.size(2000);
                        r.bytes(k)
                    })
                    .collect()
            }
            6 => su.ske.point = point(r),
            7 => su.ske.curve = r.u64() as u16,
            8 => su.ske.curve_type = r.u8(),
            9 => {
                let n = r.size(65535);
                su.ske.signature = r.bytes(n)
            }
            10 => {
                su.ske.hash = r.u8();
                su.ske.sig = r.u8()
            }
            _ => {}
        }
    }
}

/// a record body of some size class
fn body(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1 => r.range(1, 4),
        2 => *r.pick(&[MAX - 1, MAX, MAX + 1, MAX + 15, MAX + 16, MAX + 17, MAX + 2047, MAX + 2048, MAX + 2049]),
        3 => r.below(65_000),
        _ => r.below(400),
    }
    .min(max);
    match r.below(3) {
        0 => vec![r.u8(); n],
        _ => r.bytes(n),
    }
}

/// something an attacker may put at any place
pub fn junk(r: &mut Rng) -> Item {
    let ver = if r.chance(3, 4) { (3, 3) } else { (r.u8(), r.u8()) };
    let ty = if r.chance(3, 4) { *r.pick(&[CCS, ALERT, HS, APP]) } else { r.u8() };
    match r.below(16) {
        0 => Item::Rec(ty, ver, body(r, 65_000)),
        1 => Item::Rec(ty, ver, body(r, 300)),
        2 => {
            let n = r.below(40);
            Item::Raw(r.bytes(n))
        }
        3 => {
            let b = body(r, 65_000);
            Item::Raw(wire::rec(ty, ver, &b))
        }
        // a record that says more than it brings
        4 => {
            let b = body(r, 300);
            let mut x = wire::rec(ty, ver, &b);
            let n = *r.pick(&[0xffffu16, 0x4000, 0x4800, 0x4801, 0, 1, 17]);
            x[3..5].copy_from_slice(&n.to_be_bytes());
            Item::Raw(x)
        }
        5 => Item::Alert(r.u8(), r.u8()),
        6 => Item::Alert(r.range(1, 2) as u8, *r.pick(&[0, 10, 20, 40, 47, 90, 100, 110])),
        7 => Item::CcsOnly(if r.chance(1, 2) { vec![1] } else { body(r, 20) }),
        8 => {
            let b = body(r, 400);
            Item::Hs(*r.pick(&[0, 1, 2, 4, 11, 12, 13, 14, 15, 16, 20, 22, 255]), b)
        }
        9 => {
            // a handshake message that never ends, or of any length
            let l = *r.pick(&[0xff_ffffusize, 0x80_0000, 0x01_0000, 0x4000, 5, 1]);
            let mut x = vec![*r.pick(&[0u8, 2, 11, 12, 14, 20, 99])];
            x.extend(wire::u24b(l));
            x.extend(body(r, 5000));
            Item::HsRaw(x)
        }
        10 => {
            let n = r.range(0, 40);
            Item::HsRaw(r.bytes(n))
        }
        11 => Item::Rec(HS, (3, 3), vec![]),
        12 => Item::Rec(APP, (3, 3), vec![]),
        13 => Item::Hs(0, vec![]),
        14 => Item::Rec(APP, (3, 3), body(r, MAX)),
        _ => Item::Rec(CCS, (3, 3), vec![1]),
    }
}

/// A server that strays from the honest script in a few places. Its transcript and keys follow what it
/// says, so the client may get far.
pub fn server(r: &mut Rng) -> Srv {
    let mut su = small_setup(r);
    if r.chance(1, 2) {
        vary_setup(r, &mut su);
    }
    let mut v = su.script();
    for _ in 0..r.range(0, 3) {
        let at = r.range(1, v.len() - 1);
        match r.below(8) {
            0 => {
                v.remove(at);
            }
            1 => {
                let b = r.range(1, v.len() - 1);
                v.swap(at, b)
            }
            2 => v.insert(at, junk(r)),
            3 => v.insert(at, Item::Flush),
            4 if r.chance(1, 4) => v.insert(at, Item::Eof),
            _ => {
                if let Some(Item::Hs(_, b)) = v.get_mut(at) {
                    several(r, b)
                } else {
                    v.insert(at, junk(r))
                }
            }
        }
    }
    for _ in 0..r.below(5) {
        v.push(junk(r));
        if r.chance(1, 3) {
            let n = r.size(300);
            v.push(Item::App(r.bytes(n)));
        }
    }
    let mut srv = su.srv();
    srv.script = v.into();
    // an altered byte anywhere
    if r.chance(1, 6) {
        srv.s2c_flip = Some((r.below(900), r.range(1, 255) as u8));
    }
    srv
}
