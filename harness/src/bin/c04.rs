//! C04: only what was offered is accepted, and only valid points; refusals come before the key share.
use huskmon::ensure;
use huskmon::mon::{self, Case, Verdict};
use huskmon::prng::Rng;
use huskmon::refp256 as rp;
use huskmon::sim::*;
use huskmon::wire;
use num_bigint::BigUint;

fn setup(r: &mut Rng) -> Setup {
    let mut su = Setup::cheap(r);
    su.certs = vec![r.bytes(20)];
    su.ske.signature = r.bytes(16);
    if r.chance(1, 2) {
        let n = r.range(0, 32);
        su.sh.session_id = r.bytes(n);
    }
    if r.chance(1, 3) {
        su.sh.exts = Some(vec![(11, vec![1, 0])]);
    }
    su
}

/// play the first flight; `ok` says whether it may be accepted
fn judge(c: &mut Case, su: &Setup, ske_body: Option<Vec<u8>>, ok: bool, what: &str) -> Verdict {
    let mut srv = su.srv();
    let mut v: Vec<Item> = su.script();
    if let Some(b) = ske_body {
        v[3] = Item::Hs(12, b);
    }
    srv.script = v.into();
    let s = Sim::new(srv).share();
    let r = connect(&s);
    c.sigs(what);
    c.count(if ok { "acceptable choices" } else { "unacceptable choices" }, 1);
    let b = s.borrow();
    let l = &b.srv.log;
    let moved = l.ccs > 0 || l.hs.iter().any(|h| h.1 != 1) || l.recs.iter().any(|r| r.protected);
    if ok {
        if let Err(e) = r {
            return Err(format!("refused although acceptable: {}: {:?}", what, e));
        }
        drop(b);
        agreed(&s)
    } else {
        ensure!(r.is_err(), "accepted: {}", what);
        ensure!(!moved, "the client sent its key share in answer to: {}", what);
        c.sample(|| format!("{} -> {:?}", what, r.err()));
        Ok(())
    }
}

fn main() {
    mon::main(
        "C04",
        "one case = one server choice (a block of values for the exhaustive fields) played to the real client; \
         distinct = different choice. Exhaustive: versions, suites, compressions, curve types, curves, \
         hash/signature pairs, point prefix bytes, point lengths; constructed: invalid points of every class",
        |m| {
            // 2^16 values in blocks of 256
            let blocks = 256;
            let stride = m.q(1, 1);
            let _ = stride;
            m.par("version", blocks, |c| {
                for lo in 0..256usize {
                    let v = (c.idx as u8, lo as u8);
                    let mut su = setup(&mut c.rng);
                    su.sh.version = v;
                    judge(c, &su, None, v == (3, 3), &format!("version {:?}", v))?;
                }
                Ok(())
            });
            m.par("suite", blocks, |c| {
                for lo in 0..256usize {
                    let v = (c.idx << 8 | lo) as u16;
                    let mut su = setup(&mut c.rng);
                    su.sh.suite = v;
                    judge(c, &su, None, v == wire::SUITE, &format!("suite {:#06x}", v))?;
                }
                Ok(())
            });
            m.par("compression", 256, |c| {
                let mut su = setup(&mut c.rng);
                su.sh.comp = c.idx as u8;
                judge(c, &su, None, c.idx == 0, &format!("compression {}", c.idx))
            });
            m.par("curve-type", 256, |c| {
                let mut su = setup(&mut c.rng);
                su.ske.curve_type = c.idx as u8;
                judge(c, &su, None, c.idx == 3, &format!("curve type {}", c.idx))
            });
            m.par("curve", blocks, |c| {
                for lo in 0..256usize {
                    let v = (c.idx << 8 | lo) as u16;
                    let mut su = setup(&mut c.rng);
                    su.ske.curve = v;
                    judge(c, &su, None, v == 23, &format!("curve {}", v))?;
                }
                Ok(())
            });
            m.par("sigalg", blocks, |c| {
                for lo in 0..256usize {
                    let mut su = setup(&mut c.rng);
                    su.ske.hash = c.idx as u8;
                    su.ske.sig = lo as u8;
                    judge(c, &su, None, (c.idx, lo) == (4, 1), &format!("hash {} signature {}", c.idx, lo))?;
                }
                Ok(())
            });
            // two wrong choices, or a wrong one next to unusual right ones
            m.par("mixed", m.q(600, 20_000), |c| {
                let mut su = setup(&mut c.rng);
                let r = &mut c.rng;
                let mut what = String::new();
                for _ in 0..r.range(1, 2) {
                    match r.below(6) {
                        0 => {
                            su.sh.version = *r.pick(&[(3, 0), (3, 1), (3, 2), (3, 4), (2, 0), (254, 253), (127, 28), (3, 0x13)]);
                            what += "version ";
                        }
                        1 => {
                            su.sh.suite = *r.pick(&[0xcc13, 0xcc14, 0xcca9, 0xccaa, 0xc02f, 0xc030, 0x1301, 0x1303, 0, 0xff, 0xa8cc, 0x5600]);
                            what += "suite ";
                        }
                        2 => {
                            su.sh.comp = *r.pick(&[1, 64, 255]);
                            what += "compression ";
                        }
                        3 => {
                            su.ske.curve = *r.pick(&[22, 24, 25, 29, 30, 1, 0xff01, 0xff02, 0x1700]);
                            what += "curve ";
                        }
                        4 => {
                            let (h, s) = *r.pick(&[(2, 1), (4, 3), (5, 1), (6, 1), (1, 4), (4, 0), (0, 1), (8, 4), (1, 1), (4, 2)]);
                            su.ske.hash = h;
                            su.ske.sig = s;
                            what += "signature ";
                        }
                        _ => {
                            su.ske.curve_type = *r.pick(&[1, 2, 4, 0, 255]);
                            what += "curve type ";
                        }
                    }
                }
                let d = format!("{}: {:?} {:?}", what, su.sh, (su.ske.curve_type, su.ske.curve, su.ske.hash, su.ske.sig));
                judge(c, &su, None, false, &d)
            });
            // extra or missing bytes in the key exchange
            m.par("ske-shape", m.q(400, 4000), |c| {
                let su = setup(&mut c.rng);
                let mut b = su.ske.body();
                let what;
                match c.idx % 4 {
                    0 => {
                        let n = c.rng.range(1, 9);
                        b.extend(c.rng.bytes(n));
                        what = format!("{} bytes after the signature", n);
                    }
                    1 => {
                        let n = c.rng.range(1, b.len());
                        b.truncate(b.len() - n);
                        what = format!("{} bytes missing from the key exchange", n);
                    }
                    2 => {
                        // the point's length byte
                        let l = c.rng.u8();
                        if l == 65 {
                            c.trivial();
                            return Ok(());
                        }
                        b[3] = l;
                        what = format!("point length {}", l);
                    }
                    _ => {
                        let at = b.len() - 16 - 2;
                        let l = c.rng.below(65536);
                        if l == 16 {
                            c.trivial();
                            return Ok(());
                        }
                        b[at] = (l >> 8) as u8;
                        b[at + 1] = l as u8;
                        what = format!("signature length {} of 16", l);
                    }
                }
                judge(c, &su, Some(b), false, &what)
            });

            // points
            let cv = rp::curve();
            let g = rp::encode(&rp::g());
            m.par("point-prefix", 256, |c| {
                let mut su = setup(&mut c.rng);
                su.ske.point[0] = c.idx as u8;
                judge(c, &su, None, c.idx == 4, &format!("point prefix {:#04x}", c.idx))
            });
            m.par("point-length", 256 * 3, |c| {
                let mut su = setup(&mut c.rng);
                let n = c.idx / 3;
                if n == 65 {
                    c.trivial();
                    return Ok(());
                }
                su.ske.point = match c.idx % 3 {
                    0 => g.iter().copied().chain(std::iter::repeat(0)).take(n).collect(),
                    1 => {
                        // right coordinates at the end
                        let mut v = vec![4u8; n.saturating_sub(64)];
                        v.extend(&g[1..]);
                        v.truncate(n);
                        v
                    }
                    _ => {
                        let mut v = c.rng.bytes(n);
                        if n > 0 {
                            v[0] = *c.rng.pick(&[0, 2, 3, 4]);
                        }
                        v
                    }
                };
                let what = format!("point of {} bytes: {:02x?}", n, &su.ske.point);
                judge(c, &su, None, false, &what)
            });
            m.par("point-bit", 64 * 8, |c| {
                let mut su = setup(&mut c.rng);
                su.ske.point[1 + c.idx / 8] ^= 1 << (c.idx % 8);
                let ok = rp::decode(&su.ske.point).is_some();
                if ok {
                    c.trivial();
                    return Ok(());
                }
                judge(c, &su, None, false, &format!("base point with bit {} flipped", c.idx))
            });
            let be = |x: &BigUint, y: &BigUint| {
                let mut v = vec![4];
                v.extend(rp::be32(x));
                v.extend(rp::be32(y));
                v
            };
            let top = BigUint::from(1u32) << 256;
            m.par("point-class", m.q(300, 6000), |c| {
                let mut su = setup(&mut c.rng);
                let r = &mut c.rng;
                let k = BigUint::from(r.u64()) + BigUint::from(2u32);
                let (x, y) = rp::mul(&k, &rp::g()).unwrap();
                let p = &cv.p;
                let one = BigUint::from(1u32);
                let (what, pt): (&str, Vec<u8>) = match c.idx % 15 {
                    0 => ("random coordinates", be(&(rp::from_be(&r.bytes(32)) % p), &(rp::from_be(&r.bytes(32)) % p))),
                    1 => ("y off by one", be(&x, &((&y + &one) % p))),
                    2 => ("x off by one", be(&((&x + &one) % p), &y)),
                    3 => ("coordinates swapped", be(&y, &x)),
                    4 => ("a point of the twist", {
                        let mut x = x.clone();
                        while rp::lift_x(&x).is_some() {
                            x += &one;
                        }
                        // on y^2 * nonresidue; use a root of the negative
                        let rhs = (&x * &x * &x + (p - BigUint::from(3u32)) * &x + &cv.b) % p;
                        let neg = (p - rhs) % p;
                        let y = neg.modpow(&((p + &one) >> 2), p);
                        be(&x, &y)
                    }),
                    5 => ("a point of a curve with another b", {
                        // any (x, y) lies on y^2 = x^3 - 3x + b'
                        be(&(rp::from_be(&r.bytes(32)) % p), &(rp::from_be(&r.bytes(32)) % p))
                    }),
                    6 => ("zero point", be(&BigUint::from(0u32), &BigUint::from(0u32))),
                    7 => ("zero y", be(&x, &BigUint::from(0u32))),
                    8 => ("x not reduced", {
                        // x small, so that x + p fits; y as for x
                        let mut x = BigUint::from(r.below(1 << 30) as u32);
                        let y = loop {
                            match rp::lift_x(&x) {
                                Some(y) => break y,
                                None => x += &one,
                            }
                        };
                        be(&(&x + p), &y)
                    }),
                    9 => ("y not reduced", {
                        // find a point with a small y: y^2 - b = x^3 - 3x has a root for some small y
                        match rp::small_y(r) {
                            Some((x, y)) => be(&x, &(&y + p)),
                            None => {
                                c.trivial();
                                return Ok(());
                            }
                        }
                    }),
                    10 => ("y of the negative in the wrong form", be(&x, &((&top - &y) % &top))),
                    11 => ("all ones", vec![4].into_iter().chain([0xff; 64]).collect()),
                    12 => ("the prime as coordinates", be(p, p)),
                    13 => ("x of zero not reduced", {
                        let y = rp::lift_x(&BigUint::from(0u32)).unwrap();
                        be(p, &y)
                    }),
                    _ => ("x with a cleared top byte", {
                        let mut v = be(&x, &y);
                        v[1] = 0;
                        if v[1..33] == be(&x, &y)[1..33] {
                            v[2] ^= 1;
                        }
                        v
                    }),
                };
                if rp::decode(&pt).is_some() {
                    c.trivial();
                    return Ok(());
                }
                su.ske.point = pt;
                let d = format!("point, {}: {:02x?}", what, su.ske.point);
                judge(c, &su, None, false, &d)
            });
            m.par("point-near", m.q(rp::NEAR, 8 * rp::NEAR), |c| {
                let mut su = setup(&mut c.rng);
                let (what, x, y) = rp::near_miss(&mut c.rng, c.idx % rp::NEAR);
                su.ske.point = be(&x, &y);
                judge(c, &su, None, false, &format!("a point whose y^2 differs from x^3 - 3x + b only in {}", what))
            });
            // valid points at the edges have to be accepted
            m.par("point-valid", m.q(60, 1500), |c| {
                let r = &mut c.rng;
                let n = &cv.n;
                let k = match c.idx % 6 {
                    0 => BigUint::from(c.idx as u32 / 6 + 1),
                    1 => n - BigUint::from(c.idx as u32 / 6 + 1),
                    2 => BigUint::from(1u32) << r.below(256),
                    3 => n >> r.range(1, 200),
                    _ => rp::from_be(&r.bytes(32)),
                } % n;
                if k == BigUint::from(0u32) {
                    c.trivial();
                    return Ok(());
                }
                let su = Setup::with_key(k.clone(), r);
                judge(c, &su, None, true, &format!("server key {:x}", k))
            });
            m.par("point-valid-zero-x", m.q(8, 60), |c| {
                // points with tiny x: nobody knows the key, so only the client's move is observed
                let mut su = setup(&mut c.rng);
                let mut x = BigUint::from(c.idx as u32 * 3);
                let y = loop {
                    match rp::lift_x(&x) {
                        Some(y) => break y,
                        None => x += BigUint::from(1u32),
                    }
                };
                su.ske.point = be(&x, &y);
                let mut srv = su.srv();
                srv.script = su.script().into();
                let s = Sim::new(srv).share();
                let _ = connect(&s);
                let b = s.borrow();
                c.sigs(format!("{:x}", x));
                c.count("acceptable choices", 1);
                ensure!(b.srv.log.hs.iter().any(|h| h.1 == 16), "the valid point with x = {:x} was refused", x);
                Ok(())
            });
            m.require("acceptable choices", 50);
            m.require("unacceptable choices", 200_000);
        },
    );
}
