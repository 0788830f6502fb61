//! C02: any alteration of the handshake in transit makes it fail.
use huskmon::mon::{self, Case, Verdict};
use huskmon::prng::Rng;
use huskmon::refp256 as rp;
use huskmon::sim::*;
use huskmon::{ensure, wire};
use num_bigint::BigUint;

fn setup(r: &mut Rng) -> Setup {
    let mut su = Setup::cheap(r);
    su.certs = vec![r.bytes(9), r.bytes(3)];
    su.ske.signature = r.bytes(12);
    su.sh.session_id = r.bytes(5);
    su.sh.exts = Some(vec![(11, vec![1, 0])]);
    su
}

/// offsets of the version bytes of unprotected record headers: not part of any handshake message
fn version_bytes(stream: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let (mut at, mut protected) = (0, false);
    while at + 5 <= stream.len() {
        let n = (stream[at + 3] as usize) << 8 | stream[at + 4] as usize;
        if !protected {
            v.extend([at + 1, at + 2]);
        }
        if stream[at] == CCS {
            protected = true;
        }
        at += 5 + n;
    }
    v
}

fn must_fail(c: &mut Case, sim: Sim, what: &str) -> Verdict {
    let s = sim.share();
    let r = connect(&s);
    c.count("altered handshakes", 1);
    c.sigs(what);
    match r {
        Ok(_) => Err(format!("connecting succeeded although the handshake was altered in transit: {}", what)),
        Err(e) => {
            let b = s.borrow();
            ensure!(!b.srv.client_record_types().contains(&APP), "application data on a failed connection: {}", what);
            match b.srv.log.finished_ok {
                Some(_) => c.count("got as far as the server's Finished", 1),
                None => {}
            }
            c.sample(|| format!("{} -> {:?}", what, e));
            Ok(())
        }
    }
}

/// an extension that a client can know and answer to, with contents that can be read
fn known_ext(r: &mut Rng) -> (u16, Vec<u8>) {
    match r.below(3) {
        0 => (10, r.pick(&[vec![0u8, 2, 0, 23], vec![0, 4, 0, 23, 0, 24], vec![0, 2, 0, 25]]).clone()),
        1 => (11, r.pick(&[vec![1u8, 0], vec![2, 0, 1], vec![3, 0, 1, 2], vec![1, 1]]).clone()),
        _ => (13, r.pick(&[vec![0u8, 2, 4, 1], vec![0, 4, 4, 1, 2, 1], vec![0, 2, 5, 3]]).clone()),
    }
}

/// one edit of a list: an item put in, taken out, repeated, moved, or everything replaced
fn edit<T: Clone>(r: &mut Rng, v: &mut Vec<T>, max: usize, mut item: impl FnMut(&mut Rng) -> T) -> String {
    let n = v.len();
    let i = if n > 0 { r.below(n) } else { 0 };
    match r.below(7) {
        0 if n < max => {
            let i = r.below(n + 1);
            let x = item(r);
            v.insert(i, x);
            format!("one put in at {}", i)
        }
        1 if n > 0 => {
            v.remove(i);
            format!("the one at {} taken out", i)
        }
        2 if n > 0 && n < max => {
            let x = v[i].clone();
            v.insert(i, x);
            format!("the one at {} repeated in place", i)
        }
        3 if n > 0 && n < max => {
            v.push(v[i].clone());
            format!("the one at {} repeated at the end", i)
        }
        4 if n > 1 => {
            let j = r.below(n);
            v.swap(i, j);
            format!("{} and {} swapped", i, j)
        }
        5 if n > 0 => {
            v[i] = item(r);
            format!("the one at {} replaced", i)
        }
        _ => {
            let k = r.below(max.min(4) + 1);
            *v = (0..k).map(|_| item(r)).collect();
            format!("{} other ones", k)
        }
    }
}

fn main() {
    mon::main(
        "C02",
        "one case = one handshake between the real client and an honest server with one alteration on the way; \
         distinct = different alteration (direction, offset, mask or edit); controls re-cut records without \
         changing messages and have to succeed",
        |m| {
            // dry run to learn both streams; the same seed gives the same lengths
            let mut r = Rng::new(m.seed ^ 0xc02);
            let su0 = setup(&mut r);
            let s = su0.sim(vec![]).share();
            let ok = huskmon::entropy::with(huskmon::entropy::Stream::new(1), || connect(&s)).0.map(|_| ());
            if let Err(e) = ok {
                m.violation("dry/0", format!("handshake with an honest server failed: {:?}", e));
                return;
            }
            let (s2c, c2s) = {
                let b = s.borrow();
                (b.srv.out.clone(), b.srv.c2s_raw.clone())
            };
            drop(s);
            let skip_s = version_bytes(&s2c);
            let skip_c = version_bytes(&c2s);
            let offs: Vec<usize> = (0..s2c.len()).filter(|o| !skip_s.contains(o)).collect();
            let offc: Vec<usize> = (0..c2s.len()).filter(|o| !skip_c.contains(o)).collect();
            let masks = |m: &mon::Mon, r: &mut Rng, i: usize| -> u8 {
                let _ = m;
                if i < 8 {
                    1 << i
                } else {
                    1 + r.below(255) as u8
                }
            };
            let per = m.q(8, 255);
            m.par("flip-s2c", offs.len() * per, |c| {
                let off = offs[c.idx / per];
                let mask = if per == 255 { (c.idx % per + 1) as u8 } else { masks(m, &mut c.rng, c.idx % per) };
                let mut sim = su0.sim(vec![]);
                sim.srv.s2c_flip = Some((off, mask));
                must_fail(c, sim, &format!("server-to-client byte {} xor {:#04x}", off, mask))
            });
            m.par("flip-c2s", offc.len() * per, |c| {
                let off = offc[c.idx / per];
                let mask = if per == 255 { (c.idx % per + 1) as u8 } else { masks(m, &mut c.rng, c.idx % per) };
                let mut sim = su0.sim(vec![]);
                sim.srv.c2s_flip = Some((off, mask));
                must_fail(c, sim, &format!("client-to-server byte {} xor {:#04x}", off, mask))
            });
            m.par("flip-big", m.q(200, 5000), |c| {
                // other shapes of hello, chain and signature
                let mut su = Setup::small(&mut c.rng);
                let n = c.rng.below(33);
                su.sh.session_id = c.rng.bytes(n);
                let nc = c.rng.range(0, 4);
                su.certs = (0..nc)
                    .map(|_| {
                        let n = c.rng.range(1, 4000);
                        c.rng.bytes(n)
                    })
                    .collect();
                let mut sim = su.sim(vec![]);
                let total: usize = 5 * 6 + su.sh.body().len() + wire::certificate(&su.certs).len() + su.ske.body().len() + 16 + 1 + 32;
                let off = c.rng.below(total);
                let mask = 1 + c.rng.below(255) as u8;
                // find out whether the offset is a version byte
                let lens = [su.sh.body().len() + 4, wire::certificate(&su.certs).len() + 4, su.ske.body().len() + 4, 4, 1];
                let mut at = 0;
                for l in lens {
                    // PerMessage: one record per message (up to 2^14)
                    let mut l = l;
                    while l > 0 {
                        let n = l.min(MAX);
                        if off == at + 1 || off == at + 2 {
                            c.trivial();
                            return Ok(());
                        }
                        at += 5 + n;
                        l -= n;
                    }
                }
                sim.srv.s2c_flip = Some((off, mask));
                must_fail(c, sim, &format!("server-to-client byte {} of {} xor {:#04x}", off, total, mask))
            });

            // edits of whole records, both directions: records 0..3 carry the first flight, 4 is CCS, 5 Finished
            m.par("records-s2c", 6 * 12, |c| {
                let (i, e) = (c.idx / 12, c.idx % 12);
                if (i, e) == (5, 1) {
                    // repeated after the handshake is over: nothing the handshake could notice
                    c.trivial();
                    return Ok(());
                }
                let mut sim = su0.sim(vec![]);
                let mut held: Option<Vec<u8>> = None;
                let mut r = c.rng.clone();
                sim.srv.s2c_edit = Some(Box::new(move |k, rec| {
                    if k != i {
                        let mut out = rec;
                        if e == 2 {
                            if let Some(h) = held.take() {
                                out.extend(h);
                            }
                        }
                        return out;
                    }
                    let body = rec[5..].to_vec();
                    let with = |b: Vec<u8>| wire::rec(rec[0], (3, 3), &b);
                    match e {
                        0 => vec![],
                        1 => [rec.clone(), rec].concat(),
                        2 => {
                            held = Some(rec);
                            vec![]
                        }
                        3 => {
                            let mut b = body;
                            b.pop();
                            with(b)
                        }
                        4 => {
                            let mut b = body;
                            b.push(r.u8());
                            with(b)
                        }
                        5 => {
                            let mut b = body;
                            b.remove(0);
                            with(b)
                        }
                        6 => {
                            let mut b = body;
                            b.insert(0, r.u8());
                            with(b)
                        }
                        7 => [wire::rec(APP, (3, 3), &r.bytes(20)), rec].concat(),
                        8 => [wire::rec(ALERT, (3, 3), &[1, 90]), rec].concat(),
                        9 => [wire::rec(CCS, (3, 3), &[1]), rec].concat(),
                        10 => [wire::rec(HS, (3, 3), &wire::hs(0, &[])), rec].concat(),
                        _ => {
                            let n = body.len();
                            with(r.bytes(n))
                        }
                    }
                }));
                must_fail(c, sim, &format!("server record {} edit {}", i, e))
            });
            m.par("records-c2s", 4 * 6, |c| {
                let (i, e) = (c.idx / 6, c.idx % 6);
                let mut sim = su0.sim(vec![]);
                let mut r = c.rng.clone();
                sim.srv.c2s_edit = Some(Box::new(move |k, rec| {
                    if k != i {
                        return rec;
                    }
                    let mut b = rec[5..].to_vec();
                    match e {
                        0 => return vec![],
                        1 => {
                            b.pop();
                        }
                        2 => b.push(r.u8()),
                        3 => {
                            b.remove(0);
                        }
                        4 => {
                            let n = b.len();
                            b = r.bytes(n);
                        }
                        _ => {
                            let n = b.len();
                            b[n / 2] ^= 0x80;
                        }
                    }
                    wire::rec(rec[0], (3, 3), &b)
                }));
                must_fail(c, sim, &format!("client record {} edit {}", i, e))
            });

            // edits of message contents with consistent lengths: what the server sent is in its transcript,
            // what the client gets is another well-formed message
            m.par("messages-s2c", m.q(13 * 8, 13 * 60), |c| {
                let e = c.idx % 13;
                let (mut su, mut got) = {
                    let su = setup(&mut c.rng);
                    (su.clone(), su)
                };
                let r = &mut c.rng;
                match e {
                    0 => got.sh.random[r.below(32)] ^= 1 << r.below(8),
                    1 => got.sh.session_id.push(r.u8()),
                    2 => {
                        got.sh.session_id.pop();
                    }
                    3 => got.sh.session_id.clear(),
                    4 => got.sh.exts = None,
                    5 => got.sh.exts = Some(vec![]),
                    6 => {
                        su.sh.exts = None;
                        got.sh.exts = Some(vec![]);
                    }
                    7 => got.sh.exts.as_mut().unwrap()[0].1 = vec![2, 0, 1],
                    8 => got.certs.swap(0, 1),
                    9 => {
                        got.certs.pop();
                    }
                    10 => {
                        let n = r.range(1, 30);
                        let b = r.bytes(n);
                        got.certs.push(b)
                    }
                    11 => {
                        let n = got.ske.signature.len();
                        got.ske.signature = r.bytes(n + 1);
                    }
                    _ => {
                        // another share for which nobody on the path knows the key
                        let k = BigUint::from(r.u64()) + BigUint::from(1u32 << 20);
                        got.ske.point = rp::encode(&rp::mul(&k, &rp::g()));
                    }
                }
                let mut sim = su.sim(vec![]);
                let msgs = vec![
                    wire::hs(2, &got.sh.body()),
                    wire::hs(11, &wire::certificate(&got.certs)),
                    wire::hs(12, &got.ske.body()),
                ];
                sim.srv.s2c_edit = Some(Box::new(move |k, rec| if k < 3 { wire::rec(HS, (3, 3), &msgs[k]) } else { rec }));
                must_fail(c, sim, &format!("message edit {} ({})", e, c.idx))
            });
            // and freely: several edits of the lists that messages are made of, every length put right, both sides
            // of every edit something the client can read
            m.par("lists-s2c", m.q(1500, 30000), |c| {
                let r = &mut c.rng;
                let mut su = Setup::cheap(r);
                su.certs = (0..r.below(4)).map(|_| { let n = r.range(1, 12); r.bytes(n) }).collect();
                let n = r.range(1, 30);
                su.ske.signature = r.bytes(n);
                let n = r.below(33);
                su.sh.session_id = r.bytes(n);
                if r.below(5) > 0 {
                    su.sh.exts = Some((0..r.below(5)).map(|_| known_ext(r)).collect());
                }
                let mut got = su.clone();
                let mut what = vec![];
                let before = |su: &Setup| (su.sh.body(), wire::certificate(&su.certs), su.ske.body());
                for _ in 0..r.range(1, 3) {
                    match r.below(8) {
                        0 => what.push(format!("session id: {}", edit(r, &mut got.sh.session_id, 32, |r| r.u8()))),
                        1 => what.push(format!("certificates: {}", edit(r, &mut got.certs, 9, |r| { let n = r.range(1, 9); r.bytes(n) }))),
                        2 if !got.certs.is_empty() => {
                            let i = r.below(got.certs.len());
                            what.push(format!("certificate {}: {}", i, edit(r, &mut got.certs[i], 40, |r| r.u8())));
                            if got.certs[i].is_empty() {
                                got.certs[i].push(0);
                            }
                        }
                        3 => what.push(format!("signature: {}", edit(r, &mut got.ske.signature, 90, |r| r.u8()))),
                        4 => {
                            got.sh.exts = match got.sh.exts.take() {
                                None => Some(vec![]),
                                Some(_) => None,
                            };
                            what.push("extensions there or not".into());
                        }
                        _ => {
                            let mut l = got.sh.exts.take().unwrap_or_default();
                            if !l.is_empty() && r.below(3) == 0 {
                                let i = r.below(l.len());
                                l[i] = known_ext(r);
                                what.push(format!("extension {} replaced", i));
                            } else {
                                what.push(format!("extensions: {}", edit(r, &mut l, 9, known_ext)));
                            }
                            got.sh.exts = Some(l);
                        }
                    }
                }
                if before(&su) == before(&got) {
                    c.trivial();
                    return Ok(());
                }
                let mut sim = su.sim(vec![]);
                let msgs = vec![
                    wire::hs(2, &got.sh.body()),
                    wire::hs(11, &wire::certificate(&got.certs)),
                    wire::hs(12, &got.ske.body()),
                ];
                sim.srv.s2c_edit = Some(Box::new(move |k, rec| if k < 3 { wire::rec(HS, (3, 3), &msgs[k]) } else { rec }));
                must_fail(c, sim, &format!("{} ({})", what.join(", "), c.idx))
            });
            // whole messages, of every type, put in, taken out, repeated or moved
            m.par("order-s2c", m.q(400, 8000), |c| {
                let su = setup(&mut c.rng);
                let r = &mut c.rng;
                let msgs = vec![
                    wire::hs(2, &su.sh.body()),
                    wire::hs(11, &wire::certificate(&su.certs)),
                    wire::hs(12, &su.ske.body()),
                    wire::hs(14, &[]),
                ];
                let mut got = msgs.clone();
                let mut what = vec![];
                for _ in 0..r.range(1, 2) {
                    what.push(edit(r, &mut got, 8, |r| match r.below(8) {
                        0 => wire::hs(0, &[]),
                        1 => wire::hs(13, &[1, 1, 0, 2, 4, 1, 0, 0]),
                        2 => wire::hs(4, &[0, 0, 0, 9, 0, 1, 7]),
                        3 => wire::hs(22, &[1, 0, 0, 1, 5]),
                        4 => wire::hs(20, &r.bytes(12)),
                        5 => wire::hs(11, &wire::certificate(&[r.bytes(4)])),
                        6 => {
                            let t = r.u8();
                            let n = r.below(20);
                            wire::hs(t, &r.bytes(n))
                        }
                        _ => msgs[r.below(4)].clone(),
                    }));
                }
                if got == msgs {
                    c.trivial();
                    return Ok(());
                }
                let bytes = got.concat();
                let mut out = vec![];
                let mut at = 0;
                let cut = *r.pick(&[7usize, 60, 400, 4000]);
                while at < bytes.len() {
                    let n = r.range(1, cut).min(bytes.len() - at);
                    out.extend(wire::rec(HS, (3, 3), &bytes[at..at + n]));
                    at += n;
                }
                let mut sim = su.sim(vec![]);
                sim.srv.s2c_edit = Some(Box::new(move |k, rec| match k {
                    0 => std::mem::take(&mut out),
                    1..=3 => vec![],
                    _ => rec,
                }));
                must_fail(c, sim, &format!("messages: {} ({})", what.join(", "), c.idx))
            });
            m.par("messages-c2s", m.q(8 * 6, 8 * 60), |c| {
                let e = c.idx % 8;
                let mut sim = su0.sim(vec![]);
                let mut r = c.rng.clone();
                sim.srv.c2s_edit = Some(Box::new(move |k, rec| {
                    if k == 1 && e == 7 {
                        let q = rp::encode(&rp::mul(&BigUint::from(r.u64() | 2), &rp::g()));
                        let mut b = vec![65];
                        b.extend(q);
                        return wire::rec(HS, (3, 3), &wire::hs(16, &b));
                    }
                    if k != 0 {
                        return rec;
                    }
                    let mut h = match wire::client_hello(&rec[9..]) {
                        Ok(h) => h,
                        Err(_) => return rec,
                    };
                    match e {
                        0 => h.session_id = r.bytes(32),
                        1 => h.suites.push(0x003c),
                        2 => h.suites.insert(0, 0x0005),
                        3 => h.comps.push(1),
                        4 => h.exts = None,
                        5 => {
                            if let Some(x) = h.exts.as_mut() {
                                x.push((0xff01, vec![0]))
                            }
                        }
                        6 => h.version = (3, 1),
                        _ => {}
                    }
                    wire::rec(HS, (3, 3), &wire::hs(1, &h.body()))
                }));
                must_fail(c, sim, &format!("hello edit {} ({})", e, c.idx))
            });

            // control: the attacker re-cuts the records and changes nothing else
            m.par("control", m.q(40, 400), |c| {
                let su = setup(&mut c.rng);
                let mut sim = su.sim(vec![]);
                let mut r = c.rng.clone();
                sim.srv.s2c_edit = Some(Box::new(move |k, rec| {
                    if k >= 4 {
                        return rec;
                    }
                    let mut out = vec![];
                    let mut at = 5;
                    while at < rec.len() {
                        let n = r.range(1, 60).min(rec.len() - at);
                        out.extend(wire::rec(HS, (3, 3), &rec[at..at + n]));
                        at += n;
                    }
                    out
                }));
                let s = sim.share();
                match connect(&s) {
                    Ok(_) => {
                        c.count("controls that succeeded", 1);
                        agreed(&s)
                    }
                    Err(e) => Err(format!("cutting records differently made the handshake fail: {:?}", e)),
                }
            });
            m.require("altered handshakes", 3000);
            m.require("got as far as the server's Finished", 300);
            m.require("controls that succeeded", 30);
        },
    );
}
