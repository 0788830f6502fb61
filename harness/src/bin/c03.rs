//! C03: the handshake is accepted for exactly one sequence of messages.
use huskmon::ensure;
use huskmon::mon::{self, Case, Verdict};
use huskmon::prng::Rng;
use huskmon::sim::*;
use huskmon::wire;

/// one server action of a history
#[derive(Clone, Debug, PartialEq)]
enum A {
    Sh,
    Cert,
    Ske,
    Shd,
    /// ChangeCipherSpec; the server protects what follows if it can
    Ccs,
    /// ChangeCipherSpec with a wrong body
    BadCcs(Vec<u8>),
    Fin,
    /// Finished with its bytes changed
    BadFin([u8; 12]),
    /// Finished of another length
    FinLen(Vec<u8>),
    /// the client's verify_data sent back
    FinEcho,
    /// server starts to protect records without saying so
    EncOn,
    /// a handshake message out of the sequence; in the server's transcript or not
    Other(u8, Vec<u8>, bool),
    /// some record
    Rec(u8, Vec<u8>),
    /// raw bytes of the handshake stream
    Bytes(Vec<u8>),
}

const GOOD: [A; 6] = [A::Sh, A::Cert, A::Ske, A::Shd, A::Ccs, A::Fin];

/// the message or record an action amounts to
fn code(a: &A) -> Option<u8> {
    match a {
        A::Sh => Some(2),
        A::Cert => Some(11),
        A::Ske => Some(12),
        A::Shd => Some(14),
        A::Ccs => Some(200),
        A::Fin => Some(20),
        A::Other(t, _, _) if matches!(t, 2 | 11 | 12 | 14) => Some(*t),
        _ => None,
    }
}
const ORDER: [Option<u8>; 6] = [Some(2), Some(11), Some(12), Some(14), Some(200), Some(20)];
fn legal(h: &[A]) -> bool {
    h.len() >= 6 && h[..6].iter().all(genuine) && h[..6].iter().map(code).eq(ORDER)
}
/// a message the server does not hash, or another ServerHello than the one it derived its keys from,
/// makes a right sequence with a wrong Finished
fn genuine(a: &A) -> bool {
    !matches!(a, A::Other(_, _, false) | A::Other(2, _, _))
}
fn first_flight(h: &[A]) -> bool {
    h.len() >= 4 && h[..4].iter().map(code).eq(ORDER[..4].iter().copied())
}

fn script(su: &Setup, h: &[A]) -> Vec<Item> {
    let mut v = vec![Item::AwaitHello];
    let mut flight = false;
    for (i, a) in h.iter().enumerate() {
        // when the client can have sent its flight, later actions come after it
        if !flight && first_flight(&h[..i]) && !matches!(a, A::Bytes(_)) {
            v.push(Item::AwaitFlight);
            flight = true;
        }
        let can = flight;
        match a {
            A::Sh => v.push(Item::Hs(2, su.sh.body())),
            A::Cert => v.push(Item::Hs(11, wire::certificate(&su.certs))),
            A::Ske => v.push(Item::Hs(12, su.ske.body())),
            A::Shd => v.push(Item::Hs(14, vec![])),
            A::Ccs => {
                if can {
                    v.push(Item::Do(Box::new(|s| {
                        s.record(CCS, (3, 3), &[1]);
                        if !s.enc {
                            s.enc = true;
                        }
                    })))
                } else {
                    v.push(Item::CcsOnly(vec![1]))
                }
            }
            A::BadCcs(b) => {
                v.push(Item::CcsOnly(b.clone()));
                if can {
                    v.push(Item::EncOn)
                }
            }
            A::Fin => {
                if can {
                    v.push(Item::Finished([0; 12]))
                } else {
                    v.push(Item::Hs(20, vec![7; 12]))
                }
            }
            A::BadFin(m) => {
                if can {
                    v.push(Item::Finished(*m))
                } else {
                    v.push(Item::Hs(20, m.to_vec()))
                }
            }
            A::FinLen(b) => v.push(Item::Hs(20, b.clone())),
            A::FinEcho => v.push(Item::Do(Box::new(|s| {
                let d = s.log.hs.iter().rev().find(|h| h.1 == 20).map(|h| h.2.clone());
                s.hs(20, &d.unwrap_or(vec![0; 12]))
            }))),
            A::EncOn => {
                if can {
                    v.push(Item::EncOn)
                }
            }
            A::Other(t, b, tr) => {
                if *tr {
                    v.push(Item::Hs(*t, b.clone()))
                } else {
                    v.push(Item::HsRaw(wire::hs(*t, b)))
                }
            }
            A::Rec(t, b) => v.push(Item::Rec(*t, (3, 3), b.clone())),
            A::Bytes(b) => v.push(Item::HsRaw(b.clone())),
        }
    }
    v
}

fn setup(r: &mut Rng) -> Setup {
    let mut su = Setup::cheap(r);
    su.certs = vec![r.bytes(20)];
    su.ske.signature = r.bytes(16);
    su
}

fn judge(c: &mut Case, h: &[A]) -> Verdict {
    let su = setup(&mut c.rng);
    let mut srv = su.srv();
    srv.script = script(&su, h).into();
    // cut: the coalesced form needs the messages of a flight next to each other
    srv.frag = match c.rng.below(4) {
        0 => Frag::Coalesce,
        1 => Frag::Sizes(vec![c.rng.range(1, 30)]),
        _ => Frag::PerMessage,
    };
    let want = legal(h);
    let s = Sim::new(srv).share();
    let r = connect(&s);
    c.sigs(format!("{:?}", h));
    c.count(if want { "legal histories" } else { "illegal histories" }, 1);
    match (&r, want) {
        (Ok(_), true) => agreed(&s)?,
        (Err(_), false) => {}
        (Ok(_), false) => return Err(format!("accepted an illegal message history: {:?} ({:?})", h, s.borrow().srv.frag)),
        (Err(e), true) => return Err(format!("refused the legal message history ({:?}): {:?}", s.borrow().srv.frag, e)),
    }
    let b = s.borrow();
    let l = &b.srv.log;
    // the client moves only after the whole first flight
    let moved = l.ccs > 0 || l.hs.iter().any(|h| h.1 != 1);
    if moved {
        ensure!(first_flight(h), "the client sent its key exchange although the server's first flight was {:?}", h);
        c.count("client flights", 1);
        if !h[..4].iter().all(genuine) {
            // the two sides hold different keys or transcripts: the server cannot read the flight
            return Ok(());
        }
        let tys: Vec<u8> = l.recs.iter().map(|r| r.ty).filter(|t| *t != ALERT).collect();
        ensure!(tys == [HS, HS, CCS, HS], "record types sent by the client: {:?}", tys);
        let ms: Vec<(bool, u8)> = l.hs.iter().map(|h| (h.0, h.1)).collect();
        ensure!(ms == [(false, 1), (false, 16), (true, 20)], "messages sent by the client: {:?}", ms);
    } else {
        ensure!(l.hs.len() == 1 && l.hs[0].1 == 1, "messages sent by the client before the server's flight: {:?}", l.hs);
    }
    ensure!(l.errors.is_empty(), "a strict server objects: {:?}", l.errors);
    c.sample(|| format!("{:?} -> {:?}", h, r.as_ref().err()));
    Ok(())
}

fn extras(r: &mut Rng) -> Vec<A> {
    let sh = wire::ServerHello::new([9; 32]).body();
    let ske = wire::Ske::new(huskmon::refp256::encode(&huskmon::refp256::g())).body();
    let mut v = vec![
        A::Sh,
        A::Cert,
        A::Ske,
        A::Shd,
        A::Ccs,
        A::Fin,
        A::BadCcs(vec![]),
        A::BadCcs(vec![0]),
        A::BadCcs(vec![2]),
        A::BadCcs(vec![1, 1]),
        A::EncOn,
        A::Rec(APP, vec![1, 2, 3]),
        A::Rec(APP, vec![]),
        A::Rec(HS, vec![]),
        A::Rec(ALERT, vec![]),
        A::Rec(ALERT, vec![1]),
        A::Rec(ALERT, vec![1, 0]),
        A::Rec(ALERT, vec![2, 0]),
        A::Rec(ALERT, vec![1, 90]),
        A::Rec(ALERT, vec![1, 112]),
        A::Rec(ALERT, vec![2, 40]),
        A::Rec(ALERT, vec![1, 255]),
        A::Rec(ALERT, vec![1, 0, 0]),
        A::Rec(24, vec![1, 0, 0]),
        A::Rec(0, vec![0]),
        A::Rec(25, vec![0]),
        A::Rec(255, vec![1]),
        A::FinLen(vec![]),
        A::Bytes(vec![14]),
        A::Bytes(vec![20, 0, 0]),
        A::Bytes(vec![0, 0, 0, 0]),
    ];
    let d = wire::ClientHello {
        version: (3, 3),
        random: vec![1; 32],
        session_id: vec![],
        suites: vec![wire::SUITE],
        comps: vec![0],
        exts: None,
    };
    for tr in [true, false] {
        v.push(A::Other(0, vec![], tr));
        v.push(A::Other(1, d.body(), tr));
        v.push(A::Other(2, sh.clone(), tr));
        v.push(A::Other(4, vec![0, 0, 0, 0, 0, 1, 9], tr));
        v.push(A::Other(11, wire::certificate(&[]), tr));
        v.push(A::Other(12, ske.clone(), tr));
        v.push(A::Other(13, vec![1, 1, 0, 2, 4, 1, 0, 0], tr));
        v.push(A::Other(14, vec![], tr));
        v.push(A::Other(15, vec![4, 1, 0, 1, 5], tr));
        v.push(A::Other(16, vec![1, 4], tr));
        v.push(A::Other(22, vec![1, 0, 0, 1, 5], tr));
        v.push(A::Other(23, vec![], tr));
        v.push(A::Other(r.range(24, 255) as u8, vec![1], tr));
    }
    v
}

fn main() {
    mon::main(
        "C03",
        "one case = one history of server messages played to the real client; distinct = different history; an \
         independent automaton says whether it is the prescribed one. Omissions, repetitions, replacements, \
         insertions (every kind at every place), swaps, every bit of Finished, and random histories of edits",
        |m| {
            m.par("legal", m.q(60, 1000), |c| judge(c, &GOOD));
            m.par("prefix", 6, |c| judge(c, &GOOD[..c.idx]));
            m.par("omit", 6, |c| {
                let mut h = GOOD.to_vec();
                h.remove(c.idx);
                judge(c, &h)
            });
            m.par("omit2", 36, |c| {
                let (i, j) = (c.idx / 6, c.idx % 6);
                let h: Vec<A> = GOOD.iter().enumerate().filter(|(k, _)| *k != i && *k != j).map(|(_, a)| a.clone()).collect();
                judge(c, &h)
            });
            m.par("swap", 36, |c| {
                let mut h = GOOD.to_vec();
                h.swap(c.idx / 6, c.idx % 6);
                judge(c, &h)
            });
            m.par("repeat", 6 * 6, |c| {
                let mut h = GOOD.to_vec();
                let a = h[c.idx / 6].clone();
                h.insert(c.idx % 6, a);
                judge(c, &h)
            });
            let nx = extras(&mut Rng::new(1)).len();
            // an insertion at place 6 comes after the handshake and does not matter to it
            m.par("insert", nx * 6 * 2, |c| {
                let mut h = GOOD.to_vec();
                let x = extras(&mut c.rng)[(c.idx / 2) / 6].clone();
                if x == A::EncOn && (c.idx / 2) % 6 < 5 {
                    // protecting early: only possible after the client's flight
                    c.trivial();
                    return Ok(());
                }
                if x == A::EncOn {
                    // after ChangeCipherSpec it changes nothing
                    c.trivial();
                    return Ok(());
                }
                h.insert((c.idx / 2) % 6, x);
                judge(c, &h)
            });
            m.par("replace", nx * 6, |c| {
                let mut h = GOOD.to_vec();
                let x = extras(&mut c.rng)[c.idx / 6].clone();
                h[c.idx % 6] = x;
                judge(c, &h)
            });
            // Finished
            m.par("finished-bit", 96, |c| {
                let mut mask = [0u8; 12];
                mask[c.idx / 8] = 1 << (c.idx % 8);
                let mut h = GOOD.to_vec();
                h[5] = A::BadFin(mask);
                judge(c, &h)
            });
            m.par("finished-mask", m.q(200, 4000), |c| {
                let mut mask: [u8; 12] = c.rng.arr();
                // differences that might cancel: equal in several bytes, or swaps of bytes
                if c.idx % 3 == 0 {
                    let v = 1 + c.rng.below(255) as u8;
                    mask = [0; 12];
                    for _ in 0..2 {
                        let k = c.rng.below(12);
                        mask[k] ^= v;
                    }
                }
                if c.idx % 3 == 1 {
                    let v = 1 + c.rng.below(255) as u8;
                    mask = [v; 12];
                }
                if mask == [0; 12] {
                    mask[11] = 1;
                }
                let mut h = GOOD.to_vec();
                h[5] = A::BadFin(mask);
                judge(c, &h)
            });
            m.par("finished-form", 40, |c| {
                let mut h = GOOD.to_vec();
                h[5] = match c.idx {
                    0 => A::FinEcho,
                    n => A::FinLen(c.rng.bytes(n - 1)),
                };
                judge(c, &h)
            });
            // Finished in the clear, or partly in the clear
            m.par("unprotected", 40, |c| {
                let n = c.idx;
                let su = setup(&mut c.rng);
                let mut srv = su.srv();
                let mut v = vec![
                    Item::AwaitHello,
                    Item::Hs(2, su.sh.body()),
                    Item::Hs(11, wire::certificate(&su.certs)),
                    Item::Hs(12, su.ske.body()),
                    Item::Hs(14, vec![]),
                    Item::AwaitFlight,
                ];
                let what;
                match n {
                    0 => {
                        what = "Finished in the clear instead of ChangeCipherSpec".to_string();
                        v.push(Item::Finished([0; 12]));
                    }
                    1 => {
                        what = "Finished in the clear before ChangeCipherSpec".into();
                        v.push(Item::Finished([0; 12]));
                        v.push(Item::Ccs);
                        v.push(Item::App(vec![1; 5]));
                    }
                    2 => {
                        what = "Finished in the clear after ChangeCipherSpec".into();
                        v.push(Item::CcsOnly(vec![1]));
                        v.push(Item::Finished([0; 12]));
                    }
                    3 => {
                        what = "protected Finished without ChangeCipherSpec".into();
                        v.push(Item::EncOn);
                        v.push(Item::Finished([0; 12]));
                    }
                    4 => {
                        what = "protected ChangeCipherSpec and Finished".into();
                        v.push(Item::EncOn);
                        v.push(Item::CcsOnly(vec![1]));
                        v.push(Item::Finished([0; 12]));
                    }
                    5 => {
                        what = "Finished in the clear both before and protected after ChangeCipherSpec".into();
                        v.push(Item::Do(Box::new(|s| {
                            let d = s.server_verify().unwrap();
                            s.hs_bytes(&wire::hs(20, &d));
                        })));
                        v.push(Item::Ccs);
                        v.push(Item::Finished([0; 12]));
                    }
                    6 => {
                        what = "Finished after two ChangeCipherSpec".into();
                        v.push(Item::CcsOnly(vec![1]));
                        v.push(Item::Ccs);
                        v.push(Item::Finished([0; 12]));
                    }
                    7 => {
                        what = "Finished with sequence number 1".into();
                        v.push(Item::Ccs);
                        v.push(Item::Do(Box::new(|s| s.seq = 1)));
                        v.push(Item::Finished([0; 12]));
                    }
                    n if n < 24 => {
                        // the first n-7 bytes of Finished before ChangeCipherSpec, the rest protected after it
                        let k = n - 7;
                        if k >= 16 {
                            c.trivial();
                            return Ok(());
                        }
                        what = format!("the first {} bytes of Finished in the clear before ChangeCipherSpec", k);
                        v.push(Item::Do(Box::new(move |s| {
                            let f = wire::hs(20, &s.server_verify().unwrap());
                            s.hs_bytes(&f[..k]);
                            s.flush_hs();
                            s.record(CCS, (3, 3), &[1]);
                            s.enc = true;
                            s.hs_bytes(&f[k..]);
                        })));
                    }
                    n => {
                        // the start of a message already with ServerHelloDone, before the client's flight
                        let k = n - 24;
                        if k < 1 || k > 15 {
                            c.trivial();
                            return Ok(());
                        }
                        what = format!("{} bytes in the clear with ServerHelloDone that could start Finished", k);
                        v[5] = Item::HsRaw(if k < 5 { vec![20, 0, 0, 12][..k].to_vec() } else { [vec![20, 0, 0, 12], vec![0; k - 4]].concat() });
                        v.push(Item::AwaitFlight);
                        v.push(Item::Ccs);
                        v.push(Item::Do(Box::new(move |s| {
                            let f = wire::hs(20, &s.server_verify().unwrap());
                            s.hs_bytes(&f[k..]);
                        })));
                        srv.frag = Frag::Coalesce;
                    }
                }
                srv.script = v.into();
                let s = Sim::new(srv).share();
                c.sigs(&what);
                c.count("illegal histories", 1);
                match connect(&s) {
                    Ok(_) => Err(format!("accepted: {}", what)),
                    Err(_) => clean(&s),
                }
            });
            // several edits, longer histories
            m.par("random", m.q(1500, 60_000), |c| {
                let mut h = GOOD.to_vec();
                let x = extras(&mut c.rng);
                for _ in 0..c.rng.range(1, 4) {
                    match c.rng.below(5) {
                        0 if h.len() > 1 => {
                            let i = c.rng.below(h.len());
                            h.remove(i);
                        }
                        1 => {
                            let (i, j) = (c.rng.below(h.len()), c.rng.below(h.len()));
                            h.swap(i, j);
                        }
                        2 => {
                            let i = c.rng.below(h.len());
                            let a = h[i].clone();
                            let j = c.rng.below(h.len() + 1).min(5);
                            h.insert(j.min(h.len()), a);
                        }
                        3 => {
                            let i = c.rng.below(h.len());
                            h[i] = c.rng.pick(&x).clone();
                        }
                        _ => {
                            let j = c.rng.below(h.len() + 1).min(5).min(h.len());
                            h.insert(j, c.rng.pick(&x).clone());
                        }
                    }
                }
                h.retain(|a| *a != A::EncOn);
                judge(c, &h)
            });
            // coalesced differently, legal ones still succeed and illegal ones with trailing bytes fail
            m.require("legal histories", 60);
            m.require("illegal histories", 1000);
            m.require("client flights", 100);
        },
    );
}
