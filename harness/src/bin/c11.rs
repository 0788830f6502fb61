//! C11: a failed handshake is announced by exactly one fitting fatal alert, a failed transport by none.
use husk::tls_result::{TlsError, TlsErrorKind as K};
use huskmon::mon::{self, Case, Verdict};
use huskmon::prng::Rng;
use huskmon::sim::*;
use huskmon::{ensure, mutate, wire};
use std::io;

/// the observable part: alerts, their number, place, protection and description
fn judge(c: &mut Case, s: &SimRef, e: &TlsError, what: &str) -> Verdict {
    let b = s.borrow();
    let l = &b.srv.log;
    let alerts: Vec<usize> = (0..l.recs.len()).filter(|i| l.recs[*i].ty == ALERT).collect();
    let transport = b.eof_reads > 0 || b.fault_hit;
    c.sigs(format!("{} {} {}", what, kind_name(e), l.recs.len()));
    c.sample(|| format!("{}: {} ({}), alerts {:?}", what, kind_name(e), e.desc, l.alerts));
    if e.kind == K::IoFailure {
        ensure!(transport, "{}: reported as a transport failure, but the transport did not fail ({})", what, e.desc);
        ensure!(alerts.is_empty(), "{}: transport failure, but {} alerts were sent", what, alerts.len());
        c.count("transport failures without an alert", 1);
        return Ok(());
    }
    ensure!(!transport, "{}: the transport ended, but the error is {}", what, kind_name(e));
    ensure!(alerts.len() == 1, "{}: {} reported, {} alerts sent", what, kind_name(e), alerts.len());
    ensure!(alerts[0] + 1 == l.recs.len(), "{}: the alert is not the client's last record", what);
    ensure!(b.unflushed() == 0, "{}: the alert was left in the transport's buffer", what);
    ensure!(b.srv.partial() == 0, "{}: bytes of an incomplete record follow", what);
    let r = &l.recs[alerts[0]];
    // `protected`: it came after the client's ChangeCipherSpec, and so it has to be sealed
    match &r.plain {
        Some(p) => {
            ensure!(p.len() == 2, "{}: alert of {} bytes", what, p.len());
            ensure!(p[0] == 2, "{}: alert of level {}", what, p[0]);
            let want = alert_for(e.kind).unwrap();
            ensure!(p[1] == want, "{}: {} reported, alert {} sent instead of {}", what, kind_name(e), p[1], want);
            ensure!(r.wire_len == if l.ccs > 0 { 18 } else { 2 }, "{}: alert record of {} bytes, after {} ChangeCipherSpec", what, r.wire_len, l.ccs);
            c.count(if l.ccs > 0 { "protected alerts opened" } else { "alerts in the clear" }, 1);
        }
        None => {
            // the server strayed and has no keys; an alert in the clear would be 2 bytes
            ensure!(r.wire_len == 18, "{}: alert record of {} bytes after ChangeCipherSpec", what, r.wire_len);
            c.count("protected alerts seen (other keys)", 1);
        }
    }
    Ok(())
}

fn kinds(ks: &[K]) -> String {
    format!("{:?}", ks)
}

/// catalogue: name, what to do to the script, kinds that fit
type Change = Box<dyn Fn(&mut Setup, &mut Vec<Item>, &mut Rng) -> &'static [K] + Send + Sync>;

fn catalogue() -> Vec<(&'static str, Change)> {
    let mut v: Vec<(&'static str, Change)> = vec![];
    macro_rules! add {
        ($n:expr, $f:expr) => {
            v.push(($n, Box::new($f)))
        };
    }
    const ILL: &[K] = &[K::IllegalParameter];
    const UNEX: &[K] = &[K::UnexpectedMessage];
    const DEC: &[K] = &[K::DecodeError];
    const MAC: &[K] = &[K::BadRecordMac];
    const OVER: &[K] = &[K::RecordOverflow];
    const CRYPT: &[K] = &[K::DecryptError];
    const AL: &[K] = &[K::AlertReceived];
    const DEC_ILL: &[K] = &[K::DecodeError, K::IllegalParameter];
    fn sh(su: &Setup) -> Item {
        Item::Hs(2, su.sh.body())
    }
    // parameters that were not offered
    add!("version 3.2", |su: &mut Setup, v: &mut Vec<Item>, _: &mut Rng| {
        su.sh.version = (3, 2);
        v[1] = sh(su);
        ILL
    });
    add!("version 3.4", |su: &mut Setup, v: &mut Vec<Item>, _: &mut Rng| {
        su.sh.version = (3, 4);
        v[1] = sh(su);
        ILL
    });
    add!("other suite", |su: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        su.sh.suite = *r.pick(&[0xc02f, 0x002f, 0, 0xcca9, 0x1303]);
        v[1] = sh(su);
        ILL
    });
    add!("compression", |su: &mut Setup, v: &mut Vec<Item>, _: &mut Rng| {
        su.sh.comp = 1;
        v[1] = sh(su);
        ILL
    });
    add!("unknown compression", |su: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        su.sh.comp = r.range(2, 255) as u8;
        v[1] = sh(su);
        DEC_ILL
    });
    add!("curve secp384r1", |su: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        su.ske.curve = *r.pick(&[24, 25, 22, 1]);
        v[3] = Item::Hs(12, su.ske.body());
        ILL
    });
    add!("unknown curve", |su: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        su.ske.curve = *r.pick(&[29, 30, 0, 26, 0x6399]);
        v[3] = Item::Hs(12, su.ske.body());
        DEC_ILL
    });
    add!("explicit curve", |su: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        su.ske.curve_type = *r.pick(&[1, 2, 0, 4, 255]);
        v[3] = Item::Hs(12, su.ske.body());
        DEC_ILL
    });
    add!("signature algorithm", |su: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        let x = *r.pick(&[(2, 1), (4, 3), (5, 1), (1, 1), (4, 0)]);
        su.ske.hash = x.0;
        su.ske.sig = x.1;
        v[3] = Item::Hs(12, su.ske.body());
        ILL
    });
    add!("point off the curve", |su: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        let i = r.range(1, 64);
        su.ske.point[i] ^= 1 << r.below(8);
        v[3] = Item::Hs(12, su.ske.body());
        ILL
    });
    add!("compressed point", |su: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        su.ske.point[0] = 2 + r.below(2) as u8;
        su.ske.point.truncate(33);
        v[3] = Item::Hs(12, su.ske.body());
        ILL
    });
    add!("no point", |su: &mut Setup, v: &mut Vec<Item>, _: &mut Rng| {
        su.ske.point = vec![];
        v[3] = Item::Hs(12, su.ske.body());
        DEC_ILL
    });
    // messages out of place
    for at in 1..5usize {
        for t in [0u8, 1, 2, 11, 12, 13, 14, 16, 20] {
            let name: &'static str = Box::leak(format!("message {} in place {}", t, at).into_boxed_str());
            add!(name, move |su: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
                let same = match &v[at] {
                    Item::Hs(x, _) => *x == t,
                    _ => false,
                };
                let body = match t {
                    0 | 14 => vec![],
                    1 => wire::ClientHello {
                        version: (3, 3),
                        random: r.bytes(32),
                        session_id: vec![],
                        suites: vec![wire::SUITE],
                        comps: vec![0],
                        exts: None,
                    }
                    .body(),
                    2 => su.sh.body(),
                    11 => wire::certificate(&su.certs),
                    12 => su.ske.body(),
                    13 => vec![1, 1, 0, 2, 4, 1, 0, 0],
                    16 => vec![1, 2, 3],
                    _ => r.bytes(12),
                };
                // the right message for its place, twice
                v.insert(at + same as usize, Item::Hs(t, body));
                UNEX
            });
        }
    }
    add!("unknown message type", |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        let at = r.range(1, 4);
        v.insert(at, Item::Hs(*r.pick(&[3, 4, 5, 15, 21, 22, 67, 255]), vec![0; 3]));
        UNEX
    });
    add!("application data in the handshake", |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        let at = r.range(1, 6);
        v.insert(at, Item::Rec(APP, (3, 3), b"early".to_vec()));
        UNEX
    });
    add!("early ChangeCipherSpec", |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        let at = r.range(1, 4);
        v.insert(at, Item::CcsOnly(vec![1]));
        UNEX
    });
    add!("wrong ChangeCipherSpec", |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        v[6] = Item::CcsOnly(r.pick(&[vec![0], vec![2], vec![1, 1]]).clone());
        &[K::UnexpectedMessage, K::DecodeError, K::IllegalParameter]
    });
    add!("no ChangeCipherSpec", |_: &mut Setup, v: &mut Vec<Item>, _: &mut Rng| {
        v.remove(6);
        UNEX
    });
    add!("two ChangeCipherSpecs", |_: &mut Setup, v: &mut Vec<Item>, _: &mut Rng| {
        v.insert(7, Item::CcsOnly(vec![1]));
        UNEX
    });
    add!("unknown record type", |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        let at = r.range(1, 6);
        v.insert(at, Item::Rec(*r.pick(&[0, 19, 24, 25, 128, 255]), (3, 3), vec![1]));
        UNEX
    });
    add!("empty handshake record", |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        let at = r.range(1, 6);
        v.insert(at, Item::Rec(HS, (3, 3), vec![]));
        &[K::UnexpectedMessage, K::DecodeError]
    });
    // malformed messages
    add!("trailing bytes in a message", |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        let at = r.range(1, 4);
        if let Item::Hs(t, b) = &mut v[at] {
            let n = r.range(1, 9);
            // two bytes after a ServerHello are the length of its extensions
            b.extend(if *t == 2 { vec![9] } else { vec![7; n] });
        }
        DEC
    });
    add!("message cut short", |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        let at = r.range(1, 3);
        if let Item::Hs(_, b) = &mut v[at] {
            let n = r.below(b.len());
            b.truncate(n);
        }
        DEC
    });
    add!("inner length too large", |su: &mut Setup, v: &mut Vec<Item>, _: &mut Rng| {
        let mut b = wire::certificate(&su.certs);
        b[2] = b[2].wrapping_add(1);
        v[2] = Item::Hs(11, b);
        DEC
    });
    add!("session id of 33 bytes", |su: &mut Setup, v: &mut Vec<Item>, _: &mut Rng| {
        su.sh.session_id = vec![1; 33];
        v[1] = sh(su);
        DEC
    });
    add!("empty certificate", |_: &mut Setup, v: &mut Vec<Item>, _: &mut Rng| {
        v[2] = Item::Hs(11, wire::certificate(&[vec![]]));
        DEC
    });
    add!("bytes behind the extensions", |su: &mut Setup, v: &mut Vec<Item>, _: &mut Rng| {
        su.sh.exts = Some(vec![(11, vec![1, 0])]);
        let mut b = su.sh.body();
        b.push(0);
        v[1] = Item::Hs(2, b);
        DEC
    });
    // Finished
    add!("Finished differs", |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        let mut m = [0; 12];
        m[r.below(12)] = 1 << r.below(8);
        v[7] = Item::Finished(m);
        CRYPT
    });
    add!("Finished of 11 bytes", |_: &mut Setup, v: &mut Vec<Item>, _: &mut Rng| {
        v[7] = Item::Hs(20, vec![0; 11]);
        DEC
    });
    add!("Finished of 13 bytes", |_: &mut Setup, v: &mut Vec<Item>, _: &mut Rng| {
        v[7] = Item::Hs(20, vec![0; 13]);
        DEC
    });
    add!("application data instead of Finished", |_: &mut Setup, v: &mut Vec<Item>, _: &mut Rng| {
        v[7] = Item::App(vec![1, 2, 3]);
        UNEX
    });
    // record protection
    add!("Finished in the clear", |_: &mut Setup, v: &mut Vec<Item>, _: &mut Rng| {
        v[6] = Item::CcsOnly(vec![1]);
        MAC
    });
    add!("protected record altered", |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        let (o, m) = (r.range(5, 36), r.range(1, 255) as u8);
        v.insert(
            7,
            Item::Do(Box::new(move |s: &mut Srv| {
                s.s2c_edit = Some(Box::new(move |_, mut b| {
                    b[o] ^= m;
                    b
                }))
            })),
        );
        MAC
    });
    add!("protected record too short for a tag", |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        let n = r.below(16);
        v.insert(7, Item::Raw(wire::rec(HS, (3, 3), &vec![1; n])));
        MAC
    });
    // sizes
    add!("record longer than 2^14", |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        let at = r.range(1, 6);
        let n = *r.pick(&[MAX + 1, MAX + 100, MAX + 2048]);
        v.insert(at, Item::Rec(HS, (3, 3), vec![0; n]));
        OVER
    });
    add!("record longer than 2^14 + 2048", |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        let at = r.range(1, 7);
        let n = *r.pick(&[MAX + 2049, 65_000, 65_535]);
        v.insert(at, Item::Raw(wire::rec(HS, (3, 3), &vec![0; n])));
        OVER
    });
    add!("protected record with too much plaintext", |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        let n = *r.pick(&[MAX + 1, MAX + 2032]);
        v.insert(7, Item::Rec(HS, (3, 3), vec![0; n]));
        OVER
    });
    // alerts from the server
    for at in [1usize, 2, 3, 4, 7] {
        let name: &'static str = Box::leak(format!("alert in place {}", at).into_boxed_str());
        add!(name, move |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
            v.insert(at, Item::Alert(r.range(1, 2) as u8, *r.pick(&[0, 10, 20, 40, 47, 50, 51, 70, 80, 90, 100])));
            AL
        });
    }
    add!("alert instead of ChangeCipherSpec", |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        v.insert(6, Item::Alert(2, *r.pick(&[0, 20, 40, 51])));
        &[K::AlertReceived, K::UnexpectedMessage]
    });
    add!("malformed alert", |_: &mut Setup, v: &mut Vec<Item>, r: &mut Rng| {
        let at = r.range(1, 5);
        v.insert(at, Item::Rec(ALERT, (3, 3), r.pick(&[vec![], vec![2], vec![3, 0], vec![2, 200]]).clone()));
        &[K::UnexpectedMessage, K::DecodeError, K::IllegalParameter, K::AlertReceived]
    });
    v
}

fn main() {
    mon::main(
        "C11",
        "one case = one handshake that has to fail in a known way (or a hostile one that may); the alert records it leaves on \
         the wire are opened with independent keys and compared with the error returned; distinct = different failure, place and error",
        |m| {
            let cat = catalogue();
            m.par("catalogue", cat.len() * m.q(12, 150), |c| {
                let (name, f) = &cat[c.idx % cat.len()];
                let mut su = small_setup(&mut c.rng);
                let mut v = su.script();
                let want = f(&mut su, &mut v, &mut c.rng);
                let mut srv = su.srv();
                srv.script = v.into();
                let mut sim = Sim::new(srv);
                // several messages may share a record only if that does not change what fails first
                if c.rng.chance(1, 2) {
                    sim.rd_chunk = any_chunk(&mut c.rng);
                    sim.wr_chunk = any_chunk(&mut c.rng);
                    sim.buffered = c.rng.chance(1, 2);
                    sim.intr_rd = 30;
                    sim.intr_wr = 30;
                }
                let s = sim.share();
                match connect(&s) {
                    Ok(_) => return Err(format!("{}: the handshake succeeded", name)),
                    Err(e) => {
                        judge(c, &s, &e, name)?;
                        ensure!(want.contains(&e.kind), "{}: reported as {} ({}), fitting are {}", name, kind_name(&e), e.desc, kinds(want));
                        c.count("failures of known cause", 1);
                    }
                }
                Ok(())
            });
            // any hostile server: whatever error results, its announcement has to agree with it
            m.par("hostile", m.q(4000, 200_000), |c| {
                let srv = mutate::server(&mut c.rng);
                let mut sim = Sim::new(srv);
                any_transport(&mut c.rng, &mut sim);
                let s = sim.share();
                match connect(&s) {
                    Ok(_) => {
                        c.trivial();
                        Ok(())
                    }
                    Err(e) => {
                        ensure!(e.kind != K::InternalError, "an error of the server is reported as an internal error: {}", e.desc);
                        judge(c, &s, &e, "hostile server")
                    }
                }
            });
            // the stream ends after every byte of an honest handshake
            let total = {
                let mut r = Rng::new(3);
                let su = small_setup(&mut r);
                let s = su.sim(vec![]).share();
                let _ = connect(&s);
                let n = s.borrow().srv.out.len();
                n
            };
            m.par("eof", total.max(1) + 40, |c| {
                let su = small_setup(&mut Rng::new(3));
                let mut sim = su.sim(vec![]);
                sim.eof_at = Some(c.idx);
                let s = sim.share();
                match connect(&s) {
                    Ok(_) => {
                        ensure!(c.idx >= total, "the handshake succeeded with {} of {} bytes", c.idx, total);
                        c.trivial();
                        Ok(())
                    }
                    Err(e) => {
                        ensure!(e.kind == K::IoFailure, "the stream ended after {} bytes: reported as {}", c.idx, kind_name(&e));
                        judge(c, &s, &e, &format!("end after {} bytes", c.idx))
                    }
                }
            });
            // every transport operation fails
            m.par("fault", 400, |c| {
                let su = small_setup(&mut Rng::new(3));
                let mut sim = su.sim(vec![]);
                let k = *c.rng.pick(&[io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::UnexpectedEof, io::ErrorKind::Other]);
                sim.fault = Some((c.idx / 2, Fault::Err(k)));
                sim.fault_sticky = c.idx % 2 == 0;
                let s = sim.share();
                match connect(&s) {
                    Ok(_) => {
                        ensure!(!s.borrow().fault_hit, "a failed transport operation ({}) was ignored", c.idx / 2);
                        c.trivial();
                        Ok(())
                    }
                    Err(e) => {
                        ensure!(e.kind == K::IoFailure, "operation {} failed with {:?}: reported as {}", c.idx / 2, k, kind_name(&e));
                        judge(c, &s, &e, &format!("operation {} fails", c.idx / 2))
                    }
                }
            });
            m.require("failures of known cause", 800);
            m.require("protected alerts opened", 50);
            m.require("alerts in the clear", 300);
            m.require("transport failures without an alert", 300);
        },
    )
}
