//! C09: an alert (or any other record than data) ends the stream for good; close announces the end once.
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::Aead;
use husk::tls::TlsReader;
use huskmon::ensure;
use huskmon::mon::{self, husk, Case, Verdict};
use huskmon::prng::Rng;
use huskmon::refc;
use huskmon::sim::*;
use huskmon::wire;

const DESCS: &[u8] = &[
    0, 10, 20, 21, 22, 30, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 60, 70, 71, 80, 86, 90, 100, 109, 110, 111, 112,
    113, 114, 115, 116, 120, 255,
];

fn aged(c: &mut Case, cl: &mut Client, s: &SimRef) -> Verdict {
    let age = any_age(&mut c.rng);
    if age > 0 {
        let mut r = Rng::new(c.rng.u64());
        history(cl, s, &mut r, age)?;
        c.count("records that went before", age as u64);
    }
    Ok(())
}

/// data, the record that ends the stream, data again
fn ended(c: &mut Case, ty: u8, body: &[u8], what: &str) -> Verdict {
    let su = small_setup(&mut c.rng);
    let mut sim = su.sim(vec![]);
    any_transport(&mut c.rng, &mut sim);
    let s = sim.share();
    let mut cl = connect(&s).map_err(|e| format!("handshake with an honest server failed: {:?}", e))?;
    aged(c, &mut cl, &s)?;
    let mut want = vec![];
    // now and then very much data, which one call reads
    let bulk = c.rng.chance(1, 25);
    if bulk {
        s.borrow_mut().rd_chunk = Chunk::All;
        c.count("ends after megabytes", 1);
    }
    for _ in 0..if bulk { c.rng.range(5, 150) } else { c.rng.range(0, 4) } {
        let n = if bulk && c.rng.chance(3, 4) { MAX } else { c.rng.size(2000) };
        let d = c.rng.bytes(n);
        s.borrow_mut().srv.record(APP, (3, 3), &d);
        want.extend(d);
    }
    // data may be read before the ending record is there, or after
    let mut got = vec![];
    if c.rng.chance(1, 2) {
        let n = c.rng.below(want.len() + 1);
        let mut b = vec![0; n];
        let k = read(&mut cl, &mut b).map_err(|e| format!("read: {:?}", e))?;
        got.extend_from_slice(&b[..k]);
    }
    s.borrow_mut().srv.record(ty, (3, 3), body);
    let mut behind = 0;
    for _ in 0..c.rng.range(1, 4) {
        let n = if bulk { c.rng.range(1, MAX) } else { c.rng.range(1, 100) };
        let d = c.rng.bytes(n);
        s.borrow_mut().srv.record(APP, (3, 3), &d);
        behind += n;
    }
    let mut zeros = 0;
    for _ in 0..40 {
        let n = if bulk && c.rng.chance(2, 3) { want.len() + 40_000 } else { *c.rng.pick(&[1usize, 7, 100, 3000, 10000]) };
        let mut b = vec![0x5a; n];
        let k = read(&mut cl, &mut b).unwrap_or(0);
        ensure!(k <= n, "read into {} bytes reports {}", n, k);
        ensure!(b[k..].iter().all(|x| *x == 0x5a), "a read wrote beyond the {} bytes it reports", k);
        got.extend_from_slice(&b[..k]);
        if got.len() > want.len() {
            break;
        }
        if k == 0 {
            zeros += 1;
            if zeros >= 4 {
                break;
            }
        } else {
            ensure!(zeros == 0, "data after the end of the stream was reported");
        }
    }
    // read enough times to drain whatever was sent before
    let mut guard = 0;
    while got.len() < want.len() && guard < 20_000 {
        let mut b = [0; 4096];
        let k = read(&mut cl, &mut b).unwrap_or(0);
        if k == 0 {
            break;
        }
        got.extend_from_slice(&b[..k]);
        guard += 1;
    }
    ensure!(got.len() <= want.len(), "{}: data sent after it was delivered ({} of {} bytes more)", what, got.len() - want.len(), behind);
    ensure!(got == want, "{}: {} of the {} bytes sent before it were delivered", what, got.len(), want.len());
    for _ in 0..4 {
        if let Ok(d) = husk(|| cl.reader.read_application_data()) {
            return Err(format!("{}: the record layer delivers {} bytes after it", what, d.len()));
        }
    }
    // sending is still possible or refused, but reading does not come back
    let _ = write_all(&mut cl, b"more");
    let mut b = [0; 64];
    let k = read(&mut cl, &mut b).unwrap_or(0);
    ensure!(k == 0, "{}: {} bytes read after a later write", what, k);
    c.count("streams ended by the server", 1);
    c.count("bytes held back behind the end", behind as u64);
    c.sigs(what);
    let w = want.len();
    let what = what.to_string();
    c.sample(|| format!("{}: {} bytes delivered before it, {} after it held back", what, w, behind));
    Ok(())
}

/// the record layer alone
fn ended_reader(c: &mut Case, ty: u8, body: &[u8]) -> Verdict {
    ended_reader_at(c, ty, body, 0)
}

/// the same, as records number `at` and following
fn ended_reader_at(c: &mut Case, ty: u8, body: &[u8], at: u64) -> Verdict {
    let key = [7u8; 32];
    let iv = [9u8; 12];
    let mk = |q: u64, ty: u8, d: &[u8]| wire::rec(ty, (3, 3), &refc::seal(&key, &nonce(&iv, q), &ad(q, ty, (3, 3), d.len()), d));
    let mut bytes = mk(at, APP, b"before");
    bytes.extend(mk(at + 1, ty, body));
    bytes.extend(mk(at + 2, APP, b"after"));
    bytes.extend(mk(at + 3, APP, b"after"));
    let mut r = TlsReader::new(&bytes[..]);
    r.set_iv(iv.to_vec());
    r.set_decryptor(ChaCha20Poly1305.new_decryptor(key.to_vec()));
    if at > 0 {
        #[cfg(husk_verif)]
        r.verif_set_read_count(at);
    }
    match husk(|| r.read_application_data()) {
        Ok(d) if d == b"before" => {}
        o => return Err(format!("data before the alert: {:?}", o)),
    }
    for i in 0..4 {
        if let Ok(d) = husk(|| r.read_application_data()) {
            return Err(format!("record {}, type {} body {:?}: call {} afterwards delivers {:?}", at + 1, ty, body, i, d));
        }
    }
    c.count("endings seen by the record layer", 1);
    Ok(())
}

fn close(c: &mut Case) -> Verdict {
    let su = small_setup(&mut c.rng);
    let mut sim = su.sim(vec![]);
    any_transport(&mut c.rng, &mut sim);
    let s = sim.share();
    let mut cl = connect(&s).map_err(|e| format!("handshake with an honest server failed: {:?}", e))?;
    aged(c, &mut cl, &s)?;
    let mut want = s.borrow().srv.log.app.clone();
    for _ in 0..c.rng.range(0, 5) {
        match c.rng.below(5) {
            0 => {
                let n = c.rng.range(1, 300);
                let d = c.rng.bytes(n);
                s.borrow_mut().srv.app(&d);
                let mut b = vec![0; n];
                let k = read(&mut cl, &mut b).map_err(|e| format!("read: {:?}", e))?;
                ensure!(k == n && b == d, "read {} of {}", k, n);
            }
            1 => flush(&mut cl).map_err(|e| format!("flush: {:?}", e))?,
            2 => {
                // the server may have closed before
                let (l, d) = (c.rng.range(1, 2) as u8, *c.rng.pick(DESCS));
                s.borrow_mut().srv.record(ALERT, (3, 3), &[l, d]);
                let mut b = [0; 10];
                let k = read(&mut cl, &mut b).unwrap_or(0);
                ensure!(k == 0, "read {} bytes", k);
                c.sigs("closed by server");
                break;
            }
            _ => {
                let n = c.rng.size(40_000);
                let d = c.rng.bytes(n);
                write_all(&mut cl, &d).map_err(|e| format!("write: {:?}", e))?;
                want.extend(d);
            }
        }
    }
    husk(|| cl.close()).map_err(|e| format!("close: {:?}", e))?;
    pump(&s);
    clean(&s)?;
    let b = s.borrow();
    let l = &b.srv.log;
    ensure!(b.unflushed() == 0, "close left {} bytes in the transport's buffer", b.unflushed());
    ensure!(l.app == want, "the server received {} of the {} bytes written before close", l.app.len(), want.len());
    ensure!(l.alerts.len() == 1, "close sent {} alerts: {:?}", l.alerts.len(), l.alerts);
    let (p, level, d) = l.alerts[0];
    ensure!(p, "close sent an unprotected alert");
    ensure!(level == 1, "close sent its close_notify at level {}: the peer takes it for a failure", level);
    ensure!(d == 0, "close sent the alert {}", d);
    let last = l.recs.last().unwrap();
    ensure!(last.ty == ALERT, "the last record is of type {}", last.ty);
    c.count("closings observed", 1);
    c.sigs(want.len());
    Ok(())
}

/// another implementation has to see an orderly end
fn close_openssl(c: &mut Case) -> Verdict {
    let mut peer = huskmon::peer::OpenSsl::start();
    for _ in 0..3 {
        let t = peer.connect();
        let n = c.rng.size(40_000);
        let d = c.rng.bytes(n);
        let talk = c.rng.below(3);
        let _cl = husk(|| -> Result<_, String> {
            use std::io::{Read, Write};
            let mut cl = husk::TlsClient::from_tcp(t).map_err(|e| format!("handshake with OpenSSL failed: {:?}", e))?;
            if talk > 0 {
                cl.write_all(&(n as u32).to_be_bytes()).map_err(|e| format!("write: {:?}", e))?;
                cl.write_all(&d).map_err(|e| format!("write: {:?}", e))?;
                let mut got = vec![0u8; if talk == 2 { 2 * n } else { n / 2 }];
                cl.read_exact(&mut got).map_err(|e| format!("read: {:?}", e))?;
                if talk == 1 {
                    let mut rest = vec![0u8; 2 * n - got.len()];
                    cl.read_exact(&mut rest).map_err(|e| format!("read: {:?}", e))?;
                }
            }
            cl.close().map_err(|e| format!("close: {:?}", e))?;
            Ok(cl)
        })?;
        let v = peer.verdict();
        ensure!(v == "eof", "after close OpenSSL reports {:?} and not the end of the stream", v);
        c.count("closings seen by OpenSSL", 1);
    }
    c.sigs(c.idx);
    Ok(())
}

fn main() {
    mon::main(
        "C09",
        "one case = one connection whose stream the server ends with one record (or which the client closes), with data \
         before and after it and many later reads; distinct = different ending record. Exhaustive: all 65536 alert bodies at \
         the record layer (on whole connections: all defined descriptions and levels; all bodies in thorough)",
        |m| {
            m.par("alert", 2 * DESCS.len() * m.q(4, 20), |c| {
                let k = c.idx % (2 * DESCS.len());
                let (l, d) = ((k % 2) as u8 + 1, DESCS[k / 2]);
                ended(c, ALERT, &[l, d], &format!("alert {} of level {}", d, l))
            });
            m.par("alert-any", m.q(600, 65536), |c| {
                let k = if m.thorough { c.idx } else { c.rng.below(65536) };
                let b = [(k >> 8) as u8, k as u8];
                ended(c, ALERT, &b, &format!("alert {:?}", b))
            });
            m.par("alert-form", m.q(200, 3000), |c| {
                let n = *c.rng.pick(&[0usize, 1, 3, 4, 6, 100, MAX]);
                let mut b = c.rng.bytes(n);
                if n > 1 && c.rng.chance(1, 2) {
                    b[0] = c.rng.range(1, 2) as u8;
                    b[1] = *c.rng.pick(DESCS);
                }
                ended(c, ALERT, &b, &format!("alert record of {} bytes", n))
            });
            m.par("reader", 256, |c| {
                for lo in 0..=255u8 {
                    ended_reader(c, ALERT, &[c.idx as u8, lo])?;
                }
                c.sigs(c.idx);
                Ok(())
            });
            // an ending as the record of every number below 2^16, and around 2^17
            if cfg!(husk_verif) {
                m.par("reader-number", 520, |c| {
                    for at in 1 + c.idx as u64 * 127..1 + (c.idx as u64 + 1) * 127 {
                        let at = if c.idx >= 516 { at + 65_500 } else { at };
                        for (ty, body) in [(ALERT, &[1u8, 0][..]), (ALERT, &[2, *c.rng.pick(DESCS)]), (ALERT, &[1, *c.rng.pick(DESCS)]), (CCS, &[1])] {
                            ended_reader_at(c, ty, body, at)?;
                        }
                    }
                    c.sigs(c.idx);
                    Ok(())
                });
            }
            m.par("types", 256, |c| {
                let t = c.idx as u8;
                if t == APP || t == HS {
                    c.trivial();
                    return Ok(());
                }
                for b in [&[][..], &[1], &[2, 0], b"some longer body"] {
                    ended_reader(c, t, b)?;
                }
                c.sigs(t);
                let b = *c.rng.pick(&[&[1u8][..], &[1, 0], b"data"]);
                ended(c, t, b, &format!("record of type {} with {} bytes", t, b.len()))
            });
            // complete handshake messages on an established connection
            m.par("handshake-message", m.q(300, 5000), |c| {
                let su = small_setup(&mut c.rng);
                let (t, b): (u8, Vec<u8>) = match c.rng.below(9) {
                    0 | 1 => (0, vec![]),
                    2 => (2, su.sh.body()),
                    3 => (11, wire::certificate(&su.certs)),
                    4 => (12, su.ske.body()),
                    5 => (14, vec![]),
                    6 => (20, c.rng.bytes(12)),
                    7 => {
                        let n = c.rng.range(0, 40);
                        (c.rng.u8(), c.rng.bytes(n))
                    }
                    _ => (16, c.rng.bytes(66)),
                };
                let mut body = wire::hs(t, &b);
                if c.rng.chance(1, 4) {
                    body.extend(wire::hs(0, &[]));
                }
                ended(c, HS, &body, &format!("handshake message of type {}", t))
            });
            // the beginning of one, in its own record
            m.par("handshake-partial", m.q(200, 3000), |c| {
                let n = *c.rng.pick(&[0usize, 1, 3, 12, 66, 300, 20_000]);
                let body = wire::hs(*c.rng.pick(&[0u8, 0, 1, 2, 11, 20, 20, 99, 255]), &c.rng.bytes(n));
                let upto = (body.len() - 1).min(MAX);
                let k = if c.rng.chance(1, 2) { c.rng.range(1, 4.min(upto)) } else { c.rng.range(1, upto) };
                c.count("streams ended by the beginning of a handshake message", 1);
                ended(c, HS, &body[..k], &format!("{} of the {} bytes of a handshake message of type {}", k, body.len(), body[0]))?;
                ended_reader(c, HS, &body[..k])
            });
            m.par("handshake-empty", m.q(20, 200), |c| ended(c, HS, &[], "empty handshake record"));
            m.par("ccs", m.q(60, 600), |c| {
                let b = match c.idx % 4 {
                    0 | 1 => vec![1],
                    2 => vec![0],
                    _ => vec![1, 1],
                };
                ended(c, CCS, &b, &format!("ChangeCipherSpec {:?}", b))
            });
            m.par("close", m.q(400, 8000), close);
            m.par_n("close-openssl", m.q(8, 100), 4, close_openssl);
            m.require("closings seen by OpenSSL", 8);
            m.require("streams ended by the server", 800);
            m.require("bytes held back behind the end", 10_000);
            m.require("endings seen by the record layer", 65536);
            m.require("streams ended by the beginning of a handshake message", 100);
            m.require("records that went before", 10_000);
            m.require("closings observed", 300);
        },
    )
}
