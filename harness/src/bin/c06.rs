//! C06: sequence numbers advance by one per record from 0, nonce = iv xor number, and no nonce is used twice.
use husk::cipher::{Decryptor, Encryptor};
use husk::tls::{ContentType, Message, Record, TlsReader, TlsWriter};
use husk::tls_result::TlsResult;
use huskmon::ensure;
use huskmon::mon::{self, husk, Case, Verdict};
use huskmon::refc;
use huskmon::sim::*;
use huskmon::wire;
use std::collections::HashMap;
use std::io;
use std::sync::{Arc, Mutex};

type Seen = Arc<Mutex<Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>>>;

/// records what it is asked to protect
struct RecEnc(Seen);
impl Encryptor for RecEnc {
    fn encrypt(&mut self, nonce: &[u8], plain: &[u8], ad: &[u8]) -> Vec<u8> {
        self.0.lock().unwrap().push((nonce.to_vec(), plain.to_vec(), ad.to_vec()));
        let mut v = plain.to_vec();
        v.extend_from_slice(&[0xee; 16]);
        v
    }
}
struct RecDec(Seen);
impl Decryptor for RecDec {
    fn decrypt(&mut self, nonce: &[u8], enc: &[u8], ad: &[u8]) -> TlsResult<Vec<u8>> {
        self.0.lock().unwrap().push((nonce.to_vec(), enc.to_vec(), ad.to_vec()));
        Ok(enc[..enc.len() - 16].to_vec())
    }
    fn mac_len(&self) -> usize {
        16
    }
}

/// a writer that fails at chosen operations
struct Flaky {
    n: usize,
    fail: Vec<usize>,
    part: usize,
    out: Vec<u8>,
}
impl io::Write for Flaky {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.n += 1;
        if self.fail.contains(&(self.n - 1)) {
            if self.part > 0 && b.len() > self.part {
                let k = self.part;
                self.fail.push(self.n);
                self.part = 0;
                self.out.extend_from_slice(&b[..k]);
                return Ok(k);
            }
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "injected"));
        }
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const TYS: [ContentType; 4] =
    [ContentType::ChangeCipherSpecTy, ContentType::AlertTy, ContentType::HandshakeTy, ContentType::ApplicationDataTy];

fn check_seen(seen: &[(Vec<u8>, Vec<u8>, Vec<u8>)], iv: &[u8], start: u64, what: &[(u8, usize)]) -> Verdict {
    ensure!(seen.len() == what.len(), "{} records were protected, {} were written", seen.len(), what.len());
    for (i, (n, _, a)) in seen.iter().enumerate() {
        let seq = start + i as u64;
        ensure!(n[..] == nonce(iv, seq)[..], "record {} (sequence number {}) used nonce {} (iv {})", i, seq, refc::hex(n), refc::hex(iv));
        let w = ad(seq, what[i].0, (3, 3), what[i].1);
        ensure!(*a == w, "record {} (sequence number {}) has additional data {} instead of {}", i, seq, refc::hex(a), refc::hex(&w));
    }
    Ok(())
}

fn write_run(c: &mut Case, start: u64, n: usize) -> Verdict {
    let seen: Seen = Default::default();
    let iv = c.rng.bytes(12);
    let mut w = TlsWriter::new(io::sink());
    let iv_first = c.rng.chance(1, 2);
    if iv_first {
        w.set_iv(iv.clone());
    }
    w.set_encryptor(Box::new(RecEnc(seen.clone())));
    if !iv_first {
        w.set_iv(iv.clone());
    }
    jump_w(&mut w, start);
    let mut what = vec![];
    for _ in 0..n {
        let ty = *c.rng.pick(&TYS);
        let len = c.rng.range(1, 5);
        what.push((ty as u8, len));
        let d = c.rng.bytes(len);
        husk(|| if len % 2 == 0 { w.write_record(Record::new(ty, 3, 3, d)) } else { w.write_data(ty, &d) })
            .map_err(|e| format!("write: {:?}", e))?;
    }
    let s = seen.lock().unwrap();
    c.count("records protected", s.len() as u64);
    c.sigs(start);
    c.sig(&iv);
    check_seen(&s, &iv, start, &what)
}

#[allow(unused_variables)]
fn jump_w<W: io::Write>(w: &mut TlsWriter<W>, n: u64) {
    if n > 0 {
        #[cfg(husk_verif)]
        w.verif_set_write_count(n);
    }
}
#[allow(unused_variables)]
fn jump_r<R: io::Read>(w: &mut TlsReader<R>, n: u64) {
    if n > 0 {
        #[cfg(husk_verif)]
        w.verif_set_read_count(n);
    }
}

fn read_run(c: &mut Case, start: u64, n: usize) -> Verdict {
    let seen: Seen = Default::default();
    let iv = c.rng.bytes(12);
    let mut stream = vec![];
    let mut what = vec![];
    for _ in 0..n {
        let len = c.rng.range(0, 5);
        let mut b = c.rng.bytes(len);
        b.extend_from_slice(&[0xee; 16]);
        stream.extend(wire::rec(APP, (3, 3), &b));
        what.push((APP, len));
    }
    let mut r = TlsReader::new(&stream[..]);
    r.set_iv(iv.clone());
    r.set_decryptor(Box::new(RecDec(seen.clone())));
    jump_r(&mut r, start);
    for i in 0..n {
        match husk(|| r.read_message()) {
            Ok(Message::ApplicationDataMessage(d)) => ensure!(d.len() == what[i].1, "record {} has {} bytes", i, d.len()),
            Ok(_) => return Err(format!("record {} is read as another message", i)),
            Err(e) => return Err(format!("record {}: {:?}", i, e)),
        }
    }
    let s = seen.lock().unwrap();
    c.count("records opened", s.len() as u64);
    c.sigs(start);
    c.sig(&iv);
    check_seen(&s, &iv, start, &what)
}

/// every sealed record found in `raw`, at any offset: (offset, number, type, ciphertext)
fn find_sealed(raw: &[u8], key: &[u8], iv: &[u8], max: u64) -> Vec<(usize, u64, u8, Vec<u8>)> {
    let mut v = vec![];
    for o in 0..raw.len().saturating_sub(20) {
        if !(20..24).contains(&raw[o]) || raw[o + 1] != 3 || raw[o + 2] != 3 {
            continue;
        }
        let n = (raw[o + 3] as usize) << 8 | raw[o + 4] as usize;
        if n < 16 || o + 5 + n > raw.len() {
            continue;
        }
        let body = &raw[o + 5..o + 5 + n];
        for s in 0..max {
            if refc::open(key, &nonce(iv, s), &ad(s, raw[o], (3, 3), n - 16), body).is_some() {
                v.push((o, s, raw[o], body.to_vec()));
            }
        }
    }
    v
}

fn main() {
    mon::main(
        "C06",
        "one case = one connection (or record writer/reader with a recording cipher) whose protected records are all \
         identified with their sequence number by independent decryption; distinct = different start number, IV, fault or history",
        |m| {
            m.par("write", m.q(6, 24), |c| {
                let n = if c.idx == 0 { 140_000 } else { 700 };
                write_run(c, 0, n)
            });
            m.par("read", m.q(6, 24), |c| {
                let n = if c.idx == 0 { 140_000 } else { 700 };
                read_run(c, 0, n)
            });
            if cfg!(husk_verif) {
                let mut starts = vec![];
                for k in 1..64u32 {
                    starts.push((1u64 << k) - 1);
                    starts.push((1u64 << k).saturating_sub(3));
                    starts.push((1u64 << k) + 250);
                }
                starts.push(u64::MAX - 20);
                // the numbers that occur in the code
                starts.extend(huskmon::dict::numbers().iter().filter(|n| **n < u64::MAX - 20).map(|n| n - 3));
                let st = &starts;
                m.par("write-far", st.len() * 2, |c| write_run(c, st[c.idx / 2].max(1), 10));
                m.par("read-far", st.len() * 2, |c| read_run(c, st[c.idx / 2].max(1), 10));
                // both directions of a real connection, from far numbers, with the real cipher
                m.par("client-far", st.len(), |c| {
                    let at = st[c.idx].max(1);
                    let su = small_setup(&mut c.rng);
                    let (mut cl, s) = established(&su, vec![])?;
                    jump_w(&mut cl.writer, at);
                    jump_r(&mut cl.reader, at);
                    {
                        let mut b = s.borrow_mut();
                        b.srv.cseq = at;
                        b.srv.seq = at;
                    }
                    c.sigs(at);
                    for i in 0..6u8 {
                        exchange(&mut cl, &s, &[i, 1, 2], &[i, 5])?;
                    }
                    c.count("records at far numbers", 12);
                    Ok(())
                });
            } else {
                m.note("built without the hooks of /repo: far sequence numbers were not reached");
            }
            // long connections
            m.par("client-long", m.q(2, 8), |c| {
                let su = small_setup(&mut c.rng);
                let (mut cl, s) = established(&su, vec![])?;
                let n = if c.idx == 0 { 70_000 } else { 3000 };
                let mut at = 0usize;
                for i in 0..n as u32 {
                    write_all(&mut cl, &i.to_be_bytes()[..]).map_err(|e| format!("write {}: {:?}", i, e))?;
                    if i % 3 == 0 {
                        s.borrow_mut().srv.app(&i.to_le_bytes());
                        let mut b = [0u8; 4];
                        let k = read(&mut cl, &mut b).map_err(|e| format!("read: {:?}", e))?;
                        ensure!(k == 4 && b == i.to_le_bytes(), "record {} of the server: read {} bytes {:?}", i, k, b);
                    }
                    if i % 512 == 0 {
                        pump(&s);
                        clean(&s)?;
                        let b = s.borrow();
                        ensure!(b.srv.log.app.len() == 4 * (i as usize + 1), "record {} did not arrive", i);
                        at = i as usize;
                    }
                }
                // the same number of records towards the client
                if c.idx == 0 {
                    for i in 0..50_000u32 {
                        s.borrow_mut().srv.app(&i.to_le_bytes());
                        let mut b = [0u8; 4];
                        let k = read(&mut cl, &mut b).map_err(|e| format!("read: {:?}", e))?;
                        ensure!(k == 4 && b == i.to_le_bytes(), "record {} of the server: read {} bytes {:?}", i, k, b);
                        if i % 1000 == 0 {
                            let mut bm = s.borrow_mut();
                            let p = bm.rd_pos;
                            bm.srv.out.drain(..p);
                            bm.rd_pos = 0;
                            bm.srv.sent.clear();
                        }
                    }
                }
                let _ = at;
                pump(&s);
                clean(&s)?;
                let b = s.borrow();
                c.count("records on long connections", b.srv.cseq + b.srv.seq);
                c.sigs(b.srv.cseq);
                Ok(())
            });
            // all record types share one sequence: data, alert, data, close
            m.par("mixed-types", m.q(40, 400), |c| {
                let su = small_setup(&mut c.rng);
                let (mut cl, s) = established(&su, vec![])?;
                for _ in 0..c.rng.range(2, 12) {
                    match c.rng.below(3) {
                        0 => husk(|| cl.close()).map_err(|e| format!("close: {:?}", e))?,
                        1 => husk(|| cl.writer.write_data(ContentType::HandshakeTy, &[0, 0, 0, 0]))
                            .map_err(|e| format!("write: {:?}", e))?,
                        _ => write_all(&mut cl, b"data").map_err(|e| format!("write: {:?}", e))?,
                    }
                    c.count("mixed records", 1);
                }
                pump(&s);
                let b = s.borrow();
                for (i, r) in b.srv.log.recs.iter().filter(|r| r.protected).enumerate() {
                    ensure!(r.plain.is_some(), "protected record {} (type {}) does not open under number {}", i, r.ty, i);
                    c.sigs(r.ty);
                }
                Ok(())
            });
            // writes that fail: what was protected under a number is never replaced by something else
            m.par("failed-write", m.q(1500, 30_000), |c| {
                let seen: Seen = Default::default();
                let iv = c.rng.bytes(12);
                let nf = c.rng.range(1, 4);
                let fail: Vec<usize> = (0..nf).map(|_| c.rng.below(40)).collect();
                let part = if c.rng.chance(1, 2) { c.rng.range(1, 30) } else { 0 };
                let mut w = TlsWriter::new(Flaky { n: 0, fail, part, out: vec![] });
                w.set_iv(iv.clone());
                w.set_encryptor(Box::new(RecEnc(seen.clone())));
                let mut errs = 0;
                for i in 0..14u8 {
                    let n = *c.rng.pick(&[1usize, 2, 40, 16384, 16385, 40_000]);
                    let mut d = vec![i; n];
                    d[0] = i;
                    let r = match c.rng.below(3) {
                        0 => husk(|| w.write_application_data(&d)),
                        1 => husk(|| w.write_data(ContentType::HandshakeTy, &d)),
                        _ => husk(|| w.write_alert(&husk::alert::Alert {
                            level: husk::alert::AlertLevel::fatal,
                            description: husk::alert::AlertDescription::close_notify,
                        })),
                    };
                    errs += r.is_err() as u64;
                }
                c.count("failed writes", errs);
                let s = seen.lock().unwrap();
                let mut by: HashMap<&[u8], (&[u8], &[u8])> = HashMap::new();
                for (n, p, a) in s.iter() {
                    if let Some(o) = by.insert(n, (p, a)) {
                        ensure!(o == (&p[..], &a[..]), "nonce {} protects two different records (of {} and {} bytes) after a failed write", refc::hex(n), o.0.len(), p.len());
                    }
                }
                // numbers never go back
                let mut last = None;
                for (n, _, a) in s.iter() {
                    let q = u64::from_be_bytes(a[..8].try_into().unwrap());
                    ensure!(n[..] == nonce(&iv, q)[..], "nonce {} does not belong to the number {}", refc::hex(n), q);
                    ensure!(last.map_or(true, |l| q > l), "number {} after {:?}", q, last);
                    last = Some(q);
                    c.sigs(q);
                }
                if errs == 0 {
                    c.trivial();
                }
                Ok(())
            });
            // a write that fails as the record of any number below 2^16, and around 2^17
            if cfg!(husk_verif) {
                m.par("failed-write-number", 520, |c| {
                    for at in 1 + c.idx as u64 * 127..1 + (c.idx as u64 + 1) * 127 {
                        let at = if c.idx >= 516 { at + 65_500 } else { at };
                        for op in 0..6 {
                            let seen: Seen = Default::default();
                            let (fail, part) = (vec![op], *c.rng.pick(&[0usize, 0, 1, 7]));
                            let mut w = TlsWriter::new(Flaky { n: 0, fail, part, out: vec![] });
                            w.set_iv(vec![0; 12]);
                            w.set_encryptor(Box::new(RecEnc(seen.clone())));
                            jump_w(&mut w, at);
                            for i in 0..4u8 {
                                let _ = husk(|| w.write_application_data(&[i; 9]));
                            }
                            let s = seen.lock().unwrap();
                            let mut used = std::collections::HashSet::new();
                            for (i, (n, _, _)) in s.iter().enumerate() {
                                ensure!(n.len() == 12 && n[4..] == (at + i as u64).to_be_bytes(), "record {} after {} has the nonce {}", i, at, refc::hex(n));
                                ensure!(used.insert(n.clone()), "nonce {} is used twice after a failed write", refc::hex(n));
                            }
                        }
                    }
                    c.count("numbers of records whose write failed", 127);
                    c.sigs(c.idx);
                    Ok(())
                });
            }
            // the same on a real connection: the wire bytes after a failure at each operation
            m.par("failed-write-client", m.q(400, 4000), |c| {
                let su = small_setup(&mut c.rng);
                let (mut cl, s) = established(&su, vec![])?;
                let base = s.borrow().srv.c2s_raw.len();
                let k = c.idx % 25;
                let f = match (c.idx / 25) % 4 {
                    0 => Fault::Err(io::ErrorKind::BrokenPipe),
                    1 => Fault::Err(io::ErrorKind::WouldBlock),
                    2 => Fault::Partial(c.rng.range(1, 40), io::ErrorKind::TimedOut),
                    _ => Fault::Zero,
                };
                {
                    let mut b = s.borrow_mut();
                    let at = b.ops.len();
                    b.fault = Some((at + k, f));
                    b.fault_sticky = false;
                }
                let mut failed = 0;
                for i in 0..6u8 {
                    let n = c.rng.range(1, 60);
                    let d = vec![i.wrapping_mul(37) ^ 0x11; n];
                    let r = if i == 3 { husk(|| cl.close()).map_err(|e| io::Error::new(io::ErrorKind::Other, format!("{:?}", e))) } else { write_all(&mut cl, &d) };
                    failed += r.is_err() as u64;
                }
                let b = s.borrow();
                ensure!(!b.fault_hit || failed > 0, "a failed transport write was reported as success");
                let keys = b.srv.keys.as_ref().unwrap();
                let found = find_sealed(&b.srv.c2s_raw[base..], &keys.cw, &keys.civ, 24);
                let mut by: HashMap<u64, Vec<u8>> = HashMap::new();
                for (_, q, _, ct) in &found {
                    if let Some(o) = by.insert(*q, ct.clone()) {
                        ensure!(o == *ct, "two different records under number {} on the wire", q);
                    }
                }
                // bytes of the record that was cut off: nothing else was sent under its number
                if b.fault_hit {
                    c.count("connections with a failed write", 1);
                }
                c.count("records found on the wire", found.len() as u64);
                c.sigs(format!("{} {:?} {}", k, f, failed));
                if let (true, Fault::Partial(..)) = (b.fault_hit, f) {
                    let raw = &b.srv.c2s_raw[base..];
                    // the complete records before the cut are contiguous from the start
                    let mut at = 0;
                    let mut q = 1u64; // number 0 was Finished
                    for (o, s2, _, ct) in &found {
                        if *o == at && *s2 == q {
                            at += 5 + ct.len();
                            q += 1;
                        }
                    }
                    if at < raw.len() {
                        let next = found.iter().find(|x| x.0 > at);
                        let end = next.map_or(raw.len(), |x| x.0);
                        if end - at > 5 {
                            c.count("records cut off inside the ciphertext", 1);
                            if let Some(x) = found.iter().find(|x| x.1 == q) {
                                let n = (end - at - 5).min(x.3.len());
                                ensure!(raw[at + 5..at + 5 + n] == x.3[..n], "number {} protects the record that was cut off and a later one", q);
                            }
                        }
                    }
                }
                Ok(())
            });
            // server records under another number are refused
            m.par("wrong-number", m.q(400, 6000), |c| {
                let su = small_setup(&mut c.rng);
                let (mut cl, s) = established(&su, vec![])?;
                let good = c.rng.below(4);
                let mut want = vec![];
                for _ in 0..good {
                    let n = c.rng.range(1, 30);
                    let d = c.rng.bytes(n);
                    s.borrow_mut().srv.app(&d);
                    want.extend(d);
                }
                let right = s.borrow().srv.seq;
                let wrong = match c.rng.below(8) {
                    0 => right.wrapping_sub(1),
                    1 => right + 1,
                    2 => right + 2,
                    3 => right ^ (1 << c.rng.below(64)),
                    4 => right + 256,
                    5 => right + (1 << 16),
                    6 => right + (1 << 32),
                    _ => c.rng.u64(),
                };
                if wrong == right {
                    c.trivial();
                    return Ok(());
                }
                {
                    let mut b = s.borrow_mut();
                    b.srv.seq = wrong;
                    b.srv.app(b"wrong number");
                    // and what follows is right again
                    b.srv.seq = right;
                    b.srv.app(b"right number");
                }
                let mut buf = vec![0; 400];
                let n = read(&mut cl, &mut buf).unwrap_or(0);
                let n = n + read(&mut cl, &mut buf[n..]).unwrap_or(0);
                ensure!(buf[..n] == want[..], "a record under number {} instead of {} was taken: {} bytes read, {} sent before", wrong, right, n, want.len());
                c.count("wrong numbers refused", 1);
                c.sigs(wrong);
                Ok(())
            });
            // an initialisation vector that is applied to half of the nonce only, and the like
            m.par("nonce-half", m.q(60, 600), |c| {
                let su = small_setup(&mut c.rng);
                let (mut cl, s) = established(&su, vec![])?;
                let bad = c.idx % 12;
                {
                    let mut b = s.borrow_mut();
                    let k = b.srv.keys.as_mut().unwrap();
                    let mask = 1 << c.rng.below(8);
                    k.siv[bad] ^= mask;
                    b.srv.app(b"other iv");
                }
                let mut buf = [0; 64];
                let n = read(&mut cl, &mut buf).unwrap_or(0);
                ensure!(n == 0, "a record under another IV (byte {}) was taken", bad);
                c.sigs(bad);
                Ok(())
            });
            m.require("records protected", 140_000);
            m.require("records opened", 140_000);
            m.require("failed writes", 500);
            m.require("connections with a failed write", 100);
            m.require("records cut off inside the ciphertext", 1);
        },
    )
}
