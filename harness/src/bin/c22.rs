//! C22: work in proportion to the data. The monitor gives the real code n and 8n of the same and compares the CPU
//! time of the calls (of this thread; the least of several runs): eight times as much where the work is
//! proportional, 64 times where it grows with the square.
use husk::cipher::prf::{hmac_sha256, Prf};
use husk::crypto::chacha20::ChaCha20;
use husk::crypto::sha2::sha256;
use husk::handshake::{self as h, HandshakeBuffer};
use husk::tls::{ContentType, TlsReader, TlsWriter};
use husk::tls_item::TlsItem;
use huskmon::ensure;
use huskmon::mon::{self, husk, Case, Verdict};
use huskmon::prng::Rng;
use huskmon::sim::*;
use huskmon::wire;
use std::io::{self, Read, Write};

const GROW: usize = 8;
/// what grows with the square is at 64
const LIMIT: f64 = 26.0;
/// nanoseconds per byte: what only moves memory is cheaper than this, and depends on caches and page faults
const CHEAP: u64 = 10;

fn now() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
    }
}

fn timed<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let a = now();
    let r = husk(f);
    (r, now() - a)
}

/// bytes that are there, a few at a time, and then the end
struct Canned {
    b: Vec<u8>,
    at: usize,
    step: usize,
    interrupts: bool,
    odd: bool,
}
impl Read for Canned {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        self.odd = !self.odd;
        if self.interrupts && self.odd {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = o.len().min(self.step).min(self.b.len() - self.at);
        o[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn records(ty: u8, b: &[u8], size: usize) -> Vec<u8> {
    b.chunks(size).flat_map(|x| wire::rec(ty, (3, 3), x)).collect()
}

/// a client against bytes that do not depend on it
fn against(b: Vec<u8>, step: usize, interrupts: bool) -> u64 {
    let t = Canned { b, at: 0, step, interrupts, odd: false };
    let (r, ns) = timed(|| husk::TlsClient::new(t, io::sink(), rand::rngs::OsRng));
    drop(r);
    ns
}

fn hello(r: &mut Rng) -> Vec<u8> {
    wire::rec(HS, (3, 3), &wire::hs(2, &wire::ServerHello::new(r.arr::<32>()).body()))
}

fn conn(r: &mut Rng) -> Result<(Client, SimRef), String> {
    let su = small_setup(r);
    established(&su, vec![])
}

type Scen = (&'static str, usize, fn(&mut Rng, usize) -> Result<u64, String>);

const BYTEWISE: &str = "a record read a byte at a time";

/// name, the smaller size, what to do with a size
const SCENARIOS: &[Scen] = &[
    ("one long certificate", 1 << 20, |r, n| {
        let m = wire::hs(11, &wire::certificate(&[r.bytes(n)]));
        let mut b = hello(r);
        b.extend(records(HS, &m, MAX));
        Ok(against(b, usize::MAX, false))
    }),
    ("a long certificate in short records", 1 << 18, |r, n| {
        let m = wire::hs(11, &wire::certificate(&[r.bytes(n)]));
        let mut b = hello(r);
        b.extend(records(HS, &m, 48));
        Ok(against(b, usize::MAX, false))
    }),
    ("a long certificate a byte per record", 1 << 15, |r, n| {
        let m = wire::hs(11, &wire::certificate(&[r.bytes(n)]));
        let mut b = hello(r);
        b.extend(records(HS, &m, 1));
        Ok(against(b, 7, true))
    }),
    ("many short certificates", 1 << 18, |r, n| {
        let v: Vec<Vec<u8>> = (0..n / 4).map(|_| vec![r.u8()]).collect();
        let m = wire::hs(11, &wire::certificate(&v));
        let mut b = hello(r);
        b.extend(records(HS, &m, MAX));
        Ok(against(b, usize::MAX, false))
    }),
    ("a message that is never complete", 1 << 20, |r, n| {
        let mut m = vec![11, 0xff, 0xff, 0xff];
        m.extend(r.bytes(n));
        let mut b = hello(r);
        b.extend(records(HS, &m, 4000));
        Ok(against(b, usize::MAX, false))
    }),
    ("a message of unknown type", 1 << 20, |r, n| {
        let m = wire::hs(99, &r.bytes(n));
        let mut b = hello(r);
        b.extend(records(HS, &m, MAX));
        Ok(against(b, usize::MAX, false))
    }),
    ("a transport of one byte per read, interrupted", 1 << 16, |r, n| {
        let m = wire::hs(11, &wire::certificate(&[r.bytes(n)]));
        let mut b = hello(r);
        b.extend(records(HS, &m, MAX));
        Ok(against(b, 1, true))
    }),
    ("extensions", 8000, |r, n| {
        let mut sh = wire::ServerHello::new(r.arr::<32>());
        sh.exts = Some((0..n / 4).map(|i| (40_000 + (i % 20_000) as u16, vec![])).collect());
        let b = sh.body();
        let (_, ns) = timed(|| {
            for _ in 0..6 {
                let _ = h::ServerHello::tls_read(&mut &b[..]).is_ok();
            }
        });
        Ok(ns)
    }),
    ("cipher suites of a hello", 8000, |r, n| {
        let mut b = wire::u16b(n & !1).to_vec();
        b.extend(r.bytes(n & !1));
        let (_, ns) = timed(|| {
            for _ in 0..6 {
                let _ = h::CipherSuiteVec::tls_read(&mut &b[..]).is_ok();
            }
        });
        Ok(ns)
    }),
    ("messages out of a buffer", 1 << 17, |r, n| {
        let m = wire::hs(16, &r.bytes(60));
        let (left, ns) = timed(|| {
            let mut hb = HandshakeBuffer::new();
            let mut k = 0;
            for _ in 0..n / m.len() {
                hb.add_record(&m[..10]);
                hb.add_record(&m[10..]);
                while let Ok(Some(_)) = hb.get_message() {
                    k += 1;
                }
            }
            k
        });
        ensure!(left == n / m.len(), "{} messages of {}", left, n / m.len());
        Ok(ns)
    }),
    ("encoding a long message", 1 << 20, |r, n| {
        let d = r.bytes(n);
        let v: Vec<_> = d.chunks(700).map(|x| h::Asn1Cert::new(x.to_vec()).ok().unwrap()).collect();
        let v = h::Handshake::certificate(h::CertificateList::new(v).ok().unwrap());
        let (_, ns) = timed(|| {
            let mut o = vec![];
            let _ = v.tls_write(&mut o);
            o.len()
        });
        Ok(ns)
    }),
    ("one write", 1 << 18, |r, n| {
        let (mut c, _s) = conn(r)?;
        let d = r.bytes(n);
        let (x, ns) = timed(|| c.write_all(&d));
        x.map_err(|e| format!("{:?}", e))?;
        Ok(ns)
    }),
    ("writes of one byte", 1 << 11, |r, n| {
        let (mut c, _s) = conn(r)?;
        let (x, ns) = timed(|| (0..n).all(|i| c.write_all(&[i as u8]).is_ok() && (i % 16 != 0 || c.flush().is_ok())));
        ensure!(x, "a write failed");
        Ok(ns)
    }),
    ("records read whole", 1 << 18, |r, n| {
        let (mut c, s) = conn(r)?;
        let d = r.bytes(n);
        s.borrow_mut().srv.app(&d);
        let mut b = vec![0; n];
        let (x, ns) = timed(|| c.read(&mut b));
        ensure!(x.ok() == Some(n) && b == d, "the data did not arrive");
        Ok(ns)
    }),
    ("records read in pieces", 1 << 17, |r, n| {
        let (mut c, s) = conn(r)?;
        let d = r.bytes(n);
        s.borrow_mut().srv.app(&d);
        let mut b = vec![0; n];
        let (x, ns) = timed(|| b.chunks_mut(200).all(|p| c.read(p).ok() == Some(p.len())));
        ensure!(x && b == d, "the data did not arrive");
        Ok(ns)
    }),
    // n bytes in records of n / 8 bytes, 8n bytes in one record: reading a byte costs the same, however long the record
    (BYTEWISE, 1 << 11, |r, n| {
        let (mut c, s) = conn(r)?;
        let size = (n * n / MAX).max(1);
        let mut total = 0;
        for _ in 0..4 {
            let d = r.bytes(n);
            for x in d.chunks(size) {
                s.borrow_mut().srv.app(x);
            }
            let mut b = vec![0; n];
            let (x, ns) = timed(|| b.chunks_mut(1).all(|p| c.read(p).ok() == Some(1)));
            ensure!(x && b == d, "the data did not arrive");
            total += ns;
        }
        Ok(total)
    }),
    ("records of one byte", 1 << 11, |r, n| {
        let (mut c, s) = conn(r)?;
        for i in 0..n {
            s.borrow_mut().srv.app(&[i as u8]);
        }
        let mut b = vec![0; n];
        let (x, ns) = timed(|| b.chunks_mut(3).all(|p| c.read(p).ok() == Some(p.len())));
        ensure!(x, "the data did not arrive");
        Ok(ns)
    }),
    ("empty records", 1 << 11, |r, n| {
        let (mut c, s) = conn(r)?;
        for _ in 0..n {
            s.borrow_mut().srv.record(APP, (3, 3), &[]);
        }
        s.borrow_mut().srv.app(&[1]);
        let mut b = [0];
        let (x, ns) = timed(|| c.read(&mut b));
        ensure!(x.ok() == Some(1), "the data did not arrive");
        Ok(ns)
    }),
    ("reads after the end", 1 << 14, |r, n| {
        let (mut c, s) = conn(r)?;
        s.borrow_mut().srv.record(ALERT, (3, 3), &[1, 0]);
        let mut b = [0; 100];
        let (x, ns) = timed(|| (0..n).all(|_| c.read(&mut b).ok() == Some(0)));
        ensure!(x, "data after the end");
        Ok(ns)
    }),
    ("one call after a long history", 1 << 11, |r, n| {
        // what was exchanged before does not matter: GROW times the history, and GROW times the calls
        let (mut c, s) = conn(r)?;
        for i in 0..n {
            c.write_all(&[i as u8; 40]).map_err(|e| format!("{:?}", e))?;
            s.borrow_mut().srv.app(&[i as u8; 40]);
            let mut b = [0; 40];
            c.read(&mut b).map_err(|e| format!("{:?}", e))?;
        }
        let k = n / 4;
        for _ in 0..k {
            s.borrow_mut().srv.app(&[7]);
        }
        let mut b = [0; 1];
        let (x, ns) = timed(|| (0..k).all(|_| c.write_all(&[1]).is_ok() && c.read(&mut b).ok() == Some(1)));
        ensure!(x, "a call failed");
        Ok(ns)
    }),
    ("the record layer written", 1 << 22, |r, n| {
        let d = r.bytes(n);
        let mut w = TlsWriter::new(io::sink());
        let (x, ns) = timed(|| w.write_data(ContentType::ApplicationDataTy, &d));
        x.map_err(|e| format!("{:?}", e))?;
        Ok(ns)
    }),
    ("the record layer read", 1 << 20, |r, n| {
        let b = records(APP, &r.bytes(n), 1000);
        let k = (n + 999) / 1000;
        let mut rd = TlsReader::new(Canned { b, at: 0, step: usize::MAX, interrupts: false, odd: false });
        let (x, ns) = timed(|| (0..k).all(|_| rd.read_message().is_ok()));
        ensure!(x, "a record was not read");
        Ok(ns)
    }),
    ("hash", 1 << 18, |r, n| {
        let d = r.bytes(n);
        Ok(timed(|| sha256(&d)).1)
    }),
    ("authentication code", 1 << 18, |r, n| {
        let d = r.bytes(n);
        Ok(timed(|| hmac_sha256(&d[..40], &d)).1)
    }),
    ("key derivation", 1 << 13, |r, n| {
        let mut p = Prf::new(r.bytes(48), r.bytes(77));
        Ok(timed(|| {
            let mut k = 0;
            while k < n {
                k += p.get_bytes(100).len();
            }
        })
        .1)
    }),
    ("key derivation at once", 1 << 13, |r, n| {
        let mut p = Prf::new(r.bytes(48), r.bytes(77));
        Ok(timed(|| p.get_bytes(n)).1)
    }),
    ("key stream", 1 << 18, |r, n| {
        let d = r.bytes(n);
        let mut c = ChaCha20::new(&r.bytes(32), &r.bytes(12));
        Ok(timed(|| c.encrypt(&d)).1)
    }),
    ("protection", 1 << 18, |r, n| {
        use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};
        let d = r.bytes(n);
        let k = r.bytes(32);
        let nonce = r.bytes(12);
        let mut e = ChaCha20Poly1305.new_encryptor(k.clone());
        let mut o = ChaCha20Poly1305.new_decryptor(k);
        let (x, ns) = timed(|| {
            let ct = e.encrypt(&nonce, &d, &d[..13]);
            o.decrypt(&nonce, &ct, &d[..13])
        });
        ensure!(x.map(|p| p == d).unwrap_or(false), "protected data does not open");
        Ok(ns)
    }),
];

fn case(c: &mut Case, k: usize) -> Verdict {
    let (name, n, f) = SCENARIOS[k];
    // calls that only move a byte: what a copy of the rest of the record adds is small, and so is the noise
    let limit = if name == BYTEWISE { LIMIT / 2.0 } else { LIMIT };
    // sizes that are not powers of two
    let n = n - c.rng.below(n / 4);
    let seed = c.rng.u64();
    let (mut small, mut big) = (u64::MAX, u64::MAX);
    let mut ratio = f64::MAX;
    // noise only ever adds to a time: stop as soon as both are plausible
    for round in 0..6 {
        let mut r = Rng::new(seed);
        // a small run that was disturbed would hide growth: several of them
        for _ in 0..3 {
            small = small.min(f(&mut r, n)?);
        }
        big = big.min(f(&mut r, GROW * n)?);
        ratio = big as f64 / small.max(1) as f64;
        c.count("runs measured", 4);
        if (ratio <= limit || big < CHEAP * (GROW * n) as u64) && round >= 1 {
            break;
        }
    }
    c.sigs(format!("{} {} {}", name, n, big / 1000));
    c.count("bytes given to measured calls", (GROW * n) as u64);
    c.sample(|| format!("{}: {} takes {} us, {} takes {} us: {:.1} times", name, n, small / 1000, GROW * n, big / 1000, ratio));
    assert!(small > 3000, "{} of {} takes only {} ns", name, n, small);
    ensure!(
        ratio <= limit || big < CHEAP * (GROW * n) as u64,
        "{}: {} takes {} us, {} times as much takes {} us: {:.0} times as long (never less in 6 runs)",
        name, n, small / 1000, GROW, big / 1000, ratio
    );
    Ok(())
}

fn main() {
    mon::main(
        "C22",
        "one case = one kind of call given n and 8n bytes (or records, or messages), its CPU time compared; distinct = different kind, \
         size and time",
        |m| {
            for k in 0..SCENARIOS.len() {
                let group = SCENARIOS[k].0.replace(&[' ', ','][..], "-");
                m.par_n(&group, m.q(1, 8), 4, |c| case(c, k));
            }
            m.require("runs measured", 100);
        },
    )
}
