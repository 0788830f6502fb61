//! C20: memory held by the client, against the bytes it has received or been given. The allocator counts.
use husk::handshake::{self as h, Handshake, HandshakeBuffer};
use husk::tls::{TlsReader, TlsWriter};
use husk::tls_item::TlsItem;
use huskmon::alloc;
use huskmon::ensure;
use huskmon::mon::{self, husk, Case, Verdict};
use huskmon::mutate;
use huskmon::prng::Rng;
use huskmon::sim::*;
use huskmon::wire;
use std::cell::Cell;
use std::io::{self, Read, Write};
use std::rc::Rc;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// the fixed amount, and the factor
const FIXED: u64 = 512 << 10;
const FACTOR: u64 = 64;

fn bound(n: usize) -> u64 {
    FIXED + FACTOR * n as u64
}

/// the handshake against `s`, measured: peak over the bytes received
fn measured(c: &mut Case, s: Sim) -> Result<(bool, u64, usize), String> {
    let s = s.share();
    let (r, w) = (ClientR(s.clone()), ClientW(s.clone()));
    alloc::start();
    let res = mon::catch(|| husk(|| husk::TlsClient::new(r, w, rand::rngs::OsRng)));
    let ok = matches!(res, mon::Caught::Ok(Ok(_)));
    drop(res);
    let (peak, _) = alloc::stop();
    let got = s.borrow().rd_pos;
    c.count("bytes received by measured clients", got as u64);
    c.sigs(format!("{} {}", got, peak / 1024));
    if got > 4096 {
        c.sample(|| format!("{} bytes received, at most {} held", got, peak));
    }
    ensure!(peak <= bound(got), "{} bytes were received, {} bytes of memory were held (bound {})", got, peak, bound(got));
    Ok((ok, peak, got))
}

/// a record stream carrying `b` as handshake bytes
fn hs_records(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for x in b.chunks(MAX) {
        v.extend(wire::rec(HS, (3, 3), x));
    }
    v
}

/// honest messages up to index `k` of the script, then raw bytes and the end of the stream
fn upto(su: &Setup, k: usize, raw: Vec<u8>) -> Sim {
    let mut srv = su.srv();
    let mut sc: Vec<Item> = su.script().into_iter().take(k).collect();
    sc.push(Item::Raw(raw));
    sc.push(Item::Eof);
    srv.script = sc.into();
    Sim::new(srv)
}

const LENS: [usize; 14] = [1, 100, 255, 256, 16_384, 65_535, 65_536, 1 << 17, 1 << 20, 1 << 21, 1 << 22, 1 << 23, (1 << 24) - 2, (1 << 24) - 1];

/// a message's header promises much and little comes
fn promise(c: &mut Case) -> Verdict {
    let tys = [0u8, 1, 2, 4, 11, 12, 13, 14, 15, 16, 20, 22, 24, 254, 255];
    let ty = tys[c.idx % tys.len()];
    let mut len = LENS[(c.idx / tys.len()) % LENS.len()];
    if c.idx >= 15 * LENS.len() && c.rng.chance(1, 3) {
        len = c.rng.number((1 << 24) - 1).unwrap_or(len).max(1);
    }
    let su = small_setup(&mut c.rng);
    let k = c.rng.range(1, 5);
    let mut b = vec![ty];
    b.extend_from_slice(&wire::u24b(len));
    let n = match c.rng.below(4) {
        0 => 0,
        1 => c.rng.below(len.min(8) + 1),
        _ => c.rng.below(len.min(2000) + 1),
    };
    b.extend(c.rng.bytes(n));
    // one byte per record, or as it comes
    let raw = if c.rng.chance(1, 3) {
        b.iter().flat_map(|x| wire::rec(HS, (3, 3), &[*x])).collect()
    } else {
        hs_records(&b)
    };
    measured(c, upto(&su, k, raw))?;
    c.count("message headers that promise more", 1);
    Ok(())
}

/// length fields inside a message: each position overwritten with large numbers
fn inner(c: &mut Case) -> Verdict {
    let mut su = small_setup(&mut c.rng);
    if c.rng.chance(1, 2) {
        su.sh.exts = Some(vec![(11, vec![1, 0]), (0xff01, vec![0]), (35, vec![]), (10, vec![0, 2, 0, 23]), (13, vec![0, 2, 4, 1])]);
    }
    let (k, ty, body) = match c.idx % 3 {
        0 => (1, 2, su.sh.body()),
        1 => (2, 11, wire::certificate(&su.certs)),
        _ => (3, 12, su.ske.body()),
    };
    let mut m = wire::hs(ty, &body);
    let at = 4 + (c.idx / 3) % body.len();
    let w = c.rng.range(1, 4);
    let mut v = *c.rng.pick(&[0xffu8, 0xff, 0x7f, 0x80, 0xfe]);
    for i in at..(at + w).min(m.len()) {
        m[i] = v;
        v = 0xff;
    }
    // what follows may be cut, with the outer length right or not
    if c.rng.chance(1, 2) {
        m.truncate((at + w + c.rng.below(20)).min(m.len()));
        if c.rng.chance(2, 3) {
            let n = m.len() - 4;
            m[1..4].copy_from_slice(&wire::u24b(n));
        }
    }
    measured(c, upto(&su, k, hs_records(&m)))?;
    c.count("inner length fields overwritten", 1);
    Ok(())
}

/// long messages that really come: nested and flat, all kinds of fillings
fn long(c: &mut Case, n: usize) -> Verdict {
    let mut su = small_setup(&mut c.rng);
    let r = &mut c.rng;
    let kind = c.idx % 8;
    let (k, m, what) = match kind {
        0 => {
            // the smallest certificates
            su.certs = (0..n / 4).map(|_| vec![r.u8()]).collect();
            (2, wire::hs(11, &wire::certificate(&su.certs)), "certificates of one byte")
        }
        1 => {
            su.certs = vec![r.bytes(n)];
            (2, wire::hs(11, &wire::certificate(&su.certs)), "one certificate")
        }
        2 => {
            let n = n.min(65_000);
            su.sh.exts = Some((0..n / 4).map(|i| (40_000 + (i % 20_000) as u16, vec![])).collect());
            (1, wire::hs(2, &su.sh.body()), "empty extensions")
        }
        3 => {
            let n = n.min(65_000);
            su.sh.exts = Some(vec![(0x3333, r.bytes(n))]);
            (1, wire::hs(2, &su.sh.body()), "one extension")
        }
        4 => {
            su.ske.signature = r.bytes(n.min(65_535));
            (3, wire::hs(12, &su.ske.body()), "signature")
        }
        5 => (*r.pick(&[1usize, 2, 3, 4]), wire::hs(*r.pick(&[0u8, 13, 22, 99]), &r.bytes(n)), "unknown message"),
        6 => (*r.pick(&[1usize, 2, 3, 4]), wire::hs(*r.pick(&[1u8, 2, 11, 12, 13, 14, 16, 20]), &r.bytes(n)), "random body"),
        _ => {
            // many messages in one go
            let mut v = vec![];
            for _ in 0..n.min(16_384) / 4 {
                v.extend(wire::hs(14, &[]));
            }
            (*r.pick(&[1usize, 2, 3, 4]), v, "empty messages")
        }
    };
    let cut = if c.rng.chance(1, 2) { m.len() } else { c.rng.below(m.len()) };
    let raw = if m.len() < 40_000 && c.rng.chance(1, 3) {
        m[..cut].iter().flat_map(|x| wire::rec(HS, (3, 3), &[*x])).collect()
    } else {
        hs_records(&m[..cut])
    };
    let (_, peak, got) = measured(c, upto(&su, k, raw))?;
    c.count("long messages", 1);
    c.sample(|| format!("{}: {} bytes received, {} held", what, got, peak));
    Ok(())
}

/// hostile servers of all kinds
fn hostile(c: &mut Case) -> Verdict {
    let srv = mutate::server(&mut c.rng);
    let mut sim = Sim::new(srv);
    any_transport(&mut c.rng, &mut sim);
    sim.eof_at = if c.rng.chance(1, 4) { Some(c.rng.below(1500)) } else { None };
    measured(c, sim)?;
    c.count("hostile handshakes", 1);
    Ok(())
}

/// decoding from a slice: memory in proportion to it
fn codec(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let n = r.size(20_000);
    let mut b = match r.below(4) {
        0 => r.bytes(n),
        1 => vec![r.u8(); n],
        2 => {
            // a length field and little behind it
            let mut v = vec![0xff; r.range(1, 8)];
            let n = r.below(40);
            v.extend(r.bytes(n));
            v
        }
        _ => {
            let su = small_setup(r);
            let mut v = match r.below(3) {
                0 => wire::hs(2, &su.sh.body()),
                1 => wire::hs(11, &wire::certificate(&su.certs)),
                _ => wire::hs(12, &su.ske.body()),
            };
            mutate::several(r, &mut v);
            if r.chance(1, 2) && v.len() > 4 {
                v.drain(..4);
            }
            v
        }
    };
    let ty = c.idx % 14;
    macro_rules! d {
        ($t:ty) => {{
            // once from all bytes, once from bytes that come one at a time
            alloc::start();
            let x = mon::catch(|| husk(|| <$t>::tls_read(&mut &b[..]).is_ok()));
            drop(x);
            let a1 = alloc::stop();
            alloc::start();
            let x = mon::catch(|| husk(|| <$t>::tls_read(&mut One(&b)).is_ok()));
            drop(x);
            (a1, alloc::stop(), stringify!($t))
        }};
    }
    let (a, b2, name) = match ty {
        0 => d!(Handshake),
        1 => d!(h::ServerHello),
        2 => d!(h::CertificateList),
        3 => d!(h::ClientHello),
        4 => d!(h::Extension),
        5 => d!(h::EllipticCurveList),
        6 => d!(h::ECPointFormatList),
        7 => d!(h::SignatureAndHashAlgorithmVec),
        8 => d!(h::Asn1Cert),
        9 => d!(h::CipherSuiteVec),
        10 => d!(h::SessionId),
        11 => d!(husk::alert::Alert),
        12 => d!(husk::tls_item::ObscureData),
        _ => {
            let mut hb = HandshakeBuffer::new();
            alloc::start();
            let x = mon::catch(|| {
                husk(|| {
                    for p in b.chunks(700) {
                        hb.add_record(p);
                        while let Ok(Some(_)) = hb.get_message() {}
                    }
                })
            });
            drop(x);
            let a = alloc::stop();
            (a, a, "HandshakeBuffer")
        }
    };
    let n = b.len();
    b.clear();
    c.sigs(format!("{} {} {} {}", name, n, a.0, b2.0));
    for (peak, total) in [a, b2] {
        // a length field of two bytes may allocate its 64 KB
        ensure!(peak <= (128 << 10) + FACTOR * n as u64, "{}: decoding {} bytes held {} bytes", name, n, peak);
        if name != "HandshakeBuffer" {
            ensure!(total <= (256 << 10) + 4 * FACTOR * n as u64, "{}: decoding {} bytes allocated {} bytes in all", name, n, total);
        }
    }
    c.count("decoded byte strings", 1);
    Ok(())
}

struct One<'a>(&'a [u8]);
impl Read for One<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(1);
        self.0.read(&mut b[..n])
    }
}

/// records that keep coming, and keep being written
fn steady(c: &mut Case, n: usize) -> Verdict {
    let su = small_setup(&mut c.rng);
    let (mut cl, s) = established(&su, vec![])?;
    let kind = c.idx % 8;
    let n = if matches!(kind, 0 | 2 | 4 | 5 | 6) { 16 * n } else { n };
    let mut buf = vec![0u8; 70_000];
    let data = c.rng.bytes(40_000);
    let r = &mut c.rng;
    let mut after = vec![];
    let mut peak_read = 0i64;
    let mut peak_write = 0i64;
    let mut moved = 0u64;
    let mut odd = 0u64;
    alloc::start();
    for i in 0..n {
        let sz = match kind {
            0 => 1,
            1 => 16_384,
            2 => r.range(1, 300),
            3 => r.size(16_384).max(1),
            _ => r.range(1, 40),
        };
        let before = alloc::mark();
        if kind != 4 {
            let w = if kind == 7 { 40_000 } else { sz };
            write_all(&mut cl, &data[..w]).map_err(|e| format!("write {}: {:?}", i, e))?;
            peak_write = peak_write.max(alloc::peak() - before - (FACTOR as i64) * w as i64);
            moved += w as u64;
        }
        if kind == 5 {
            flush(&mut cl).map_err(|e| format!("flush: {:?}", e))?;
        }
        if kind != 7 {
            alloc::pause(|| {
                let mut b = s.borrow_mut();
                if kind == 6 {
                    // empty records first
                    for _ in 0..r.below(20) {
                        b.srv.record(APP, (3, 3), &[]);
                    }
                }
                b.srv.app(&data[..sz]);
            });
            let before = alloc::mark();
            let mut got = 0;
            // small reads leave the rest in the client
            while got < sz {
                let want = match kind {
                    1 => 5000,
                    2 => 7,
                    _ => sz,
                };
                let k = read(&mut cl, &mut buf[..want.min(sz - got)]).map_err(|e| format!("read {}: {:?}", i, e))?;
                ensure!(k > 0, "record {}: end of stream", i);
                got += k;
            }
            if kind == 4 && i % 3 == 0 {
                // nothing is there: the stream is not at its end, a read fails
                alloc::pause(|| {
                    let mut b = s.borrow_mut();
                    let at = b.ops.len();
                    b.more_faults = vec![(at, Fault::Err(io::ErrorKind::WouldBlock))];
                });
                let k = read(&mut cl, &mut buf[..1]).unwrap_or(0);
                ensure!(k == 0, "a read that failed returned {} bytes", k);
                odd += 1;
            }
            peak_read = peak_read.max(alloc::peak() - before);
            moved += sz as u64;
        }
        alloc::pause(|| {
            let mut b = s.borrow_mut();
            b.srv.pump();
            let p = b.rd_pos;
            b.srv.out.drain(..p);
            b.rd_pos = 0;
            b.srv.sent.clear();
            b.srv.log.app.clear();
            b.srv.log.recs.clear();
            b.srv.c2s_raw.clear();
            b.ops.clear();
            b.faults = 0;
            b.fault_hit = false;
        });
        if i == n / 4 || i == n / 2 || i + 1 == n {
            after.push(alloc::live());
        }
    }
    let _ = alloc::stop();
    c.count("records on measured connections", 2 * n as u64);
    c.count("bytes on measured connections", moved);
    c.count("failed reads on measured connections", odd);
    c.sigs(format!("{} {:?} {} {}", kind, after, peak_read, peak_write));
    c.sample(|| format!("kind {}: held {:?}, peaks {} {}", kind, after, peak_read, peak_write));
    // what is buffered may differ by a few records
    let grown = after.last().unwrap() - after[0];
    let some = if matches!(kind, 0 | 2 | 4 | 5 | 6) { 3000 } else { 16 << 10 };
    ensure!(grown <= some, "{} records: memory grew from {} to {} bytes", n, after[0], after.last().unwrap());
    ensure!(after.iter().all(|a| *a <= 512 << 10), "an established connection holds {:?} bytes", after);
    ensure!(peak_read <= bound(17_000) as i64, "a read held {} bytes", peak_read);
    ensure!(peak_write <= FIXED as i64, "a write held {} bytes more than its share", peak_write);
    Ok(())
}

/// hostile records on an established connection
fn hostile_data(c: &mut Case) -> Verdict {
    let su = small_setup(&mut c.rng);
    let (mut cl, s) = established(&su, vec![])?;
    let from = {
        let mut b = s.borrow_mut();
        let n = c.rng.range(1, 6);
        for _ in 0..n {
            match c.rng.below(5) {
                0 => {
                    // a length and little behind it
                    let mut v = vec![*c.rng.pick(&[20u8, 21, 22, 23, 24, 0]), 3, 3];
                    v.extend_from_slice(&wire::u16b(*c.rng.pick(&[0usize, 15, 16, 16_384, 16_400, 18_432, 18_433, 65_535])));
                    let n = c.rng.below(50);
                    v.extend(c.rng.bytes(n));
                    b.srv.raw(&v);
                }
                1 => {
                    let len = *c.rng.pick(&LENS);
                    let mut v = vec![c.rng.below(25) as u8];
                    v.extend_from_slice(&wire::u24b(len));
                    b.srv.record(HS, (3, 3), &v);
                }
                2 => {
                    let n = c.rng.size(16_384);
                    let v = c.rng.bytes(n);
                    b.srv.record(HS, (3, 3), &v);
                }
                3 => {
                    for _ in 0..c.rng.below(300) {
                        b.srv.record(APP, (3, 3), &[]);
                    }
                }
                _ => {
                    let n = c.rng.size(40_000);
                    let v = c.rng.bytes(n);
                    b.srv.app(&v);
                }
            }
        }
        b.srv.script.push_back(Item::Eof);
        b.rd_pos
    };
    let mut buf = vec![0; 100_000];
    alloc::start();
    for _ in 0..4 {
        let _ = mon::catch(|| read(&mut cl, &mut buf).is_ok());
    }
    let (peak, _) = alloc::stop();
    let got = s.borrow().rd_pos - from;
    c.sigs(format!("{} {}", got, peak));
    c.count("hostile streams on connections", 1);
    ensure!(peak <= bound(got), "{} bytes were received, {} held", got, peak);
    Ok(())
}

/// a connection leaves nothing behind, whichever way it ends
fn leak(c: &mut Case) -> Verdict {
    let rest = successive(c, 6)?;
    // the first may set up something that stays; then nothing does
    ensure!(rest[1..].iter().all(|&x| x <= 0), "bytes left behind by successive connections: {:?}", rest);
    Ok(())
}

/// nor is something kept for all of them that grows in steps, however seldom
fn leak_many(c: &mut Case, n: usize) -> Verdict {
    let rest = successive(c, n)?;
    let (some, all): (i64, i64) = (rest[..n / 8].iter().sum(), rest.iter().sum());
    c.sample(|| format!("{} bytes left by {} connections, {} by {}", some, n / 8, all, n));
    ensure!(all - some <= 2048, "{} connections leave {} bytes behind, {} connections {}", n / 8, some, n, all);
    Ok(())
}

fn successive(c: &mut Case, n: usize) -> Result<Vec<i64>, String> {
    let mut rest = vec![];
    let seed = c.rng.u64();
    let kind = c.idx % 4;
    for i in 0..n as u64 {
        let mut r = Rng::new(seed ^ (i * 77));
        let sim = match kind {
            0 | 1 => {
                let su = small_setup(&mut r);
                su.sim(vec![])
            }
            2 => Sim::new(mutate::server(&mut r)),
            _ => {
                let su = small_setup(&mut r);
                let mut s = su.sim(vec![]);
                s.eof_at = Some(r.below(400));
                s
            }
        };
        let s = sim.share();
        let (rd, w) = (ClientR(s.clone()), ClientW(s.clone()));
        alloc::start();
        let res = mon::catch(|| husk(|| husk::TlsClient::new(rd, w, rand::rngs::OsRng)));
        if matches!(res, mon::Caught::Ok(Ok(_))) {
            let mut cl = match res {
                mon::Caught::Ok(Ok(c)) => c,
                _ => unreachable!(),
            };
            let d = [5u8; 3000];
            let _ = write_all(&mut cl, &d);
            alloc::pause(|| s.borrow_mut().srv.app(&d));
            let mut b = [0u8; 1000];
            let _ = read(&mut cl, &mut b);
            if kind == 1 {
                let _ = husk(|| cl.close());
            }
            drop(cl);
            alloc::pause(|| c.count("connections dropped", 1));
        } else {
            drop(res);
        }
        rest.push(alloc::live());
        alloc::stop();
    }
    c.count("connections checked for leaks", n as u64);
    c.sigs(format!("{:?}", (kind, seed)));
    Ok(rest)
}

/// the parts on their own: record reader and writer
fn parts(c: &mut Case) -> Verdict {
    let n = c.rng.size(1 << 20).max(1);
    let d = vec![0x61u8; n];
    let mut w = TlsWriter::new(io::sink());
    alloc::start();
    husk(|| w.write_data(husk::tls::ContentType::HandshakeTy, &d)).map_err(|e| format!("write: {:?}", e))?;
    let (peak, _) = alloc::stop();
    ensure!(peak <= FIXED, "writing {} bytes held {} (one record at a time would do)", n, peak);
    // a reader over records without end
    let one = wire::rec(APP, (3, 3), &d[..n.min(MAX)]);
    let mut rd = TlsReader::new(Again { b: one, at: 0 });
    alloc::start();
    for _ in 0..50 {
        match husk(|| rd.read_message()) {
            Ok(m) => drop(m),
            Err(e) => return Err(format!("read: {:?}", e)),
        }
    }
    let left = alloc::live();
    let (peak, _) = alloc::stop();
    ensure!(peak <= FIXED && left <= FIXED as i64, "reading records of {} bytes held {}, {} stay", n.min(MAX), peak, left);
    c.sigs(n);
    c.count("writes and reads of the record layer measured", 51);
    Ok(())
}

struct Again {
    b: Vec<u8>,
    at: usize,
}
impl Read for Again {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        let n = (self.b.len() - self.at).min(o.len());
        o[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at = (self.at + n) % self.b.len();
        Ok(n)
    }
}

/// a transport that stops working
struct Breaks<T>(T, Rc<Cell<Option<Broken>>>);
#[derive(Clone, Copy)]
enum Broken {
    Err(io::ErrorKind),
    Zero,
    /// takes a byte, then fails
    Partial,
}
impl<T: Read> Read for Breaks<T> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        match self.1.get() {
            None => self.0.read(b),
            Some(Broken::Err(k)) => Err(k.into()),
            Some(_) => Ok(0),
        }
    }
}
impl<T: Write> Write for Breaks<T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match self.1.get() {
            None => self.0.write(b),
            Some(Broken::Err(k)) => Err(k.into()),
            Some(Broken::Zero) => Ok(0),
            Some(Broken::Partial) if b.len() == 1 => Ok(1),
            Some(Broken::Partial) => Err(io::ErrorKind::TimedOut.into()),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match self.1.get() {
            None => self.0.flush(),
            Some(_) => Err(io::ErrorKind::BrokenPipe.into()),
        }
    }
}

/// calls that fail, or that come after the end of the stream, again and again: nothing accumulates
fn refused(c: &mut Case, n: usize) -> Verdict {
    let su = small_setup(&mut c.rng);
    let s = su.sim(vec![]).share();
    let broken = Rc::new(Cell::new(None));
    let (r, w) = (Breaks(ClientR(s.clone()), broken.clone()), Breaks(ClientW(s.clone()), broken.clone()));
    let mut cl = husk(|| husk::TlsClient::new(r, w, rand::rngs::OsRng)).map_err(|e| format!("{:?}", e))?;
    pump(&s);
    let call = c.idx % 6;
    let how = c.idx / 6 % 4;
    match how {
        0 => broken.set(Some(Broken::Err(*c.rng.pick(&[io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::ConnectionReset])))),
        1 => broken.set(Some(Broken::Zero)),
        2 => broken.set(Some(Broken::Partial)),
        // the stream ends, or is broken off
        _ => {
            let mut b = s.borrow_mut();
            match c.idx / 24 % 4 {
                0 => b.srv.record(ALERT, (3, 3), &[1, 0]),
                1 => b.srv.record(ALERT, (3, 3), &[2, 40]),
                2 => b.srv.record(HS, (3, 3), &[0, 0, 0, 0]),
                _ => b.srv.raw(&wire::rec(APP, (3, 3), &[9; 30])),
            }
        }
    }
    let data = c.rng.bytes(3000);
    let mut buf = [0u8; 500];
    let mut after = vec![];
    let mut failed = 0u64;
    alloc::start();
    for i in 0..n {
        let ok = match call {
            0 => husk(|| cl.write_all(&data[..1 + i % 40])).is_ok(),
            1 => husk(|| cl.write(&data)).is_ok(),
            2 => husk(|| cl.flush()).is_ok(),
            3 => husk(|| cl.close()).is_ok(),
            4 => matches!(husk(|| cl.read(&mut buf)), Ok(k) if k > 0),
            _ => matches!(husk(|| cl.read(&mut buf[..1])), Ok(k) if k > 0) | husk(|| cl.write_all(&data[..5])).is_ok(),
        };
        failed += !ok as u64;
        alloc::pause(|| {
            let mut b = s.borrow_mut();
            b.srv.log.app.clear();
            b.srv.log.recs.clear();
            b.srv.c2s_raw.clear();
            b.ops.clear();
        });
        if i == n / 8 || i + 1 == n {
            after.push(alloc::live());
        }
    }
    let _ = alloc::stop();
    c.count("failing calls measured", failed);
    c.sigs(format!("{} {} {:?}", call, how, after));
    // (a call that leaves as little as three bytes behind is noticed)
    ensure!(after[1] - after[0] <= 2048, "{} calls ({} of kind {}) left {} bytes behind", n - n / 8, failed, call, after[1] - after[0]);
    Ok(())
}

fn main() {
    mon::main(
        "C20",
        "one case = one handshake, connection or decoding with every allocation of the client counted; the peak is compared with a \
         bound of 512 KB + 64 x the bytes received (or written); distinct = different input and measured amount",
        |m| {
            m.par("promise", 15 * LENS.len() * m.q(2, 20), promise);
            m.par("inner", m.q(900, 12_000), inner);
            m.par("long-small", m.q(96, 800), |c| {
                let n = c.rng.range(5000, 66_000);
                long(c, n)
            });
            m.par("long", m.q(8, 24), |c| {
                let n = if m.thorough { (1 << 24) - 1000 } else { 1 << 20 };
                long(c, n)
            });
            m.par("hostile", m.q(2000, 60_000), hostile);
            m.par("codec", m.q(14 * 300, 14 * 10_000), codec);
            m.par("steady", m.q(8, 16), |c| steady(c, if m.thorough { 60_000 } else { 1500 }));
            m.par("hostile-data", m.q(300, 8000), hostile_data);
            m.par("leak", m.q(24, 400), leak);
            m.par("leak-many", m.q(8, 16), |c| leak_many(c, m.q(1200, 4000)));
            m.par("refused", m.q(96, 960), |c| refused(c, m.q(800, 8000)));
            m.par("parts", m.q(60, 600), parts);
            m.require("message headers that promise more", 400);
            m.require("inner length fields overwritten", 500);
            m.require("records on measured connections", 10_000);
            m.require("connections dropped", 30);
            m.require("failing calls measured", 20_000);
            m.require("bytes received by measured clients", 100_000);
        },
    )
}
