//! C05: what is written arrives exactly once, in order, in valid records; flush reaches the transport.
use huskmon::ensure;
use huskmon::mon::{self, husk, Case, Verdict};
use huskmon::prng::Rng;
use huskmon::sim::*;
use std::io::Write;

struct W {
    cl: Client,
    s: SimRef,
    /// everything accepted for writing since the handshake
    want: Vec<u8>,
    /// everything written at the last flush that returned
    flushed: usize,
    down: Vec<u8>,
    got: Vec<u8>,
    writes: u64,
    flushes: u64,
}

impl W {
    fn new(c: &mut Case, vary: impl FnOnce(&mut Rng, &mut Sim)) -> Result<W, String> {
        let su = small_setup(&mut c.rng);
        let mut sim = su.sim(vec![]);
        vary(&mut c.rng, &mut sim);
        let s = sim.share();
        let cl = connect(&s).map_err(|e| format!("handshake with an honest server failed: {:?}", e))?;
        agreed(&s)?;
        Ok(W { cl, s, want: vec![], flushed: 0, down: vec![], got: vec![], writes: 0, flushes: 0 })
    }

    fn write(&mut self, how: usize, d: &[u8]) -> Verdict {
        self.writes += 1;
        let cl = &mut self.cl;
        let fl0 = self.s.borrow().flush_calls;
        let n = match how {
            0 => husk(|| cl.write(d)).map_err(|e| format!("write of {} bytes: {:?}", d.len(), e))?,
            1 => {
                husk(|| cl.write_all(d)).map_err(|e| format!("write_all of {} bytes: {:?}", d.len(), e))?;
                d.len()
            }
            2 => {
                husk(|| cl.writer.write_application_data(d))
                    .map_err(|e| format!("write_application_data of {} bytes: {:?}", d.len(), e))?;
                d.len()
            }
            3 => {
                let (a, b) = d.split_at(d.len() / 2);
                husk(|| cl.write_vectored(&[std::io::IoSlice::new(a), std::io::IoSlice::new(b)]))
                    .map_err(|e| format!("write_vectored: {:?}", e))?
            }
            _ => {
                // through the standard library's buffer, as applications do
                let mut b = std::io::BufWriter::with_capacity(1000, &mut *cl);
                husk(|| {
                    for x in d.chunks(77) {
                        b.write_all(x)?;
                    }
                    b.flush()
                })
                .map_err(|e| format!("BufWriter over the client: {:?}", e))?;
                d.len()
            }
        };
        ensure!(n <= d.len(), "write of {} bytes returned {}", d.len(), n);
        ensure!(n > 0 || d.is_empty() || how == 3, "write of {} bytes returned 0", d.len());
        self.want.extend_from_slice(&d[..n]);
        if how == 4 {
            ensure!(self.s.borrow().flush_calls > fl0, "flush did not reach the transport");
            self.flushed = self.want.len();
        }
        self.check()
    }

    /// what has arrived is a prefix of what was written and covers everything flushed
    fn check(&mut self) -> Verdict {
        pump(&self.s);
        clean(&self.s)?;
        let b = self.s.borrow();
        let app = &b.srv.log.app;
        ensure!(
            app.len() <= self.want.len() && app[..] == self.want[..app.len()],
            "after {} writes the server holds {} bytes that are not a prefix of the {} written (they differ at {})",
            self.writes,
            app.len(),
            self.want.len(),
            app.iter().zip(&self.want).take_while(|(a, b)| a == b).count()
        );
        ensure!(
            app.len() >= self.flushed,
            "flush returned with {} bytes written, but the server received {}",
            self.flushed,
            app.len()
        );
        Ok(())
    }

    fn flush(&mut self) -> Verdict {
        self.flushes += 1;
        let dirty = self.flushed < self.want.len();
        let before = self.s.borrow().flush_calls;
        let cl = &mut self.cl;
        husk(|| cl.flush()).map_err(|e| format!("flush: {:?}", e))?;
        let b = self.s.borrow();
        ensure!(!dirty || b.flush_calls > before, "flush did not reach the transport");
        ensure!(b.unflushed() == 0, "flush left {} bytes in the transport's buffer", b.unflushed());
        drop(b);
        self.flushed = self.want.len();
        self.check()?;
        let n = self.s.borrow().srv.partial();
        ensure!(n == 0, "flush returned in the middle of a record");
        Ok(())
    }

    fn read(&mut self, d: Vec<u8>) -> Verdict {
        self.s.borrow_mut().srv.app(&d);
        let mut buf = vec![0u8; d.len()];
        let n = read(&mut self.cl, &mut buf).map_err(|e| format!("read between writes: {:?}", e))?;
        ensure!(n == d.len(), "read {} of {} bytes between writes", n, d.len());
        self.down.extend(d);
        self.got.extend(buf);
        ensure!(self.down == self.got, "data read between writes differs");
        self.check()
    }

    fn end(mut self, c: &mut Case) -> Verdict {
        self.flush()?;
        let b = self.s.borrow();
        let l = &b.srv.log;
        ensure!(l.app == self.want, "the server received {} of {} bytes", l.app.len(), self.want.len());
        ensure!(l.alerts.is_empty(), "alerts: {:?}", l.alerts);
        let mut recs = 0;
        for r in l.recs.iter().skip_while(|r| !r.protected) {
            ensure!(r.protected && r.ver == (3, 3), "record {:?} {:?} protected {}", r.ty, r.ver, r.protected);
            let n = r.plain.as_ref().map_or(0, |p| p.len());
            ensure!(n <= MAX, "a record holds {} bytes", n);
            ensure!(r.ty == APP || r.ty == HS, "a record of type {} among the data", r.ty);
            if r.ty == APP {
                recs += 1;
                c.sigs(n);
            }
        }
        c.count("application data records opened", recs);
        c.count("bytes received by the server", l.app.len() as u64);
        c.count("writes", self.writes);
        c.count("flushes", self.flushes);
        c.count("transport writes", b.write_calls);
        c.count("interrupted transport calls", b.interrupted);
        let (w, f) = (self.writes, self.flushes);
        let n = self.want.len();
        c.sample(|| format!("{} writes, {} flushes, {} bytes in {} records", w, f, n, recs));
        Ok(())
    }
}

const EDGES: &[usize] = &[
    0, 1, 2, 15, 16, 17, 63, 64, 65, 255, 256, 1000, 4096, 8191, 8192, 16000, 16366, 16367, 16368, 16383, 16384, 16385,
    16400, 18431, 18432, 18433, 20000, 32767, 32768, 32769, 49152, 49153, 65535, 65536, 65537, 70000,
];

fn main() {
    mon::main(
        "C05",
        "one case = one connection of the real client writing a generated sequence; the server opens every record with \
         its own keys and implementation and compares the byte stream after every call; distinct = different sequence of record sizes",
        |m| {
            // every edge size alone, then again after another size
            m.par("edge", EDGES.len() * 5, |c| {
                let n = EDGES[c.idx / 5];
                let how = c.idx % 5;
                let mut w = W::new(c, |r, s| any_transport(r, s))?;
                let d = c.rng.bytes(n);
                w.write(how, &d)?;
                w.flush()?;
                let k = *c.rng.pick(EDGES);
                let d = c.rng.bytes(k);
                w.write(how, &d)?;
                w.write(how, &[7])?;
                w.end(c)
            });
            // every size up to that of a record
            m.par("every-size", 128, |c| {
                let mut w = W::new(c, |_, _| {})?;
                let d = c.rng.bytes(MAX + 400);
                for k in 0..129 {
                    w.write(c.idx % 3, &d[k..][..c.idx + 128 * k])?;
                }
                w.end(c)
            });
            // sizes next to the numbers that occur in the code
            let nums = huskmon::dict::around(3, m.q(70_000, 5_000_000));
            m.par("number", nums.len(), |c| {
                let n = nums[c.idx];
                let mut w = W::new(c, |r, s| any_transport(r, s))?;
                let d = c.rng.bytes(n);
                let how = c.rng.below(5);
                w.write(how, &d)?;
                w.flush()?;
                w.write(1, &d)?;
                w.write(0, &[7])?;
                w.end(c)
            });
            m.par("sequence", m.q(300, 12_000), |c| {
                let mut w = W::new(c, |r, s| any_transport(r, s))?;
                let n = c.rng.range(1, 25);
                let mut budget = 200_000usize;
                for _ in 0..n {
                    match c.rng.below(8) {
                        0 => w.flush()?,
                        1 => {
                            let n = c.rng.size(3000).max(1);
                            let d = c.rng.bytes(n);
                            w.read(d)?
                        }
                        _ => {
                            let k = if c.rng.chance(1, 4) { *c.rng.pick(EDGES) } else { c.rng.size(20_000) }.min(budget);
                            budget -= k;
                            let d = match c.rng.below(5) {
                                0 => vec![0; k],
                                _ => c.rng.bytes(k),
                            };
                            let how = c.rng.below(5);
                            w.write(how, &d)?
                        }
                    }
                }
                w.end(c)
            });
            // a transport that takes one byte at a time, one that is interrupted at nearly every call,
            // one that cuts at every offset of a record
            m.par("byte-at-a-time", m.q(12, 100), |c| {
                let mut w = W::new(c, |r, s| {
                    s.wr_chunk = Chunk::Fixed(1);
                    s.buffered = r.chance(1, 2);
                    s.intr_wr = if r.chance(1, 2) { 250 } else { 0 };
                })?;
                for _ in 0..4 {
                    let k = c.rng.size(3000);
                    let d = c.rng.bytes(k);
                    w.write(1, &d)?;
                }
                w.end(c)
            });
            m.par("cut", m.q(300, 300), |c| {
                let idx = c.idx;
                let mut w = W::new(c, |_, _| {})?;
                {
                    let mut b = w.s.borrow_mut();
                    let p = b.wr_pos;
                    b.wr_chunk = Chunk::Split(vec![p + idx, p + idx + 1, p + 2 * idx]);
                }
                c.sigs(idx);
                let d = c.rng.bytes(100);
                w.write(1, &d)?;
                w.write(1, &d)?;
                w.end(c)
            });
            m.par("many-small", m.q(8, 40), |c| {
                let mut w = W::new(c, |r, s| any_transport(r, s))?;
                w.s.borrow_mut().wr_chunk = Chunk::All;
                // the comparison of the whole stream at each step is quadratic: keep it short per connection
                for i in 0..1500u32 {
                    w.write(1, &[i as u8])?;
                }
                w.end(c)
            });
            // a connection that lasts: more records than 2^16, 2^17 (and, thorough, 2^20), judged at the end
            m.par("long", m.q(2, 6), |c| {
                let n = [70_000usize, 140_000, 300_000, 600_000, 1_100_000, 2_200_000][c.idx];
                let mut w = W::new(c, |_, _| {})?;
                let d = c.rng.bytes(n);
                let cl = &mut w.cl;
                for (i, x) in d.chunks(1).enumerate() {
                    husk(|| cl.write_all(x)).map_err(|e| format!("write {} of one byte: {:?}", i, e))?;
                    if i % 100 == 0 {
                        pump(&w.s);
                    }
                }
                w.want.extend_from_slice(&d);
                c.sigs(n);
                c.count("records of long connections", n as u64);
                w.flush()?;
                w.end(c)
            });
            // writes of more than 2^8, 2^12 and (thorough) 2^16 records; more than 2^20, 2^26 and 2^30 bytes
            let sizes = [1usize << 20, (4 << 20) + 77, (1 << 24) + 5, (64 << 20) + 16383, (1 << 30) + (5 << 14) + 1];
            m.par("large", m.q(4, sizes.len()), |c| {
                let n = sizes[c.idx];
                let mut w = W::new(c, |r, s| any_transport(r, s))?;
                w.s.borrow_mut().wr_chunk = if n < 1 << 23 { Chunk::Random(Rng::new(c.rng.u64()), 30000) } else { Chunk::All };
                let d = c.rng.bytes(n);
                w.write(c.idx % 2, &d)?;
                w.flush()?;
                w.write(0, &d[..100_000])?;
                w.end(c)
            });
            m.require("bytes received by the server", 1_000_000);
            m.require("interrupted transport calls", 100);
        },
    )
}
