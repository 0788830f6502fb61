//! C07: the bytes read are exactly the bytes sent.
use huskmon::ensure;
use huskmon::mon::{self, husk, Case, Verdict};
use huskmon::prng::Rng;
use huskmon::sim::*;
use std::io::{BufRead, Read};

struct Rd {
    cl: Client,
    s: SimRef,
    sent: Vec<u8>,
    pos: usize,
    reads: u64,
}

impl Rd {
    fn new(c: &mut Case, vary: impl FnOnce(&mut Rng, &mut Sim)) -> Result<Rd, String> {
        let su = small_setup(&mut c.rng);
        let mut sim = su.sim(vec![]);
        vary(&mut c.rng, &mut sim);
        let s = sim.share();
        let cl = connect(&s).map_err(|e| format!("handshake with an honest server failed: {:?}", e))?;
        agreed(&s)?;
        Ok(Rd { cl, s, sent: vec![], pos: 0, reads: 0 })
    }

    fn send(&mut self, c: &mut Case, n: usize) {
        let d = match c.rng.below(6) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => c.rng.bytes(n),
        };
        self.s.borrow_mut().srv.record(APP, (3, 3), &d);
        self.sent.extend_from_slice(&d);
        c.sigs(n);
        c.count("records sent", 1);
        if n == 0 {
            c.count("empty records sent", 1);
        }
        if n == MAX {
            c.count("full records sent", 1);
        }
    }

    fn took(&mut self, got: &[u8], what: &str) -> Verdict {
        ensure!(self.pos + got.len() <= self.sent.len(), "{} returned {} bytes beyond the end", what, self.pos + got.len() - self.sent.len());
        let w = &self.sent[self.pos..self.pos + got.len()];
        if got != w {
            let at = got.iter().zip(w).take_while(|(a, b)| a == b).count();
            return Err(format!("{} of {} bytes at {}: byte {} differs from what was sent", what, got.len(), self.pos, at));
        }
        self.pos += got.len();
        Ok(())
    }

    /// one read call
    fn read(&mut self, c: &mut Case, n: usize) -> Verdict {
        self.reads += 1;
        c.sigs(n);
        let left = self.sent.len() - self.pos;
        let eof0 = self.s.borrow().eof_reads;
        let guard = c.rng.u8();
        let mut buf = vec![guard; n + 64];
        let cl = &mut self.cl;
        let k = husk(|| cl.read(&mut buf[..n])).map_err(|e| format!("read of {} bytes: {:?}", n, e))?;
        ensure!(k <= n, "a read into {} bytes reports {}", n, k);
        ensure!(k == n.min(left), "a read into {} bytes returned {} when {} were to come", n, k, left);
        ensure!(buf[k..].iter().all(|b| *b == guard), "a read that reports {} bytes wrote beyond them", k);
        if n <= left {
            ensure!(self.s.borrow().eof_reads == eof0, "a read of {} bytes waits for more although {} have arrived", n, left);
        }
        let b = buf[..k].to_vec();
        self.took(&b, "read")
    }

    fn other(&mut self, c: &mut Case, n: usize) -> Verdict {
        self.reads += 1;
        let left = self.sent.len() - self.pos;
        let how = c.rng.below(4);
        let cl = &mut self.cl;
        match how {
            0 => {
                let n = n.min(left);
                let mut b = vec![0; n];
                husk(|| cl.read_exact(&mut b)).map_err(|e| format!("read_exact of {} bytes of {}: {:?}", n, left, e))?;
                self.took(&b, "read_exact")
            }
            1 => {
                let mut v = vec![];
                husk(|| cl.by_ref().take(n as u64).read_to_end(&mut v)).map_err(|e| format!("read_to_end: {:?}", e))?;
                ensure!(v.len() == n.min(left), "take({}).read_to_end: {} bytes of {}", n, v.len(), left);
                self.took(&v, "read_to_end")
            }
            2 => {
                let mut a = vec![0; n / 2];
                let mut b = vec![0; n - n / 2];
                let k = husk(|| cl.read_vectored(&mut [std::io::IoSliceMut::new(&mut a), std::io::IoSliceMut::new(&mut b)]))
                    .map_err(|e| format!("read_vectored: {:?}", e))?;
                a.extend(b);
                ensure!(k <= n, "read_vectored into {} bytes reports {}", n, k);
                a.truncate(k);
                self.took(&a, "read_vectored")
            }
            _ => {
                // the bytes the standard library's buffer took are compared as well
                let n = n.min(left).min(3000);
                let mut r = std::io::BufReader::with_capacity(100, cl.by_ref().take(n as u64));
                let mut v = vec![];
                loop {
                    let k = {
                        let b = husk(|| r.fill_buf()).map_err(|e| format!("BufReader: {:?}", e))?;
                        v.extend_from_slice(b);
                        b.len()
                    };
                    if k == 0 {
                        break;
                    }
                    r.consume(k);
                }
                ensure!(v.len() == n, "BufReader: {} bytes of {}", v.len(), n);
                self.took(&v, "BufReader")
            }
        }
    }

    fn end(mut self, c: &mut Case) -> Verdict {
        let left = self.sent.len() - self.pos;
        let mut v = vec![];
        let cl = &mut self.cl;
        husk(|| cl.read_to_end(&mut v)).map_err(|e| format!("read_to_end: {:?}", e))?;
        ensure!(v.len() == left, "{} bytes never arrived", left - v.len());
        self.took(&v, "read_to_end")?;
        for n in [1, 0, 100] {
            let mut b = vec![0; n];
            let k = read(&mut self.cl, &mut b).map_err(|e| format!("read after the end: {:?}", e))?;
            ensure!(k == 0, "read {} bytes after the end", k);
        }
        let b = self.s.borrow();
        c.count("bytes compared", self.sent.len() as u64);
        c.count("read calls", self.reads);
        c.count("transport reads", b.read_calls);
        c.count("interrupted transport calls", b.interrupted);
        let (s, r) = (self.sent.len(), self.reads);
        c.sample(|| format!("{} bytes in {} records, {} reads", s, b.srv.sent.len(), r));
        Ok(())
    }
}

const EDGES: &[usize] = &[0, 1, 2, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1000, 4096, 8192, 16000, 16367, 16368, 16382, 16383, 16384];

fn main() {
    mon::main(
        "C07",
        "one case = one connection to which the server sends a generated sequence of records while the client reads with \
         generated buffer sizes and kinds of call; every byte returned is compared with the byte sent at that position; \
         distinct = different sequence of record and read sizes",
        |m| {
            // each record size with each buffer size
            m.par("grid", EDGES.len() * EDGES.len(), |c| {
                let (n, k) = (EDGES[c.idx / EDGES.len()], EDGES[c.idx % EDGES.len()]);
                let mut r = Rd::new(c, |r, s| any_transport(r, s))?;
                for x in [n, 3, n, 0, n] {
                    r.send(c, x);
                }
                for _ in 0..6 {
                    r.read(c, k)?;
                }
                r.read(c, 1)?;
                r.read(c, n + k)?;
                r.end(c)
            });
            // every record size
            m.par("sizes", m.q(128, 4096), |c| {
                let mut r = Rd::new(c, |_, _| {})?;
                let step = m.q(128, 4096);
                for n in (c.idx..=MAX).step_by(step) {
                    r.send(c, n);
                    let a = c.rng.below(n + 1);
                    r.read(c, a)?;
                    r.read(c, n - a)?;
                }
                r.end(c)
            });
            // sizes of records and of buffers next to the numbers that occur in the code
            let nums = huskmon::dict::around(3, m.q(70_000, 3_000_000));
            m.par("number", nums.len(), |c| {
                let n = nums[c.idx];
                let mut r = Rd::new(c, |r, s| any_transport(r, s))?;
                if n <= MAX {
                    for x in [n, 2, n, 0, n] {
                        r.send(c, x);
                    }
                    for k in [1, n - 1, 1, n + 1, n - 2] {
                        r.read(c, k)?;
                    }
                }
                let mut left = n + 100;
                while left > 0 {
                    let k = left.min(MAX);
                    r.send(c, k);
                    left -= k;
                }
                r.read(c, n)?;
                r.read(c, 50)?;
                r.end(c)
            });
            m.par("sequence", m.q(800, 20_000), |c| {
                let mut r = Rd::new(c, |r, s| any_transport(r, s))?;
                for _ in 0..c.rng.range(1, 6) {
                    for _ in 0..c.rng.range(1, 6) {
                        let n = if c.rng.chance(1, 3) { *c.rng.pick(EDGES) } else { c.rng.size(MAX) };
                        r.send(c, n);
                    }
                    for _ in 0..c.rng.range(0, 8) {
                        // within what has arrived, so that the stream has not ended yet
                        let left = r.sent.len() - r.pos;
                        let n = if c.rng.chance(1, 8) { left } else { c.rng.size(40_000).min(left) };
                        if c.rng.chance(1, 3) {
                            r.other(c, n)?
                        } else {
                            r.read(c, n)?
                        }
                    }
                    // both directions at once
                    if c.rng.chance(1, 4) {
                        let d = c.rng.bytes(33);
                        write_all(&mut r.cl, &d).map_err(|e| format!("write: {:?}", e))?;
                    }
                }
                r.end(c)
            });
            m.par("cut", m.q(260, 260), |c| {
                let idx = c.idx;
                let mut r = Rd::new(c, |_, _| {})?;
                {
                    let mut b = r.s.borrow_mut();
                    let p = b.rd_pos;
                    b.rd_chunk = Chunk::Split(vec![p + idx, p + idx + 1]);
                    b.intr_rd = 128;
                }
                c.sigs(idx);
                for n in [0, 100, 50] {
                    r.send(c, n);
                }
                r.read(c, 60)?;
                r.read(c, 90)?;
                r.end(c)
            });
            m.par("many-empty", m.q(4, 16), |c| {
                let mut r = Rd::new(c, |_, _| {})?;
                for i in 0..m.q(2000, 20000) {
                    r.send(c, 0);
                    if i % 100 == 0 {
                        r.send(c, 1);
                    }
                }
                r.read(c, 10)?;
                r.end(c)
            });
            // a connection that lasts: more records than 2^16, 2^17 (and, thorough, 2^20)
            m.par("long", m.q(2, 6), |c| {
                let n = [70_000usize, 140_000, 300_000, 600_000, 1_100_000, 2_200_000][c.idx];
                let mut r = Rd::new(c, |_, _| {})?;
                let mut left = n;
                while left > 0 {
                    let k = left.min(500);
                    for _ in 0..k {
                        r.send(c, 1);
                    }
                    r.read(c, k)?;
                    left -= k;
                }
                c.count("records of long connections", n as u64);
                r.end(c)
            });
            // runs of empty records: however long, they are nothing but a pause
            let runs = [2usize, 16, 17, 33, 65, 129, 257, 1025, 4100, 16_400, 33_000, 66_000];
            m.par("empty-run", runs.len() * 2, |c| {
                let n = runs[c.idx / 2];
                let mut r = Rd::new(c, |_, _| {})?;
                r.send(c, 9);
                if c.idx % 2 == 0 {
                    r.read(c, 4)?;
                }
                for _ in 0..n {
                    r.send(c, 0);
                }
                r.send(c, 20);
                if c.idx % 2 == 0 {
                    r.read(c, 15)?;
                }
                c.count("empty records in uninterrupted runs", n as u64);
                r.end(c)
            });
            m.par("byte-at-a-time", m.q(8, 60), |c| {
                let mut r = Rd::new(c, |_, s| {
                    s.rd_chunk = Chunk::Fixed(1);
                    s.intr_rd = 200;
                })?;
                for n in [5, 0, 1, 300] {
                    r.send(c, n);
                }
                for _ in 0..306 {
                    r.read(c, 1)?;
                }
                r.end(c)
            });
            m.par("large", m.q(2, 10), |c| {
                let mut r = Rd::new(c, |_, s| s.rd_chunk = Chunk::Random(Rng::new(5), 5000))?;
                for _ in 0..m.q(64, 640) {
                    r.send(c, MAX);
                }
                let n = r.sent.len() / 3;
                r.read(c, n)?;
                r.end(c)
            });
            // one call for very much
            m.par("huge-read", m.q(1, 3), |c| {
                let mut r = Rd::new(c, |_, _| {})?;
                let n = [m.q(24, 70) << 20, 10_000_019, 300 << 20][c.idx];
                while r.sent.len() < n + 100 {
                    r.send(c, MAX);
                }
                r.read(c, n)?;
                r.read(c, 99)?;
                r.end(c)
            });
            m.require("bytes compared", 1_000_000);
            m.require("empty records sent", 1000);
            m.require("full records sent", 100);
            m.require("interrupted transport calls", 1000);
        },
    )
}
