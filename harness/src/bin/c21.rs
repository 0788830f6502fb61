//! C21: connections do not influence each other. Each connection is a deterministic function of its own
//! seed (server, transport, randomness, calls); the monitor compares what it does in company - interleaved,
//! nested in another's transport calls, on other threads, moved between threads, in a fresh process - with
//! what it does alone.
#[path = "../work.rs"]
#[allow(dead_code)]
mod work;
use huskmon::mon::{self, husk, Case, Verdict};
use huskmon::prng::{hash64, mix, Rng};
use huskmon::sim::*;
use huskmon::{ensure, entropy, mutate};
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::marker::PhantomData;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Barrier;

thread_local! {
    /// connections that make progress inside the transport calls of the one that is running
    static NEST: RefCell<Option<(Rng, Vec<Conn>)>> = const { RefCell::new(None) };
    static DEPTH: RefCell<usize> = const { RefCell::new(0) };
}

fn nest() {
    let Some((mut r, mut v)) = NEST.with(|n| n.borrow_mut().take()) else { return };
    let deep = DEPTH.with(|d| *d.borrow());
    if deep < 3 && !v.is_empty() && r.chance(1, 3) {
        let i = r.below(v.len());
        let mut c = v.swap_remove(i);
        NEST.with(|n| *n.borrow_mut() = Some((r, v)));
        DEPTH.with(|d| *d.borrow_mut() += 1);
        c.step();
        DEPTH.with(|d| *d.borrow_mut() -= 1);
        NEST.with(|n| n.borrow_mut().as_mut().unwrap().1.push(c));
    } else {
        NEST.with(|n| *n.borrow_mut() = Some((r, v)));
    }
}

struct R(ClientR);
struct W(ClientW);
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        mon::outside(nest);
        self.0.read(b)
    }
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        mon::outside(nest);
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        mon::outside(nest);
        self.0.flush()
    }
}
type Cl = husk::TlsClient<R, W>;

struct Conn {
    seed: u64,
    rng: Rng,
    sim: SimRef,
    cl: Option<Cl>,
    started: bool,
    left: usize,
    entropy: Option<entropy::Stream>,
    trace: Vec<String>,
}

impl Conn {
    fn new(seed: u64) -> Conn {
        let mut rng = Rng::new(mix(seed ^ 0x63323163));
        let r = &mut rng;
        let kind = r.below(6);
        let mut sim = match kind {
            0 => {
                let mut srv = mutate::server(r);
                srv.frag = any_frag(r);
                Sim::new(srv)
            }
            _ => {
                let su = small_setup(r);
                let mut extra = vec![];
                for _ in 0..r.range(1, 6) {
                    if kind == 1 {
                        extra.push(mutate::junk(r));
                    }
                    if kind == 2 && r.chance(1, 4) {
                        extra.push(Item::Rec(21, (3, 3), vec![r.range(1, 2) as u8, *r.pick(&[0u8, 0, 10, 20, 40, 80])]));
                    }
                    let n = r.size(3000);
                    extra.push(Item::App(r.bytes(n)));
                }
                su.sim(extra)
            }
        };
        any_transport(r, &mut sim);
        if let Chunk::Fixed(_) = sim.rd_chunk {
            sim.rd_chunk = Chunk::All;
        }
        match kind {
            // a failing transport
            3 => sim.fault = Some((r.below(60), Fault::Err(*r.pick(&[io::ErrorKind::ConnectionReset, io::ErrorKind::BrokenPipe, io::ErrorKind::Interrupted])))),
            // an attacker
            4 => {
                let f = (r.below(2500), 1 << r.below(8));
                if r.chance(1, 2) {
                    sim.srv.s2c_flip = Some(f)
                } else {
                    sim.srv.c2s_flip = Some(f)
                }
            }
            _ => {}
        }
        let left = r.range(2, 14);
        let e = entropy::Stream::new(r.u64());
        Conn { seed, rng, sim: sim.share(), cl: None, started: false, left, entropy: Some(e), trace: vec![] }
    }

    fn done(&self) -> bool {
        self.left == 0
    }

    /// one call
    fn step(&mut self) {
        if self.done() {
            return;
        }
        self.left -= 1;
        let e = self.entropy.take().unwrap();
        let (_, e) = entropy::with(e, || {
            // a panic is an observation too; here it only has to be the same one alone
            if let mon::Caught::Panic(m, _) = mon::catch(|| self.call()) {
                self.trace.push(format!("panic {}", m));
                self.left = 0;
            }
        });
        let drawn = e.drawn.len();
        self.entropy = Some(e);
        let b = self.sim.borrow();
        self.trace.push(format!("  wire {} bytes {:016x}, read {}, entropy {}", b.srv.c2s_raw.len(), hash64(&b.srv.c2s_raw), b.rd_pos, drawn));
        if self.done() {
            self.trace.push(format!("server got {} bytes {:016x}, {} records, alerts {:?}, objections {:?}", b.srv.log.app.len(), hash64(&b.srv.log.app), b.srv.log.recs.len(), b.srv.log.alerts, b.srv.log.errors));
        }
    }

    fn call(&mut self) {
        if !self.started {
            self.started = true;
            let (r, w) = (R(ClientR(self.sim.clone())), W(ClientW(self.sim.clone())));
            let res = husk(|| husk::TlsClient::new(r, w, rand::rngs::OsRng));
            pump(&self.sim);
            match res {
                Ok(c) => {
                    self.cl = Some(c);
                    self.trace.push("connected".into());
                }
                Err(e) => {
                    self.trace.push(format!("connect: {:?} {}", e.kind, e.desc));
                    self.left = 0;
                }
            }
            return;
        }
        let r = &mut self.rng;
        let Some(c) = self.cl.as_mut() else { return };
        let t = match r.below(8) {
            0 | 1 | 2 => {
                let n = *r.pick(&[1usize, 5, 100, 1000, 20_000]);
                let mut b = vec![0; n];
                let k = husk(|| c.read(&mut b));
                match k {
                    Ok(k) => format!("read {} of {}: {:016x}", k, n, hash64(&b[..k.min(n)])),
                    Err(e) => format!("read: {:?}", e.kind()),
                }
            }
            3 | 4 | 5 => {
                let n = r.size(20_000);
                let d = r.bytes(n);
                format!("write {}: {:?}", n, husk(|| c.write(&d)).map_err(|e| e.kind()))
            }
            6 => format!("flush {:?}", husk(|| c.flush()).map_err(|e| e.kind())),
            _ if r.chance(1, 4) => format!("close {:?}", husk(|| c.close()).map_err(|e| e.kind)),
            _ => format!("data {:?}", husk(|| c.reader.read_application_data()).map(|v| hash64(&v)).map_err(|e| e.kind)),
        };
        self.trace.push(t);
        pump(&self.sim);
    }

    fn finish(mut self) -> (u64, Vec<String>) {
        while !self.done() {
            self.step();
        }
        (self.seed, self.trace)
    }
}

fn alone(seed: u64) -> Vec<String> {
    Conn::new(seed).finish().1
}

fn same(how: &str, seed: u64, got: &[String], want: &[String]) -> Verdict {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let f = |v: &[String]| v.get(i).cloned().unwrap_or("nothing".into());
    Err(format!("connection {:x} {}: step {}: {}; alone: {}", seed, how, i, f(got), f(want)))
}

fn count(c: &mut Case, t: &[String]) {
    c.count("connections compared with themselves alone", 1);
    c.count("calls compared", t.iter().filter(|l| !l.starts_with(' ')).count() as u64);
    if t[0] == "connected" {
        c.count("of them established", 1);
    } else {
        c.count("of them failing in the handshake", 1);
    }
    c.sigs(t.join("\n"));
}

fn interleave(c: &mut Case) -> Verdict {
    let n = c.rng.range(2, 6);
    let seeds: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
    let want: Vec<_> = seeds.iter().map(|s| alone(*s)).collect();
    let mut v: Vec<Conn> = seeds.iter().map(|s| Conn::new(*s)).collect();
    let mut sw = 0u64;
    let mut last = usize::MAX;
    while v.iter().any(|x| !x.done()) {
        let i = c.rng.below(n);
        if !v[i].done() {
            sw += (i != last) as u64;
            last = i;
            v[i].step();
        }
    }
    c.count("switches between connections", sw);
    for (x, w) in v.into_iter().zip(&want) {
        let (s, t) = x.finish();
        same("interleaved with others", s, &t, w)?;
        count(c, &t);
    }
    Ok(())
}

/// the same seed twice: identical twins in one process behave identically, also in lockstep
fn twins(c: &mut Case) -> Verdict {
    let s = c.rng.u64();
    let want = alone(s);
    let (mut a, mut b) = (Conn::new(s), Conn::new(s));
    while !a.done() || !b.done() {
        a.step();
        b.step();
    }
    for x in [a, b] {
        let (s, t) = x.finish();
        same("in lockstep with a twin", s, &t, &want)?;
        count(c, &t);
    }
    Ok(())
}

fn nested(c: &mut Case) -> Verdict {
    let n = c.rng.range(2, 5);
    let seeds: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
    let want: Vec<_> = seeds.iter().map(|s| alone(*s)).collect();
    let mut outer = Conn::new(seeds[0]);
    let inner: Vec<Conn> = seeds[1..].iter().map(|s| Conn::new(*s)).collect();
    let r = Rng::new(c.rng.u64());
    NEST.with(|x| *x.borrow_mut() = Some((r, inner)));
    while !outer.done() {
        outer.step();
    }
    let inner = NEST.with(|x| x.borrow_mut().take()).unwrap().1;
    let progress: usize = inner.iter().map(|x| x.trace.len()).sum();
    c.count("steps made inside another connection's transport calls", progress as u64 / 2);
    for x in inner.into_iter().chain([outer]) {
        let (s, t) = x.finish();
        let i = seeds.iter().position(|y| *y == s).unwrap();
        same("nested in the transport calls of another", s, &t, &want[i])?;
        count(c, &t);
    }
    Ok(())
}

/// many threads at once
fn threads(c: &mut Case) -> Verdict {
    let n = c.rng.range(2, 8);
    let per = c.rng.range(1, 3);
    let seeds: Vec<Vec<u64>> = (0..n).map(|_| (0..per).map(|_| c.rng.u64()).collect()).collect();
    let jit: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
    let bar = Barrier::new(n);
    let got: Vec<Vec<(u64, Vec<String>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (seeds, jit, bar) = (&seeds[i], jit[i], &bar);
                s.spawn(move || {
                    let mut r = Rng::new(jit);
                    bar.wait();
                    seeds
                        .iter()
                        .map(|s| {
                            let mut x = Conn::new(*s);
                            while !x.done() {
                                x.step();
                                match r.below(4) {
                                    0 => std::thread::yield_now(),
                                    1 => (0..r.below(2000)).for_each(|_| std::hint::spin_loop()),
                                    _ => {}
                                }
                            }
                            x.finish()
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    c.count("threads", n as u64);
    for (s, t) in got.into_iter().flatten() {
        same("on one of several threads", s, &t, &alone(s))?;
        count(c, &t);
    }
    Ok(())
}

/// everything a connection consists of goes from thread to thread; never two at a time
struct Moved(Conn);
// SAFETY: the Rc's inside are all owned by this Conn (client and server ends), which moves as a whole
unsafe impl Send for Moved {}

fn moved(c: &mut Case) -> Verdict {
    let k = c.rng.range(2, 4);
    let n = c.rng.range(1, 4);
    let seeds: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
    let mut moves = 0u64;
    let rng = &mut c.rng;
    let done: Vec<(u64, Vec<String>)> = std::thread::scope(|s| {
        let (back, rx): (Sender<(usize, Moved)>, Receiver<(usize, Moved)>) = channel();
        let to: Vec<Sender<(usize, Moved)>> = (0..k)
            .map(|_| {
                let (tx, r): (Sender<(usize, Moved)>, Receiver<(usize, Moved)>) = channel();
                let back = back.clone();
                s.spawn(move || {
                    while let Ok((i, mut m)) = r.recv() {
                        m.0.step();
                        if back.send((i, m)).is_err() {
                            break;
                        }
                    }
                });
                tx
            })
            .collect();
        for (i, s) in seeds.iter().enumerate() {
            to[rng.below(k)].send((i, Moved(Conn::new(*s)))).unwrap();
        }
        drop(back);
        let mut out = vec![];
        while out.len() < n {
            let Ok((i, m)) = rx.recv() else { break };
            if m.0.done() {
                out.push(m);
            } else {
                moves += 1;
                to[rng.below(k)].send((i, m)).unwrap();
            }
        }
        out.into_iter().map(|m| m.0.finish()).collect()
    });
    ensure!(done.len() == n, "ERROR of the check: {} of {} connections came back", done.len(), n);
    c.count("moves to another thread between two calls", moves);
    for (s, t) in done {
        same("moved between threads", s, &t, &alone(s))?;
        count(c, &t);
    }
    Ok(())
}

/// the first connections of a process, made at once on several threads; and one all alone
fn fresh(c: &mut Case) -> Verdict {
    let n = if c.idx % 3 == 0 { 1 } else { c.rng.range(2, 8) };
    let seeds: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
    let arg = seeds.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(",");
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .env("C21_FRESH", arg)
        .output()
        .map_err(|e| format!("ERROR of the check: {}", e))?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    if !out.status.success() {
        return Err(format!("a process with {} first connections at once ended with {:?}: {}", n, out.status, String::from_utf8_lossy(&out.stderr)));
    }
    let mut got: Vec<Vec<String>> = vec![];
    for l in text.lines() {
        if l == "CONN" {
            got.push(vec![]);
        } else if let Some(g) = got.last_mut() {
            g.push(l.replace("\\n", "\n"));
        }
    }
    ensure!(got.len() == n, "ERROR of the check: the fresh process printed {} of {} traces", got.len(), n);
    for (s, t) in seeds.iter().zip(&got) {
        same("among the first in a fresh process", *s, t, &alone(*s))?;
        count(c, t);
    }
    c.count("fresh processes", 1);
    Ok(())
}

fn fresh_child(arg: &str) {
    let seeds: Vec<u64> = arg.split(',').map(|s| s.parse().unwrap()).collect();
    let bar = Barrier::new(seeds.len());
    let v: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|x| {
                let bar = &bar;
                s.spawn(move || {
                    let c = Conn::new(*x);
                    bar.wait();
                    c.finish().1
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    for t in v {
        println!("CONN");
        for l in t {
            println!("{}", l.replace('\n', "\\n"));
        }
    }
}

/// no failure of another connection in between makes an honest one fail
fn robust(c: &mut Case) -> Verdict {
    // a crowd of failing connections first
    for _ in 0..c.rng.range(1, 10) {
        let mut x = Conn::new(c.rng.u64());
        let n = c.rng.range(1, 4);
        for _ in 0..n {
            x.step();
        }
        // dropped wherever it stands, or kept for ever
        if c.rng.chance(1, 4) {
            std::mem::forget(x.cl.take());
        }
    }
    let su = small_setup(&mut c.rng);
    let (mut cl, s) = established(&su, vec![])?;
    agreed(&s)?;
    let a = c.rng.bytes(100);
    let b = c.rng.bytes(100);
    exchange(&mut cl, &s, &a, &b)?;
    clean(&s)?;
    c.count("honest connections after failing ones", 1);
    c.sig(&s.borrow().srv.c2s_raw);
    Ok(())
}

/// hundreds of connections open at the same time, used in turns, some of them given up
fn crowd(c: &mut Case, n: usize) -> Verdict {
    let mut v = vec![];
    for i in 0..n {
        let su = small_setup(&mut c.rng);
        let (cl, s) = established(&su, vec![]).map_err(|e| format!("with {} connections open: {}", i, e))?;
        v.push((i, cl, s));
        c.count("connections open at the same time", 1);
    }
    for round in 0..3 {
        let mut i = 0;
        for _ in 0..v.len() {
            i = (i + 1 + c.rng.below(7)) % v.len();
            let (id, cl, s) = &mut v[i];
            let (a, b) = (c.rng.bytes(20), c.rng.bytes(30));
            exchange(cl, s, &a, &b).map_err(|e| format!("connection {} of {}, round {}: {}", id, n, round, e))?;
            c.count("switches between connections", 1);
        }
        // every third goes
        let mut k = 0;
        v.retain(|_| {
            k += 1;
            k % 3 != round
        });
    }
    c.sigs(n);
    Ok(())
}

// is T: Send? asked in a way that compiles either way
struct Ask<T>(PhantomData<T>);
trait No {
    fn is_send(&self) -> bool {
        false
    }
}
impl<T> No for &Ask<T> {}
trait Yes {
    fn is_send(&self) -> bool;
}
impl<T: Send> Yes for Ask<T> {
    fn is_send(&self) -> bool {
        true
    }
}

fn types(c: &mut Case) -> Verdict {
    type C = husk::TlsClient<io::Cursor<Vec<u8>>, Vec<u8>>;
    let send = (&Ask::<C>(PhantomData)).is_send();
    let tcp = (&Ask::<husk::TlsClient<std::net::TcpStream, std::net::TcpStream>>(PhantomData)).is_send();
    let r = (&Ask::<husk::tls::TlsReader<io::Cursor<Vec<u8>>>>(PhantomData)).is_send();
    let w = (&Ask::<husk::tls::TlsWriter<Vec<u8>>>(PhantomData)).is_send();
    ensure!(!(&Ask::<std::rc::Rc<u8>>(PhantomData)).is_send(), "ERROR of the check: Rc is Send?");
    ensure!(send && tcp && r && w, "a connection cannot be given to another thread: TlsClient Send: {}, over TCP: {}, TlsReader: {}, TlsWriter: {}", send, tcp, r, w);
    c.count("types that can move between threads", 4);
    c.sigs("types");
    Ok(())
}

/// `small SEED KIND FROM TO`: for Miri
fn small(a: &[String]) {
    let seed: u64 = a[0].parse().unwrap();
    let kind: usize = a[1].parse().unwrap();
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        if loc.starts_with("src/") || loc.contains("/verif/harness/") {
            eprintln!("HARNESS PANIC {}", i);
        }
    }));
    // cheap kinds of work, without the field arithmetic
    const CHEAP: [usize; 9] = [2, 4, 5, 6, 7, 8, 11, 12, 13];
    for i in a[2].parse::<usize>().unwrap()..a[3].parse().unwrap() {
        eprintln!("CASE {} {} threads", kind, i);
        let pick = |t: usize, j: usize| {
            let mut r = Rng::new(mix(seed ^ hash64(format!("{}/{}/{}/{}", kind, i, t, j).as_bytes())));
            // kind 1: everyone is refused in the handshake; kind 2: everyone on the record layer
            let k = match kind {
                0 => *r.pick(&CHEAP),
                1 => 11,
                _ => *r.pick(&[6, 7, 8]),
            };
            (k, r)
        };
        let go = |t: usize, j: usize| {
            let (k, mut r) = pick(t, j);
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| work::piece(k, &mut r, false))).unwrap_or(7)
        };
        let got: Vec<Vec<u64>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..3).map(|t| s.spawn(move || (0..3).map(|j| go(t, j)).collect::<Vec<_>>())).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut d = 0;
        for t in 0..3 {
            for j in 0..3 {
                let w = go(t, j);
                d = mix(d ^ w);
                if w != got[t][j] {
                    println!("DIFFERS {} {}: thread {} piece {}: {:x}, alone {:x}", kind, i, t, j, got[t][j], w);
                }
            }
        }
        println!("D {} {} {:016x}", kind, i, d);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 5 && a[1] == "small" {
        return small(&a[2..]);
    }
    #[cfg(not(miri))]
    {
        if let Ok(s) = std::env::var("C21_FRESH") {
            return fresh_child(&s);
        }
        // each case has threads of its own
        let tsan = std::env::var("HUSKMON_PART").map_or(false, |p| p == "tsan");
        mon::main(
            "C21",
            "one case = several connections run together (interleaved, nested in each other's transport calls, on several \
             threads, moved between threads, first in a fresh process), each compared call by call - results, data, \
             bytes on the wire, randomness drawn - with the same connection run alone; distinct = different traces",
            |m| {
                m.stall_limit_s.store(60, std::sync::atomic::Ordering::SeqCst);
                let f = if tsan { 4 } else { 1 };
                m.par("types", 1, types);
                m.par("interleave", m.q(500, 30_000) / f, interleave);
                m.par("twins", m.q(200, 8_000) / f, twins);
                m.par("nested", m.q(500, 30_000) / f, nested);
                m.par("robust", m.q(150, 6_000) / f, robust);
                m.par("crowd", 2, |c| crowd(c, if c.idx == 0 { m.q(1500, 5000) } else { m.q(40, 1200) } / f));
                m.par_n("threads", m.q(120, 6_000) / f, 2, threads);
                m.par_n("moved", m.q(300, 10_000) / f, 3, moved);
                m.par_n("fresh", m.q(72, 1500) / f, 2, fresh);
                m.require("of them established", 300);
                m.require("of them failing in the handshake", 100);
                m.require("switches between connections", 1000);
                m.require("steps made inside another connection's transport calls", 100);
                m.require("moves to another thread between two calls", 300);
                m.require("fresh processes", 15);
            },
        )
    }
}
