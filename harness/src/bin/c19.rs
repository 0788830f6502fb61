//! C19: a transport that fails at any operation, or ends at any byte: errors surface, nothing is corrupted.
use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};
use husk::tls::{TlsReader, TlsWriter};
use husk::tls_result::TlsErrorKind;
use huskmon::ensure;
use huskmon::entropy;
use huskmon::mon::{self, husk, Case, Verdict};
use huskmon::prng::Rng;
use huskmon::sim::*;
use huskmon::{refc, wire};
use std::collections::HashSet;
use std::io::{self, ErrorKind};

#[derive(Clone, Debug)]
enum Call {
    Write(Vec<u8>),
    Flush,
    Read(usize),
    Close,
    /// the server sends
    Down(Vec<u8>),
}

/// one session: everything in it is a function of `seed`, so that runs differ only in the fault
#[derive(Clone)]
struct Session {
    name: &'static str,
    seed: u64,
    calls: Vec<Call>,
    frag: Frag,
    rd: Chunk,
    wr: Chunk,
    buffered: bool,
    /// the handshake fails: this position of the script is replaced
    broken: Option<(usize, u8)>,
}

/// a transport that fails in one operation (or from then on), or ends
struct Once {
    ops: usize,
    at: usize,
    kind: ErrorKind,
    sticky: bool,
    data: Vec<u8>,
    pos: usize,
}

impl Once {
    fn fails(&mut self) -> bool {
        self.ops += 1;
        self.ops == self.at + 1 || self.sticky && self.ops > self.at
    }
}

impl io::Write for Once {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.fails() {
            return Err(self.kind.into());
        }
        self.data.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.fails() {
            return Err(self.kind.into());
        }
        Ok(())
    }
}

impl io::Read for Once {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.fails() {
            return Err(self.kind.into());
        }
        let n = b.len().min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..][..n]);
        self.pos += n;
        Ok(n)
    }
}

/// the record layer alone, at record number `at`
fn numbered(c: &mut Case, at: u64, op: usize) -> Verdict {
    let key = [5u8; 32];
    let kind = *c.rng.pick(&KINDS);
    let (sticky, op) = (op >= 6, op % 6);
    let mut w = TlsWriter::new(Once { ops: 0, at: op, kind, sticky, data: vec![], pos: 0 });
    w.set_iv(vec![0; 12]);
    w.set_encryptor(ChaCha20Poly1305.new_encryptor(key.to_vec()));
    #[cfg(husk_verif)]
    w.verif_set_write_count(at);
    // until the failure has happened, everything is reported as it is
    for i in 0..3 {
        let d = [i as u8; 9];
        let before = w.get_mut().ops;
        let r = husk(|| w.write_application_data(&d).and_then(|_| w.flush()));
        let t = w.get_mut();
        let hit = (before..t.ops).contains(&t.at) || t.sticky && t.ops > t.at;
        ensure!(hit == r.is_err(), "record {}: a transport operation {}, the call reports {:?}", at + i, if hit { "failed" } else { "did not fail" }, r);
        c.count("writes of the record layer", 1);
        if hit {
            break;
        }
    }
    let mut data = vec![];
    for q in at..at + 3 {
        data.extend(wire::rec(APP, (3, 3), &refc::seal(&key, &nonce(&[0; 12], q), &ad(q, APP, (3, 3), 8), &q.to_be_bytes())));
    }
    if c.rng.chance(1, 4) {
        let n = c.rng.below(data.len());
        data.truncate(n);
    }
    let mut r = TlsReader::new(Once { ops: 0, at: op + c.rng.below(2) * 5, kind, sticky, data, pos: 0 });
    r.set_iv(vec![0; 12]);
    r.set_decryptor(ChaCha20Poly1305.new_decryptor(key.to_vec()));
    #[cfg(husk_verif)]
    r.verif_set_read_count(at);
    for q in at..at + 4 {
        let before = r.get_mut().ops;
        let x = husk(|| r.read_application_data());
        let t = r.get_mut();
        let hit = (before..t.ops).contains(&t.at) || t.sticky && t.ops > t.at;
        match x {
            Ok(d) => {
                ensure!(!hit, "record {}: a transport read failed, and {} bytes are delivered", q, d.len());
                ensure!(d == q.to_be_bytes(), "record {}: {:?} delivered", q, d);
            }
            Err(e) => {
                ensure!(hit || t.pos == t.data.len(), "record {}: {:?} without a failure of the transport", q, e);
                break;
            }
        }
        c.count("reads of the record layer", 1);
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Outcome {
    Ok(usize),
    Err,
    None,
}

struct Run {
    connected: bool,
    kind: &'static str,
    /// call in which the fault hit (0: the handshake, i + 1: calls[i])
    hit: Option<usize>,
    out: Vec<Outcome>,
    delivered: Vec<u8>,
    written: Vec<u8>,
    /// bytes of `written` whose write and every transport operation of it succeeded, in order, before any write failed
    sure: usize,
    sent: Vec<u8>,
    /// end offset in the server's stream of each application record, with the plaintext up to there
    marks: Vec<(usize, usize)>,
    raw: Vec<u8>,
    decoded: Vec<u8>,
    unflushed: usize,
    ops: Vec<Op>,
    out_len: usize,
    hs_out_len: usize,
    rd_pos_at_hit: usize,
    faults: u64,
    secrets: Vec<Vec<u8>>,
    alerts: Vec<(bool, u8, u8)>,
}

#[derive(Clone, Debug)]
struct Plan {
    more: Vec<(usize, Fault)>,
    fault: Option<(usize, Fault)>,
    sticky: bool,
    times: usize,
    same: bool,
    eof_at: Option<usize>,
}
const HONEST: Plan = Plan { more: vec![], fault: None, sticky: false, times: 1, same: false, eof_at: None };

fn decoded(s: &Sim) -> Vec<u8> {
    // a server stops at the first record that does not open
    let mut v = vec![];
    for r in &s.srv.log.recs {
        match &r.plain {
            None => break,
            Some(p) if r.protected && r.ty == APP => v.extend_from_slice(p),
            Some(_) => {}
        }
    }
    v
}

fn run(se: &Session, plan: &Plan) -> Run {
    let mut r = Rng::new(se.seed);
    // not the key 1: the client's public point would be the shared secret
    let mut su = Setup::with_key(3u32.into(), &mut r);
    su.certs = vec![r.bytes(20)];
    su.ske.signature = r.bytes(16);
    let mut srv = su.srv();
    let mut script = su.script();
    if let Some((i, ty)) = se.broken {
        script[i] = match ty {
            0 => Item::Hs(1, vec![1, 2, 3]),
            1 => {
                let mut sh = su.sh.clone();
                sh.suite = 0x1301;
                Item::Hs(2, sh.body())
            }
            2 => Item::Finished([1; 12]),
            3 => Item::Alert(2, 40),
            _ => Item::Rec(APP, (3, 3), vec![1]),
        };
    }
    srv.script = script.into();
    srv.frag = se.frag.clone();
    let mut sim = Sim::new(srv);
    sim.rd_chunk = se.rd.clone();
    sim.wr_chunk = se.wr.clone();
    sim.buffered = se.buffered;
    sim.fault = plan.fault;
    sim.more_faults = plan.more.clone();
    sim.fault_sticky = plan.sticky;
    sim.fault_times = plan.times;
    sim.fault_same = plan.same;
    sim.eof_at = plan.eof_at;
    let s = sim.share();
    let mut o = Run {
        connected: false,
        kind: "",
        hit: None,
        out: vec![],
        delivered: vec![],
        written: vec![],
        sure: 0,
        sent: vec![],
        marks: vec![],
        raw: vec![],
        decoded: vec![],
        unflushed: 0,
        ops: vec![],
        out_len: 0,
        hs_out_len: 0,
        rd_pos_at_hit: 0,
        faults: 0,
        secrets: vec![],
        alerts: vec![],
    };
    let hit = |s: &SimRef| {
        let b = s.borrow();
        b.fault_hit || b.eof_reads > 0
    };
    let (_, st) = entropy::with(entropy::Stream::new(se.seed), || {
        let c = connect(&s);
        o.hs_out_len = s.borrow().srv.out.len();
        if hit(&s) {
            o.hit = Some(0);
        }
        let mut c = match c {
            Ok(c) => c,
            Err(e) => {
                o.kind = kind_name(&e);
                return;
            }
        };
        o.connected = true;
        let mut all_ok = true;
        for (i, call) in se.calls.iter().enumerate() {
            let r = match call {
                Call::Write(d) => {
                    o.written.extend_from_slice(d);
                    match write_all(&mut c, d) {
                        Ok(()) => Outcome::Ok(d.len()),
                        Err(_) => Outcome::Err,
                    }
                }
                Call::Flush => match flush(&mut c) {
                    Ok(()) => Outcome::Ok(0),
                    Err(_) => Outcome::Err,
                },
                Call::Read(n) => {
                    let mut b = vec![0x5a; *n];
                    match read(&mut c, &mut b) {
                        Ok(k) => {
                            o.delivered.extend_from_slice(&b[..k.min(*n)]);
                            Outcome::Ok(k)
                        }
                        Err(_) => Outcome::Err,
                    }
                }
                Call::Close => match husk(|| c.close()) {
                    Ok(()) => Outcome::Ok(0),
                    Err(_) => Outcome::Err,
                },
                Call::Down(d) => {
                    let mut b = s.borrow_mut();
                    b.srv.pump();
                    for rec in d.chunks(MAX) {
                        b.srv.app(rec);
                        o.sent.extend_from_slice(rec);
                        o.marks.push((b.srv.out.len(), o.sent.len()));
                    }
                    Outcome::None
                }
            };
            if o.hit.is_none() && hit(&s) {
                o.hit = Some(i + 1);
            }
            if matches!(call, Call::Write(_)) {
                if r == Outcome::Err {
                    all_ok = false;
                }
                if all_ok {
                    o.sure = o.written.len();
                }
            }
            o.out.push(r);
        }
        // whatever has arrived is still there to be read
        for _ in 0..3 {
            let mut b = vec![0x5a; 70_000];
            if let Ok(k) = read(&mut c, &mut b) {
                o.delivered.extend_from_slice(&b[..k.min(70_000)]);
            }
        }
    });
    pump(&s);
    let b = s.borrow();
    o.raw = b.srv.c2s_raw.clone();
    o.decoded = decoded(&b);
    o.unflushed = b.unflushed();
    o.ops = b.ops.clone();
    o.out_len = b.srv.out.len();
    o.rd_pos_at_hit = if b.fault_hit { b.fault_rd_pos } else { b.rd_pos };
    o.faults = b.faults;
    o.alerts = b.srv.log.alerts.clone();
    if let Some(k) = &b.srv.keys {
        for x in [&k.master, &k.cw, &k.sw] {
            o.secrets.push(x.clone());
        }
    }
    if let Some(p) = &b.srv.pms {
        o.secrets.push(p.clone());
    }
    // what was drawn after the client random is the private scalar
    if st.drawn.len() > 32 {
        o.secrets.push(st.drawn[32..].to_vec());
    }
    o
}

fn win(v: &[u8], set: &mut HashSet<[u8; 8]>) {
    for w in v.windows(8) {
        set.insert(w.try_into().unwrap());
    }
}

struct Base {
    se: Session,
    run: Run,
    hush: HashSet<[u8; 8]>,
}

fn base(se: Session) -> Result<Base, String> {
    let run = run(&se, &HONEST);
    if se.broken.is_none() {
        ensure!(run.connected, "session {}: handshake with an honest server failed: {}", se.name, run.kind);
        ensure!(run.delivered == run.sent && run.decoded == run.written, "session {}: data is wrong without any fault", se.name);
    } else {
        ensure!(!run.connected, "session {}: a wrong server was accepted", se.name);
    }
    let mut hush = HashSet::new();
    for c in &se.calls {
        if let Call::Write(d) | Call::Down(d) = c {
            win(d, &mut hush);
        }
    }
    for s in &run.secrets {
        win(s, &mut hush);
    }
    let b = Base { se, run, hush };
    silent(&b, &b.run.raw)?;
    Ok(b)
}

fn silent(b: &Base, raw: &[u8]) -> Verdict {
    for (i, w) in raw.windows(8).enumerate() {
        let a: [u8; 8] = w.try_into().unwrap();
        ensure!(!b.hush.contains(&a), "bytes {}.. on the wire are a secret or application data in the clear", i);
    }
    Ok(())
}

fn judge(c: &mut Case, b: &Base, plan: &Plan) -> Verdict {
    let o = match mon::catch(|| run(&b.se, plan)) {
        mon::Caught::Ok(o) => o,
        mon::Caught::Panic(m, l) => return Err(format!("panic: {} at {}", m, l)),
    };
    let transient_intr = plan.more.is_empty() && matches!(plan.fault, Some((_, Fault::Err(ErrorKind::Interrupted))));
    let op = plan.fault.and_then(|(i, _)| b.run.ops.get(i).copied());
    c.sigs(format!("{} {:?} {} {:?}", b.se.name, plan, o.kind, o.hit));
    // 1. the call in progress
    if plan.fault.is_some() || plan.eof_at.map_or(false, |e| e < b.run.out_len) {
        if o.hit.is_none() {
            // reads after the session's calls
            c.count("faults after the last call", 1);
        } else {
            c.count("faults that hit", 1);
        }
    }
    match o.hit {
        Some(0) => {
            if transient_intr && op != Some(Op::Flush) {
                ensure!(o.connected == b.run.connected, "an interrupted call makes the handshake fail ({})", o.kind);
            } else if !transient_intr {
                ensure!(!o.connected, "the handshake reports success although the transport failed in it");
                c.count("handshakes that failed", 1);
                if b.se.broken.is_none() {
                    ensure!(o.kind == "IoFailure", "a transport failure in the handshake is reported as {}", o.kind);
                }
            }
        }
        Some(i) => {
            ensure!(o.connected, "ERROR of the check: no connection");
            let call = &b.se.calls[i - 1];
            let r = o.out[i - 1];
            if !transient_intr {
                match call {
                    Call::Read(_) => {}
                    Call::Down(_) => return Err("ERROR of the check: fault in a server's step".into()),
                    _ => {
                        ensure!(r == Outcome::Err, "call {} ({}) reports {:?} although the transport failed in it", i, what(call), r);
                        c.count("calls that failed", 1);
                    }
                }
            }
        }
        None => {}
    }
    if transient_intr && op != Some(Op::Flush) {
        ensure!(o.kind == b.run.kind && o.out == b.run.out && o.raw == b.run.raw && o.delivered == b.run.delivered,
            "an interrupted call is not simply retried: results {:?} instead of {:?}", o.out, b.run.out);
        c.count("interrupted calls retried", 1);
        return Ok(());
    }
    // 2. calls before the fault are not affected
    if let Some(h) = o.hit {
        for i in 0..h.saturating_sub(1) {
            ensure!(o.out[i] == b.run.out[i], "call {} before the fault: {:?} instead of {:?}", i + 1, o.out[i], b.run.out[i]);
        }
    }
    // 3. both streams are prefixes
    ensure!(b.run.written.starts_with(&o.decoded) && o.decoded.len() <= o.written.len(),
        "the server decrypted {} bytes that are not a prefix of what was written", o.decoded.len());
    ensure!(o.sent.starts_with(&o.delivered),
        "the application got {} bytes that are not a prefix of what the server sent (call {:?})", o.delivered.len(), o.hit);
    // 4. what arrived is delivered, when nothing arrived later
    let read_side = plan.more.is_empty() && (op == Some(Op::Read) || plan.eof_at.is_some());
    if o.connected && (plan.sticky && (!plan.same || read_side) || plan.eof_at.is_some()) {
        let n = o.marks.iter().filter(|m| m.0 <= o.rd_pos_at_hit).map(|m| m.1).max().unwrap_or(0);
        ensure!(o.delivered.len() == n, "{} bytes had arrived in complete records before the failure, {} were delivered", n, o.delivered.len());
        c.count("bytes delivered before the failure", n as u64);
    }
    // 5. what was written with success has arrived
    if o.connected && !b.se.buffered {
        ensure!(o.decoded.len() >= o.sure, "writes of {} bytes succeeded, {} arrived", o.sure, o.decoded.len());
        c.count("bytes that arrived", o.sure as u64);
    }
    // 6. after a failure of reading only, writing goes on undisturbed or is refused
    if o.connected && read_side && (plan.same || plan.eof_at.is_some() || !plan.sticky) {
        let refused = o.out.contains(&Outcome::Err);
        if !refused {
            ensure!(o.decoded == b.run.written, "after a failed read the written data does not arrive");
            c.count("sessions written to the end after a failed read", 1);
        }
    }
    // 7. the wire: the session's own bytes up to the failure, and never anything in the clear
    let common = o.raw.iter().zip(&b.run.raw).take_while(|(x, y)| x == y).count();
    silent(b, &o.raw[common..])?;
    if o.hit == Some(0) && b.se.broken.is_none() {
        let rest = &o.raw[common..];
        // what follows can only be one alert, in the clear or protected
        ensure!(rest.is_empty() || (rest[0] == ALERT && rest.len() <= 5 + 2 + 16),
            "after the transport failed in the handshake, {} other bytes were sent: {:02x?}", rest.len(), &rest[..rest.len().min(8)]);
    }
    if !o.connected {
        ensure!(o.decoded.is_empty(), "application data in a failed handshake");
    }
    Ok(())
}

fn what(c: &Call) -> &'static str {
    match c {
        Call::Write(_) => "write",
        Call::Flush => "flush",
        Call::Read(_) => "read",
        Call::Close => "close",
        Call::Down(_) => "server",
    }
}

const KINDS: [ErrorKind; 8] = [
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::Other,
    ErrorKind::WriteZero,
    ErrorKind::InvalidData,
];

const LATE: &str = "late";

fn sessions(seed: u64, drawn: usize) -> Vec<Session> {
    let mut r = Rng::new(seed ^ 0xc19);
    let mut v = vec![];
    let d = |r: &mut Rng, n: usize| r.bytes(n);
    let dflt = Session {
        name: "",
        seed: 0,
        calls: vec![],
        frag: Frag::PerMessage,
        rd: Chunk::All,
        wr: Chunk::All,
        buffered: false,
        broken: None,
    };
    v.push(Session {
        name: "plain",
        seed: r.u64(),
        calls: vec![
            Call::Write(d(&mut r, 20)),
            Call::Flush,
            Call::Down(d(&mut r, 30)),
            Call::Read(30),
            Call::Write(d(&mut r, 33)),
            Call::Down(d(&mut r, 11)),
            Call::Down(d(&mut r, 12)),
            Call::Read(15),
            Call::Write(d(&mut r, 9)),
            Call::Read(8),
            Call::Flush,
            Call::Close,
        ],
        ..dflt.clone()
    });
    v.push(Session {
        name: "large",
        seed: r.u64(),
        calls: vec![
            Call::Down(d(&mut r, 36_000)),
            Call::Write(d(&mut r, 40_000)),
            Call::Flush,
            Call::Read(36_000),
            Call::Write(d(&mut r, 16_385)),
            Call::Flush,
            Call::Close,
        ],
        frag: Frag::Coalesce,
        rd: Chunk::Fixed(5000),
        wr: Chunk::Fixed(7000),
        ..dflt.clone()
    });
    v.push(Session {
        name: "buffered",
        seed: r.u64(),
        calls: vec![
            Call::Write(d(&mut r, 100)),
            Call::Write(d(&mut r, 100)),
            Call::Flush,
            Call::Down(d(&mut r, 10)),
            Call::Read(4),
            Call::Write(d(&mut r, 100)),
            Call::Flush,
            Call::Read(6),
            Call::Close,
            Call::Flush,
        ],
        frag: Frag::Sizes(vec![50]),
        buffered: true,
        ..dflt.clone()
    });
    v.push(Session {
        name: "byte by byte",
        seed: r.u64(),
        calls: vec![
            Call::Write(d(&mut r, 20)),
            Call::Flush,
            Call::Down(d(&mut r, 30)),
            Call::Read(30),
            Call::Close,
        ],
        rd: Chunk::Fixed(1),
        wr: Chunk::Fixed(1),
        ..dflt.clone()
    });
    // a failure late in a long connection
    let mut calls = vec![];
    for i in 0..1060 {
        calls.push(Call::Write(d(&mut r, 3)));
        calls.push(Call::Down(d(&mut r, 3)));
        calls.push(Call::Read(3));
        if i % 50 == 49 {
            calls.push(Call::Flush);
        }
    }
    for n in [20usize, 2, 300] {
        calls.push(Call::Write(d(&mut r, n)));
        calls.push(Call::Flush);
        calls.push(Call::Down(d(&mut r, n)));
        calls.push(Call::Read(n));
    }
    calls.push(Call::Close);
    v.push(Session { name: LATE, seed: r.u64(), calls, ..dflt.clone() });
    for (i, ty, name) in [(1, 0, "refused hello"), (1, 1, "wrong suite"), (7, 2, "wrong finished"), (2, 3, "alert"), (6, 4, "early data")] {
        v.push(Session { name, seed: r.u64(), broken: Some((i, ty)), ..dflt.clone() });
    }
    for _ in 0..drawn {
        let mut calls = vec![];
        let mut avail = 0;
        for _ in 0..r.range(4, 16) {
            match r.below(7) {
                0 | 1 => {
                    let n = *r.pick(&[1usize, 8, 30, 200, 3000, 16_384, 17_000]);
                    calls.push(Call::Write(d(&mut r, n)))
                }
                2 => calls.push(Call::Flush),
                3 | 4 => {
                    let n = *r.pick(&[1usize, 8, 30, 200, 3000, 16_384, 17_000]);
                    avail += n;
                    calls.push(Call::Down(d(&mut r, n)))
                }
                5 if avail > 0 => {
                    let n = r.range(1, avail);
                    avail -= n;
                    calls.push(Call::Read(n))
                }
                _ => calls.push(Call::Flush),
            }
        }
        if r.chance(1, 2) {
            calls.push(Call::Close);
        }
        calls.push(Call::Flush);
        let big = |r: &mut Rng| match r.below(3) {
            0 => Chunk::All,
            1 => Chunk::Fixed(r.range(100, 9000)),
            _ => Chunk::Random(r.clone(), 8000),
        };
        v.push(Session {
            name: "drawn",
            seed: r.u64(),
            calls,
            frag: any_frag(&mut r),
            rd: big(&mut r),
            wr: big(&mut r),
            buffered: r.chance(1, 2),
            broken: None,
        });
    }
    v
}

/// one call that moves much, and one operation of the many it takes fails
fn bulk(c: &mut Case, most: usize) -> Verdict {
    let su = small_setup(&mut c.rng);
    let (mut cl, s) = established(&su, vec![])?;
    pump(&s);
    let n = match c.rng.below(3) {
        0 => 1 << c.rng.range(14, most.ilog2() as usize),
        1 => c.rng.range(1, most),
        _ => c.rng.range(1, 300_000),
    } + c.rng.below(30);
    let d = c.rng.bytes(n);
    let records = (n + 16_383) / 16_384;
    let write = c.rng.chance(2, 3);
    let fault = match c.rng.below(4) {
        0 => Fault::Zero,
        1 if write => Fault::Partial(*c.rng.pick(&[1usize, 2, 16, 100, 16_399]), *c.rng.pick(&KINDS)),
        _ => Fault::Err(*c.rng.pick(&KINDS)),
    };
    // (each record takes a handful of operations; mostly early, so that much is still to come)
    let at = match c.rng.below(3) {
        0 => c.rng.below(8),
        1 => c.rng.below(5 * records),
        _ => c.rng.below(records),
    };
    let what = format!("{} of {} bytes, {:?} at operation {}", if write { "write" } else { "read" }, n, fault, at);
    {
        let mut b = s.borrow_mut();
        let now = b.ops.len();
        b.more_faults = vec![(now + at, fault)];
        b.fault_hit = false;
        if !write {
            b.srv.app(&d);
        }
    }
    if write {
        let r = write_all(&mut cl, &d);
        pump(&s);
        let b = s.borrow();
        let got = &b.srv.log.app[..];
        ensure!(d.starts_with(got), "{}: what the server received is not what was written", what);
        if b.fault_hit {
            ensure!(r.is_err(), "{}: reported as a success; the server has {} bytes", what, got.len());
            c.count("large writes in which one operation failed", 1);
        } else {
            ensure!(r.is_ok(), "{}: {:?}", what, r);
            ensure!(got.len() == n, "{}: the server has {} bytes", what, got.len());
        }
    } else {
        let mut got = vec![0u8; n + 40_000];
        let mut k = 0;
        let end = s.borrow().srv.out.len();
        s.borrow_mut().eof_at = Some(end);
        for _ in 0..4 {
            match read(&mut cl, &mut got[k..]) {
                Ok(x) => k += x,
                Err(_) => (),
            }
            ensure!(k <= n && got[..k] == d[..k], "{}: {} bytes delivered that were not sent so", what, k);
        }
        if s.borrow().fault_hit {
            c.count("large reads in which one operation failed", 1);
        } else {
            ensure!(k == n, "{}: {} bytes delivered", what, k);
        }
    }
    c.sigs(what);
    Ok(())
}

fn main() {
    mon::main(
        "C19",
        "one case = one session (handshake, writes, reads, flushes, close) in which one transport operation fails in one way, or \
         the stream ends at one byte; all else equals the recorded fault-free session; distinct = different session, operation, \
         kind and outcome",
        |m| {
            let mut bases = vec![];
            for se in sessions(m.seed, m.q(1, 24)) {
                let name = se.name;
                match mon::catch(|| base(se)) {
                    mon::Caught::Ok(Ok(b)) => bases.push(b),
                    mon::Caught::Ok(Err(e)) => m.violation(format!("base/{}", name), e),
                    mon::Caught::Panic(p, l) => m.violation(format!("base/{}", name), format!("panic: {} at {}", p, l)),
                }
            }
            // every operation x every way to fail
            let mut plans: Vec<(usize, Plan)> = vec![];
            let mut sampled = 0;
            let nums = huskmon::dict::around(3, 1 << 16);
            for (bi, b) in bases.iter().enumerate() {
                let n = b.run.ops.len();
                m.count(&format!("operations of the session '{}'", b.se.name), n as u64);
                let mut rr = Rng::new(m.seed ^ 0x19);
                for i in 0..n {
                    // of the long session: its end, and a sample of the rest
                    let sample = rr.chance(1, m.q(60, 8)) || nums.contains(&i);
                    if b.se.name == LATE && i + m.q(120, 400) < n && !sample {
                        continue;
                    }
                    let op = b.run.ops[i];
                    let mut add = |fault: Fault, sticky, times, same| {
                        plans.push((bi, Plan { fault: Some((i, fault)), sticky, times, same, ..HONEST }))
                    };
                    // the sessions with many operations: all operations, fewer kinds
                    let full = m.thorough || n < 150;
                    if !full {
                        sampled += 1;
                    }
                    let kinds: Vec<ErrorKind> = if full { KINDS.to_vec() } else { vec![*rr.pick(&KINDS)] };
                    for k in kinds {
                        let both = full || rr.chance(1, 2);
                        if both {
                            add(Fault::Err(k), true, 1, false);
                        }
                        if full || !both {
                            add(Fault::Err(k), false, 1, false);
                        }
                        if full || rr.chance(1, 4) {
                            add(Fault::Err(k), true, 1, true);
                        }
                    }
                    if full || rr.chance(1, 2) {
                        add(Fault::Err(ErrorKind::Interrupted), false, 1, false);
                        add(Fault::Err(ErrorKind::Interrupted), false, *rr.pick(&[2usize, 7, 300]), false);
                    }
                    if op != Op::Flush && (full || rr.chance(1, 2)) {
                        add(Fault::Zero, true, 1, false);
                        add(Fault::Zero, true, 1, true);
                        add(Fault::Zero, false, 1, false);
                    }
                    if op == Op::Write && b.se.wr_is_all() {
                        for _ in 0..if m.thorough { 12 } else { 3 } {
                            let p = *rr.pick(&[1usize, 2, 3, 5, 15, 16, 17, 30, 100, 16_384, 16_399]);
                            let k = *rr.pick(&KINDS);
                            add(Fault::Partial(p, k), true, 1, rr.chance(1, 2));
                            add(Fault::Partial(p, k), false, 1, false);
                        }
                    }
                }
            }
            let pl = &plans;
            let bs = &bases;
            m.count("operations with a drawn kind of failure only", sampled as u64);
            m.par("op", pl.len(), |c| {
                let (bi, ref p) = pl[c.idx];
                let op = bs[bi].run.ops[p.fault.unwrap().0];
                c.count(match op { Op::Read => "failed read operations", Op::Write => "failed write operations", Op::Flush => "failed flush operations" }, 1);
                judge(c, &bs[bi], p)
            });
            // the stream ends after each byte
            let mut ends: Vec<(usize, usize)> = vec![];
            for (bi, b) in bases.iter().enumerate() {
                let (hs, n) = (b.run.hs_out_len, b.run.out_len);
                let mut rr = Rng::new(m.seed ^ 0xe0f);
                for e in 0..n {
                    let inside = e > hs + 200 && e + 60 < n;
                    if !inside || (m.thorough && e % 16 == 0) || rr.chance(1, 400) || (e - hs) % MAX < 3 {
                        ends.push((bi, e));
                    }
                }
            }
            let en = &ends;
            m.par("eof", en.len(), |c| {
                let (bi, e) = en[c.idx];
                c.count("ends of stream", 1);
                judge(c, &bs[bi], &Plan { eof_at: Some(e), ..HONEST })
            });
            // several failures
            m.par("several", m.q(1500, 40_000), |c| {
                let b = &bs[c.rng.below(bs.len())];
                let n = b.run.ops.len();
                let mut any = |r: &mut Rng| {
                    let k = *r.pick(&KINDS);
                    match r.below(5) {
                        0 => Fault::Zero,
                        1 => Fault::Partial(r.range(1, 40), k),
                        2 => Fault::Err(ErrorKind::Interrupted),
                        _ => Fault::Err(k),
                    }
                };
                let first = c.rng.below(n);
                let mut f = any(&mut c.rng);
                if f == Fault::Err(ErrorKind::Interrupted) {
                    f = Fault::Err(ErrorKind::WouldBlock);
                }
                let mut more = vec![];
                for _ in 0..c.rng.range(1, 4) {
                    let at = if c.rng.chance(1, 2) { first + c.rng.range(1, 12) } else { c.rng.below(n) };
                    more.push((at, any(&mut c.rng)));
                }
                c.count("executions with several failures", 1);
                judge(c, b, &Plan { fault: Some((first, f)), more, ..HONEST })
            });
            // a failure while the record of any number below 2^16 (or around 2^17) is written or read
            if cfg!(husk_verif) {
                m.par("number", 520, |c| {
                    for at in 1 + c.idx as u64 * 127..1 + (c.idx as u64 + 1) * 127 {
                        let at = if c.idx >= 516 { at + 65_500 } else { at };
                        for op in 0..12 {
                            numbered(c, at, op)?;
                        }
                    }
                    c.sigs(c.idx);
                    Ok(())
                });
            }
            m.par("bulk", m.q(300, 6000), |c| bulk(c, m.q(4 << 20, 32 << 20)));
            m.require("large writes in which one operation failed", 40);
            m.par("tcp", m.q(48, 400), tcp);
            m.require("faults that hit", 2000);
            m.require("calls that failed", 100);
            m.require("handshakes that failed", 300);
            m.require("interrupted calls retried", 100);
            m.require("bytes delivered before the failure", 1000);
            m.require("sessions written to the end after a failed read", 20);
        },
    )
}

impl Session {
    fn wr_is_all(&self) -> bool {
        matches!(self.wr, Chunk::All)
    }
}

/// real sockets: the server goes away, stops reading, or is silent until a timeout
fn tcp(c: &mut Case) -> Verdict {
    use std::io::{Read, Write};
    use std::net::{Shutdown, TcpListener, TcpStream};
    use std::time::Duration;
    let l = TcpListener::bind("127.0.0.1:0").map_err(|e| format!("ERROR of the check: {}", e))?;
    let addr = l.local_addr().unwrap();
    let mut r = Rng::new(c.rng.u64());
    let mode = c.idx % 4;
    let stop_after = if c.idx % 2 == 0 { r.below(700) } else { 700 + r.below(400) };
    let sseed = r.u64();
    let down = r.bytes(400);
    let down2 = down.clone();
    let server = std::thread::spawn(move || -> io::Result<usize> {
        let (mut t, _) = l.accept()?;
        t.set_read_timeout(Some(Duration::from_secs(20)))?;
        let mut r = Rng::new(sseed);
        let su = small_setup(&mut r);
        let mut srv = su.srv();
        srv.script = su.script().into();
        srv.script.push_back(Item::App(down2));
        let mut sent = 0;
        let mut b = [0u8; 4096];
        loop {
            srv.pump();
            let end = srv.out.len().min(stop_after);
            if sent < end {
                t.write_all(&srv.out[sent..end])?;
                sent = end;
            }
            if sent >= stop_after || (srv.script.is_empty() && sent == srv.out.len()) {
                break;
            }
            let n = t.read(&mut b)?;
            if n == 0 {
                break;
            }
            srv.feed(&b[..n]);
        }
        match mode {
            // gone; with unread data this is a reset
            0 => drop(t),
            1 => {
                t.shutdown(Shutdown::Write)?;
                let _ = io::copy(&mut t, &mut io::sink());
            }
            // silent
            2 => {
                let _ = io::copy(&mut t, &mut io::sink());
            }
            _ => {
                t.shutdown(Shutdown::Both)?;
            }
        }
        Ok(sent)
    });
    let t = TcpStream::connect(addr).map_err(|e| format!("ERROR of the check: {}", e))?;
    t.set_read_timeout(Some(Duration::from_millis(if mode == 2 { 60 } else { 20_000 }))).unwrap();
    t.set_write_timeout(Some(Duration::from_secs(20))).unwrap();
    let keep = t.try_clone().unwrap();
    let res = mon::catch(|| {
        husk(|| -> Result<(Vec<u8>, bool), &'static str> {
            let mut cl = match husk::TlsClient::from_tcp(t) {
                Ok(c) => c,
                Err(e) => return Err(match e.kind {
                    TlsErrorKind::IoFailure => "io",
                    _ => "other",
                }),
            };
            let mut got = vec![];
            let mut b = [0u8; 64];
            let mut wrote = true;
            loop {
                match cl.read(&mut b) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => got.extend_from_slice(&b[..n]),
                }
            }
            for _ in 0..200 {
                if cl.write_all(&[7; 3000]).is_err() {
                    wrote = false;
                    break;
                }
            }
            let _ = cl.close();
            Ok((got, wrote))
        })
    });
    let _ = keep.shutdown(Shutdown::Both);
    let sent = server.join();
    let sent = match sent {
        Ok(Ok(n)) => n,
        // the server's own socket calls fail when the client has gone
        Ok(Err(_)) => stop_after,
        Err(_) => return Err("ERROR of the check: the server thread panicked".into()),
    };
    c.sigs(format!("{} {}", mode, sent));
    match res {
        mon::Caught::Panic(m, l) => Err(format!("panic: {} at {}", m, l)),
        mon::Caught::Ok(Err("io")) => {
            c.count("TCP handshakes cut off", 1);
            Ok(())
        }
        mon::Caught::Ok(Err(k)) => Err(format!("a cut connection is reported as another failure ({})", k)),
        mon::Caught::Ok(Ok((got, _))) => {
            c.count("TCP sessions cut off", 1);
            ensure!(down.starts_with(&got), "got {} bytes that are not a prefix of what the server sent", got.len());
            Ok(())
        }
    }
}
