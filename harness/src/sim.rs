//! A transport in memory and a scripted reference TLS 1.2 server behind it. The client under test and
//! the server run in lock step: the server moves when the client reads and nothing is left to read.
//! Everything that crosses the transport is recorded.
use crate::mon;
use crate::prng::Rng;
use crate::refc;
use crate::refp256 as rp;
use crate::wire;
use husk::tls_result::{TlsError, TlsErrorKind, TlsResult};
use husk::TlsClient;
use num_bigint::BigUint;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;

pub const CCS: u8 = 20;
pub const ALERT: u8 = 21;
pub const HS: u8 = 22;
pub const APP: u8 = 23;
pub const MAX: usize = 1 << 14;

/// how handshake bytes are cut into records
#[derive(Clone, Debug)]
pub enum Frag {
    PerMessage,
    Coalesce,
    /// cyclic sizes, over the coalesced stream
    Sizes(Vec<usize>),
    Random(Rng, usize),
}

/// how many bytes one transport call moves
#[derive(Clone, Debug)]
pub enum Chunk {
    All,
    Fixed(usize),
    Random(Rng, usize),
    /// up to the given offset of the stream, then the rest
    Split(Vec<usize>),
}

pub type Act = Box<dyn FnOnce(&mut Srv)>;

pub enum Item {
    /// a handshake message: type, body
    Hs(u8, Vec<u8>),
    /// bytes of the handshake stream that the server does not put in its transcript
    HsRaw(Vec<u8>),
    /// cut the handshake stream here
    Flush,
    /// a ChangeCipherSpec record (body as given), after which the server encrypts
    Ccs,
    /// a ChangeCipherSpec record that changes nothing
    CcsOnly(Vec<u8>),
    EncOn,
    /// Finished, with the 12 bytes xored by the mask
    Finished([u8; 12]),
    Alert(u8, u8),
    /// application data, cut in records of at most 2^14
    App(Vec<u8>),
    /// a record under the present protection: type, version, plaintext
    Rec(u8, (u8, u8), Vec<u8>),
    /// bytes of the transport
    Raw(Vec<u8>),
    AwaitHello,
    /// wait for the client's Finished
    AwaitFlight,
    Do(Act),
    Eof,
}

#[derive(Clone)]
pub struct Keys {
    pub master: Vec<u8>,
    pub cw: Vec<u8>,
    pub sw: Vec<u8>,
    pub civ: Vec<u8>,
    pub siv: Vec<u8>,
}

impl Keys {
    pub fn derive(pms: &[u8], cr: &[u8], sr: &[u8]) -> Keys {
        let mut s = cr.to_vec();
        s.extend_from_slice(sr);
        let master = refc::prf(pms, "master secret", &s, 48);
        let mut s = sr.to_vec();
        s.extend_from_slice(cr);
        let kb = refc::prf(&master, "key expansion", &s, 88);
        Keys {
            master,
            cw: kb[..32].to_vec(),
            sw: kb[32..64].to_vec(),
            civ: kb[64..76].to_vec(),
            siv: kb[76..88].to_vec(),
        }
    }
}

pub fn nonce(iv: &[u8], seq: u64) -> [u8; 12] {
    let mut n = [0u8; 12];
    n[4..].copy_from_slice(&seq.to_be_bytes());
    for i in 0..12 {
        n[i] ^= iv[i];
    }
    n
}
pub fn ad(seq: u64, ty: u8, ver: (u8, u8), len: usize) -> Vec<u8> {
    let mut a = seq.to_be_bytes().to_vec();
    a.extend_from_slice(&[ty, ver.0, ver.1]);
    a.extend_from_slice(&wire::u16b(len));
    a
}

#[derive(Clone, Debug, PartialEq)]
pub struct CRec {
    pub ty: u8,
    pub ver: (u8, u8),
    pub protected: bool,
    /// plaintext (None: it did not open)
    pub plain: Option<Vec<u8>>,
    pub wire_len: usize,
}

#[derive(Default, Debug, Clone)]
pub struct Log {
    pub recs: Vec<CRec>,
    /// protected, level, description
    pub alerts: Vec<(bool, u8, u8)>,
    pub app: Vec<u8>,
    /// protected, type, body
    pub hs: Vec<(bool, u8, Vec<u8>)>,
    pub ccs: usize,
    /// what a strict server would object to
    pub errors: Vec<String>,
    pub finished_ok: Option<bool>,
}

pub struct Srv {
    pub k: BigUint,
    pub server_random: [u8; 32],
    pub hello: Option<wire::ClientHello>,
    pub client_random: Option<Vec<u8>>,
    pub client_pub: Option<(BigUint, BigUint)>,
    pub pms: Option<Vec<u8>>,
    pub keys: Option<Keys>,
    pub transcript: Vec<u8>,
    hs_in: Vec<u8>,
    pub cseq: u64,
    pub enc: bool,
    pub seq: u64,
    pub log: Log,
    pub frag: Frag,
    pend: Vec<u8>,
    pub script: VecDeque<Item>,
    pub out: Vec<u8>,
    /// every record sent: type, version, plaintext, encrypted?
    pub sent: Vec<(u8, (u8, u8), Vec<u8>, bool)>,
    in_buf: std::collections::VecDeque<u8>,
    pub s2c_edit: Option<Box<dyn FnMut(usize, Vec<u8>) -> Vec<u8>>>,
    pub c2s_edit: Option<Box<dyn FnMut(usize, Vec<u8>) -> Vec<u8>>>,
    pub s2c_idx: usize,
    pub c2s_idx: usize,
    /// (offset, mask) on the server-to-client byte stream
    pub s2c_flip: Option<(usize, u8)>,
    pub c2s_flip: Option<(usize, u8)>,
    s2c_off: usize,
    c2s_off: usize,
    pub c2s_raw: Vec<u8>,
    pub eof: bool,
    frag_i: usize,
}

impl Srv {
    pub fn new(k: BigUint, server_random: [u8; 32]) -> Srv {
        Srv {
            k,
            server_random,
            hello: None,
            client_random: None,
            client_pub: None,
            pms: None,
            keys: None,
            transcript: vec![],
            hs_in: vec![],
            cseq: 0,
            enc: false,
            seq: 0,
            log: Log::default(),
            frag: Frag::PerMessage,
            pend: vec![],
            script: VecDeque::new(),
            out: vec![],
            sent: vec![],
            in_buf: Default::default(),
            s2c_edit: None,
            c2s_edit: None,
            s2c_idx: 0,
            c2s_idx: 0,
            s2c_flip: None,
            c2s_flip: None,
            s2c_off: 0,
            c2s_off: 0,
            c2s_raw: vec![],
            eof: false,
            frag_i: 0,
        }
    }

    pub fn err(&mut self, s: impl Into<String>) {
        if self.log.errors.len() < 16 {
            self.log.errors.push(s.into());
        }
    }

    // ---- server to client

    /// put bytes on the transport
    pub fn raw(&mut self, b: &[u8]) {
        let at = self.out.len();
        self.out.extend_from_slice(b);
        if let Some((off, m)) = self.s2c_flip {
            if off >= self.s2c_off && off < self.s2c_off + b.len() {
                self.out[at + off - self.s2c_off] ^= m;
            }
        }
        self.s2c_off += b.len();
    }

    pub fn seal(&mut self, ty: u8, ver: (u8, u8), plain: &[u8]) -> Vec<u8> {
        let k = self.keys.as_ref().expect("server keys");
        let ct = refc::seal(&k.sw, &nonce(&k.siv, self.seq), &ad(self.seq, ty, ver, plain.len()), plain);
        self.seq += 1;
        ct
    }

    pub fn record(&mut self, ty: u8, ver: (u8, u8), plain: &[u8]) {
        self.sent.push((ty, ver, plain.to_vec(), self.enc));
        let body = if self.enc { self.seal(ty, ver, plain) } else { plain.to_vec() };
        let mut r = wire::rec(ty, ver, &body);
        let i = self.s2c_idx;
        self.s2c_idx += 1;
        if let Some(mut f) = self.s2c_edit.take() {
            r = f(i, r);
            self.s2c_edit = Some(f);
        }
        self.raw(&r);
    }

    pub fn flush_hs(&mut self) {
        let p = std::mem::take(&mut self.pend);
        let mut at = 0;
        while at < p.len() {
            let left = p.len() - at;
            let n = match &mut self.frag {
                Frag::PerMessage | Frag::Coalesce => MAX,
                Frag::Sizes(v) => {
                    let n = v[self.frag_i % v.len()];
                    self.frag_i += 1;
                    n
                }
                Frag::Random(r, m) => {
                    let m = (*m).max(1);
                    r.range(1, m)
                }
            }
            .clamp(1, MAX)
            .min(left);
            self.record(HS, (3, 3), &p[at..at + n]);
            at += n;
        }
    }

    pub fn hs_bytes(&mut self, b: &[u8]) {
        self.pend.extend_from_slice(b);
        if matches!(self.frag, Frag::PerMessage) {
            self.flush_hs();
        }
    }

    pub fn hs(&mut self, ty: u8, body: &[u8]) {
        let m = wire::hs(ty, body);
        self.transcript.extend_from_slice(&m);
        self.hs_bytes(&m);
    }

    pub fn server_verify(&self) -> Option<Vec<u8>> {
        let k = self.keys.as_ref()?;
        Some(refc::prf(&k.master, "server finished", &refc::sha256(&self.transcript), 12))
    }

    pub fn app(&mut self, d: &[u8]) {
        for c in d.chunks(MAX) {
            self.record(APP, (3, 3), c);
        }
    }

    fn run_item(&mut self, it: Item) -> Result<(), Item> {
        // items that have to wait
        match &it {
            Item::AwaitHello if self.hello.is_none() => return Err(it),
            Item::AwaitFlight if self.log.finished_ok.is_none() => return Err(it),
            Item::Finished(_) | Item::EncOn | Item::Ccs if self.keys.is_none() => return Err(it),
            _ => {}
        }
        if !matches!(it, Item::Hs(..) | Item::HsRaw(_) | Item::Finished(_)) {
            self.flush_hs();
        }
        match it {
            Item::Hs(t, b) => self.hs(t, &b),
            Item::HsRaw(b) => self.hs_bytes(&b),
            Item::Flush | Item::AwaitHello | Item::AwaitFlight => {}
            Item::Ccs => {
                self.record(CCS, (3, 3), &[1]);
                self.enc = true;
            }
            Item::CcsOnly(b) => self.record(CCS, (3, 3), &b),
            Item::EncOn => self.enc = true,
            Item::Finished(mask) => {
                let mut v = self.server_verify().unwrap();
                for i in 0..12 {
                    v[i] ^= mask[i];
                }
                self.hs(20, &v);
            }
            Item::Alert(l, d) => self.record(ALERT, (3, 3), &[l, d]),
            Item::App(d) => self.app(&d),
            Item::Rec(t, v, b) => self.record(t, v, &b),
            Item::Raw(b) => self.raw(&b),
            Item::Do(f) => f(self),
            Item::Eof => {
                self.script.clear();
                self.eof = true;
            }
        }
        Ok(())
    }

    pub fn pump(&mut self) {
        self.receive();
        while let Some(it) = self.script.pop_front() {
            if let Err(it) = self.run_item(it) {
                self.flush_hs();
                self.script.push_front(it);
                break;
            }
        }
        if self.script.is_empty() {
            self.flush_hs();
        }
    }

    // ---- client to server

    pub fn feed(&mut self, b: &[u8]) {
        let at = self.c2s_raw.len();
        self.c2s_raw.extend_from_slice(b);
        let mut b = self.c2s_raw[at..].to_vec();
        if let Some((off, m)) = self.c2s_flip {
            if off >= self.c2s_off && off < self.c2s_off + b.len() {
                b[off - self.c2s_off] ^= m;
            }
        }
        self.c2s_off += b.len();
        self.in_buf.extend(b);
    }

    fn receive(&mut self) {
        loop {
            if self.in_buf.len() < 5 {
                return;
            }
            let n = (self.in_buf[3] as usize) << 8 | self.in_buf[4] as usize;
            if self.in_buf.len() < 5 + n {
                return;
            }
            let r: Vec<u8> = self.in_buf.drain(..5 + n).collect();
            let i = self.c2s_idx;
            self.c2s_idx += 1;
            if let Some(mut f) = self.c2s_edit.take() {
                // an edited record may be several or none
                let e = f(i, r);
                self.c2s_edit = Some(f);
                let mut at = 0;
                while e.len() - at >= 5 {
                    let n = (e[at + 3] as usize) << 8 | e[at + 4] as usize;
                    if e.len() - at < 5 + n {
                        break;
                    }
                    self.got(&e[at..at + 5 + n].to_vec());
                    at += 5 + n;
                }
            } else {
                self.got(&r);
            }
        }
    }

    /// types of the records the client put on the transport (before anybody altered them)
    pub fn client_record_types(&self) -> Vec<u8> {
        let (b, mut at, mut v) = (&self.c2s_raw, 0, vec![]);
        while at + 5 <= b.len() {
            v.push(b[at]);
            at += 5 + ((b[at + 3] as usize) << 8 | b[at + 4] as usize);
        }
        v
    }

    /// bytes of an incomplete record
    pub fn partial(&self) -> usize {
        self.in_buf.len()
    }

    fn got(&mut self, r: &[u8]) {
        let ty = r[0];
        let ver = (r[1], r[2]);
        let body = &r[5..];
        let protected = self.log.ccs > 0;
        let hello_done = self.hello.is_some();
        // the record that carries the ClientHello may say 3.1 (RFC 5246, E.1)
        if ver != (3, 3) && (hello_done || ver != (3, 1)) {
            self.err(format!("client record of version {:?}", ver));
        }
        let plain = if protected {
            if body.len() > MAX + 16 {
                self.err(format!("client sent a protected record of {} bytes", body.len()));
            }
            match &self.keys {
                None => {
                    self.err("client protects records before it sent its key share");
                    None
                }
                Some(k) => {
                    if body.len() < 16 {
                        None
                    } else {
                        refc::open(&k.cw, &nonce(&k.civ, self.cseq), &ad(self.cseq, ty, ver, body.len() - 16), body)
                    }
                }
            }
        } else {
            if body.len() > MAX {
                self.err(format!("client sent a record of {} bytes", body.len()));
            }
            Some(body.to_vec())
        };
        if protected {
            self.cseq = self.cseq.wrapping_add(1);
        }
        self.log.recs.push(CRec { ty, ver, protected, plain: plain.clone(), wire_len: body.len() });
        let p = match plain {
            None => {
                self.err(format!("client record {} (type {}) does not open", self.log.recs.len() - 1, ty));
                return;
            }
            Some(p) => p,
        };
        if p.is_empty() && ty != APP {
            self.err(format!("empty client record of type {}", ty));
        }
        if ty != HS && !self.hs_in.is_empty() {
            self.err("client interleaves a record inside a handshake message");
        }
        match ty {
            CCS => {
                if p != [1] {
                    self.err(format!("client ChangeCipherSpec body {:?}", p));
                    // no server goes on after this
                    self.script.clear();
                }
                if self.log.ccs > 0 {
                    self.err("client sent a second ChangeCipherSpec");
                }
                if self.client_pub.is_none() {
                    self.err("client sent ChangeCipherSpec before its key exchange");
                }
                self.log.ccs += 1;
                self.cseq = 0;
            }
            ALERT => {
                if p.len() != 2 {
                    self.err(format!("client alert of {} bytes", p.len()));
                } else {
                    self.log.alerts.push((protected, p[0], p[1]));
                }
            }
            HS => {
                self.hs_in.extend_from_slice(&p);
                self.client_hs(protected);
            }
            APP => {
                if self.log.finished_ok.is_none() {
                    self.err("client sent application data before its Finished");
                }
                if !protected {
                    self.err("client sent application data in the clear");
                }
                self.log.app.extend_from_slice(&p);
            }
            _ => self.err(format!("client record of type {}", ty)),
        }
    }

    fn client_hs(&mut self, protected: bool) {
        loop {
            if self.hs_in.len() < 4 {
                return;
            }
            let n = (self.hs_in[1] as usize) << 16 | (self.hs_in[2] as usize) << 8 | self.hs_in[3] as usize;
            if self.hs_in.len() < 4 + n {
                return;
            }
            let rest = self.hs_in.split_off(4 + n);
            let m = std::mem::replace(&mut self.hs_in, rest);
            let (ty, body) = (m[0], &m[4..]);
            match ty {
                1 => {
                    if self.hello.is_some() || protected {
                        self.err("unexpected ClientHello");
                    } else {
                        match wire::client_hello(body) {
                            Ok(h) => {
                                if let Err(e) = wire::check_client_hello(&h) {
                                    self.err(e);
                                }
                                self.client_random = Some(h.random.clone());
                                self.hello = Some(h);
                            }
                            Err(e) => {
                                // (tampered with:) go on as well as possible
                                self.err(format!("ClientHello: {}", e));
                                if body.len() >= 34 {
                                    self.client_random = Some(body[2..34].to_vec());
                                    self.hello = Some(wire::ClientHello::default());
                                }
                            }
                        }
                    }
                    self.transcript.extend_from_slice(&m);
                }
                16 => {
                    if self.client_pub.is_some() || protected || self.hello.is_none() {
                        self.err("unexpected ClientKeyExchange");
                    } else if body.len() != 66 || body[0] != 65 {
                        self.err(format!("ClientKeyExchange of {} bytes", body.len()));
                    } else {
                        match rp::decode(&body[1..]) {
                            None => self.err("the client's key share is not a point of the curve"),
                            Some((x, y)) => {
                                let one = self.k == BigUint::from(1u32);
                                let s = if one { Some((x.clone(), y.clone())) } else { rp::mul(&self.k, &Some((x.clone(), y.clone()))) };
                                self.client_pub = Some((x, y));
                                match s.map(|p| p.0) {
                                    Some(x) => {
                                        let pms = rp::be32(&x).to_vec();
                                        let keys = Keys::derive(
                                            &pms,
                                            self.client_random.as_ref().unwrap(),
                                            &self.server_random,
                                        );
                                        self.pms = Some(pms);
                                        self.keys = Some(keys);
                                    }
                                    None => self.err("shared secret is the point at infinity"),
                                }
                            }
                        }
                    }
                    self.transcript.extend_from_slice(&m);
                }
                20 => {
                    let ok = match &self.keys {
                        Some(k) if protected && self.log.finished_ok.is_none() => {
                            let want = refc::prf(&k.master, "client finished", &refc::sha256(&self.transcript), 12);
                            body == &want[..]
                        }
                        _ => {
                            self.err("unexpected Finished");
                            false
                        }
                    };
                    if !ok {
                        self.err("the client's Finished is wrong");
                    }
                    if self.log.finished_ok.is_none() {
                        self.log.finished_ok = Some(ok);
                    }
                    self.transcript.extend_from_slice(&m);
                }
                t => self.err(format!("client handshake message of type {}", t)),
            }
            self.log.hs.push((protected, ty, body.to_vec()));
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Read,
    Write,
    Flush,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// the call fails with this kind
    Err(io::ErrorKind),
    /// a write accepts this many bytes, the next call fails
    Partial(usize, io::ErrorKind),
    /// reads: end of stream; writes: Ok(0)
    Zero,
}

pub struct Sim {
    pub srv: Srv,
    pub rd_chunk: Chunk,
    pub wr_chunk: Chunk,
    /// out of 256: how often a call is interrupted first
    pub intr_rd: u32,
    pub intr_wr: u32,
    pub rng: Rng,
    /// bytes stay in the writer until it is flushed
    pub buffered: bool,
    unflushed: Vec<u8>,
    pub ops: Vec<Op>,
    /// fail the operation with this number
    pub fault: Option<(usize, Fault)>,
    /// and others once
    pub more_faults: Vec<(usize, Fault)>,
    /// keep failing from there
    pub fault_sticky: bool,
    /// otherwise: fail this many operations in a row
    pub fault_times: usize,
    /// sticky faults hit only operations of the kind of the first
    pub fault_same: bool,
    fault_op: Option<Op>,
    /// bytes read when the fault hit
    pub fault_rd_pos: usize,
    pub fault_hit: bool,
    pub faults: u64,
    partial_pending: Option<io::ErrorKind>,
    /// the stream ends after this many bytes
    pub eof_at: Option<usize>,
    pub rd_pos: usize,
    pub wr_pos: usize,
    pub eof_reads: usize,
    pub interrupted: u64,
    pub read_calls: u64,
    pub write_calls: u64,
    pub flush_calls: u64,
    rd_i: usize,
    last_intr: bool,
}

pub type SimRef = Rc<RefCell<Sim>>;

impl Sim {
    pub fn new(srv: Srv) -> Sim {
        Sim {
            srv,
            rd_chunk: Chunk::All,
            wr_chunk: Chunk::All,
            intr_rd: 0,
            intr_wr: 0,
            rng: Rng::new(7),
            buffered: false,
            unflushed: vec![],
            ops: vec![],
            fault: None,
            more_faults: vec![],
            fault_sticky: true,
            fault_times: 1,
            fault_same: false,
            fault_op: None,
            fault_rd_pos: 0,
            fault_hit: false,
            faults: 0,
            partial_pending: None,
            eof_at: None,
            rd_pos: 0,
            wr_pos: 0,
            eof_reads: 0,
            interrupted: 0,
            read_calls: 0,
            write_calls: 0,
            flush_calls: 0,
            rd_i: 0,
            last_intr: false,
        }
    }
    pub fn share(self) -> SimRef {
        Rc::new(RefCell::new(self))
    }

    fn limit(c: &mut Chunk, pos: usize, avail: usize) -> usize {
        match c {
            Chunk::All => avail,
            Chunk::Fixed(n) => (*n).max(1).min(avail),
            Chunk::Random(r, m) => r.range(1, (*m).max(1)).min(avail),
            Chunk::Split(at) => {
                let next = at.iter().copied().filter(|&a| a > pos).min().unwrap_or(usize::MAX);
                (next - pos).min(avail)
            }
        }
    }

    fn faulted(&mut self, op: Op) -> Option<Fault> {
        let i = self.ops.len();
        self.ops.push(op);
        if self.fault_hit {
            self.faults += 1;
            if self.faults > 20_000 {
                panic!("MONITOR: the client keeps trying a transport that has failed");
            }
        }
        if self.partial_pending.is_some() && self.fault_same && op != Op::Write {
            return None;
        }
        if let Some(k) = self.partial_pending {
            self.fault_hit = true;
            if !self.fault_sticky {
                self.partial_pending = None;
            }
            return Some(Fault::Err(k));
        }
        if let Some(&(_, f)) = self.more_faults.iter().find(|x| x.0 == i) {
            let intr = f == Fault::Err(io::ErrorKind::Interrupted);
            if !((f == Fault::Zero || intr) && op == Op::Flush) {
                // an interruption is not a failure
                self.fault_hit |= !intr;
                return Some(f);
            }
        }
        match self.fault {
            // a flush has no way to do nothing
            Some((_, Fault::Zero)) if op == Op::Flush => None,
            Some((at, f)) if i >= at && (self.fault_sticky || i - at < self.fault_times) => {
                let first = *self.fault_op.get_or_insert(op);
                if self.fault_same && first != op {
                    return None;
                }
                if !self.fault_hit {
                    self.fault_rd_pos = self.rd_pos;
                }
                self.fault_hit = true;
                if i > at {
                    if let Fault::Partial(_, k) = f {
                        return Some(Fault::Err(k));
                    }
                }
                Some(f)
            }
            _ => None,
        }
    }

    pub fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.read_calls += 1;
        match self.faulted(Op::Read) {
            Some(Fault::Err(k)) | Some(Fault::Partial(_, k)) => return Err(io::Error::new(k, "injected")),
            Some(Fault::Zero) => return Ok(0),
            None => {}
        }
        if self.intr_rd > 0 && !self.last_intr && self.rng.below(256) < self.intr_rd as usize {
            self.interrupted += 1;
            self.last_intr = true;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "signal"));
        }
        self.last_intr = false;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.rd_pos >= self.srv.out.len() {
            self.srv.pump();
        }
        let mut end = self.srv.out.len();
        if let Some(e) = self.eof_at {
            end = end.min(e);
        }
        if self.rd_pos >= end {
            self.eof_reads += 1;
            if self.eof_reads > 10_000 {
                panic!("MONITOR: the client keeps reading a stream that has ended");
            }
            return Ok(0);
        }
        self.rd_i += 1;
        let n = Self::limit(&mut self.rd_chunk, self.rd_pos, end - self.rd_pos).min(buf.len());
        buf[..n].copy_from_slice(&self.srv.out[self.rd_pos..self.rd_pos + n]);
        self.rd_pos += n;
        Ok(n)
    }

    pub fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.write_calls += 1;
        let mut part = None;
        match self.faulted(Op::Write) {
            Some(Fault::Err(k)) => return Err(io::Error::new(k, "injected")),
            Some(Fault::Zero) => return Ok(0),
            Some(Fault::Partial(n, k)) => {
                self.partial_pending = Some(k);
                part = Some(n);
            }
            None => {}
        }
        if self.intr_wr > 0 && !self.last_intr && self.rng.below(256) < self.intr_wr as usize {
            self.interrupted += 1;
            self.last_intr = true;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "signal"));
        }
        self.last_intr = false;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = Self::limit(&mut self.wr_chunk, self.wr_pos, buf.len());
        if let Some(p) = part {
            n = n.min(p.max(1));
            if n == buf.len() {
                // nothing is missing yet: the failure is the next write's
                self.fault_hit = false;
            }
        }
        self.wr_pos += n;
        if self.buffered {
            self.unflushed.extend_from_slice(&buf[..n]);
        } else {
            self.srv.feed(&buf[..n]);
        }
        Ok(n)
    }

    pub fn flush(&mut self) -> io::Result<()> {
        self.flush_calls += 1;
        match self.faulted(Op::Flush) {
            Some(Fault::Err(k)) | Some(Fault::Partial(_, k)) => return Err(io::Error::new(k, "injected")),
            _ => {}
        }
        let u = std::mem::take(&mut self.unflushed);
        self.srv.feed(&u);
        Ok(())
    }

    pub fn unflushed(&self) -> usize {
        self.unflushed.len()
    }
}

pub struct ClientR(pub SimRef);
pub struct ClientW(pub SimRef);

/// A transport may look at the buffer it is given to fill (`Read` is a safe trait), so the buffer must be initialised:
/// under MemorySanitizer and Miri this branch is a report if it is not.
pub fn look(b: &[u8]) {
    if b.iter().fold(0u8, |a, x| a ^ x.rotate_left(3)) == 0x5a {
        std::hint::black_box(b.len());
    }
}

impl io::Read for ClientR {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if cfg!(any(miri, husk_msan)) {
            look(b);
        }
        crate::alloc::pause(|| mon::outside(|| self.0.borrow_mut().read(b)))
    }
}
impl io::Write for ClientW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        crate::alloc::pause(|| mon::outside(|| self.0.borrow_mut().write(b)))
    }
    fn flush(&mut self) -> io::Result<()> {
        crate::alloc::pause(|| mon::outside(|| self.0.borrow_mut().flush()))
    }
}

pub type Client = TlsClient<ClientR, ClientW>;

/// the client's handshake over the simulated transport
pub fn connect(s: &SimRef) -> TlsResult<Client> {
    let (r, w) = (ClientR(s.clone()), ClientW(s.clone()));
    let res = mon::husk(|| TlsClient::new(r, w, rand::rngs::OsRng));
    pump(s);
    res
}

pub fn pump(s: &SimRef) {
    s.borrow_mut().srv.pump();
}

/// A server's fixed choices in an honest handshake.
#[derive(Clone, Debug)]
pub struct Setup {
    pub k: BigUint,
    pub point: Vec<u8>,
    pub sh: wire::ServerHello,
    pub certs: Vec<Vec<u8>>,
    pub ske: wire::Ske,
}

impl Setup {
    /// with the private key `k`
    pub fn with_key(k: BigUint, rng: &mut Rng) -> Setup {
        let point = rp::encode(&rp::mul(&k, &rp::g()));
        let sh = wire::ServerHello::new(rng.arr::<32>());
        let n = rng.range(1, 900);
        let certs = vec![rng.bytes(n)];
        let ske = wire::Ske::new(point.clone());
        Setup { k, point, sh, certs, ske }
    }
    /// cheap: the private key is 1, so the client's point is the shared secret
    pub fn cheap(rng: &mut Rng) -> Setup {
        Setup::with_key(BigUint::from(1u32), rng)
    }
    /// small keys
    pub fn small(rng: &mut Rng) -> Setup {
        let k = rng.range(1, 9) as u32;
        Setup::with_key(BigUint::from(k), rng)
    }
    pub fn random(rng: &mut Rng) -> Setup {
        loop {
            let k = rp::from_be(&rng.bytes(32)) % &rp::curve().n;
            if k != BigUint::from(0u32) {
                return Setup::with_key(k, rng);
            }
        }
    }
    pub fn srv(&self) -> Srv {
        Srv::new(self.k.clone(), self.sh.random)
    }
    pub fn script(&self) -> Vec<Item> {
        vec![
            Item::AwaitHello,
            Item::Hs(2, self.sh.body()),
            Item::Hs(11, wire::certificate(&self.certs)),
            Item::Hs(12, self.ske.body()),
            Item::Hs(14, vec![]),
            Item::AwaitFlight,
            Item::Ccs,
            Item::Finished([0; 12]),
        ]
    }
    pub fn sim(&self, extra: Vec<Item>) -> Sim {
        let mut s = self.srv();
        s.script = self.script().into();
        s.script.extend(extra);
        Sim::new(s)
    }
}

/// connect to an honest server that does `extra` after the handshake; the handshake has to succeed
pub fn established(setup: &Setup, extra: Vec<Item>) -> Result<(Client, SimRef), String> {
    let s = setup.sim(extra).share();
    match connect(&s) {
        Ok(c) => Ok((c, s)),
        Err(e) => Err(format!("handshake with an honest server failed: {:?}", e)),
    }
}

pub fn kind_name(e: &TlsError) -> &'static str {
    match e.kind {
        TlsErrorKind::UnexpectedMessage => "UnexpectedMessage",
        TlsErrorKind::BadRecordMac => "BadRecordMac",
        TlsErrorKind::RecordOverflow => "RecordOverflow",
        TlsErrorKind::IllegalParameter => "IllegalParameter",
        TlsErrorKind::DecodeError => "DecodeError",
        TlsErrorKind::DecryptError => "DecryptError",
        TlsErrorKind::InternalError => "InternalError",
        TlsErrorKind::IoFailure => "IoFailure",
        TlsErrorKind::AlertReceived => "AlertReceived",
    }
}

/// the alert description each kind of failure is reported with (RFC 5246, 7.2.2)
pub fn alert_for(k: TlsErrorKind) -> Option<u8> {
    Some(match k {
        TlsErrorKind::UnexpectedMessage => 10,
        TlsErrorKind::BadRecordMac => 20,
        TlsErrorKind::RecordOverflow => 22,
        TlsErrorKind::IllegalParameter => 47,
        TlsErrorKind::DecodeError => 50,
        TlsErrorKind::DecryptError => 51,
        TlsErrorKind::InternalError => 80,
        TlsErrorKind::IoFailure => return None,
        TlsErrorKind::AlertReceived => 0,
    })
}

/// nothing a strict server objects to so far
pub fn clean(s: &SimRef) -> Result<(), String> {
    let b = s.borrow();
    if !b.srv.log.errors.is_empty() {
        return Err(format!("a strict server objects: {}", b.srv.log.errors.join("; ")));
    }
    Ok(())
}

/// after a successful handshake: both sides agree, nothing is left over
pub fn agreed(s: &SimRef) -> Result<(), String> {
    clean(s)?;
    let b = s.borrow();
    let l = &b.srv.log;
    if l.finished_ok != Some(true) {
        return Err(format!("the client returned success, but its Finished: {:?}", l.finished_ok));
    }
    if !l.alerts.is_empty() {
        return Err(format!("alerts in a successful handshake: {:?}", l.alerts));
    }
    let tys: Vec<u8> = l.hs.iter().map(|h| h.1).collect();
    if tys != [1, 16, 20] || l.ccs != 1 {
        return Err(format!("client messages {:?}, {} ChangeCipherSpec", tys, l.ccs));
    }
    Ok(())
}

/// run client calls as the system under test
pub fn write_all(c: &mut Client, d: &[u8]) -> io::Result<()> {
    use std::io::Write;
    mon::husk(|| c.write_all(d))
}
pub fn flush(c: &mut Client) -> io::Result<()> {
    use std::io::Write;
    mon::husk(|| c.flush())
}
pub fn read(c: &mut Client, b: &mut [u8]) -> io::Result<usize> {
    use std::io::Read;
    mon::husk(|| c.read(b))
}

/// application data both ways over an established connection
pub fn exchange(c: &mut Client, s: &SimRef, up: &[u8], down: &[u8]) -> Result<(), String> {
    let before = s.borrow().srv.log.app.len();
    write_all(c, up).map_err(|e| format!("write failed: {:?}", e))?;
    flush(c).map_err(|e| format!("flush failed: {:?}", e))?;
    pump(s);
    clean(s)?;
    if &s.borrow().srv.log.app[before..] != up {
        return Err(format!("the server received {} bytes that are not what was written", s.borrow().srv.log.app.len() - before));
    }
    s.borrow_mut().srv.app(down);
    let mut buf = vec![0x5a; down.len()];
    let n = read(c, &mut buf).map_err(|e| format!("read failed: {:?}", e))?;
    if n != down.len() || buf != down {
        return Err(format!("read {} of {} bytes, equal: {}", n, down.len(), buf[..n] == down[..n]));
    }
    clean(s)
}

/// what a connection has behind it when the case begins: in one of ten cases a few hundred records and more
pub fn any_age(r: &mut Rng) -> usize {
    if r.chance(1, 10) {
        match r.number(1500) {
            Some(n) if r.chance(1, 3) => n,
            _ => *r.pick(&[30, 70, 130, 260, 300, 600, 1030, 1100]),
        }
    } else {
        0
    }
}

/// let `n` records pass in each direction, all of them checked
pub fn history(cl: &mut Client, s: &SimRef, r: &mut Rng, n: usize) -> Result<(), String> {
    let from = s.borrow().srv.log.app.len();
    let mut up = vec![];
    let mut left = n;
    while left > 0 {
        let k = left.min(100);
        left -= k;
        let mut down = vec![];
        for _ in 0..k {
            let l = if r.chance(1, 400) { r.range(1, MAX) } else { r.range(1, 24) };
            let d = r.bytes(l);
            write_all(cl, &d).map_err(|e| format!("write {} of {}: {:?}", n - left, n, e))?;
            up.extend_from_slice(&d);
            let l = if r.chance(1, 400) { r.range(0, MAX) } else { r.range(0, 24) };
            let d = r.bytes(l);
            s.borrow_mut().srv.record(APP, (3, 3), &d);
            down.extend(d);
        }
        flush(cl).map_err(|e| format!("flush: {:?}", e))?;
        pump(s);
        let mut b = vec![0; down.len()];
        let k = read(cl, &mut b).map_err(|e| format!("read: {:?}", e))?;
        if k != down.len() || b != down {
            return Err(format!("before the case proper: {} of {} bytes read, {} of {} records to come", k, down.len(), left, n));
        }
    }
    clean(s)?;
    if s.borrow().srv.log.app[from..] != up[..] {
        return Err(format!("before the case proper: the server received {} of {} bytes", s.borrow().srv.log.app.len() - from, up.len()));
    }
    Ok(())
}

// ---- drawn transports

pub fn any_frag(r: &mut Rng) -> Frag {
    match r.below(5) {
        0 => Frag::PerMessage,
        1 => Frag::Coalesce,
        2 => Frag::Sizes(vec![r.range(1, 5), r.range(1, 300)]),
        3 => Frag::Sizes(vec![r.range(1, 40)]),
        _ => {
            let m = *r.pick(&[3usize, 17, 100, 5000, MAX]);
            Frag::Random(r.clone(), m)
        }
    }
}

pub fn any_chunk(r: &mut Rng) -> Chunk {
    match r.below(4) {
        0 => Chunk::All,
        1 => Chunk::Fixed(r.range(1, 7)),
        _ => {
            let m = *r.pick(&[2usize, 10, 600, 20000]);
            Chunk::Random(r.clone(), m)
        }
    }
}

/// transport behaviour drawn from `r`
pub fn any_transport(r: &mut Rng, s: &mut Sim) {
    s.srv.frag = any_frag(r);
    s.rd_chunk = any_chunk(r);
    s.wr_chunk = any_chunk(r);
    s.buffered = r.chance(1, 3);
    if r.chance(1, 3) {
        s.intr_rd = 60;
        s.intr_wr = 60;
    }
    s.rng = Rng::new(r.u64());
}

/// a setup whose messages are small, for cases that are not about the handshake
pub fn small_setup(r: &mut Rng) -> Setup {
    let mut su = Setup::cheap(r);
    su.certs = vec![r.bytes(20)];
    su.ske.signature = r.bytes(16);
    su
}
