//! Pieces of workload that only drive husk and need no reference: for the sanitizers and the interpreter,
//! which are the oracle. Each returns a digest of what came out, so that runs can be compared.
use huskmon::mon::husk;
use huskmon::prng::{hash64, mix, Rng};
use huskmon::sim::{look, APP, HS};
use huskmon::wire;
use husk::alert::Alert;
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::ecdhe::EllipticDiffieHellman;
use husk::cipher::prf::{hmac_sha256, Prf};
use husk::cipher::{Aead, KeyExchange};
use husk::crypto::chacha20::ChaCha20;
use husk::crypto::p256::int256::Int256;
use husk::crypto::p256::NPoint256;
use husk::crypto::poly1305;
use husk::crypto::sha2::sha256;
use husk::handshake::{self as h, Handshake, HandshakeBuffer};
use husk::tls::{ContentType, Message, Record, TlsReader, TlsWriter};
use husk::tls_item::{ObscureData, TlsItem};
use husk::util::{self, ReadExt, WriteExt};
use husk::TlsClient;
use std::io::{self, Read, Write};

pub const KINDS: usize = 14;
pub const NAMES: [&str; KINDS] = [
    "hashes", "cipher", "mac", "aead", "codec", "messages", "record reader", "protected reader", "writer", "field", "points",
    "refused handshake", "small items", "primitives",
];

struct D(u64);
impl D {
    fn b(&mut self, b: &[u8]) {
        self.0 = mix(self.0 ^ hash64(b) ^ b.len() as u64);
    }
    fn n(&mut self, n: u64) {
        self.0 = mix(self.0 ^ n);
    }
}

/// bytes in pieces of any size, with an interruption now and then, and an end or a failure
pub struct Drip<'a> {
    pub b: &'a [u8],
    pub r: Rng,
    pub max: usize,
    pub fail: bool,
}
impl Read for Drip<'_> {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        look(o);
        if self.max > 0 && self.r.chance(1, 16) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.b.is_empty() && self.fail {
            return Err(io::ErrorKind::ConnectionReset.into());
        }
        let n = o.len().min(self.b.len());
        let n = if self.max > 0 && n > 0 { n.min(self.r.range(1, self.max)) } else { n };
        o[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}
fn drip<'a>(r: &mut Rng, b: &'a [u8]) -> Drip<'a> {
    let max = *r.pick(&[0usize, 0, 1, 7, 100]);
    Drip { b, r: r.clone(), max, fail: r.chance(1, 4) }
}

/// a writer that takes little at a time and may fail
pub struct Sip {
    pub out: Vec<u8>,
    pub r: Rng,
    pub room: usize,
}
impl Write for Sip {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.out.len() >= self.room {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        if self.r.chance(1, 20) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = if b.is_empty() { 0 } else { self.r.range(1, b.len()) };
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn client_msgs(r: &mut Rng, point: Vec<u8>) -> Vec<(u8, Vec<u8>)> {
    let mut sh = wire::ServerHello::new(r.arr());
    if r.chance(1, 2) {
        sh.exts = Some(vec![(11, vec![1, 0]), (0xff01, vec![0]), (10, vec![0, 2, 0, 23]), (13, vec![0, 2, 4, 1]), (77, vec![1; 9])]);
    }
    let certs: Vec<Vec<u8>> = (0..r.range(1, 3)).map(|_| { let n = r.range(1, 60); r.bytes(n) }).collect();
    let mut ske = wire::Ske::new(point);
    let n = r.below(80);
    ske.signature = r.bytes(n);
    vec![(2, sh.body()), (11, wire::certificate(&certs)), (12, ske.body()), (14, vec![]), (20, r.bytes(12)), (0, vec![]), (16, r.bytes(66)),
        (13, { let mut v = vec![2, 1, 64, 0, 2, 4, 1, 0, 5, 0, 3]; v.extend(r.bytes(3)); v })]
}

/// the generator of P-256
pub const GENERATOR: [u8; 65] = *b"\x04\x6b\x17\xd1\xf2\xe1\x2c\x42\x47\xf8\xbc\xe6\xe5\x63\xa4\x40\xf2\x77\x03\x7d\x81\x2d\xeb\x33\xa0\xf4\xa1\x39\x45\xd8\x98\xc2\x96\
\x4f\xe3\x42\xe2\xfe\x1a\x7f\x9b\x8e\xe7\xeb\x4a\x7c\x0f\x9e\x16\x2b\xce\x33\x57\x6b\x31\x5e\xce\xcb\xb6\x40\x68\x37\xbf\x51\xf5";

fn hostile_point(r: &mut Rng) -> Vec<u8> {
    let mut v = GENERATOR.to_vec();
    match r.below(6) {
        0 => {}
        1 => v[64] ^= 1,
        2 => {
            let n = r.below(70);
            v.truncate(n)
        }
        3 => v = r.bytes(65),
        4 => {
            let n = r.below(120);
            v = r.bytes(n);
        }
        _ => v.push(0),
    }
    v
}

/// alter some bytes, or the length
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.below(3) {
        huskmon::mutate::bytes(r, b);
    }
}

fn decode(d: &mut D, r: &mut Rng, b: &[u8]) {
    macro_rules! t {
        ($t:ty) => {{
            let mut rd = drip(r, b);
            match husk(|| <$t>::tls_read(&mut rd)) {
                Ok(x) => {
                    let mut o = vec![];
                    d.n(husk(|| x.tls_size()));
                    d.n(husk(|| x.tls_write(&mut o)).is_ok() as u64);
                    d.b(&o);
                }
                Err(e) => d.n(e.kind as u64 + 100),
            }
        }};
    }
    match r.below(12) {
        0 => t!(h::ServerHello),
        1 => t!(h::ClientHello),
        2 => t!(h::CertificateList),
        3 => t!(h::Extension),
        4 => t!(h::EllipticCurveList),
        5 => t!(h::SignatureAndHashAlgorithmVec),
        6 => t!(h::CertificateRequest),
        7 => t!(ObscureData),
        8 => t!(Alert),
        9 => t!(h::CipherSuiteVec),
        10 => t!(h::SessionId),
        _ => t!(Handshake),
    }
}

fn drain(d: &mut D, rd: &mut TlsReader<Drip>) {
    for _ in 0..60 {
        match husk(|| rd.read_message()) {
            Ok(Message::HandshakeMessage(m)) => {
                let mut o = vec![];
                let _ = husk(|| m.tls_write(&mut o));
                d.b(&o);
            }
            Ok(Message::ChangeCipherSpecMessage) => d.n(1),
            Ok(Message::AlertMessage(a)) => d.n(a.description as u64 + 300),
            Ok(Message::ApplicationDataMessage(v)) => d.b(&v),
            Err(e) => {
                d.n(e.kind as u64 + 100);
                d.b(format!("{:?} {}", e, e).as_bytes());
                let a = husk(|| Alert::from_tls_err(&e));
                d.n(a.description as u64);
                break;
            }
        }
    }
}

fn keys(r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    (r.bytes(32), r.bytes(12))
}

/// one case; `big` allows sizes that an interpreter should not see
pub fn piece(kind: usize, r: &mut Rng, big: bool) -> u64 {
    let mut d = D(kind as u64);
    let max = if big { 40_000 } else { 150 };
    match kind {
        0 => {
            let n = r.size(max);
            let m = r.bytes(n);
            d.b(&husk(|| sha256(&m)));
            let k = r.size(200.min(max));
            let key = r.bytes(k);
            d.b(&husk(|| hmac_sha256(&key, &m)));
            if r.chance(1, 3) {
                let mut p = husk(|| Prf::new(key, m));
                for _ in 0..r.range(1, 3) {
                    let n = r.below(70);
                    d.b(&husk(|| p.get_bytes(n)));
                }
            }
        }
        1 => {
            let (k, n) = keys(r);
            let mut c = husk(|| ChaCha20::new(&k, &n));
            for _ in 0..r.range(1, 3) {
                let l = r.size(max);
                let m = r.bytes(l);
                d.b(&husk(|| c.encrypt(&m)));
                if r.chance(1, 3) {
                    d.b(&husk(|| c.next()));
                }
            }
        }
        2 => {
            let l = r.size(max);
            let m = r.bytes(l);
            let (a, b) = (r.arr::<16>(), r.arr::<16>());
            d.b(&husk(|| poly1305::authenticate(&m, &a, &b)));
        }
        3 => {
            let (k, n) = keys(r);
            let l = r.size(max.min(16_384));
            let m = r.bytes(l);
            let al = r.below(20);
            let ad = r.bytes(al);
            let a = ChaCha20Poly1305;
            d.n((a.key_size() + a.mac_len()) as u64);
            let mut e = husk(|| a.new_encryptor(k.clone()));
            let mut ct = husk(|| e.encrypt(&n, &m, &ad));
            d.b(&ct);
            let mut o = husk(|| a.new_decryptor(k));
            for i in 0..2 {
                match husk(|| o.decrypt(&n, &ct, &ad)) {
                    Ok(p) => d.b(&p),
                    Err(e) => d.n(e.kind as u64),
                }
                if i == 0 {
                    mutate(r, &mut ct);
                }
            }
        }
        4 => {
            let n = r.size(if big { 2000 } else { 60 });
            let mut b = if r.chance(1, 2) { r.bytes(n) } else { (0..n).map(|_| *r.pick(&[0u8, 0, 1, 2, 3, 255])).collect() };
            if r.chance(1, 2) {
                let p = hostile_point(r);
                b = r.pick(&client_msgs(&mut r.clone(), p)).1.clone();
                mutate(r, &mut b);
            }
            decode(&mut d, r, &b);
        }
        5 => {
            let p = hostile_point(r);
            let ms = client_msgs(r, p);
            let mut hb = HandshakeBuffer::new();
            let mut all = vec![];
            for _ in 0..r.range(1, 3) {
                let (t, b) = r.pick(&ms);
                let mut m = wire::hs(*t, b);
                mutate(r, &mut m);
                all.extend(m);
            }
            let mut at = 0;
            while at < all.len() {
                let n = r.range(1, 300).min(all.len() - at);
                husk(|| hb.add_record(&all[at..at + n]));
                at += n;
                for _ in 0..8 {
                    match husk(|| hb.get_message()) {
                        Ok(Some(m)) => {
                            d.n(husk(|| m.tls_size()));
                            let mut o = vec![];
                            let _ = husk(|| m.tls_write(&mut o));
                            d.b(&o);
                        }
                        Ok(None) => break,
                        Err(e) => d.n(e.kind as u64),
                    }
                }
            }
        }
        6 | 7 => {
            // records in the clear, or protected
            let (k, iv) = keys(r);
            let mut w = TlsWriter::new(vec![]);
            if kind == 7 {
                w.set_iv(iv.clone());
                w.set_encryptor(ChaCha20Poly1305.new_encryptor(k.clone()));
            }
            for _ in 0..r.range(1, 4) {
                let n = r.size(if big { 40_000 } else { 90 }).max(1);
                let mut b = r.bytes(n);
                let ty = *r.pick(&[ContentType::HandshakeTy, ContentType::AlertTy, ContentType::ChangeCipherSpecTy, ContentType::ApplicationDataTy]);
                match ty {
                    ContentType::HandshakeTy if r.chance(2, 3) => {
                        let p = hostile_point(r);
                        let ms = client_msgs(r, p);
                        let (t, m) = r.pick(&ms);
                        b = wire::hs(*t, m);
                    }
                    ContentType::AlertTy => b = vec![r.range(0, 3) as u8, r.u8()],
                    ContentType::ChangeCipherSpecTy => b = vec![1],
                    _ => {}
                }
                let _ = husk(|| w.write_data(ty, &b));
            }
            let mut raw = husk(|| w.get_mut().clone());
            if r.chance(2, 3) {
                mutate(r, &mut raw);
            }
            if r.chance(1, 6) {
                let n = r.below(30);
                let junk = r.bytes(n);
                let at = r.below(raw.len() + 1);
                raw.splice(at..at, junk);
            }
            let mut rd = TlsReader::new(drip(r, &raw));
            if kind == 7 {
                rd.set_iv(iv);
                rd.set_decryptor(ChaCha20Poly1305.new_decryptor(k));
                if r.chance(1, 2) {
                    for _ in 0..20 {
                        match husk(|| rd.read_application_data()) {
                            Ok(v) => d.b(&v),
                            Err(e) => {
                                d.n(e.kind as u64);
                                break;
                            }
                        }
                    }
                }
            }
            drain(&mut d, &mut rd);
        }
        8 => {
            let room = if r.chance(1, 2) { usize::MAX } else { r.below(300) };
            let mut w = TlsWriter::new(Sip { out: vec![], r: r.clone(), room });
            let (k, iv) = keys(r);
            for i in 0..4 {
                if i == 2 {
                    w.set_iv(iv.clone());
                    w.set_encryptor(ChaCha20Poly1305.new_encryptor(k.clone()));
                }
                let n = r.size(if big { 40_000 } else { 120 });
                let b = r.bytes(n);
                let ok = match r.below(5) {
                    0 if i >= 2 => husk(|| w.write_application_data(&b)).is_ok(),
                    1 => husk(|| w.write_change_cipher_spec()).is_ok(),
                    2 => match Handshake::new_client_key_exchange(b.clone()) {
                        Ok(m) => husk(|| w.write_handshake(&m)).is_ok(),
                        Err(_) => false,
                    },
                    3 => husk(|| w.write_record(Record::new(ContentType::HandshakeTy, 3, 3, b[..n.min(16_384)].to_vec()))).is_ok(),
                    _ => husk(|| w.write_data(ContentType::HandshakeTy, &b)).is_ok(),
                };
                d.n(ok as u64);
            }
            d.b(&husk(|| w.get_mut()).out);
        }
        9 => {
            let mut fe = |r: &mut Rng| loop {
                let mut b = match r.below(4) {
                    0 => vec![0; 32],
                    1 => vec![0xff; 32],
                    _ => r.bytes(32),
                };
                if r.chance(1, 3) {
                    b[0] = 0;
                }
                if let Some(x) = husk(|| Int256::from_bytes(&b)) {
                    return x;
                }
            };
            let (a, b) = (fe(r), fe(r));
            let (a, b) = (husk(|| a.reduce_once_zero()), husk(|| b.reduce_once_zero()));
            for x in [husk(|| a.add(&b)), husk(|| a.sub(&b)), husk(|| a.mult(&b)), husk(|| a.square()), husk(|| a.double()), husk(|| a.divide_by_2())] {
                d.b(&husk(|| x.to_bytes()));
            }
            d.n(husk(|| a.compare(&b)).0 as u64);
            if big {
                let x = husk(|| a.inverse());
                d.b(&husk(|| x.to_bytes()));
            }
        }
        10 => {
            let v = hostile_point(r);
            match husk(|| NPoint256::from_uncompressed_bytes(&v)) {
                None => d.n(0),
                Some(p) => {
                    d.b(&husk(|| p.to_uncompressed_bytes()));
                    if big {
                        let k = r.bytes(32);
                        if let Some(k) = Int256::from_bytes(&k) {
                            let q = husk(|| p.to_point().mult_scalar(&k).normalize());
                            d.b(&husk(|| q.to_uncompressed_bytes()));
                        }
                    }
                }
            }
            // the whole server key exchange, when it is to be refused
            let mut b = r.bytes(40);
            b.splice(0..0, [3, 0, 23, 65, 4]);
            if r.chance(1, 2) {
                let n = r.below(44);
                b.truncate(n);
            }
            if b.len() > 3 && r.chance(1, 2) {
                b[3] = r.u8();
            }
            let ob = ObscureData::new(b);
            match husk(|| EllipticDiffieHellman.compute_keys(&ob, &mut rand::rngs::OsRng)) {
                Ok((a, _)) => d.n(a.len() as u64),
                Err(e) => d.n(e.kind as u64),
            }
        }
        11 => {
            // a handshake that is refused before the key exchange
            let mut v = hostile_point(r);
            v.truncate(64);
            let mut raw = vec![];
            for (t, mut b) in client_msgs(r, v).into_iter().take(r.range(0, 4)) {
                if r.chance(1, 4) {
                    mutate(r, &mut b);
                }
                let m = wire::hs(t, &b);
                let n = r.range(1, 400);
                for p in m.chunks(n) {
                    raw.extend(wire::rec(HS, (3, 3), p));
                }
                if r.chance(1, 10) {
                    raw.extend(wire::rec(*r.pick(&[20u8, 21, APP]), (3, 3), &[2, 40]));
                }
            }
            if r.chance(1, 3) {
                mutate(r, &mut raw);
            }
            let mut out = Sip { out: vec![], r: r.clone(), room: if r.chance(1, 4) { r.below(200) } else { usize::MAX } };
            let res = husk(|| TlsClient::new(drip(r, &raw), ByRef(&mut out), rand::rngs::OsRng));
            match res {
                Ok(_) => d.n(1),
                Err(e) => {
                    d.n(e.kind as u64);
                    d.b(format!("{:?}", e.kind).as_bytes());
                }
            }
            d.n(out.out.len() as u64);
        }
        12 => {
            for _ in 0..6 {
                let b = [r.u8(), r.u8(), r.u8(), r.u8()];
                decode(&mut d, r, &b[..r.clone().range(0, 4)]);
                if let Ok(a) = husk(|| Alert::tls_read(&mut &b[..])) {
                    d.n(a.level as u64);
                }
            }
        }
        _ => {
            let x = r.u64();
            d.b(&husk(|| util::u64_be_array(x)));
            d.b(&husk(|| util::u64_le_array(x)));
            d.b(&husk(|| util::u32_be_array(x as u32)));
            d.b(&husk(|| util::u32_le_array(x as u32)));
            let mut o = vec![];
            let w = &mut o;
            husk(|| {
                let _ = w.write_u8(x as u8);
                let _ = w.write_be_u16(x as u16);
                let _ = w.write_le_u16(x as u16);
                let _ = w.write_be_u32(x as u32);
                let _ = w.write_le_u32(x as u32);
                let _ = w.write_be_u64(x);
                let _ = w.write_le_u64(x);
            });
            d.b(&o);
            let n = r.below(o.len() + 1);
            let cut = &o[..n];
            let mut rd = drip(r, cut);
            let rd = &mut rd;
            let mut f = |y: Result<u64, io::Error>| match y {
                Ok(y) => d.n(y),
                Err(_) => d.n(7),
            };
            f(husk(|| rd.read_u8()).map(|x| x as u64));
            f(husk(|| rd.read_be_u16()).map(|x| x as u64));
            f(husk(|| rd.read_le_u16()).map(|x| x as u64));
            f(husk(|| rd.read_be_u32()).map(|x| x as u64));
            f(husk(|| rd.read_le_u32()).map(|x| x as u64));
            f(husk(|| rd.read_be_u64()));
            f(husk(|| rd.read_le_u64()));
            let n = r.size(100);
            let a = r.bytes(n);
            let mut b = a.clone();
            mutate(r, &mut b);
            b.resize(n, 0);
            d.n(husk(|| util::crypto_compare(&a, &b)) as u64);
            let rest = match husk(|| ReadExt::read_exact(&mut &a[..], n + r.below(3))) {
                Ok(v) => v,
                Err(e) => format!("{:?} {}", e, e).into_bytes(),
            };
            d.b(&rest);
        }
    }
    d.0
}

struct ByRef<'a>(&'a mut Sip);
impl Write for ByRef<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub const SESSIONS: usize = 3;
pub const SESSION_NAMES: [&str; SESSIONS] = ["hostile session", "session that meets junk", "honest session"];

fn calls(d: &mut D, r: &mut Rng, c: &mut huskmon::sim::Client, n: usize, big: bool) {
    for _ in 0..n {
        match r.below(9) {
            0 | 1 | 2 | 3 => {
                let n = *r.pick(&[0usize, 1, 5, 100, 5000, 40_000]);
                let n = if big { n } else { n.min(100) };
                let mut b = vec![0; n];
                match husk(|| c.read(&mut b)) {
                    Ok(k) => d.b(&b[..k.min(n)]),
                    Err(_) => d.n(3),
                }
            }
            4 | 5 => {
                let n = r.size(if big { 40_000 } else { 60 });
                let b = r.bytes(n);
                d.n(husk(|| c.write(&b)).map_or(0, |n| n as u64));
            }
            6 => d.n(husk(|| c.flush()).is_ok() as u64),
            7 => {
                let mut v = vec![];
                d.n(husk(|| Read::by_ref(c).take(if big { 3000 } else { 50 }).read_to_end(&mut v)).is_ok() as u64);
                d.b(&v);
            }
            _ if r.chance(1, 3) => d.n(husk(|| c.close()).is_ok() as u64),
            _ => match husk(|| c.reader.read_message()) {
                Ok(Message::ApplicationDataMessage(v)) => d.b(&v),
                Ok(_) => d.n(5),
                Err(e) => d.n(e.kind as u64),
            },
        }
    }
}

/// a whole connection against the reference server
pub fn session(kind: usize, r: &mut Rng, big: bool) -> u64 {
    use huskmon::{mutate as mu, sim::*};
    let mut d = D(100 + kind as u64);
    let mut sim = if kind == 0 {
        let mut srv = mu::server(r);
        srv.frag = any_frag(r);
        Sim::new(srv)
    } else {
        let su = if big && kind == 2 { Setup::random(r) } else { small_setup(r) };
        let mut extra = vec![];
        for _ in 0..r.range(1, 8) {
            if kind == 1 {
                extra.push(mu::junk(r));
            }
            let n = r.size(if big { 16_384 } else { 80 });
            extra.push(Item::App(r.bytes(n)));
        }
        su.sim(extra)
    };
    any_transport(r, &mut sim);
    if let Chunk::Fixed(_) = sim.rd_chunk {
        if !r.chance(1, 8) {
            sim.rd_chunk = Chunk::All;
        }
    }
    let s = sim.share();
    match connect(&s) {
        Ok(mut c) => {
            let n = r.range(2, if big { 20 } else { 8 });
            calls(&mut d, r, &mut c, n, big);
            d.n(1);
        }
        Err(e) => {
            d.n(e.kind as u64);
            d.b(format!("{:?} {}", e, e).as_bytes());
        }
    }
    let b = s.borrow();
    d.n(b.srv.log.recs.len() as u64);
    d.0
}
