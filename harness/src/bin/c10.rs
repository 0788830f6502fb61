//! C10: nothing from the network makes the client panic, overflow or hang.
use husk::alert::Alert;
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::ecdhe::{self, EllipticDiffieHellman};
use husk::cipher::{Aead, CipherSuite, KeyExchange};
use husk::crypto::p256::NPoint256;
use husk::handshake::{self as h, HandshakeBuffer};
use husk::signature;
use husk::tls::TlsReader;
use husk::tls_item::{DummyItem, ObscureData, TlsItem};
use huskmon::mon::{self, husk, Case, Verdict};
use huskmon::prng::Rng;
use huskmon::refc;
use huskmon::sim::*;
use huskmon::{ensure, mutate, wire};
use std::io::{Read, Write};
use std::sync::atomic::Ordering::SeqCst;

/// any calls an application may make, in any order
fn abuse(c: &mut Case, cl: &mut Client, n: usize) -> Verdict {
    for _ in 0..n {
        match c.rng.below(12) {
            0 | 1 | 2 | 3 => {
                let n = *c.rng.pick(&[0usize, 1, 5, 100, 5000, 40_000]);
                let mut b = vec![0; n];
                let r = husk(|| cl.read(&mut b));
                if let Ok(k) = r {
                    ensure!(k <= n, "read into {} bytes reports {}", n, k);
                }
            }
            4 => {
                let n = c.rng.size(20_000);
                let d = c.rng.bytes(n);
                let _ = husk(|| cl.write(&d));
            }
            5 => {
                let _ = husk(|| cl.flush());
            }
            6 => {
                let _ = husk(|| cl.close());
            }
            7 => {
                let _ = husk(|| cl.reader.read_application_data());
            }
            8 => {
                let _ = husk(|| cl.reader.read_message());
            }
            9 => {
                let _ = husk(|| cl.reader.read_handshake());
            }
            10 => {
                let _ = husk(|| cl.reader.read_change_cipher_spec());
            }
            _ => {
                let mut v = vec![];
                let _ = husk(|| Read::by_ref(cl).take(3000).read_to_end(&mut v));
            }
        }
        c.count("calls on established connections", 1);
    }
    Ok(())
}

fn transport(c: &mut Case, s: &mut Sim) {
    any_transport(&mut c.rng, s);
    // the cost of one byte at a time is paid in a few cases only
    if let Chunk::Fixed(_) = s.rd_chunk {
        if !c.rng.chance(1, 8) {
            s.rd_chunk = Chunk::All;
        }
    }
}

fn session(c: &mut Case) -> Verdict {
    let mut srv = mutate::server(&mut c.rng);
    srv.frag = any_frag(&mut c.rng);
    let mut sim = Sim::new(srv);
    transport(c, &mut sim);
    let s = sim.share();
    let r = connect(&s);
    c.count("sessions", 1);
    match r {
        Ok(mut cl) => {
            c.count("sessions that were established", 1);
            let n = c.rng.range(1, 20);
            abuse(c, &mut cl, n)?;
            c.sigs("established");
        }
        Err(e) => {
            c.sigs(&e.desc);
            c.sigs(kind_name(&e));
        }
    }
    let b = s.borrow();
    for r in &b.srv.log.recs {
        c.sigs(r.ty);
    }
    c.sigs(b.srv.sent.len());
    c.sigs(b.rd_pos);
    c.count("hostile bytes read", b.rd_pos as u64);
    Ok(())
}

/// junk on an honest, established connection
fn after(c: &mut Case) -> Verdict {
    let su = small_setup(&mut c.rng);
    let mut extra = vec![];
    for _ in 0..c.rng.range(1, 8) {
        extra.push(mutate::junk(&mut c.rng));
        if c.rng.chance(1, 2) {
            let n = c.rng.size(500);
            extra.push(Item::App(c.rng.bytes(n)));
        }
    }
    let age = any_age(&mut c.rng);
    let held = if age > 0 { std::mem::take(&mut extra) } else { vec![] };
    let mut sim = su.sim(extra);
    transport(c, &mut sim);
    if age > 0 {
        sim.rd_chunk = Chunk::All;
        sim.wr_chunk = Chunk::All;
    }
    let s = sim.share();
    // the junk may be in one record with, or directly behind, the server's Finished
    let mut cl = match connect(&s) {
        Ok(x) => x,
        Err(e) => {
            c.sigs(&e.desc);
            return Ok(());
        }
    };
    if age > 0 {
        // what goes wrong in it is for other properties
        if history(&mut cl, &s, &mut c.rng, age).is_ok() {
            c.count("connections that met junk late", 1);
        }
        s.borrow_mut().srv.script.extend(held);
        pump(&s);
    }
    c.count("established connections that met junk", 1);
    let n = c.rng.range(1, 25);
    abuse(c, &mut cl, n)?;
    let b = s.borrow();
    c.sigs(format!("{} {}", b.rd_pos, b.srv.out.len()));
    Ok(())
}

fn dec<T: TlsItem>(b: &[u8]) -> Result<usize, String> {
    let mut rd = b;
    let r: Result<T, _> = husk(|| T::tls_read(&mut rd));
    match r {
        Ok(v) => {
            // what was decoded can be asked for its size and encoded
            let n = husk(|| v.tls_size());
            let mut o = vec![];
            let _ = husk(|| v.tls_write(&mut o));
            Ok(n as usize)
        }
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
            Ok(0)
        }
    }
}

const KINDS: usize = 33;
fn decode(kind: usize, b: &[u8]) -> Result<usize, String> {
    match kind {
        0 => dec::<h::Handshake>(b),
        1 => dec::<h::ClientHello>(b),
        2 => dec::<h::ServerHello>(b),
        3 => dec::<h::CertificateList>(b),
        4 => dec::<h::CertificateRequest>(b),
        5 => dec::<ecdhe::EcdheServerKeyExchange>(b),
        6 => dec::<h::Extension>(b),
        7 => dec::<h::ExtensionVec>(b),
        8 => dec::<Option<h::ExtensionVec>>(b),
        9 => dec::<Alert>(b),
        10 => dec::<h::VerifyData>(b),
        11 => dec::<h::Random>(b),
        12 => dec::<h::SessionId>(b),
        13 => dec::<h::CipherSuiteVec>(b),
        14 => dec::<h::CompressionMethodVec>(b),
        15 => dec::<h::EllipticCurveList>(b),
        16 => dec::<h::ECPointFormatList>(b),
        17 => dec::<h::SignatureAndHashAlgorithmVec>(b),
        18 => dec::<h::DistinguishedNameVec>(b),
        19 => dec::<h::CertificiateTypeVec>(b),
        20 => dec::<signature::DigitallySigned>(b),
        21 => dec::<signature::Signature>(b),
        22 => dec::<ecdhe::ServerEcdhParams>(b),
        23 => dec::<ecdhe::EcParameters>(b),
        24 => dec::<ecdhe::EcData>(b),
        25 => dec::<ObscureData>(b),
        26 => dec::<DummyItem>(b),
        27 => dec::<CipherSuite>(b),
        28 => dec::<h::Asn1Cert>(b),
        29 => dec::<u8>(b),
        30 => dec::<u16>(b),
        31 => dec::<u32>(b),
        _ => dec::<u64>(b),
    }
}

/// valid encodings to start from
fn seeds(r: &mut Rng) -> Vec<u8> {
    let su = small_setup(r);
    match r.below(9) {
        0 => su.sh.body(),
        1 => {
            let mut sh = su.sh;
            sh.exts = Some(vec![(10, vec![0, 2, 0, 23]), (11, vec![1, 0]), (13, vec![0, 2, 4, 1]), (99, vec![1, 2, 3])]);
            sh.body()
        }
        2 => wire::certificate(&[vec![1, 2, 3], vec![4; 300]]),
        3 => su.ske.body(),
        4 => {
            let mut c = wire::ClientHello {
                version: (3, 3),
                random: vec![1; 32],
                session_id: vec![3; 5],
                suites: vec![wire::SUITE, 0, 0xff],
                comps: vec![0, 1],
                exts: Some(vec![(10, vec![0, 2, 0, 23]), (0, vec![]), (13, vec![0, 2, 4, 1])]),
            };
            if r.chance(1, 3) {
                c.exts = None;
            }
            c.body()
        }
        // CertificateRequest
        5 => vec![2, 1, 20, 0, 2, 4, 1, 0, 5, 0, 3, 7, 8, 9],
        6 => vec![2, 40],
        7 => vec![9; 12],
        _ => {
            let n = r.size(100);
            r.bytes(n)
        }
    }
}

fn codec(c: &mut Case) -> Verdict {
    for _ in 0..200 {
        let mut b = seeds(&mut c.rng);
        let k = c.rng.below(KINDS);
        if c.rng.chance(1, 2) {
            b = wire::hs(*c.rng.pick(&[0, 1, 2, 11, 12, 13, 14, 16, 20, 77]), &b);
        }
        if !c.rng.chance(1, 10) {
            mutate::several(&mut c.rng, &mut b);
        }
        let n = decode(k, &b)?;
        if k == 0 || c.rng.chance(1, 3) {
            decode(0, &b)?;
        }
        // as records of the handshake stream
        let mut hb = HandshakeBuffer::new();
        let mut at = 0;
        while at < b.len() {
            let k = c.rng.range(1, 40).min(b.len() - at);
            husk(|| hb.add_record(&b[at..at + k]));
            at += k;
            for _ in 0..6 {
                match husk(|| hb.get_message()) {
                    Ok(Some(_)) => c.count("messages decoded from hostile records", 1),
                    _ => break,
                }
            }
            let _ = husk(|| hb.is_empty());
        }
        c.count("decodings attempted", 2);
        c.count("decodings accepted", (n > 0) as u64);
        c.sig(&b);
    }
    Ok(())
}

fn key_exchange(c: &mut Case) -> Verdict {
    let mut s = wire::Ske::new(mutate::point(&mut c.rng));
    let n = c.rng.size(300);
    s.signature = c.rng.bytes(n);
    let mut b = s.body();
    if c.rng.chance(1, 2) {
        mutate::several(&mut c.rng, &mut b);
    }
    let ok = husk(|| EllipticDiffieHellman.compute_keys(&b, &mut rand::rngs::OsRng)).is_ok();
    let p = mutate::point(&mut c.rng);
    if let Some(q) = husk(|| NPoint256::from_uncompressed_bytes(&p)) {
        let _ = husk(|| q.to_point().normalize().to_uncompressed_bytes());
    }
    c.count("key exchanges computed", ok as u64);
    c.count("key exchanges attempted", 1);
    c.sig(&b);
    Ok(())
}

fn decrypt(c: &mut Case) -> Verdict {
    for _ in 0..50 {
        let key = c.rng.bytes(32);
        let nonce = c.rng.bytes(12);
        let k = c.rng.size(40);
        let ad = c.rng.bytes(k);
        let n = if c.rng.chance(1, 2) { c.rng.below(40) } else { c.rng.size(20_000) };
        let d = c.rng.bytes(n);
        let mut dc = ChaCha20Poly1305.new_decryptor(key);
        let r = husk(|| dc.decrypt(&nonce, &d, &ad));
        ensure!(r.is_err(), "{} arbitrary bytes were taken as a valid record", n);
        c.count("arbitrary ciphertexts refused", 1);
        c.sigs(n);
    }
    Ok(())
}

/// the record layer on arbitrary bytes
fn reader(c: &mut Case) -> Verdict {
    let key = [3u8; 32];
    let iv = [5u8; 12];
    let enc = c.rng.chance(1, 2);
    let mut bytes = vec![];
    let mut q = 0u64;
    for _ in 0..c.rng.range(1, 10) {
        let ty = if c.rng.chance(4, 5) { *c.rng.pick(&[20u8, 21, 22, 23]) } else { c.rng.u8() };
        let ver = if c.rng.chance(4, 5) { (3, 3) } else { (c.rng.u8(), c.rng.u8()) };
        let b = match c.rng.below(6) {
            0 => vec![],
            1 => vec![1],
            2 => vec![2, 40],
            3 => {
                let b = seeds(&mut c.rng);
                wire::hs(*c.rng.pick(&[0, 2, 11, 12, 13, 14, 20]), &b)
            }
            4 => {
                let n = *c.rng.pick(&[MAX - 1, MAX, MAX + 1, MAX + 2032, MAX + 2033, MAX + 2048, MAX + 2049, 65_000]);
                vec![c.rng.u8(); n]
            }
            _ => {
                let n = c.rng.size(200);
                c.rng.bytes(n)
            }
        };
        let b = if enc { refc::seal(&key, &nonce(&iv, q), &ad(q, ty, ver, b.len()), &b) } else { b };
        q += 1;
        let mut r = wire::rec(ty, ver, &b);
        if c.rng.chance(1, 6) {
            mutate::bytes(&mut c.rng, &mut r);
        }
        bytes.extend(r);
    }
    let mut r = TlsReader::new(&bytes[..]);
    if enc {
        r.set_iv(iv.to_vec());
        r.set_decryptor(ChaCha20Poly1305.new_decryptor(key.to_vec()));
    }
    for _ in 0..20 {
        let k = c.rng.below(4);
        let ok = husk(|| match k {
            0 => r.read_message().is_ok(),
            1 => r.read_handshake().is_ok(),
            2 => r.read_change_cipher_spec().is_ok(),
            _ if enc => r.read_application_data().is_ok(),
            _ => r.read_message().is_ok(),
        });
        c.count("record layer calls", 1);
        c.count("record layer calls that returned a message", ok as u64);
    }
    c.sig(&bytes);
    Ok(())
}

/// records of one length in every form, at numbers that have as many values
fn reader_length(c: &mut Case, n: usize) -> Verdict {
    let (key, iv) = ([3u8; 32], [4u8; 12]);
    let ty = *c.rng.pick(&[CCS, ALERT, HS, HS, APP, APP]);
    for how in 0..4 {
        let mut d = if c.rng.chance(1, 2) { c.rng.bytes(n) } else { vec![c.rng.u8(); n] };
        if ty == HS && n >= 4 {
            // a message that fits the record, or leaves something
            d[0] = *c.rng.pick(&[0u8, 1, 2, 11, 12, 13, 14, 16, 20]);
            let l = wire::u24b(n - 4 - c.rng.below(2).min(n - 4));
            d[1..4].copy_from_slice(&l);
        }
        let at = if cfg!(husk_verif) { n as u64 * *c.rng.pick(&[0u64, 1, 2, 4]) } else { 0 };
        let body = match how {
            0 => d,
            1 => refc::seal(&key, &nonce(&iv, at), &ad(at, ty, (3, 3), d.len()), &d),
            2 => {
                let mut b = refc::seal(&key, &nonce(&iv, at), &ad(at, ty, (3, 3), d.len()), &d);
                let k = c.rng.below(b.len());
                b[k] ^= 1;
                b
            }
            _ => d,
        };
        let mut bytes = wire::rec(ty, (3, 3), &body);
        bytes.extend(wire::rec(APP, (3, 3), &body[..body.len().min(40)]));
        let mut r = TlsReader::new(&bytes[..]);
        if how > 0 {
            r.set_iv(iv.to_vec());
            r.set_decryptor(ChaCha20Poly1305.new_decryptor(key.to_vec()));
            #[cfg(husk_verif)]
            r.verif_set_read_count(at);
        }
        for _ in 0..4 {
            let k = c.rng.below(4);
            let ok = husk(|| match k {
                0 => r.read_message().is_ok(),
                1 => r.read_handshake().is_ok(),
                2 => r.read_change_cipher_spec().is_ok(),
                _ if how > 0 => r.read_application_data().is_ok(),
                _ => r.read_message().is_ok(),
            });
            c.count("record layer calls", 1);
            c.count("record layer calls that returned a message", ok as u64);
        }
        c.sigs(format!("{} {}", n, how));
    }
    Ok(())
}

/// very many very small things, where a recursion or a quadratic loop would show
fn flood(c: &mut Case, m: &mon::Mon) -> Verdict {
    let n = m.q(40_000, 400_000);
    let su = small_setup(&mut c.rng);
    let kind = c.idx % 6;
    let mut extra = vec![];
    match kind {
        0 => {
            // empty data records
            for _ in 0..n {
                extra.push(Item::Rec(APP, (3, 3), vec![]));
            }
            extra.push(Item::App(b"end".to_vec()));
        }
        1 => {
            // a handshake message that grows one byte at a time
            extra.push(Item::Rec(HS, (3, 3), vec![11, 0xff, 0xff, 0xff]));
            for _ in 0..n {
                extra.push(Item::Rec(HS, (3, 3), vec![0]));
            }
        }
        2 => {
            for _ in 0..n {
                extra.push(Item::App(vec![7]));
            }
        }
        _ => {}
    }
    let mut sim = su.sim(extra);
    if kind >= 3 {
        // during the handshake, in place of the Certificate
        let mut v = su.script();
        match kind {
            3 => {
                let mut x: Vec<Item> = vec![Item::HsRaw(vec![11, 0xff, 0xff, 0xff])];
                for _ in 0..n {
                    x.push(Item::Rec(HS, (3, 3), vec![0]));
                }
                v.splice(2..3, x);
            }
            4 => {
                // many certificates of one byte
                v[2] = Item::Hs(11, wire::certificate(&vec![vec![1]; n]));
                sim.srv.frag = Frag::Sizes(vec![1, 7]);
            }
            _ => {
                // one very long certificate in very small records
                v[2] = Item::Hs(11, wire::certificate(&vec![vec![1; n]]));
                sim.srv.frag = Frag::Sizes(vec![1]);
            }
        }
        sim.srv.script = v.into();
    }
    let s = sim.share();
    c.sigs(kind);
    if let Ok(mut cl) = connect(&s) {
        let mut b = vec![0; 50_000.min(n + 10)];
        let k = read(&mut cl, &mut b).unwrap_or(0);
        c.count("bytes read under flood", k as u64);
        match kind {
            0 => ensure!(&b[..k] == b"end", "{} bytes after empty records", k),
            _ => {}
        }
    }
    c.count("floods survived", 1);
    Ok(())
}

fn main() {
    mon::main(
        "C10",
        "one case = one hostile session, byte string or record stream given to the real code under a panic monitor, overflow \
         checks (dev build; the rel build runs without), a CPU time limit per call sequence, a limit on reads of an ended \
         stream and a 2 MB stack; distinct = different traffic and outcome",
        |m| {
            m.cpu_limit_s.store(m.q(30, 240) as u64, SeqCst);
            m.stack.store(2 << 20, SeqCst);
            m.par("session", m.q(3000, 200_000), session);
            m.par("after", m.q(1500, 60_000), after);
            m.par("codec", m.q(400, 20_000), codec);
            m.par("key-exchange", m.q(400, 20_000), key_exchange);
            m.par("decrypt", m.q(60, 1000), decrypt);
            m.par("reader", m.q(6000, 400_000), reader);
            m.par("reader-length", 145, |c| {
                for k in 0..128 {
                    let n = c.idx + 145 * k;
                    if n <= MAX + 2048 + 16 {
                        reader_length(c, n)?;
                    }
                }
                Ok(())
            });
            m.par("flood", 6, |c| flood(c, m));
            // every single byte and pair as a message of each kind
            m.par("short", KINDS, |c| {
                for a in 0..=255u8 {
                    decode(c.idx, &[a])?;
                    for b in 0..=255u8 {
                        decode(c.idx, &[a, b])?;
                        decode(c.idx, &[0, a, b])?;
                        decode(c.idx, &[a, b, 0, 0, 0, 0])?;
                        decode(c.idx, &[a, 0, 0, b, 1, 2, 3, 4, 5, 6])?;
                    }
                }
                decode(c.idx, &[])?;
                c.count("decodings attempted", 256 * 257 + 1);
                c.sigs(c.idx);
                Ok(())
            });
            m.require("sessions that were established", 300);
            m.require("established connections that met junk", 1000);
            m.require("decodings accepted", 1000);
            m.require("floods survived", 6);
        },
    )
}
