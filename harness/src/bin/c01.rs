//! C01: against any honest server the handshake completes and both sides hold the same keys.
use huskmon::mon::{self, husk, Case, Verdict};
use huskmon::prng::Rng;
use huskmon::refp256 as rp;
use huskmon::sim::*;
use huskmon::{ensure, entropy, wire};
use num_bigint::BigUint;
use std::io::{BufRead, Read, Write};

fn frag(r: &mut Rng) -> Frag {
    match r.below(5) {
        0 => Frag::PerMessage,
        1 => Frag::Coalesce,
        2 => Frag::Sizes(vec![r.range(1, 5), r.range(1, 300)]),
        3 => Frag::Sizes(vec![r.range(1, 40)]),
        _ => {
            let m = *r.pick(&[3usize, 17, 100, 5000, MAX]);
            Frag::Random(r.clone(), m)
        }
    }
}

fn chunk(r: &mut Rng) -> Chunk {
    match r.below(4) {
        0 => Chunk::All,
        1 => Chunk::Fixed(r.range(1, 7)),
        _ => {
            let m = *r.pick(&[2usize, 10, 600, 20000]);
            Chunk::Random(r.clone(), m)
        }
    }
}

/// the handshake has to succeed, with the same keys at both ends, in both directions
fn run(c: &mut Case, sim: Sim) -> Verdict {
    let s = sim.share();
    let mut cl = match connect(&s) {
        Ok(c) => c,
        Err(e) => return Err(format!("handshake with an honest server failed: {:?}; server saw: {:?}", e, s.borrow().srv.log.errors)),
    };
    agreed(&s)?;
    let n = c.rng.range(1, 200);
    let m = c.rng.range(1, 200);
    let (up, down) = (c.rng.bytes(n), c.rng.bytes(m));
    exchange(&mut cl, &s, &up, &down)?;
    let b = s.borrow();
    ensure!(b.srv.log.alerts.is_empty(), "alerts after an honest exchange: {:?}", b.srv.log.alerts);
    c.count("handshakes completed", 1);
    c.count("server records", b.srv.sent.len() as u64);
    c.count("transport reads", b.read_calls);
    let keys = b.srv.keys.as_ref().unwrap();
    c.sig(&keys.master);
    let pms = b.srv.pms.as_ref().unwrap();
    if pms[0] == 0 {
        c.count("shared secrets with a leading zero byte", 1);
    }
    if pms[31] == 0 {
        c.count("shared secrets with a trailing zero byte", 1);
    }
    Ok(())
}

fn vary(c: &mut Case, su: &mut Setup) {
    let r = &mut c.rng;
    if r.chance(1, 2) {
        let n = r.range(0, 32);
        su.sh.session_id = r.bytes(n);
    }
    su.sh.exts = match r.below(5) {
        0 => Some(vec![]),
        1 => Some(vec![(11, vec![1, 0])]),
        2 => Some(vec![(11, vec![3, 0, 1, 2])]),
        _ => None,
    };
    let n = r.below(5);
    su.certs = (0..n)
        .map(|_| {
            let n = r.range(1, 3000);
            r.bytes(n)
        })
        .collect();
    let n = *r.pick(&[0usize, 64, 128, 255, 256, 257, 384, 512, 2048, 65535]);
    let n = if r.chance(1, 3) { r.size(65535) } else { n };
    su.ske.signature = r.bytes(n);
    // a server's random may be anything, and ends in a marker where the server also speaks TLS 1.1 or 1.3
    match r.below(8) {
        3 => su.sh.random[24..].copy_from_slice(b"DOWNGRD\x01"),
        4 => su.sh.random[24..].copy_from_slice(b"DOWNGRD\x00"),
        0 => su.sh.random = [0; 32],
        1 => su.sh.random = [0xff; 32],
        2 => su.sh.random[..4].copy_from_slice(&[0; 4]),
        _ => {}
    }
}

fn transport(c: &mut Case, s: &mut Sim) {
    let r = &mut c.rng;
    s.srv.frag = frag(r);
    s.rd_chunk = chunk(r);
    s.wr_chunk = chunk(r);
    s.buffered = r.chance(1, 3);
    if r.chance(1, 3) {
        s.intr_rd = 60;
        s.intr_wr = 60;
    }
    s.rng = Rng::new(r.u64());
}

fn main() {
    mon::main(
        "C01",
        "one case = one full handshake of the real client with a reference server (or OpenSSL) plus data both ways; \
         distinct = different master secret; server randoms, keys, session ids, extensions, chains, signature sizes, \
         fragmentation, transport chunking and interrupts are drawn from the seed",
        |m| {
            m.par("random", m.q(160, 4000), |c| {
                let mut su = if c.rng.chance(1, 2) { Setup::random(&mut c.rng) } else { Setup::small(&mut c.rng) };
                vary(c, &mut su);
                let mut s = su.sim(vec![]);
                transport(c, &mut s);
                c.sample(|| format!("{:?} frag {:?}", su.sh, s.srv.frag));
                run(c, s)
            });

            // every session id length
            m.par("session-id", 33, |c| {
                let mut su = Setup::cheap(&mut c.rng);
                su.sh.session_id = c.rng.bytes(c.idx);
                run(c, su.sim(vec![]))
            });

            // certificate chains around every boundary of the encodings
            let sizes: Vec<Vec<usize>> = vec![
                vec![],
                vec![1],
                vec![1, 1, 1],
                vec![255],
                vec![256],
                vec![257],
                vec![16373],
                vec![16374],
                vec![16375],
                vec![16384],
                vec![32757, 3],
                vec![65525],
                vec![65526],
                vec![65535],
                vec![65536],
                vec![65537, 70000],
                vec![100_000, 1, 200_000],
                vec![3; 3000],
                vec![1_000_000],
                vec![1; 70_000],
            ];
            m.par("chain", sizes.len(), |c| {
                let mut su = Setup::cheap(&mut c.rng);
                su.certs = sizes[c.idx].iter().map(|&n| c.rng.bytes(n)).collect();
                let mut s = su.sim(vec![]);
                s.srv.frag = if c.idx % 2 == 0 { Frag::Coalesce } else { Frag::PerMessage };
                c.count("certificate bytes", sizes[c.idx].iter().sum::<usize>() as u64);
                run(c, s)
            });
            // certificates, session ids, extensions and signatures of every length
            m.par("every-length", m.q(1600, 20_000), |c| {
                let n = c.idx;
                let mut su = Setup::cheap(&mut c.rng);
                su.certs = vec![c.rng.bytes(n + 1), c.rng.bytes(2)];
                su.sh.session_id = c.rng.bytes(n % 33);
                su.sh.exts = Some(vec![(35, c.rng.bytes(n)), (16, c.rng.bytes(n / 2))]);
                su.ske.signature = c.rng.bytes(n);
                let mut s = su.sim(vec![]);
                s.srv.frag = if c.rng.chance(1, 2) { Frag::Coalesce } else { Frag::Sizes(vec![n.max(1)]) };
                run(c, s)
            });
            // certificates, session ids, extensions, signatures as long as the numbers that occur in the code
            let nums = huskmon::dict::around(3, m.q(70_000, 2_000_000));
            m.par("number", nums.len() * 2, |c| {
                let n = nums[c.idx / 2];
                let mut su = Setup::cheap(&mut c.rng);
                if c.idx % 2 == 0 {
                    su.certs = vec![c.rng.bytes(n), c.rng.bytes(3)];
                } else {
                    su.certs = vec![vec![5]; n.min(3000)];
                    if n < 60_000 {
                        let t = *c.rng.pick(&[35u16, 16, 23, 77, 3000, 0xfffe]);
                        su.sh.exts = Some(vec![(t, c.rng.bytes(n))]);
                        su.ske.signature = c.rng.bytes(n);
                    }
                }
                let mut s = su.sim(vec![]);
                s.srv.frag = if c.rng.chance(1, 2) { Frag::Coalesce } else { Frag::Sizes(vec![n.min(MAX)]) };
                run(c, s)
            });
            // messages in as many records as they have bytes
            let sizes = [300usize, 1100, 5000, 70_000];
            m.par("chain-crumbs", sizes.len() * 2, |c| {
                let mut su = Setup::cheap(&mut c.rng);
                su.certs = vec![c.rng.bytes(sizes[c.idx / 2])];
                let mut s = su.sim(vec![]);
                s.srv.frag = Frag::Sizes(if c.idx % 2 == 0 { vec![1] } else { vec![1, 2] });
                run(c, s)
            });
            // the longest message there is
            m.par("chain-huge", m.q(1, 2), |c| {
                let mut su = Setup::cheap(&mut c.rng);
                let n = [(1 << 24) - 1 - 3 - 3, 8_000_000usize][c.idx];
                su.certs = vec![c.rng.bytes(n)];
                let mut s = su.sim(vec![]);
                s.srv.frag = Frag::Coalesce;
                run(c, s)
            });

            // every cut of the first server flight in two records, at its boundaries
            m.par("cut", m.q(64, 700), |c| {
                let mut su = Setup::cheap(&mut c.rng);
                su.certs = vec![c.rng.bytes(40)];
                su.ske.signature = c.rng.bytes(20);
                let total: usize = [su.sh.body().len(), wire::certificate(&su.certs).len(), su.ske.body().len(), 0]
                    .iter()
                    .map(|n| n + 4)
                    .sum();
                let at = 1 + (c.idx * (total - 1) / m.q(64, 700)).min(total - 2);
                let mut s = su.sim(vec![]);
                s.srv.frag = Frag::Sizes(vec![at, MAX]);
                s.rd_chunk = Chunk::Split(vec![at, at + 5, at + 9]);
                c.sigs(at);
                run(c, s)
            });

            // shared secrets with leading zero bytes: find the client's key share with a dry run, pick the
            // server key that makes the secret's first byte(s) zero, then run for real
            m.par("zero-secret", m.q(15, 120), |c| {
                let es = c.rng.u64();
                let mut r = c.rng.clone();
                let dry = |k: BigUint, r: &mut Rng| {
                    let su = Setup::with_key(k, r);
                    let s = su.sim(vec![]).share();
                    let ok = entropy::with(entropy::Stream::new(es), || connect(&s)).0.map(|_| ());
                    (ok, s)
                };
                let (_, s) = dry(BigUint::from(1u32), &mut r);
                let q = match s.borrow().srv.client_pub.clone() {
                    Some(q) => Some(q),
                    None => return Err("the client sent no key share to an honest server".into()),
                };
                let start = rp::from_be(&r.bytes(31));
                let mut p = rp::mul(&start, &q);
                let mut k = start;
                // every third: the last byte instead of the first
                let last = c.idx % 3 == 2;
                let lim = BigUint::from(1u32) << 248;
                for _ in 0..8000 {
                    let hit = |p: &(BigUint, BigUint)| if last { rp::be32(&p.0)[31] == 0 } else { p.0 < lim };
                    if p.as_ref().map_or(false, hit) {
                        break;
                    }
                    p = rp::add_affine(&p, &q);
                    k += BigUint::from(1u32);
                }
                let su = Setup::with_key(k, &mut r);
                let sim = su.sim(vec![]);
                entropy::with(entropy::Stream::new(es), || run(c, sim)).0
            });

            // entropy at its edges: values the scalar selection has to refuse or pass
            let n = rp::curve().n.clone();
            let one = BigUint::from(1u32);
            let edge: Vec<Vec<u8>> = [
                BigUint::from(0u32),
                n.clone(),
                &n - &one,
                &n + &one,
                &n >> 1,
                one.clone(),
                BigUint::from(2u32),
                BigUint::from(3u32),
                BigUint::from(15u32),
                BigUint::from(16u32),
                BigUint::from(17u32),
                &one << 255,
                (&one << 255) - &one,
                (&one << 252) - &one,
                &rp::curve().p - &one,
                rp::curve().p.clone(),
                (&one << 256) - &one,
            ]
            .iter()
            .map(|x| rp::be32(x).to_vec())
            .collect();
            m.par("edge-entropy", edge.len() * 3, |c| {
                let be = &edge[c.idx / 3];
                let su = Setup::random(&mut c.rng);
                let x: Vec<u8> = match c.idx % 3 {
                    0 => be.clone(),
                    1 => be.iter().rev().copied().collect(),
                    // least significant word first, words in native order
                    _ => be.chunks(4).rev().flat_map(|w| w.iter().rev().copied().collect::<Vec<_>>()).collect(),
                };
                let mut st = entropy::Stream::new(c.rng.u64());
                let mut p = match (c.idx / 3) % 4 {
                    0 => vec![0; 32],
                    1 => vec![0xff; 32],
                    _ => c.rng.bytes(32),
                };
                p.extend(x);
                st.prefix = p;
                let sim = su.sim(vec![]);
                entropy::with(st, || run(c, sim)).0
            });

            // over TCP, through the convenience constructor
            m.par_n("tcp", m.q(12, 200), 4, |c| tcp(c));

            if std::path::Path::new(&openssl_dir()).join("server.py").exists() {
                openssl(m);
            } else {
                m.harness_error("no data/server.py");
            }
            m.require("handshakes completed", 200);
            m.require("shared secrets with a leading zero byte", 8);
            m.require("shared secrets with a trailing zero byte", 4);
            m.require("connections to OpenSSL", 10);
            m.require("connections over TCP", 10);
        },
    );
}

fn tcp(c: &mut Case) -> Verdict {
    let l = std::net::TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string()).expect("loopback");
    let addr = l.local_addr().unwrap();
    let mut su = Setup::small(&mut c.rng);
    vary(c, &mut su);
    let f = frag(&mut c.rng);
    let mut r = c.rng.clone();
    let n = r.range(1, 40_000);
    let down = r.bytes(n);
    let down2 = down.clone();
    let h = std::thread::spawn(move || {
        let (mut t, _) = l.accept().unwrap();
        t.set_nodelay(true).unwrap();
        t.set_read_timeout(Some(std::time::Duration::from_secs(20))).unwrap();
        let mut srv = su.srv();
        srv.frag = f;
        srv.script = su.script().into();
        srv.script.push_back(Item::App(down2));
        let mut sent = 0;
        let mut buf = [0u8; 4096];
        loop {
            srv.pump();
            while sent < srv.out.len() {
                let n = r.range(1, 3000).min(srv.out.len() - sent);
                if t.write_all(&srv.out[sent..sent + n]).is_err() {
                    return srv.log;
                }
                sent += n;
            }
            match t.read(&mut buf) {
                Ok(0) | Err(_) => return srv.log,
                Ok(n) => srv.feed(&buf[..n]),
            }
        }
    });
    let t = std::net::TcpStream::connect(addr).expect("loopback");
    t.set_read_timeout(Some(std::time::Duration::from_secs(20))).unwrap();
    let n = c.rng.range(1, 40_000);
    let up = c.rng.bytes(n);
    let res = husk(|| -> Result<(), String> {
        let mut cl = husk::TlsClient::from_tcp(t).map_err(|e| format!("from_tcp with an honest server failed: {:?}", e))?;
        cl.write_all(&up).map_err(|e| format!("write: {:?}", e))?;
        cl.flush().map_err(|e| format!("flush: {:?}", e))?;
        let mut got = vec![0u8; down.len()];
        cl.read_exact(&mut got).map_err(|e| format!("read: {:?}", e))?;
        if got != down {
            return Err("what was read over TCP is not what the server sent".into());
        }
        cl.close().map_err(|e| format!("close: {:?}", e))?;
        Ok(())
    });
    let log = h.join().map_err(|_| "server thread").unwrap();
    res?;
    ensure!(log.errors.is_empty(), "over TCP a strict server objects: {:?}", log.errors);
    ensure!(log.app == up, "over TCP the server received {} of {} bytes", log.app.len(), up.len());
    c.sigs(up.len());
    c.count("connections over TCP", 1);
    Ok(())
}

fn openssl_dir() -> String {
    format!("{}/harness/data", mon::verif_dir())
}

fn openssl(m: &mon::Mon) {
    let nconn = m.q(16, 400);
    m.par_n("openssl", nconn, 4, |c| {
        // one peer process per case: nothing is shared
        let peer = huskmon::peer::OpenSsl::start();
        let r = (|| -> Verdict {
            for _ in 0..3 {
                let t = peer.connect();
                husk(|| -> Verdict {
                    let mut cl = husk::TlsClient::from_tcp(t).map_err(|e| format!("handshake with OpenSSL failed: {:?}", e))?;
                    for _ in 0..2 {
                        let n = c.rng.size(60_000).max(1);
                        let d = c.rng.bytes(n);
                        cl.write_all(&(n as u32).to_be_bytes()).map_err(|e| format!("write: {:?}", e))?;
                        cl.write_all(&d).map_err(|e| format!("write: {:?}", e))?;
                        cl.flush().map_err(|e| format!("flush: {:?}", e))?;
                        let mut got = vec![0u8; 2 * n];
                        cl.read_exact(&mut got).map_err(|e| format!("reading OpenSSL's answer ({} bytes): {:?}", 2 * n, e))?;
                        let ok = (0..n).all(|i| got[i] == d[i] ^ 0x5a && got[n + i] == i as u8);
                        ensure!(ok, "OpenSSL's answer of {} bytes is not what it sent", 2 * n);
                        c.count("bytes exchanged with OpenSSL", 3 * n as u64);
                    }
                    cl.write_all(&[0xff; 4]).map_err(|e| format!("write: {:?}", e))?;
                    let mut b = [0u8; 9];
                    let n = cl.read(&mut b).map_err(|e| format!("read at close_notify: {:?}", e))?;
                    ensure!(n == 0, "{} bytes after OpenSSL's close_notify", n);
                    Ok(())
                })?;
                c.count("connections to OpenSSL", 1);
            }
            Ok(())
        })();
        c.sigs(c.idx);
        r
    });
}
