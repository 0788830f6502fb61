//! C16: every connection uses fresh secrets with full entropy from the system.
use huskmon::entropy::{self, Stream};
use huskmon::mon::{self, husk, Case, Mon, Verdict};
use huskmon::prng::Rng;
use huskmon::refp256 as rp;
use huskmon::sim::*;
use huskmon::{ensure, mutate, refc};
use num_bigint::BigUint;
use std::collections::{HashMap, HashSet};
use std::sync::{Mutex, OnceLock};

/// what a server sees of one handshake
struct Seen {
    random: Vec<u8>,
    share: (BigUint, BigUint),
}

fn handshake(su: &Setup) -> Result<Seen, String> {
    let s = su.sim(vec![]).share();
    let r = connect(&s);
    let b = s.borrow();
    if let Err(e) = r {
        return Err(format!("handshake with an honest server failed: {:?}", e));
    }
    match (&b.srv.client_random, &b.srv.client_pub) {
        (Some(r), Some(p)) => Ok(Seen { random: r.clone(), share: p.clone() }),
        _ => Err("no client random or key share on the wire".into()),
    }
}

fn setup() -> Setup {
    let mut r = Rng::new(77);
    let mut su = Setup::cheap(&mut r);
    su.certs = vec![r.bytes(9)];
    su.ske.signature = r.bytes(8);
    su
}

/// x-coordinate and parity of y of +-2^j G, for every j below 256
fn powers() -> &'static HashMap<(BigUint, BigUint), (usize, bool)> {
    static T: OnceLock<HashMap<(BigUint, BigUint), (usize, bool)>> = OnceLock::new();
    T.get_or_init(|| {
        let p = &rp::curve().p;
        let mut m = HashMap::new();
        let mut q = rp::g();
        for j in 0..256 {
            let (x, y) = q.clone().unwrap();
            m.insert((x.clone(), y.clone()), (j, true));
            m.insert((x, p - y), (j, false));
            q = rp::add_affine(&q, &q);
        }
        m
    })
}

fn rank(mut rows: Vec<[u64; 4]>) -> usize {
    let mut rank = 0;
    for bit in 0..256 {
        let (w, s) = (bit / 64, bit % 64);
        if let Some(i) = (rank..rows.len()).find(|&i| rows[i][w] >> s & 1 == 1) {
            rows.swap(rank, i);
            let piv = rows[rank];
            for (k, r) in rows.iter_mut().enumerate() {
                if k != rank && r[w] >> s & 1 == 1 {
                    for j in 0..4 {
                        r[j] ^= piv[j];
                    }
                }
            }
            rank += 1;
        }
    }
    rank
}

/// flip every bit the client draws, one at a time, and see what it changes
fn influence(c: &mut Case) -> Verdict {
    let su = setup();
    let seed = c.rng.u64();
    let prefix: Vec<u8> = match c.idx % 3 {
        // a first candidate that is no field element
        2 => {
            let mut v = c.rng.bytes(32);
            v.extend([0xff; 32]);
            v
        }
        _ => vec![],
    };
    let run = |flips: Vec<(usize, u8)>| -> Result<(Seen, Stream), String> {
        let mut s = Stream::new(seed);
        s.prefix = prefix.clone();
        s.flips = flips;
        let (r, s) = entropy::with(s, || handshake(&su));
        Ok((r?, s))
    };
    let (base, s0) = run(vec![])?;
    let total = s0.drawn.len() * 8;
    ensure!(total >= 512, "a connection draws only {} bits from the system", total);
    let (mut in_random, mut in_share) = (HashSet::new(), HashSet::new());
    let mut rows = vec![];
    let mut scalar_bits: HashSet<usize> = HashSet::new();
    let mut other = 0usize;
    let mut both = vec![];
    let p = &rp::curve().p;
    // a client that draws much more than it needs: only the stretches of it that change anything, and
    // not more of them than it takes to see every bit of the two outputs move
    let bits: Vec<usize> = if total <= 4096 {
        (0..total).collect()
    } else {
        let mut live = vec![];
        let (mut lr, mut lk) = (0, 0);
        let mut left = vec![(0usize, total / 8)];
        while let Some((a, b)) = left.pop() {
            let mut pat = c.rng.bytes(b - a);
            pat.iter_mut().for_each(|x| *x |= 1);
            let (v, _) = run((a..b).zip(pat).collect())?;
            let (r, k) = (v.random != base.random, v.share != base.share);
            // (a stretch that moves both is looked at as long as one of the two still needs bits)
            if !(r && lr < 512 || k && lk < 512) {
                continue;
            }
            if b - a == 1 {
                lr += r as usize;
                lk += k as usize;
                live.extend(a * 8..b * 8);
                continue;
            }
            let m = (a + b) / 2;
            left.push((m, b));
            left.push((a, m));
        }
        c.count("connections that drew more than 512 bytes", 1);
        live
    };
    for i in bits {
        let (v, _) = run(vec![(i / 8, 1 << (i % 8))])?;
        let r = v.random != base.random;
        let k = v.share != base.share;
        if r {
            in_random.insert(i);
            let mut row = [0u64; 4];
            for (n, (a, b)) in v.random.iter().zip(&base.random).enumerate() {
                row[n / 8] |= ((a ^ b) as u64) << (8 * (n % 8));
            }
            rows.push(row);
        }
        if k {
            in_share.insert(i);
            let neg = Some((base.share.0.clone(), p - &base.share.1));
            match rp::add_affine(&Some(v.share.clone()), &neg).and_then(|d| powers().get(&d).copied()) {
                Some((j, _)) => {
                    scalar_bits.insert(j);
                }
                None => other += 1,
            }
        }
        if r && k {
            both.push(i);
        }
        c.count("bits flipped", 1);
        c.sigs(&format!("{} {}", seed, i));
    }
    let rk = rank(rows);
    ensure!(
        in_random.len() >= 256 && rk == 256,
        "only {} of the bits drawn influence the client random ({} bits of it are free)",
        in_random.len(),
        rk
    );
    ensure!(
        in_share.len() >= 256 && scalar_bits.len() + other >= 256,
        "only {} of the bits drawn influence the key share ({} bits of the scalar are free)",
        in_share.len(),
        scalar_bits.len() + other
    );
    ensure!(
        both.is_empty(),
        "bits {:?} of the randomness influence both the client random, which is sent in the clear, and the key share",
        &both[..both.len().min(8)]
    );
    c.count("bits that influence the client random", in_random.len() as u64);
    c.count("bits that influence the key share", in_share.len() as u64);
    c.count("bits of scalars seen to be free", scalar_bits.len() as u64);
    c.sample(|| format!("{} bits drawn: {} influence the random, {} the key share", total, in_random.len(), in_share.len()));
    Ok(())
}

/// several connections after another on one stream: each depends on what was drawn during it, on nothing else
fn sequence(c: &mut Case) -> Verdict {
    let su = setup();
    let seed = c.rng.u64();
    let n = 3;
    let run = |flips: Vec<(usize, u8)>| -> Result<(Vec<Seen>, Vec<usize>), String> {
        let mut s = Stream::new(seed);
        s.flips = flips;
        let (r, _) = entropy::with(s, || {
            let mut v = vec![];
            let mut at = vec![entropy::position()];
            for _ in 0..n {
                v.push(handshake(&su)?);
                at.push(entropy::position());
            }
            Ok::<_, String>((v, at))
        });
        r
    };
    let (base, at) = run(vec![])?;
    for i in 0..n {
        ensure!(at[i + 1] - at[i] >= 64, "connection {} draws {} bytes", i, at[i + 1] - at[i]);
        for j in 0..i {
            ensure!(base[i].random != base[j].random, "connections {} and {} have the same client random", j, i);
            ensure!(base[i].share != base[j].share, "connections {} and {} have the same key share", j, i);
        }
    }
    for i in 0..n {
        for _ in 0..6 {
            let p = c.rng.range(at[i], at[i + 1] - 1);
            let m = 1 << c.rng.below(8);
            let (v, _) = run(vec![(p, m)])?;
            for j in 0..n {
                let changed = (v[j].random != base[j].random) as usize + (v[j].share != base[j].share) as usize;
                if j == i {
                    // (bits that are drawn beyond the 64 bytes needed may go unused)
                    ensure!(changed == 1 || (changed == 0 && at[i + 1] - at[i] > 64), "a bit drawn by connection {} changes {} of its two secrets", i, changed);
                } else {
                    ensure!(changed == 0, "a bit drawn by connection {} changes connection {}", i, j);
                }
            }
            c.count("bits flipped between connections", 1);
        }
    }
    // all of one connection's randomness replaced
    for i in 0..n {
        let all: Vec<(usize, u8)> = (at[i]..at[i + 1]).map(|p| (p, 0x5a)).collect();
        let (v, _) = run(all)?;
        for j in 0..n {
            let same = v[j].random == base[j].random && v[j].share == base[j].share;
            ensure!(same == (j != i), "replacing the randomness of connection {} {} connection {}", i, if same { "leaves" } else { "changes" }, j);
        }
    }
    c.sigs(&format!("{}", seed));
    Ok(())
}

/// the source fails for good after some bytes: no connection, and nothing goes out that was not drawn
fn failing(c: &mut Case) -> Verdict {
    let su = setup();
    let seed = c.rng.u64();
    let (base, s0) = entropy::with(Stream::new(seed), || handshake(&su));
    let base = base?;
    let total = s0.drawn.len();
    let mut at: Vec<usize> = vec![0, 1, 4, 31, 32, 33, 36, 63, total - 1, total - 8, total - 20];
    at.sort();
    at.dedup();
    at.extend((0..4).map(|_| c.rng.below(total)));
    for p in at.into_iter().filter(|p| *p < total) {
        let errno = *c.rng.pick(&[libc::EIO, libc::ENOMEM, libc::EFAULT, libc::EAGAIN]);
        let mut st = Stream::new(seed);
        st.fail = Some((p, errno));
        let s = su.sim(vec![]).share();
        let (r, st) = entropy::with(st, || mon::catch(|| connect(&s).is_ok()));
        pump(&s);
        let b = s.borrow();
        // (an error or a panic: either keeps the connection from being made)
        ensure!(!matches!(r, mon::Caught::Ok(true)), "connected although the source failed (error {}) after {} bytes", errno, p);
        ensure!(st.drawn.len() <= p && st.refused > 0, "the failure after {} bytes was not met", p);
        ensure!(b.srv.client_pub.is_none(), "a key share went out although the source failed after {} bytes", p);
        if let Some(r) = &b.srv.client_random {
            ensure!(st.drawn.len() >= 32 && *r == base.random, "a client random went out although the source failed after {} bytes", p);
            c.count("failures after the client random", 1);
        } else {
            c.count("failures before the client random", 1);
        }
        c.sigs(&format!("{} {}", seed, p));
    }
    // a source that is interrupted, or gives less than was asked for, is asked again
    let mut st = Stream::new(seed);
    st.interrupts = 3;
    let (v, st) = entropy::with(st, || handshake(&su));
    let v = v?;
    ensure!(v.random == base.random && v.share == base.share, "other secrets when the source was interrupted {} times", st.refused);
    c.count("interrupted draws", st.refused);
    Ok(())
}

/// on many threads at once, with the system's own randomness
fn system(m: &Mon) {
    let all = Mutex::new((HashSet::new(), HashSet::new(), vec![0u32; 256], 0u32));
    m.par("system", m.q(2400, 20_000), |c: &mut Case| {
        let su = setup();
        for _ in 0..8 {
            let v = handshake(&su)?;
            let mut g = all.lock().unwrap();
            ensure!(v.random.len() == 32, "client random of {} bytes", v.random.len());
            ensure!(g.0.insert(v.random.clone()), "client random {} was used before", refc::hex(&v.random));
            ensure!(g.1.insert(v.share.0.clone()), "key share {:x} was used before", v.share.0);
            for i in 0..256 {
                g.2[i] += (v.random[i / 8] >> (i % 8) & 1) as u32;
            }
            g.3 += 1;
            c.sig(&v.random);
            c.count("connections on system randomness", 1);
        }
        Ok(())
    });
    let g = all.lock().unwrap();
    let (n, ones) = (g.3 as f64, &g.2);
    if g.3 >= 500 {
        for (i, o) in ones.iter().enumerate() {
            // eight standard deviations
            if (*o as f64 - n / 2.0).abs() > 4.0 * n.sqrt() {
                m.violation("system", format!("bit {} of the client random is set in {} of {} connections", i, o, n));
                break;
            }
        }
    }
}

/// what goes over the wire, searched for everything secret
fn wire(c: &mut Case) -> Verdict {
    let mut su = Setup::random(&mut c.rng);
    su.certs = vec![c.rng.bytes(30)];
    let mode = c.idx % 3;
    let s = if mode == 2 {
        let mut sim = Sim::new(mutate::server(&mut c.rng));
        any_transport(&mut c.rng, &mut sim);
        sim.share()
    } else {
        let mut sim = su.sim(vec![]);
        any_transport(&mut c.rng, &mut sim);
        if mode == 1 {
            sim.srv.s2c_flip = Some((c.rng.below(700), 1 << c.rng.below(8)));
        }
        sim.share()
    };
    let n = c.rng.range(16, 3000);
    let data = c.rng.bytes(n);
    let (ok, stream) = entropy::with(Stream::new(c.rng.u64()), || match connect(&s) {
        Ok(mut cl) => {
            let _ = write_all(&mut cl, &data);
            let _ = flush(&mut cl);
            let mut b = [0; 50];
            if c.rng.chance(1, 2) {
                s.borrow_mut().srv.raw(&[23, 3, 3, 0, 5, 1, 2, 3, 4, 5]);
                let _ = read(&mut cl, &mut b);
            }
            let _ = husk(|| cl.close());
            true
        }
        Err(_) => false,
    });
    pump(&s);
    let b = s.borrow();
    let wire = &b.srv.c2s_raw;
    let mut public: Vec<u8> = b.srv.client_random.clone().unwrap_or_default();
    public.extend(b.srv.sent.iter().filter(|r| !r.3).flat_map(|r| r.2.clone()));
    if let Some((x, y)) = &b.srv.client_pub {
        public.extend(rp::be32(x));
        public.extend(rp::be32(y));
    }
    let mut secrets: Vec<(&str, Vec<u8>)> = vec![];
    secrets.push(("randomness", stream.drawn.clone()));
    secrets.push(("randomness, words swapped", stream.drawn.chunks(4).flat_map(|w| w.iter().rev().copied().collect::<Vec<_>>()).collect()));
    let mut rev = stream.drawn.clone();
    rev.reverse();
    secrets.push(("randomness, reversed", rev));
    // a hostile server may have chosen its key so that the shared secret is its own or the client's share
    if mode != 2 {
        if let Some(p) = &b.srv.pms {
            secrets.push(("premaster secret", p.clone()));
        }
        if let Some(k) = &b.srv.keys {
            secrets.push(("master secret", k.master.clone()));
            secrets.push(("client write key", k.cw.clone()));
            secrets.push(("server write key", k.sw.clone()));
            secrets.push(("client IV", k.civ.clone()));
            secrets.push(("server IV", k.siv.clone()));
            for (i, k) in [(&k.cw, &k.civ), (&k.sw, &k.siv)].iter().enumerate() {
                for seq in 0..3u64 {
                    let mut nn = [0u8; 12];
                    nn.copy_from_slice(&nonce(k.1, seq));
                    let ks = refc::chacha_xor(k.0, 0, &nn, &[0; 64]);
                    secrets.push((if i == 0 { "client authenticator key" } else { "server authenticator key" }, ks[..32].to_vec()));
                }
            }
        }
    }
    secrets.push(("application data", data.clone()));
    const W: usize = 7;
    let pubset: HashSet<&[u8]> = public.windows(4).collect();
    let on_wire: HashSet<&[u8]> = wire.windows(W).collect();
    for (what, sec) in &secrets {
        // positions that are public anyway, as the client random is
        let mut known = vec![false; sec.len()];
        for (i, w) in sec.windows(4).enumerate() {
            if pubset.contains(w) {
                known[i..i + 4].fill(true);
            }
        }
        for (i, w) in sec.windows(W).enumerate() {
            // (constant stretches are not distinctive)
            if !known[i..i + W].contains(&true) && on_wire.contains(w) && w.iter().any(|x| *x != w[0]) {
                return Err(format!("{} of the {} are on the wire", refc::hex(w), what));
            }
        }
        c.count("secrets searched for", 1);
    }
    c.count(if ok { "established connections searched" } else { "failed connections searched" }, 1);
    c.count("bytes on the wire searched", wire.len() as u64);
    c.sig(wire);
    Ok(())
}

fn run(m: &Mon) {
    powers();
    m.par("influence", m.q(9, 400), influence);
    m.par("sequence", m.q(60, 3000), sequence);
    m.par("failing", m.q(60, 3000), failing);
    system(m);
    m.par("wire", m.q(300, 20_000), wire);
    m.require("bits flipped", 4500);
    m.require("bits that influence the client random", 256 * 9);
    m.require("bits that influence the key share", 256 * 9);
    m.require("connections on system randomness", 1500);
    m.require("failures before the client random", 200);
    m.require("failures after the client random", 100);
    m.require("interrupted draws", 60);
    m.require("established connections searched", 100);
    m.require("failed connections searched", 20);
}

fn main() {
    mon::main(
        "C16",
        "an execution is a handshake with one drawn bit flipped, a sequence of handshakes, or a connection whose wire bytes are searched; distinct by randomness",
        run,
    );
}
