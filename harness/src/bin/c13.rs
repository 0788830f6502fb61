//! C13: SHA-256, HMAC and the TLS PRF against independent implementations.
use husk::cipher::prf::{hmac_sha256, Prf};
use husk::crypto::sha2::sha256;
use huskmon::mon::{self, husk, Case, Mon, Verdict};
use huskmon::prng::Rng;
use huskmon::{ensure, refc};

/// contents of some class
fn content(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(8) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => vec![0x80; n],
        3 => {
            let mut v = vec![0; n];
            if n > 0 {
                v[r.below(n)] = 1 << r.below(8);
            }
            v
        }
        4 => {
            // ends like a padded block
            let mut v = r.bytes(n);
            if n > 9 {
                let k = r.range(1, 9);
                v[n - k..].fill(0);
                v[n - k] = 0x80;
            }
            v
        }
        _ => r.bytes(n),
    }
}

fn hash_one(c: &mut Case, m: &[u8]) -> Verdict {
    let got = husk(|| sha256(m));
    let want = refc::sha256(m);
    ensure!(
        got == want,
        "SHA-256 of {} bytes ({}…) is {} instead of {}",
        m.len(),
        refc::hex(&m[..m.len().min(80)]),
        refc::hex(&got),
        refc::hex(&want)
    );
    c.count("hashes compared", 1);
    Ok(())
}

fn lengths(c: &mut Case) -> Verdict {
    let n = c.idx;
    for _ in 0..4 {
        let m = content(&mut c.rng, n);
        hash_one(c, &m)?;
        c.sig(&m);
    }
    Ok(())
}

fn random(c: &mut Case) -> Verdict {
    // a short one more often than a long one
    let e = c.rng.range(0, 20);
    let n = match c.rng.below(4) {
        0 => c.rng.below(1 << e),
        // next to block boundaries
        1 => (c.rng.below(1 << (e.max(6) - 6)) * 64 + c.rng.range(0, 18) + 46).min(1 << 20),
        _ => c.rng.below(5000),
    };
    let m = content(&mut c.rng, n);
    hash_one(c, &m)?;
    c.sig(&m);
    Ok(())
}

/// the published vectors and the Monte Carlo procedure of the SHA validation system
fn vectors(c: &mut Case) -> Verdict {
    let v: [(&[u8], &str); 4] = [
        (b"", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"),
        (b"abc", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
        (b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1"),
        (&[b'a'; 1_000_000], "cdc76e5c9914fb9281a1c7e284d73e67f1809a48a497200e046d39ccc7112cd0"),
    ];
    for (m, h) in v {
        ensure!(refc::hex(&husk(|| sha256(m))) == h, "the published hash of {} bytes", m.len());
    }
    // RFC 4231
    let k: [(Vec<u8>, Vec<u8>, &str); 4] = [
        (vec![0x0b; 20], b"Hi There".to_vec(), "b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7"),
        (b"Jefe".to_vec(), b"what do ya want for nothing?".to_vec(), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843"),
        (vec![0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First".to_vec(), "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54"),
        (vec![0xaa; 131], b"This is a test using a larger than block-size key and a larger than block-size data. The key needs to be hashed before being used by the HMAC algorithm.".to_vec(), "9b09ffa71b942fcb27635fbcd5b0e944bfdc63644f0713938a7f51535c3a35e2"),
    ];
    for (k, m, h) in k {
        ensure!(refc::hex(&husk(|| hmac_sha256(&k, &m))) == h, "the published HMAC with a key of {} bytes", k.len());
    }
    // P_SHA256 test vector of the IETF TLS list
    let mut p = Prf::new(
        refc::unhex("9bbe436ba940f017b17652849a71db35"),
        [b"test label".to_vec(), refc::unhex("a0ba9f936cda311827a6f796ffd5198c")].concat(),
    );
    ensure!(
        refc::hex(&husk(|| p.get_bytes(100)))
            == "e3f229ba727be17b8d122620557cd453c2aab21d07c3d495329b52d4e61edb5a6b301791e90d35c9c9a46b4e14baf9af0fa022f7077def17abfd3797c0564bab4fbc91666e9def9b97fce34f796789baa48082d122ee42c5a72e5a5110fff70187347b66",
        "the published P_SHA256 output"
    );
    let mut seed = c.rng.arr::<32>();
    for _ in 0..60 {
        let mut md = [seed, seed, seed];
        for _ in 0..1000 {
            let m = md.concat();
            let h = husk(|| sha256(&m));
            md = [md[1], md[2], h];
        }
        let mut rm = [seed, seed, seed];
        for _ in 0..1000 {
            let h = refc::sha256(&rm.concat());
            rm = [rm[1], rm[2], h];
        }
        ensure!(md[2] == rm[2], "a chain of 1000 hashes from {} ends differently", refc::hex(&seed));
        seed = md[2];
        c.count("hashes compared", 1000);
    }
    c.sig(&seed);
    Ok(())
}

/// messages whose bit length does not fit 32 bits (and 2^32 bytes and more in the deep run)
fn huge(c: &mut Case) -> Verdict {
    let n: usize = [(1 << 29) - 9, 1 << 29, (1 << 29) + 56, (1 << 32) + 3, (1 << 32) - 1][c.idx];
    let mut m = vec![0u8; n];
    let mut x = c.rng.u64();
    for i in (0..n).step_by(4093) {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        m[i] = (x >> 56) as u8;
    }
    let got = husk(|| sha256(&m));
    let mut s = refc::Sha256::new();
    m.chunks(1 << 20).for_each(|b| s.update(b));
    let want = s.finish();
    ensure!(got == want, "SHA-256 of {} bytes is {} instead of {}", n, refc::hex(&got), refc::hex(&want));
    c.count("hashes of 2^29 bytes or more", (n >= 1 << 29) as u64);
    c.sigs(n);
    Ok(())
}

fn hmac(c: &mut Case) -> Verdict {
    // every key length around the block; message lengths around block boundaries
    let kl = c.idx % 200;
    for _ in 0..12 {
        let ml = match c.rng.below(4) {
            0 => c.rng.below(8),
            1 => 64 * c.rng.range(0, 4) + c.rng.range(50, 70),
            2 => c.rng.below(300),
            _ => c.rng.size(20_000),
        };
        let k = content(&mut c.rng, kl);
        let m = content(&mut c.rng, ml);
        let got = husk(|| hmac_sha256(&k, &m));
        ensure!(
            got == refc::hmac(&k, &m),
            "HMAC with a key of {} bytes ({}) over {} bytes ({}…) is {}",
            kl,
            refc::hex(&k),
            ml,
            refc::hex(&m[..ml.min(64)]),
            refc::hex(&got)
        );
        c.count("HMACs compared", 1);
        c.sig(&got);
    }
    Ok(())
}

/// long keys
fn hmac_long(c: &mut Case) -> Verdict {
    let kl = 1 + c.rng.size(100_000);
    let ml = c.rng.size(100_000);
    let k = content(&mut c.rng, kl);
    let m = content(&mut c.rng, ml);
    ensure!(husk(|| hmac_sha256(&k, &m)) == refc::hmac(&k, &m), "HMAC with a key of {} bytes over {}", kl, ml);
    c.count("HMACs compared", 1);
    c.sig(&k);
    Ok(())
}

fn prf(c: &mut Case) -> Verdict {
    let sl = if c.idx < 140 { c.idx } else { c.rng.size(400) };
    let dl = if c.rng.chance(1, 2) { c.rng.below(140) } else { c.rng.size(3000) };
    let secret = content(&mut c.rng, sl);
    let seed = content(&mut c.rng, dl);
    let total = match c.rng.below(4) {
        0 => 32 * c.rng.range(0, 8),
        1 => 32 * c.rng.range(1, 8) + c.rng.range(0, 2) - 1,
        2 => c.rng.below(400),
        _ => c.rng.size(6000),
    };
    let want = refc::p_hash(&secret, &seed, total);
    // in one piece, and cut in several ways
    for style in 0..5 {
        let mut p = husk(|| Prf::new(secret.clone(), seed.clone()));
        let mut got = vec![];
        let mut cuts = vec![];
        while got.len() < total {
            let left = total - got.len();
            let n = match style {
                0 => left,
                1 => 1 + (left > 300) as usize * 200,
                2 => *c.rng.pick(&[31, 32, 33, 64, 63, 65, 1, 0, 48, 12]),
                3 => c.rng.size(200),
                // a key block: two keys, two IVs, and whatever
                _ => *[32usize, 32, 12, 12, 0, 4, 40].get(cuts.len()).unwrap_or(&100),
            }
            .min(left);
            let b = husk(|| p.get_bytes(n));
            ensure!(b.len() == n, "{} bytes of key material asked, {} returned", n, b.len());
            got.extend(b);
            cuts.push(n);
        }
        ensure!(
            got == want,
            "P_SHA256 of a {}-byte secret and a {}-byte seed, requested as {:?}, differs at byte {}",
            sl,
            dl,
            &cuts[..cuts.len().min(40)],
            got.iter().zip(&want).position(|(a, b)| a != b).unwrap()
        );
        // asking for nothing changes nothing
        ensure!(husk(|| p.get_bytes(0)).is_empty(), "0 bytes asked, some returned");
        c.count("PRF requests", cuts.len() as u64);
    }
    c.sig(&secret);
    c.sig(&want);
    c.count("PRF outputs compared", 5);
    c.sample(|| format!("secret {} bytes, seed {} bytes, {} bytes requested in 5 ways", sl, dl, total));
    Ok(())
}

/// long outputs, secrets and seeds: block counts past 2^8 and 2^16, lengths past 2^16
fn prf_long(c: &mut Case) -> Verdict {
    let k = [(48usize, 77usize, 255 * 32 - 1), (48, 77, 255 * 32 + 1), (48, 77, 256 * 32 + 1), (48, 77, 20_000), (32, 77, 70_000),
        (48, 77, 65_536 * 32 + 33), (65_536, 77, 100), (70_001, 77, 65), (48, 65_535, 100), (48, 65_537, 3000), (200_000, 300_000, 9000)];
    let (sl, dl, total) = k[c.idx % k.len()];
    let secret = content(&mut c.rng, sl);
    let seed = content(&mut c.rng, dl);
    let want = refc::p_hash(&secret, &seed, total);
    let mut p = husk(|| Prf::new(secret.clone(), seed.clone()));
    let mut got = vec![];
    while got.len() < total {
        let n = if c.idx < k.len() { total } else { c.rng.range(1, 5000) }.min(total - got.len());
        got.extend(husk(|| p.get_bytes(n)));
    }
    ensure!(
        got == want,
        "P_SHA256 of a {}-byte secret and a {}-byte seed differs at byte {} of {}",
        sl,
        dl,
        got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(want.len()),
        total
    );
    c.count("long PRF outputs compared", 1);
    c.sig(&want);
    Ok(())
}

/// two generators used in turns do not disturb each other
fn interleaved(c: &mut Case) -> Verdict {
    let mk = |c: &mut Case| {
        let a = c.rng.size(100);
        let b = c.rng.size(100);
        (c.rng.bytes(a), c.rng.bytes(b))
    };
    let (x, y) = (mk(c), mk(c));
    let mut p = Prf::new(x.0.clone(), x.1.clone());
    let mut q = Prf::new(y.0.clone(), y.1.clone());
    let (mut a, mut b) = (vec![], vec![]);
    for _ in 0..c.rng.range(1, 20) {
        let n = c.rng.size(100);
        if c.rng.chance(1, 2) {
            a.extend(husk(|| p.get_bytes(n)));
        } else {
            b.extend(husk(|| q.get_bytes(n)));
        }
    }
    ensure!(a == refc::p_hash(&x.0, &x.1, a.len()), "a PRF used in turns with another gives other output");
    ensure!(b == refc::p_hash(&y.0, &y.1, b.len()), "a PRF used in turns with another gives other output");
    c.sig(&a);
    c.sig(&b);
    Ok(())
}

fn run(m: &Mon) {
    m.par("length", m.q(1200, 20_000), lengths);
    m.par("random", m.q(400, 20_000), random);
    m.par("vectors", m.q(2, 40), vectors);
    m.par("hmac", m.q(400, 20_000), hmac);
    m.par("hmac-long", m.q(60, 2000), hmac_long);
    m.par("prf", m.q(500, 20_000), prf);
    m.cpu_limit_s.store(600, std::sync::atomic::Ordering::SeqCst);
    m.par("prf-long", 22, prf_long);
    // lengths next to the numbers that occur in the code
    let nums = huskmon::dict::around(3, m.q(70_000, 5_000_000));
    m.par("number", nums.len(), |c| {
        let n = nums[c.idx];
        let x = content(&mut c.rng, n);
        hash_one(c, &x)?;
        let y = content(&mut c.rng, 40);
        for (k, d) in [(&x, &y), (&y, &x)] {
            ensure!(husk(|| hmac_sha256(k, d)) == refc::hmac(k, d), "HMAC with a key of {} bytes over {}", k.len(), d.len());
            let mut p = husk(|| Prf::new(k.clone(), d.clone()));
            ensure!(husk(|| p.get_bytes(80)) == refc::p_hash(k, d, 80), "P_SHA256 of a {}-byte secret and a {}-byte seed differs", k.len(), d.len());
        }
        let mut p = husk(|| Prf::new(y.clone(), y.clone()));
        let got = husk(|| [p.get_bytes(n), p.get_bytes(5)].concat());
        ensure!(got == refc::p_hash(&y, &y, n + 5), "{} bytes and then 5 bytes of P_SHA256 differ", n);
        c.count("HMACs compared", 2);
        c.count("PRF outputs compared", 3);
        c.sig(&x);
        Ok(())
    });
    m.par("prf-in-turns", m.q(100, 5000), interleaved);
    // a few GB of memory each: few at a time
    m.par_n("huge", m.q(3, 5), m.q(3, 2), huge);
    m.require("hashes compared", 5000);
    m.require("HMACs compared", 4000);
    m.require("PRF outputs compared", 2000);
    m.require("hashes of 2^29 bytes or more", 2);
}

fn main() {
    mon::main(
        "C13",
        "an execution hashes/MACs/derives on generated input and compares with the reference; distinct by input",
        run,
    );
}
