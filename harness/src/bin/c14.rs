//! C14: record protection is RFC 8439 ChaCha20-Poly1305, and opening accepts nothing else.
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::Aead;
use husk::crypto::chacha20::ChaCha20;
use husk::crypto::poly1305;
use husk::tls_result::TlsErrorKind;
use huskmon::mon::{self, husk, Case, Mon, Verdict};
use huskmon::prng::Rng;
use huskmon::{ensure, refc};
use num_bigint::BigUint;

fn some(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(8) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => {
            let mut v = vec![0; n];
            if n > 0 {
                v[r.below(n)] = 1 << r.below(8);
            }
            v
        }
        _ => r.bytes(n),
    }
}

/// one sealing and opening, compared with the reference
fn both(c: &mut Case, key: &[u8], nonce: &[u8], ad: &[u8], pt: &[u8]) -> Result<Vec<u8>, String> {
    let want = refc::seal(key, nonce, ad, pt);
    let got = husk(|| ChaCha20Poly1305.new_encryptor(key.to_vec()).encrypt(nonce, pt, ad));
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!(
            "key {} nonce {} ad {} bytes, plaintext {} bytes: {} bytes out (expected {}), first difference at {}",
            refc::hex(key), refc::hex(nonce), ad.len(), pt.len(), got.len(), want.len(), at
        ));
    }
    match husk(|| ChaCha20Poly1305.new_decryptor(key.to_vec()).decrypt(nonce, &want, ad)) {
        Ok(p) => {
            if p != pt {
                return Err(format!("opening {} bytes returns other data than was sealed", pt.len()));
            }
        }
        Err(e) => return Err(format!("a valid ciphertext of {} + 16 bytes with {} bytes of ad is refused: {:?}", pt.len(), ad.len(), e)),
    }
    c.count("sealed and opened", 1);
    c.count("bytes protected", pt.len() as u64);
    Ok(want)
}

/// every additional-data length with every short plaintext length
fn lengths(c: &mut Case) -> Verdict {
    let al = c.idx % 50;
    let base = c.idx / 50 * 20;
    for n in base..base + 20 {
        let (key, nonce, ad, pt) = (some(&mut c.rng, 32), some(&mut c.rng, 12), some(&mut c.rng, al), some(&mut c.rng, n));
        let ct = both(c, &key, &nonce, &ad, &pt)?;
        c.sig(&ct);
    }
    Ok(())
}

/// every length a record may have, with additional data as a record has
fn every_length(c: &mut Case) -> Verdict {
    for k in 0..128 {
        let n = c.idx + 128 * k;
        let (key, nonce, ad, pt) = (some(&mut c.rng, 32), some(&mut c.rng, 12), some(&mut c.rng, 13), some(&mut c.rng, n));
        let ct = both(c, &key, &nonce, &ad, &pt)?;
        c.sig(&ct[n..]);
    }
    Ok(())
}

fn random(c: &mut Case) -> Verdict {
    let n = match c.rng.below(4) {
        0 => c.rng.size(70_000),
        1 => 64 * c.rng.range(0, 260) + c.rng.below(3),
        2 => *c.rng.pick(&[16384usize, 16383, 16385, 16384 + 2048, 0, 1]),
        _ => c.rng.below(1000),
    };
    let al = if c.rng.chance(2, 3) { 13 } else { c.rng.size(5000) };
    let (key, nonce, ad, pt) = (some(&mut c.rng, 32), some(&mut c.rng, 12), some(&mut c.rng, al), some(&mut c.rng, n));
    let ct = both(c, &key, &nonce, &ad, &pt)?;
    c.sig(&ct);
    Ok(())
}

/// data whose length, or the length of the additional data, goes beyond 2^16, 2^24, 2^32
const LONG: [(usize, usize); 10] = [
    (65_535, 13), (65_536, 13), (65_537 + 16, 13), (1_000_003, 13), ((1 << 24) + 7, 13),
    (5, 65_535), (40, 65_536), (100, 65_537), (0, (1 << 24) + 1), (16, (1 << 32) + 21),
];
fn long(c: &mut Case, i: usize) -> Verdict {
    let (n, al) = LONG[i];
    long_of(c, n, al)
}

fn long_of(c: &mut Case, n: usize, al: usize) -> Verdict {
    let mk = |r: &mut Rng, n: usize| {
        let k = r.bytes(n.min(1 << 16));
        let mut v = vec![0; n];
        v.chunks_mut(1 << 16).enumerate().for_each(|(i, x)| {
            x.copy_from_slice(&k[..x.len()]);
            x[0] = i as u8;
        });
        v
    };
    let (key, nonce, ad, pt) = (c.rng.bytes(32), c.rng.bytes(12), mk(&mut c.rng, al), mk(&mut c.rng, n));
    let ct = both(c, &key, &nonce, &ad, &pt)?;
    c.count("long inputs", 1);
    c.sig(&ct[ct.len() - 16..]);
    Ok(())
}

/// one object used many times: nothing of one call shows in the next
fn reuse(c: &mut Case) -> Verdict {
    let key = some(&mut c.rng, 32);
    let mut e = husk(|| ChaCha20Poly1305.new_encryptor(key.clone()));
    let mut d = husk(|| ChaCha20Poly1305.new_decryptor(key.clone()));
    ensure!(husk(|| d.mac_len()) == 16 && ChaCha20Poly1305.mac_len() == 16 && ChaCha20Poly1305.key_size() == 32, "sizes");
    for i in 0..c.rng.range(2, 25) {
        let n = c.rng.size(2000);
        let al = c.rng.below(40);
        let (nonce, ad, pt) = (some(&mut c.rng, 12), some(&mut c.rng, al), some(&mut c.rng, n));
        let want = refc::seal(&key, &nonce, &ad, &pt);
        if c.rng.chance(1, 2) {
            ensure!(husk(|| e.encrypt(&nonce, &pt, &ad)) == want, "sealing number {} with one key differs", i);
        }
        if c.rng.chance(1, 2) {
            // a failed opening leaves no trace
            if c.rng.chance(1, 3) {
                let mut bad = want.clone();
                let at = c.rng.below(bad.len());
                bad[at] ^= 1 << c.rng.below(8);
                ensure!(husk(|| d.decrypt(&nonce, &bad, &ad)).is_err(), "an altered ciphertext is accepted");
            }
            let r = husk(|| d.decrypt(&nonce, &want, &ad));
            ensure!(matches!(&r, Ok(p) if *p == pt), "opening number {} with one key: {:?}", i, r.map(|p| p.len()));
        }
        c.sig(&want);
    }
    Ok(())
}

fn refuse(c: &mut Case, what: &str, key: &[u8], nonce: &[u8], ad: &[u8], ct: &[u8]) -> Verdict {
    match husk(|| ChaCha20Poly1305.new_decryptor(key.to_vec()).decrypt(nonce, ct, ad)) {
        Ok(p) => Err(format!(
            "{}: accepted, as {} bytes (key {} nonce {} ad {} ciphertext {})",
            what, p.len(), refc::hex(key), refc::hex(nonce), refc::hex(ad), refc::hex(&ct[..ct.len().min(200)])
        )),
        Err(e) => {
            ensure!(e.kind == TlsErrorKind::BadRecordMac, "{}: refused with {:?}", what, e);
            c.count("forgeries refused", 1);
            Ok(())
        }
    }
}

/// every single-bit change of everything
fn forge(c: &mut Case) -> Verdict {
    let n = if c.idx < 40 { c.idx } else { c.rng.size(300) };
    let al = *c.rng.pick(&[13usize, 13, 13, 0, 1, 16, 17]);
    let (key, nonce, ad, pt) = (c.rng.bytes(32), c.rng.bytes(12), some(&mut c.rng, al), some(&mut c.rng, n));
    let ct = refc::seal(&key, &nonce, &ad, &pt);
    let flip = |b: &[u8], i: usize| {
        let mut v = b.to_vec();
        v[i / 8] ^= 1 << (i % 8);
        v
    };
    for i in 0..ct.len() * 8 {
        let x = flip(&ct, i);
        refuse(c, "a bit of the ciphertext or tag changed", &key, &nonce, &ad, &x)?;
    }
    for i in 0..ad.len() * 8 {
        let x = flip(&ad, i);
        refuse(c, "a bit of the additional data changed", &key, &nonce, &x, &ct)?;
    }
    for i in 0..96 {
        let x = flip(&nonce, i);
        refuse(c, "a bit of the nonce changed", &key, &x, &ad, &ct)?;
    }
    for i in 0..256 {
        let x = flip(&key, i);
        refuse(c, "a bit of the key changed", &x, &nonce, &ad, &ct)?;
    }
    // truncations from either end, extensions
    for k in 1..=ct.len().min(80) {
        refuse(c, "truncated", &key, &nonce, &ad, &ct[..ct.len() - k])?;
        refuse(c, "truncated at the front", &key, &nonce, &ad, &ct[k..])?;
        let mut x = ct.clone();
        x.extend(vec![0; k]);
        refuse(c, "zeros appended", &key, &nonce, &ad, &x)?;
        let mut x = ct.clone();
        let z = vec![0; k];
        x.splice(n..n, z);
        refuse(c, "zeros before the tag", &key, &nonce, &ad, &x)?;
    }
    for k in 0..16 {
        let x = c.rng.bytes(k);
        refuse(c, "shorter than a tag", &key, &nonce, &ad, &x)?;
        let x = ct[..k.min(ct.len())].to_vec();
        refuse(c, "shorter than a tag", &key, &nonce, &ad, &x)?;
    }
    // the boundary between additional data and ciphertext moved
    for k in 1..=ad.len().min(16) {
        let mut x = ad[ad.len() - k..].to_vec();
        x.extend(&ct);
        refuse(c, "additional data moved into the ciphertext", &key, &nonce, &ad[..ad.len() - k], &x)?;
    }
    for k in 1..=n.min(16) {
        let mut a = ad.clone();
        a.extend(&ct[..k]);
        refuse(c, "ciphertext moved into the additional data", &key, &nonce, &a, &ct[k..])?;
    }
    for k in 1..20 {
        let mut a = ad.clone();
        a.extend(vec![0; k]);
        refuse(c, "zeros appended to the additional data", &key, &nonce, &a, &ct)?;
    }
    // tags that are wrong in many places
    for _ in 0..60 {
        let mut x = ct.clone();
        let l = x.len();
        match c.rng.below(5) {
            0 => x[l - 16..].fill(0),
            1 => x[l - 16..].fill(0xff),
            2 => x[l - 16..].reverse(),
            3 => x[l - 16..].rotate_left(1),
            _ => {
                // differences that cancel when added or xored together
                let (i, j) = (c.rng.below(16), c.rng.below(16));
                let m = c.rng.range(1, 255) as u8;
                x[l - 16 + i] ^= m;
                x[l - 16 + j] ^= m;
                if i != j && c.rng.chance(1, 2) {
                    x[l - 16 + i] = ct[l - 16 + i].wrapping_add(m);
                    x[l - 16 + j] = ct[l - 16 + j].wrapping_sub(m);
                }
            }
        }
        if x != ct {
            refuse(c, "another tag", &key, &nonce, &ad, &x)?;
        }
    }
    // and the original still opens
    let r = husk(|| ChaCha20Poly1305.new_decryptor(key.clone()).decrypt(&nonce, &ct, &ad));
    ensure!(matches!(&r, Ok(p) if *p == pt), "the unaltered ciphertext is refused");
    c.sig(&ct);
    Ok(())
}

/// forgeries against long records, at a sample of positions
fn forge_long(c: &mut Case) -> Verdict {
    let n = *c.rng.pick(&[16384usize, 16384, 5000, 1 << 16]);
    let (key, nonce, ad, pt) = (c.rng.bytes(32), c.rng.bytes(12), c.rng.bytes(13), some(&mut c.rng, n));
    let ct = refc::seal(&key, &nonce, &ad, &pt);
    for k in 0..40 {
        let i = match k {
            0 => 0,
            1 => n - 1,
            2 => n,
            3 => n + 15,
            _ => c.rng.below(n + 16),
        };
        let mut x = ct.clone();
        x[i] ^= 1 << c.rng.below(8);
        refuse(c, "a bit of the ciphertext or tag changed", &key, &nonce, &ad, &x)?;
        // two changes that keep the xor and the sum of all bytes
        let j = c.rng.below(n + 16);
        if j != i {
            let mut x = ct.clone();
            x.swap(i, j);
            if x != ct {
                refuse(c, "two bytes exchanged", &key, &nonce, &ad, &x)?;
            }
        }
        // whole blocks
        let (i, j) = (c.rng.below(n / 16), c.rng.below(n / 16));
        let mut x = ct.clone();
        for t in 0..16 {
            x.swap(i * 16 + t, j * 16 + t);
        }
        if x != ct {
            refuse(c, "two blocks exchanged", &key, &nonce, &ad, &x)?;
        }
        let mut x = ct.clone();
        x.drain(i * 16..i * 16 + 16);
        refuse(c, "a block removed", &key, &nonce, &ad, &x)?;
    }
    c.sig(&ct);
    Ok(())
}

/// the stream cipher by itself
fn stream(c: &mut Case) -> Verdict {
    let (key, nonce) = (some(&mut c.rng, 32), some(&mut c.rng, 12));
    let mut s = husk(|| ChaCha20::new(&key, &nonce));
    let mut ctr = 0u32;
    for _ in 0..c.rng.range(1, 12) {
        if c.rng.chance(1, 2) {
            ensure!(husk(|| s.next())[..] == refc::chacha_block(&key, ctr, &nonce)[..], "block {} of the key stream", ctr);
            ctr += 1;
        } else {
            let n = c.rng.size(3000);
            let d = some(&mut c.rng, n);
            ensure!(husk(|| s.encrypt(&d)) == refc::chacha_xor(&key, ctr, &nonce, &d), "{} bytes from block {}", n, ctr);
            ctr += n.div_ceil(64) as u32;
        }
    }
    c.sig(&key);
    c.sig(&nonce);
    c.count("key stream blocks", ctr as u64);
    Ok(())
}

/// counters that leave 8, 16 and 24 bits
fn long_stream(c: &mut Case) -> Verdict {
    let (key, nonce) = (c.rng.bytes(32), c.rng.bytes(12));
    let mut s = husk(|| ChaCha20::new(&key, &nonce));
    let top = if c.idx == 0 { (1u32 << 16) + 300 } else { (1 << 24) + 300 };
    for ctr in 0..top {
        let b = husk(|| s.next());
        if ctr % 8191 == 0 || ctr % 65536 > 65500 || ctr % 65536 < 40 {
            ensure!(b[..] == refc::chacha_block(&key, ctr, &nonce)[..], "block {} of the key stream", ctr);
        }
    }
    c.count("key stream blocks", top as u64);
    c.sig(&key);
    // the same through the AEAD: a message of more than 2^16 blocks
    if c.idx == 0 {
        let pt = c.rng.bytes((1 << 22) + 4097);
        both(c, &key, &nonce, b"x", &pt)?;
    }
    Ok(())
}

fn tag(c: &mut Case, what: &str, m: &[u8], r: &[u8; 16], s: &[u8; 16]) -> Verdict {
    let got = husk(|| poly1305::authenticate(m, r, s));
    let want = refc::poly1305_big(m, r, s);
    ensure!(
        got == want,
        "{}: Poly1305 of {} with r {} s {} is {} instead of {}",
        what, refc::hex(&m[..m.len().min(200)]), refc::hex(r), refc::hex(s), refc::hex(&got), refc::hex(&want)
    );
    c.count("authenticators compared", 1);
    Ok(())
}

fn some_r(r: &mut Rng) -> [u8; 16] {
    let mut v: [u8; 16] = r.arr();
    match r.below(8) {
        0 => v = [0xff; 16],
        1 => {
            v = [0; 16];
            v[0] = *r.pick(&[1, 2, 3, 4, 5]);
        }
        2 => {
            v = [0; 16];
            v[r.below(16)] = 0xff;
        }
        3 => v = [0; 16],
        4 => v[r.below(4) * 4 + 3] |= 0xf0, // bits that have to be cleared
        _ => {}
    }
    v
}
fn some_s(r: &mut Rng) -> [u8; 16] {
    match r.below(4) {
        0 => [0; 16],
        1 => [0xff; 16],
        _ => r.arr(),
    }
}
fn auth(c: &mut Case) -> Verdict {
    for _ in 0..10 {
        let n = match c.rng.below(5) {
            0 => c.rng.below(50),
            1 => 16 * c.rng.below(40),
            2 => c.rng.size(1500),
            _ => c.rng.below(300),
        };
        let m = some(&mut c.rng, n);
        let (r, s) = (some_r(&mut c.rng), some_s(&mut c.rng));
        tag(c, "random", &m, &r, &s)?;
        c.sig(&m);
        c.sig(&r);
    }
    Ok(())
}

fn le16(x: &BigUint) -> Option<[u8; 16]> {
    let b = x.to_bytes_le();
    if b.len() > 16 {
        return None;
    }
    let mut o = [0; 16];
    o[..b.len()].copy_from_slice(&b);
    Some(o)
}
fn clamp(r: &[u8; 16]) -> BigUint {
    let mut v = *r;
    for i in [3, 7, 11, 15] {
        v[i] &= 15;
    }
    for i in [4, 8, 12] {
        v[i] &= 252;
    }
    BigUint::from_bytes_le(&v)
}

/// accumulator values of every special kind before the final reduction: a last block is computed that
/// leads there
fn field_limits(c: &mut Case) -> Verdict {
    let one = BigUint::from(1u32);
    let p = (&one << 130) - 5u32;
    let mut hit = 0;
    for _ in 0..40 {
        let mut r = some_r(&mut c.rng);
        let mut rc = clamp(&r);
        if rc == BigUint::from(0u32) {
            r = [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
            rc = one.clone();
        }
        // the residue to reach
        let small = BigUint::from(c.rng.below(12) as u32);
        let target = match c.rng.below(10) {
            // what the accumulator holds as a number above the prime before the last reduction: any size up to
            // the largest such excess, above all around the limits of the lowest limb
            8 => BigUint::from(c.rng.u64() >> c.rng.range(30, 50)),
            9 => BigUint::from((c.rng.below(64) as u64) << 26) + small,
            0 => small,
            1 => &p - one.clone() - small,
            2 => ((&one << 128) + small) % &p,
            3 => ((&one << 128) - one.clone() - small) % &p,
            // 26-bit limbs full or empty
            4 | 5 => {
                let mut t = BigUint::from(0u32);
                for i in 0..5 {
                    let l: u32 = *c.rng.pick(&[0, 0x3ff_ffff, 0x3ff_ffff, 1, 0x3ff_fffb, 0x200_0000]);
                    t += BigUint::from(l) << (26 * i);
                }
                t % &p
            }
            // 32-bit words full or empty
            6 => {
                let mut t = BigUint::from(c.rng.below(4) as u32);
                for _ in 0..4 {
                    t = (t << 32) + BigUint::from(*c.rng.pick(&[0u32, u32::MAX, u32::MAX, 1]));
                }
                t % &p
            }
            _ => BigUint::from_bytes_le(&c.rng.bytes(17)) % &p,
        };
        let rinv = rc.modpow(&(&p - 2u32), &p);
        let need = (&target * &rinv) % &p; // accumulator + last block
        // earlier blocks until the last one fits into 16 bytes (plus its marker bit)
        for _ in 0..40 {
            let k = c.rng.range(0, 4);
            let m = some(&mut c.rng, 16 * k);
            let mut acc = BigUint::from(0u32);
            for b in m.chunks(16) {
                acc = (acc + BigUint::from_bytes_le(b) + (&one << 128)) * &rc % &p;
            }
            let last = (&need + &p + &p - &acc) % &p;
            // full block: last - 2^128; short block of n bytes: last - 2^(8n)
            let hi = &one << 128;
            let mut msg = m.clone();
            if last >= hi {
                if let Some(b) = le16(&(&last - &hi)) {
                    msg.extend(b);
                } else {
                    continue;
                }
            } else {
                // the top byte has to be the marker
                let b = last.to_bytes_le();
                if b.last() != Some(&1) || b.len() < 2 {
                    continue;
                }
                msg.extend(&b[..b.len() - 1]);
            }
            let s = some_s(&mut c.rng);
            tag(c, "chosen residue", &msg, &r, &s)?;
            hit += 1;
            c.sig(&msg);
            break;
        }
    }
    c.count("chosen residues reached", hit);
    Ok(())
}

/// with r = 1 the accumulator is a plain sum: values between 2^130-5 and 2^130 and around multiples
fn no_reduction(c: &mut Case) -> Verdict {
    let one = BigUint::from(1u32);
    for _ in 0..40 {
        let mut r = [0; 16];
        r[0] = *c.rng.pick(&[1, 1, 1, 2, 4]);
        let m = BigUint::from(r[0]);
        // a number near j * 2^130 (or 2^128), as the sum of k blocks with their marker bits
        let k = c.rng.range(1, 12);
        let hi = &one << 128;
        let sum_min = &hi * (k as u32);
        let j = c.rng.range(1, 5) as u32;
        let base = if c.rng.chance(3, 4) { (&one << 130) * j } else { &hi * (k as u32 + j) };
        let d = c.rng.below(12) as u32;
        let goal = if c.rng.chance(1, 2) { base + d } else { base - d };
        let goal = if r[0] == 1 { goal } else { goal / &m };
        if goal < sum_min {
            continue;
        }
        let mut rest: BigUint = goal - sum_min;
        let max = &hi - 1u32;
        let mut blocks = vec![];
        for i in 0..k {
            let left = BigUint::from((k - 1 - i) as u32) * &max;
            let lo = if rest > left { &rest - &left } else { BigUint::from(0u32) };
            let up = if rest < max { rest.clone() } else { max.clone() };
            if lo > up {
                break;
            }
            let b = match c.rng.below(3) {
                0 => lo.clone(),
                1 => up.clone(),
                _ => &lo + BigUint::from_bytes_le(&c.rng.bytes(20)) % (&up - &lo + 1u32),
            };
            rest -= &b;
            blocks.push(b);
        }
        if blocks.len() < k || rest != BigUint::from(0u32) {
            continue;
        }
        let msg: Vec<u8> = blocks.iter().flat_map(|b| le16(b).unwrap()).collect();
        let s = some_s(&mut c.rng);
        tag(c, "sum near the modulus", &msg, &r, &s)?;
        c.count("sums near the modulus", 1);
        c.sig(&msg);
    }
    Ok(())
}

fn vectors(c: &mut Case) -> Verdict {
    // RFC 8439 section 2.8.2
    let key: Vec<u8> = (0x80..0xa0).collect();
    let nonce = refc::unhex("070000004041424344454647");
    let ad = refc::unhex("50515253c0c1c2c3c4c5c6c7");
    let pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
    let got = husk(|| ChaCha20Poly1305.new_encryptor(key.clone()).encrypt(&nonce, pt, &ad));
    ensure!(
        refc::hex(&got[..16]) == "d31a8d34648e60db7b86afbc53ef7ec2" && refc::hex(&got[114..]) == "1ae10b594f09e26a7e902ecbd0600691",
        "the AEAD vector of RFC 8439"
    );
    // appendix A.3, vectors 7 to 11: the corners of Poly1305
    let z = "00".repeat(16);
    let f = "ff".repeat(16);
    let two = format!("02{}", "00".repeat(15));
    let one = format!("01{}", "00".repeat(15));
    let v: [(&str, &str, String, &str); 6] = [
        (&two, &z, f.clone(), "03000000000000000000000000000000"),
        (&two, &f, two.clone(), "03000000000000000000000000000000"),
        (&one, &z, format!("{}f0ffffffffffffffffffffffffffffff11{}", f, "00".repeat(15)), "05000000000000000000000000000000"),
        (&one, &z, format!("{}fbfefefefefefefefefefefefefefefe{}", f, "01".repeat(16)), "00000000000000000000000000000000"),
        (&two, &z, format!("fd{}", "ff".repeat(15)), "faffffffffffffffffffffffffffffff"),
        ("01000000000000000400000000000000", &z, "e33594d7505e43b900000000000000003394d7505e4379cd01000000000000000000000000000000000000000000000001000000000000000000000000000000".into(), "14000000000000005500000000000000"),
    ];
    for (r, s, m, t) in v {
        let (r, s): ([u8; 16], [u8; 16]) = (refc::unhex(r).try_into().unwrap(), refc::unhex(s).try_into().unwrap());
        let got = husk(|| poly1305::authenticate(&refc::unhex(&m), &r, &s));
        ensure!(refc::hex(&got) == t, "RFC 8439 A.3: tag of {} is {} instead of {}", m, refc::hex(&got), t);
    }
    c.count("published vectors", 7);
    c.sig(&got);
    Ok(())
}

fn run(m: &Mon) {
    m.par("vectors", 1, vectors);
    m.par("length", m.q(50 * 14, 50 * 60), lengths);
    m.par("every-length", 129, every_length);
    m.par("random", m.q(400, 20_000), random);
    m.cpu_limit_s.store(600, std::sync::atomic::Ordering::SeqCst);
    m.par("long", LONG.len() - 1, |c| long(c, c.idx));
    m.par_n("longest", 1, 1, |c| long(c, LONG.len() - 1));
    // lengths next to the numbers that occur in the code
    let nums = huskmon::dict::around(3, m.q(140_000, 20_000_000));
    m.par("number", nums.len(), |c| {
        let n = nums[c.idx];
        long_of(c, n, 13)?;
        long_of(c, 40, n)
    });
    m.par("reuse", m.q(200, 10_000), reuse);
    m.par("forge", m.q(80, 3000), forge);
    m.par("forge-long", m.q(8, 300), forge_long);
    m.par("stream", m.q(400, 20_000), stream);
    m.par("long-stream", m.q(1, 2), long_stream);
    m.par("authenticator", m.q(800, 40_000), auth);
    m.par("field-limit", m.q(200, 10_000), field_limits);
    m.par("sum", m.q(150, 8000), no_reduction);
    m.require("sealed and opened", 10_000);
    m.require("forgeries refused", 50_000);
    m.require("chosen residues reached", 2000);
    m.require("sums near the modulus", 800);
}

fn main() {
    mon::main(
        "C14",
        "an execution protects, opens, forges or authenticates with generated keys and data; distinct by the data",
        run,
    );
}
