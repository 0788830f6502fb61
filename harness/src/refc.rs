//! Reference SHA-256, HMAC, TLS 1.2 PRF, ChaCha20, Poly1305 and the AEAD, written from FIPS 180-4, RFC 2104,
//! RFC 5246 section 5 and RFC 8439. Shares no code with husk.
use num_bigint::BigUint;

fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = Vec::new();
    let mut c = 2;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}

/// floor(frac(p^(1/k)) * 2^32), by integer roots: the constants of SHA-256 are derived, not typed in
fn root_frac(p: u64, k: u32) -> u32 {
    let n = BigUint::from(p) << (32 * k);
    (n.nth_root(k) & BigUint::from(0xffffffffu32))
        .to_u32_digits()
        .first()
        .copied()
        .unwrap_or(0)
}

struct Consts {
    k: [u32; 64],
    h: [u32; 8],
}

fn consts() -> &'static Consts {
    static C: std::sync::OnceLock<Consts> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let p = primes(64);
        let mut k = [0; 64];
        let mut h = [0; 8];
        for i in 0..64 {
            k[i] = root_frac(p[i], 3);
        }
        for i in 0..8 {
            h[i] = root_frac(p[i], 2);
        }
        Consts { k, h }
    })
}

pub struct Sha256 {
    h: [u32; 8],
    buf: Vec<u8>,
    len: u128,
}

impl Default for Sha256 {
    fn default() -> Self {
        Self::new()
    }
}

impl Sha256 {
    pub fn new() -> Sha256 {
        Sha256 {
            h: consts().h,
            buf: Vec::with_capacity(64),
            len: 0,
        }
    }
    fn block(h: &mut [u32; 8], b: &[u8]) {
        let k = &consts().k;
        let mut w = [0u32; 64];
        for t in 0..16 {
            w[t] = u32::from_be_bytes([b[4 * t], b[4 * t + 1], b[4 * t + 2], b[4 * t + 3]]);
        }
        for t in 16..64 {
            let x = w[t - 2];
            let y = w[t - 15];
            let s1 = x.rotate_right(17) ^ x.rotate_right(19) ^ (x >> 10);
            let s0 = y.rotate_right(7) ^ y.rotate_right(18) ^ (y >> 3);
            w[t] = s1
                .wrapping_add(w[t - 7])
                .wrapping_add(s0)
                .wrapping_add(w[t - 16]);
        }
        let mut s = *h;
        for t in 0..64 {
            let e = s[4];
            let a = s[0];
            let t1 = s[7]
                .wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25))
                .wrapping_add(if_then_else(e, s[5], s[6]))
                .wrapping_add(k[t])
                .wrapping_add(w[t]);
            let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22))
                .wrapping_add(majority(a, s[1], s[2]));
            s = [
                t1.wrapping_add(t2),
                s[0],
                s[1],
                s[2],
                s[3].wrapping_add(t1),
                s[4],
                s[5],
                s[6],
            ];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(s[i]);
        }
    }
    pub fn update(&mut self, mut d: &[u8]) {
        self.len += d.len() as u128;
        if !self.buf.is_empty() {
            let n = (64 - self.buf.len()).min(d.len());
            self.buf.extend_from_slice(&d[..n]);
            d = &d[n..];
            if self.buf.len() == 64 {
                let b = std::mem::take(&mut self.buf);
                Self::block(&mut self.h, &b);
            } else {
                return;
            }
        }
        let mut it = d.chunks_exact(64);
        for b in &mut it {
            Self::block(&mut self.h, b);
        }
        self.buf.extend_from_slice(it.remainder());
    }
    pub fn finish(mut self) -> [u8; 32] {
        let bits = (self.len * 8) as u64;
        let mut pad = vec![0x80u8];
        while (self.buf.len() + pad.len()) % 64 != 56 {
            pad.push(0);
        }
        pad.extend_from_slice(&bits.to_be_bytes());
        self.update(&pad);
        let mut o = [0; 32];
        for i in 0..8 {
            o[4 * i..4 * i + 4].copy_from_slice(&self.h[i].to_be_bytes());
        }
        o
    }
}

fn if_then_else(x: u32, y: u32, z: u32) -> u32 {
    z ^ (x & (y ^ z))
}
fn majority(x: u32, y: u32, z: u32) -> u32 {
    (x & y) | (z & (x | y))
}

pub fn sha256(m: &[u8]) -> [u8; 32] {
    let mut s = Sha256::new();
    s.update(m);
    s.finish()
}

pub fn hmac(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha256(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut inner = Sha256::new();
    inner.update(&k.map(|b| b ^ 0x36));
    inner.update(msg);
    let i = inner.finish();
    let mut outer = Sha256::new();
    outer.update(&k.map(|b| b ^ 0x5c));
    outer.update(&i);
    outer.finish()
}

/// P_hash of RFC 5246 section 5, computed with A(i) indexed from scratch
pub fn p_hash(secret: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut a = seed.to_vec();
    while out.len() < n {
        a = hmac(secret, &a).to_vec();
        let mut m = a.clone();
        m.extend_from_slice(seed);
        out.extend_from_slice(&hmac(secret, &m));
    }
    out.truncate(n);
    out
}

pub fn prf(secret: &[u8], label: &str, seed: &[u8], n: usize) -> Vec<u8> {
    let mut s = label.as_bytes().to_vec();
    s.extend_from_slice(seed);
    p_hash(secret, &s, n)
}

pub fn chacha_block(key: &[u8], counter: u32, nonce: &[u8]) -> [u8; 64] {
    let mut init = [0u32; 16];
    for (i, c) in b"expand 32-byte k".chunks(4).enumerate() {
        init[i] = u32::from_le_bytes([c[0], c[1], c[2], c[3]]);
    }
    for (i, c) in key.chunks(4).enumerate() {
        init[4 + i] = u32::from_le_bytes([c[0], c[1], c[2], c[3]]);
    }
    init[12] = counter;
    for (i, c) in nonce.chunks(4).enumerate() {
        init[13 + i] = u32::from_le_bytes([c[0], c[1], c[2], c[3]]);
    }
    let mut x = init;
    fn qr(x: &mut [u32; 16], i: [usize; 4]) {
        for (k, r) in [(0, 16), (2, 12), (0, 8), (2, 7)] {
            // a += b; d = (d ^ a) <<< r  /  c += d; b = (b ^ c) <<< r
            let (dst, src, t) = if k == 0 { (i[0], i[1], i[3]) } else { (i[2], i[3], i[1]) };
            x[dst] = x[dst].wrapping_add(x[src]);
            x[t] = (x[t] ^ x[dst]).rotate_left(r);
        }
    }
    for round in 0..20 {
        for c in 0..4 {
            let d = if round % 2 == 0 { 0 } else { 1 };
            qr(
                &mut x,
                [
                    c,
                    4 + (c + d) % 4,
                    8 + (c + 2 * d) % 4,
                    12 + (c + 3 * d) % 4,
                ],
            );
        }
    }
    let mut o = [0; 64];
    for i in 0..16 {
        o[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(init[i]).to_le_bytes());
    }
    o
}

pub fn chacha_xor(key: &[u8], counter: u32, nonce: &[u8], data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len());
    let mut c = counter;
    for ch in data.chunks(64) {
        let ks = chacha_block(key, c, nonce);
        c = c.wrapping_add(1);
        out.extend(ch.iter().zip(ks.iter()).map(|(a, b)| a ^ b));
    }
    out
}

/// Poly1305 by arbitrary-precision arithmetic (the definition); slow
pub fn poly1305_big(msg: &[u8], r: &[u8], s: &[u8]) -> [u8; 16] {
    let mut rc = r.to_vec();
    for i in [3, 7, 11, 15] {
        rc[i] &= 15;
    }
    for i in [4, 8, 12] {
        rc[i] &= 252;
    }
    let r = BigUint::from_bytes_le(&rc);
    let s = BigUint::from_bytes_le(s);
    let p = (BigUint::from(1u8) << 130) - BigUint::from(5u8);
    let mut acc = BigUint::from(0u8);
    for c in msg.chunks(16) {
        let mut b = c.to_vec();
        b.push(1);
        acc = ((acc + BigUint::from_bytes_le(&b)) * &r) % &p;
    }
    let t = (acc + s).to_bytes_le();
    let mut o = [0; 16];
    for i in 0..16 {
        o[i] = t.get(i).copied().unwrap_or(0);
    }
    o
}

/// Poly1305 on 64-bit limbs (44-bit radix); checked against `poly1305_big` by the self test
pub fn poly1305(msg: &[u8], r: &[u8], s: &[u8]) -> [u8; 16] {
    let le = |b: &[u8]| u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
    const M44: u64 = (1 << 44) - 1;
    const M42: u64 = (1 << 42) - 1;
    let t0 = le(&r[0..8]) & 0x0ffffffc0fffffff;
    let t1 = le(&r[8..16]) & 0x0ffffffc0ffffffc;
    let r0 = t0 & M44;
    let r1 = ((t0 >> 44) | (t1 << 20)) & M44;
    let r2 = t1 >> 24;
    let (mut h0, mut h1, mut h2) = (0u64, 0u64, 0u64);
    for c in msg.chunks(16) {
        let mut b = [0u8; 17];
        b[..c.len()].copy_from_slice(c);
        b[c.len()] = 1;
        let m0 = le(&b[0..8]);
        let m1 = le(&b[8..16]);
        h0 += m0 & M44;
        h1 += ((m0 >> 44) | (m1 << 20)) & M44;
        h2 += (m1 >> 24) | ((b[16] as u64) << 40);
        let m = |a: u64, b: u64| a as u128 * b as u128;
        let d0 = m(h0, r0) + m(h1, r2 * 20) + m(h2, r1 * 20);
        let d1 = m(h0, r1) + m(h1, r0) + m(h2, r2 * 20);
        let d2 = m(h0, r2) + m(h1, r1) + m(h2, r0);
        h0 = d0 as u64 & M44;
        let d1 = d1 + (d0 >> 44);
        h1 = d1 as u64 & M44;
        let d2 = d2 + (d1 >> 44);
        h2 = d2 as u64 & M42;
        let c = (d2 >> 42) as u64;
        h0 += c * 5;
        h1 += h0 >> 44;
        h0 &= M44;
    }
    for _ in 0..3 {
        h1 += h0 >> 44;
        h0 &= M44;
        h2 += h1 >> 44;
        h1 &= M44;
        h0 += (h2 >> 42) * 5;
        h2 &= M42;
    }
    // h -= p if h >= p
    let g0 = h0 + 5;
    let g1 = h1 + (g0 >> 44);
    let g2 = h2 + (g1 >> 44);
    if g2 >> 42 != 0 {
        h0 = g0 & M44;
        h1 = g1 & M44;
        h2 = g2 & M42;
    }
    let h = h0 as u128 | (h1 as u128) << 44 | (h2 as u128) << 88;
    let s = le(&s[0..8]) as u128 | (le(&s[8..16]) as u128) << 64;
    h.wrapping_add(s).to_le_bytes()
}

pub fn aead_tag(key: &[u8], nonce: &[u8], ad: &[u8], ct: &[u8]) -> [u8; 16] {
    let pk = chacha_block(key, 0, nonce);
    let mut m = ad.to_vec();
    m.resize(m.len().div_ceil(16) * 16, 0);
    m.extend_from_slice(ct);
    m.resize(m.len().div_ceil(16) * 16, 0);
    m.extend_from_slice(&(ad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    poly1305(&m, &pk[..16], &pk[16..32])
}

pub fn seal(key: &[u8], nonce: &[u8], ad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut ct = chacha_xor(key, 1, nonce, pt);
    let t = aead_tag(key, nonce, ad, &ct);
    ct.extend_from_slice(&t);
    ct
}

pub fn open(key: &[u8], nonce: &[u8], ad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    if ct.len() < 16 {
        return None;
    }
    let (c, t) = ct.split_at(ct.len() - 16);
    if aead_tag(key, nonce, ad, c) != t {
        return None;
    }
    Some(chacha_xor(key, 1, nonce, c))
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|b| b.is_ascii_hexdigit()).collect();
    s.chunks(2)
        .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap())
        .collect()
}

/// Known answers from the standards: the reference must be right before it judges anything.
pub fn self_test() -> Result<(), String> {
    let eq = |n: &str, a: &[u8], b: &str| {
        if a == &unhex(b)[..] {
            Ok(())
        } else {
            Err(format!("reference self test {}: {}", n, hex(a)))
        }
    };
    eq("sha256('')", &sha256(b""), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")?;
    eq("sha256(abc)", &sha256(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")?;
    eq("sha256(a*1e6)", &sha256(&vec![b'a'; 1_000_000]), "cdc76e5c9914fb9281a1c7e284d73e67f1809a48a497200e046d39ccc7112cd0")?;
    // RFC 4231 cases 2 and 6
    eq("hmac2", &hmac(b"Jefe", b"what do ya want for nothing?"), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843")?;
    eq("hmac6", &hmac(&[0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First"), "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54")?;
    // the widely used P_SHA256 vector
    eq("prf", &prf(&unhex("9bbe436ba940f017b17652849a71db35"), "test label", &unhex("a0ba9f936cda311827a6f796ffd5198c"), 100),
        "e3f229ba727be17b8d122620557cd453c2aab21d07c3d495329b52d4e61edb5a6b301791e90d35c9c9a46b4e14baf9af0fa022f7077def17abfd3797c0564bab4fbc91666e9def9b97fce34f796789baa48082d122ee42c5a72e5a5110fff70187347b66")?;
    // RFC 8439 2.3.2, 2.5.2, 2.8.2
    let key: Vec<u8> = (0..32).collect();
    eq("chacha block", &chacha_block(&key, 1, &unhex("000000090000004a00000000")),
        "10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e")?;
    let pr = unhex("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b");
    eq("poly1305", &poly1305(b"Cryptographic Forum Research Group", &pr[..16], &pr[16..]), "a8061dc1305136c6c22b8baf0c0127a9")?;
    let k: Vec<u8> = (0x80..0xa0).collect();
    let pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
    let ct = seal(&k, &unhex("070000004041424344454647"), &unhex("50515253c0c1c2c3c4c5c6c7"), pt);
    eq("aead tag", &ct[ct.len() - 16..], "1ae10b594f09e26a7e902ecbd0600691")?;
    eq("aead ct", &ct[..16], "d31a8d34648e60db7b86afbc53ef7ec2")?;
    let mut rng = crate::prng::Rng::new(7);
    for i in 0..400 {
        let (n, kind) = (rng.below(80), i % 3);
        let f = |rng: &mut crate::prng::Rng, n| match kind {
            0 => rng.bytes(n),
            1 => vec![0xff; n],
            _ => (0..n).map(|_| *rng.pick(&[0u8, 0xff, 0xfb, 4])).collect(),
        };
        let (m, r, s) = (f(&mut rng, n), f(&mut rng, 16), f(&mut rng, 16));
        if poly1305(&m, &r, &s) != poly1305_big(&m, &r, &s) {
            return Err("reference poly1305 disagrees with its definition".into());
        }
    }
    Ok(())
}
