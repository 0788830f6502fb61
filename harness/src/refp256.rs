//! Reference P-256: Montgomery arithmetic on 4x64-bit limbs with Jacobian coordinates (used by the
//! reference server), and an affine arbitrary-precision version (the definition) that the self test
//! compares it with. Shares no code with husk.
use num_bigint::BigUint;
use std::sync::OnceLock;

pub type Fe = [u64; 4];

pub fn big(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}

pub struct Curve {
    pub p: BigUint,
    pub n: BigUint,
    pub b: BigUint,
    pub gx: BigUint,
    pub gy: BigUint,
    pm: Fe,
    rr: Fe,
    one: Fe,
    inv: u64,
}

pub fn curve() -> &'static Curve {
    static C: OnceLock<Curve> = OnceLock::new();
    C.get_or_init(|| {
        // SEC 2 / FIPS 186-4
        let p = big("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
        let n = big("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
        let b = big("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b");
        let gx = big("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296");
        let gy = big("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5");
        let pm = to_fe(&p);
        let r = (BigUint::from(1u8) << 256) % &p;
        let rr = (&r * &r) % &p;
        // -p^-1 mod 2^64 by Newton
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(pm[0].wrapping_mul(inv)));
        }
        Curve {
            pm,
            rr: to_fe(&rr),
            one: to_fe(&r),
            inv: inv.wrapping_neg(),
            p,
            n,
            b,
            gx,
            gy,
        }
    })
}

pub fn to_fe(x: &BigUint) -> Fe {
    let mut f = [0; 4];
    for (i, d) in x.to_u64_digits().iter().enumerate() {
        f[i] = *d;
    }
    f
}
pub fn from_fe(x: &Fe) -> BigUint {
    let mut r = BigUint::from(0u8);
    for i in (0..4).rev() {
        r = (r << 64) + BigUint::from(x[i]);
    }
    r
}
pub fn be32(x: &BigUint) -> [u8; 32] {
    let b = x.to_bytes_be();
    let mut o = [0; 32];
    o[32 - b.len()..].copy_from_slice(&b);
    o
}
pub fn from_be(b: &[u8]) -> BigUint {
    BigUint::from_bytes_be(b)
}

fn geq(a: &Fe, b: &Fe) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_raw(a: &Fe, b: &Fe) -> (Fe, bool) {
    let mut o = [0; 4];
    let mut br = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(br as u64);
        o[i] = x;
        br = b1 || b2;
    }
    (o, br)
}
fn add_raw(a: &Fe, b: &Fe) -> (Fe, bool) {
    let mut o = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        o[i] = c as u64;
        c >>= 64;
    }
    (o, c != 0)
}
fn fadd(a: &Fe, b: &Fe) -> Fe {
    let pm = &curve().pm;
    let (s, c) = add_raw(a, b);
    if c || geq(&s, pm) {
        sub_raw(&s, pm).0
    } else {
        s
    }
}
fn fsub(a: &Fe, b: &Fe) -> Fe {
    let (s, br) = sub_raw(a, b);
    if br {
        add_raw(&s, &curve().pm).0
    } else {
        s
    }
}
fn fmul(a: &Fe, b: &Fe) -> Fe {
    let cv = curve();
    let pm = &cv.pm;
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            c += t[j] as u128 + a[i] as u128 * b[j] as u128;
            t[j] = c as u64;
            c >>= 64;
        }
        c += t[4] as u128;
        t[4] = c as u64;
        t[5] = (c >> 64) as u64;
        let m = t[0].wrapping_mul(cv.inv);
        let mut c = (t[0] as u128 + m as u128 * pm[0] as u128) >> 64;
        for j in 1..4 {
            c += t[j] as u128 + m as u128 * pm[j] as u128;
            t[j - 1] = c as u64;
            c >>= 64;
        }
        c += t[4] as u128;
        t[3] = c as u64;
        t[4] = t[5] + (c >> 64) as u64;
        t[5] = 0;
    }
    let r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(&r, pm) {
        sub_raw(&r, pm).0
    } else {
        r
    }
}

/// an affine point; None is infinity
pub type Pt = Option<(BigUint, BigUint)>;

#[derive(Clone, Copy)]
struct Jac {
    x: Fe,
    y: Fe,
    z: Fe,
}

fn jdbl(p: &Jac) -> Jac {
    if p.z == [0; 4] {
        return *p;
    }
    // dbl-2001-b (a = -3)
    let delta = fmul(&p.z, &p.z);
    let gamma = fmul(&p.y, &p.y);
    let beta = fmul(&p.x, &gamma);
    let t = fmul(&fsub(&p.x, &delta), &fadd(&p.x, &delta));
    let alpha = fadd(&fadd(&t, &t), &t);
    let b2 = fadd(&beta, &beta);
    let b4 = fadd(&b2, &b2);
    let b8 = fadd(&b4, &b4);
    let x = fsub(&fmul(&alpha, &alpha), &b8);
    let yz = fadd(&p.y, &p.z);
    let z = fsub(&fsub(&fmul(&yz, &yz), &gamma), &delta);
    let g2 = fmul(&gamma, &gamma);
    let g2 = fadd(&g2, &g2);
    let g4 = fadd(&g2, &g2);
    let g8 = fadd(&g4, &g4);
    let y = fsub(&fmul(&alpha, &fsub(&b4, &x)), &g8);
    Jac { x, y, z }
}
fn jadd(p: &Jac, q: &Jac) -> Jac {
    if p.z == [0; 4] {
        return *q;
    }
    if q.z == [0; 4] {
        return *p;
    }
    let z1 = fmul(&p.z, &p.z);
    let z2 = fmul(&q.z, &q.z);
    let u1 = fmul(&p.x, &z2);
    let u2 = fmul(&q.x, &z1);
    let s1 = fmul(&p.y, &fmul(&z2, &q.z));
    let s2 = fmul(&q.y, &fmul(&z1, &p.z));
    let h = fsub(&u2, &u1);
    let r = fsub(&s2, &s1);
    if h == [0; 4] {
        if r == [0; 4] {
            return jdbl(p);
        }
        return Jac { x: curve().one, y: curve().one, z: [0; 4] };
    }
    let hh = fmul(&h, &h);
    let hhh = fmul(&h, &hh);
    let v = fmul(&u1, &hh);
    let x = fsub(&fsub(&fmul(&r, &r), &hhh), &fadd(&v, &v));
    let y = fsub(&fmul(&r, &fsub(&v, &x)), &fmul(&s1, &hhh));
    let z = fmul(&fmul(&p.z, &q.z), &h);
    Jac { x, y, z }
}

/// [k]P
pub fn mul(k: &BigUint, p: &Pt) -> Pt {
    let cv = curve();
    let (x, y) = match p {
        None => return None,
        Some(q) => q,
    };
    let q = Jac {
        x: fmul(&to_fe(x), &cv.rr),
        y: fmul(&to_fe(y), &cv.rr),
        z: cv.one,
    };
    let mut acc = Jac { x: cv.one, y: cv.one, z: [0; 4] };
    for i in (0..k.bits()).rev() {
        acc = jdbl(&acc);
        if k.bit(i) {
            acc = jadd(&acc, &q);
        }
    }
    if acc.z == [0; 4] {
        return None;
    }
    let un = |a: &Fe| from_fe(&fmul(a, &[1, 0, 0, 0]));
    let z = un(&acc.z);
    let zi = z.modpow(&(&cv.p - BigUint::from(2u8)), &cv.p);
    let zi2 = &zi * &zi % &cv.p;
    let zi3 = &zi2 * &zi % &cv.p;
    Some((un(&acc.x) * zi2 % &cv.p, un(&acc.y) * zi3 % &cv.p))
}

pub fn g() -> Pt {
    Some((curve().gx.clone(), curve().gy.clone()))
}

pub fn on_curve(x: &BigUint, y: &BigUint) -> bool {
    let c = curve();
    if x >= &c.p || y >= &c.p {
        return false;
    }
    let l = y * y % &c.p;
    let r = (x * x * x + (&c.p - BigUint::from(3u8)) * x + &c.b) % &c.p;
    l == r
}

/// the y with y^2 = x^3 - 3x + b, if any (p = 3 mod 4)
pub fn lift_x(x: &BigUint) -> Option<BigUint> {
    let c = curve();
    let r = (x * x * x + (&c.p - BigUint::from(3u8)) * x + &c.b) % &c.p;
    let e = (&c.p + BigUint::from(1u8)) >> 2;
    let y = r.modpow(&e, &c.p);
    if &y * &y % &c.p == r {
        Some(y)
    } else {
        None
    }
}

/// a point that misses the curve narrowly: its y^2 is x^3 - 3x + b with a few bits of the canonical value changed
/// (one bit, one byte, one word, two words alike, everything but a word)
pub fn near_miss(r: &mut crate::prng::Rng, i: usize) -> (String, BigUint, BigUint) {
    let c = curve();
    let e = (&c.p + BigUint::from(1u8)) >> 2;
    let one = BigUint::from(1u8);
    let byte = |r: &mut crate::prng::Rng| BigUint::from(r.range(1, 256) as u32);
    loop {
        let x = from_be(&r.bytes(32)) % &c.p;
        let rhs = (&x * &x * &x + (&c.p - BigUint::from(3u8)) * &x + &c.b) % &c.p;
        let (what, mask) = if i < 256 {
            (format!("bit {}", i), &one << i)
        } else if i < 288 {
            (format!("byte {}", i - 256), byte(r) << (8 * (i - 256)))
        } else if i < 296 {
            (format!("word {}", i - 288), BigUint::from(r.u64() as u32 | 1) << (32 * (i - 288)))
        } else if i < 300 {
            (format!("double word {}", i - 296), BigUint::from(r.u64() | 1) << (64 * (i - 296)))
        } else if i < 360 {
            // the same change in two places: an accumulation by xor or by sum misses it
            let (a, b) = ((i - 300) % 8, (i - 300) / 8);
            if a == b {
                return near_miss(r, a);
            }
            let m = BigUint::from(r.u64() as u32 | 1);
            (format!("words {} and {} alike", a, b), (&m << (32 * a)) | (&m << (32 * b)))
        } else {
            // everything but one word
            let k = (i - 360) % 8;
            let m = from_be(&r.bytes(32));
            let hole = BigUint::from(u32::MAX) << (32 * k);
            (format!("all but word {}", k), &m ^ (&m & &hole))
        };
        let v = &rhs ^ &mask;
        if v == rhs || v >= c.p {
            continue;
        }
        let y = v.modpow(&e, &c.p);
        if &y * &y % &c.p == v {
            return (what, x, y);
        }
    }
}
/// how many kinds `near_miss` knows
pub const NEAR: usize = 368;

/// affine addition from the textbook
pub fn add_affine(a: &Pt, b: &Pt) -> Pt {
    let p = &curve().p;
    let (x1, y1) = match a {
        None => return b.clone(),
        Some(v) => v,
    };
    let (x2, y2) = match b {
        None => return a.clone(),
        Some(v) => v,
    };
    let two = BigUint::from(2u8);
    let inv = |v: &BigUint| v.modpow(&(p - &two), p);
    let l = if x1 == x2 {
        if (y1 + y2) % p == BigUint::from(0u8) {
            return None;
        }
        let num = (BigUint::from(3u8) * x1 * x1 + p - BigUint::from(3u8)) % p;
        num * inv(&(&two * y1 % p)) % p
    } else {
        (y2 + p - y1) % p * inv(&((x2 + p - x1) % p)) % p
    };
    let x3 = (&l * &l + p + p - x1 - x2) % p;
    let y3 = (l * (x1 + p - &x3) + p - y1) % p;
    Some((x3, y3))
}

pub fn mul_affine(k: &BigUint, p: &Pt) -> Pt {
    let mut acc: Pt = None;
    for i in (0..k.bits()).rev() {
        acc = add_affine(&acc, &acc);
        if k.bit(i) {
            acc = add_affine(&acc, p);
        }
    }
    acc
}

pub fn encode(p: &Pt) -> Vec<u8> {
    match p {
        None => vec![0],
        Some((x, y)) => {
            let mut v = vec![4];
            v.extend_from_slice(&be32(x));
            v.extend_from_slice(&be32(y));
            v
        }
    }
}
pub fn decode(b: &[u8]) -> Option<(BigUint, BigUint)> {
    if b.len() != 65 || b[0] != 4 {
        return None;
    }
    let (x, y) = (from_be(&b[1..33]), from_be(&b[33..]));
    if on_curve(&x, &y) {
        Some((x, y))
    } else {
        None
    }
}

/// a point with y < 2^64: solve x^3 - 3x + b - y^2 = 0 by Newton-free root finding (Cantor-Zassenhaus
/// on a cubic): gcd(X^p - X, f)
pub fn small_y(r: &mut crate::prng::Rng) -> Option<(BigUint, BigUint)> {
    let cv = curve();
    let p = &cv.p;
    type Poly = [BigUint; 3];
    for _ in 0..12 {
        let y = BigUint::from(r.u64() >> r.below(60));
        let c0 = (&cv.b + p - (&y * &y % p)) % p;
        // f = X^3 - 3X + c0; arithmetic modulo f
        let mulf = |a: &Poly, b: &Poly| -> Poly {
            let mut t = vec![BigUint::from(0u32); 5];
            for i in 0..3 {
                for j in 0..3 {
                    t[i + j] = (&t[i + j] + &a[i] * &b[j]) % p;
                }
            }
            for d in (3..5).rev() {
                // X^d = X^(d-3) * (3X - c0)
                let h = std::mem::take(&mut t[d]);
                t[d - 2] = (&t[d - 2] + &h * BigUint::from(3u32)) % p;
                t[d - 3] = (&t[d - 3] + (p - &c0) * &h) % p;
            }
            [t[0].clone(), t[1].clone(), t[2].clone()]
        };
        let powf = |base: Poly, e: &BigUint| -> Poly {
            let z = BigUint::from(0u32);
            let mut acc: Poly = [BigUint::from(1u32), z.clone(), z];
            for i in (0..e.bits()).rev() {
                acc = mulf(&acc, &acc);
                if e.bit(i) {
                    acc = mulf(&acc, &base);
                }
            }
            acc
        };
        // the roots in the field: gcd(X^p - X, f) by Euclid on coefficient vectors
        let trim = |v: &mut Vec<BigUint>| {
            while v.last().map_or(false, |c| *c == BigUint::from(0u32)) {
                v.pop();
            }
        };
        let gcd = |mut a: Vec<BigUint>, mut b: Vec<BigUint>| -> Vec<BigUint> {
            trim(&mut a);
            trim(&mut b);
            while !b.is_empty() {
                while a.len() >= b.len() && !a.is_empty() {
                    let q = a.last().unwrap() * b.last().unwrap().modpow(&(p - BigUint::from(2u32)), p) % p;
                    let s = a.len() - b.len();
                    for i in 0..b.len() {
                        a[i + s] = (&a[i + s] + (p - &q) * &b[i]) % p;
                    }
                    trim(&mut a);
                }
                std::mem::swap(&mut a, &mut b);
            }
            a
        };
        let z = BigUint::from(0u32);
        let one = BigUint::from(1u32);
        let f = vec![c0.clone(), p - BigUint::from(3u32), z.clone(), one.clone()];
        let xp = powf([z.clone(), one.clone(), z.clone()], p);
        let mut d = xp.to_vec();
        d[1] = (&d[1] + p - &one) % p;
        let mut g = gcd(f.clone(), d);
        if g.len() < 2 {
            continue;
        }
        // split until linear
        for _ in 0..40 {
            if g.len() == 2 {
                let inv = g[1].modpow(&(p - BigUint::from(2u32)), p);
                let x = (p - &g[0]) * inv % p;
                return if on_curve(&x, &y) { Some((x, y)) } else { None };
            }
            let a = from_be(&r.bytes(32)) % p;
            let h = powf([a, one.clone(), z.clone()], &((p - &one) >> 1));
            let mut h = h.to_vec();
            h[0] = (&h[0] + p - &one) % p;
            let g2 = gcd(g.clone(), h);
            if g2.len() >= 2 && g2.len() < g.len() {
                g = g2;
            }
        }
    }
    None
}

pub fn self_test() -> Result<(), String> {
    let c = curve();
    if !on_curve(&c.gx, &c.gy) {
        return Err("reference p256: G not on curve".into());
    }
    if mul(&c.n, &g()).is_some() || mul_affine(&c.n, &g()).is_some() {
        return Err("reference p256: [n]G is not infinity".into());
    }
    // NIST CAVS KAS ECC CDH, P-256, COUNT = 0
    let q = Some((
        big("700c48f77f56584c5cc632ca65640db91b6bacce3a4df6b42ce7cc838833d287"),
        big("db71e509e3fd9b060ddb20ba5c51dcc5948d46fbf640dfe0441782cab85fa4ac"),
    ));
    let d = big("7d7dc5f71eb29ddaf80d6214632eeae03d9058af1fb6d22ed80badb62bc1a534");
    let z = mul(&d, &q).unwrap().0;
    if z != big("46fc62106420ff012e54a434fbdd2d25ccc5852060561e68040dd7778997bd7b") {
        return Err("reference p256: CAVS vector".into());
    }
    let mut rng = crate::prng::Rng::new(3);
    for _ in 0..6 {
        let k = from_be(&rng.bytes(32));
        if mul(&k, &q) != mul_affine(&k, &q) {
            return Err("reference p256: the two implementations disagree".into());
        }
    }
    Ok(())
}
