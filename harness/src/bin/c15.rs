//! C15: P-256 arithmetic agrees with arbitrary-precision arithmetic for scalars, points and field elements.
use husk::cipher::ecdhe::EllipticDiffieHellman;
use husk::cipher::KeyExchange;
use husk::crypto::p256::int256::{Int256, ONE, P256, ZERO};
use husk::crypto::p256::{NPoint256, Point256, B, G};
use huskmon::mon::{self, husk, Case, Mon, Verdict};
use huskmon::prng::Rng;
use huskmon::refp256::{self, be32, curve, from_be, Pt};
use huskmon::{ensure, entropy, refc, wire};
use num_bigint::BigUint;
use std::num::Wrapping;

fn num(n: u64) -> BigUint {
    BigUint::from(n)
}

/// any 256-bit value as husk's type, without reduction
fn raw(x: &BigUint) -> Int256 {
    let d = x.to_u32_digits();
    let mut v = [Wrapping(0u32); 8];
    for (i, d) in d.iter().enumerate() {
        v[i] = Wrapping(*d);
    }
    Int256 { v }
}
fn val(x: &Int256) -> BigUint {
    BigUint::new(x.v.iter().map(|w| w.0).collect())
}
fn two256() -> BigUint {
    num(1) << 256
}

const LIMBS: [u32; 9] = [0, 1, 2, 0x7fff_ffff, 0x8000_0000, 0xffff_fffd, 0xffff_fffe, 0xffff_ffff, 0x0001_0000];

fn limbs(r: &mut Rng, n: usize) -> BigUint {
    let few = r.range(1, LIMBS.len());
    BigUint::new(
        (0..n)
            .map(|_| if r.chance(1, 40) { r.number(u32::MAX as usize).unwrap_or(0) as u32 } else if r.chance(1, 9) { r.u64() as u32 } else { LIMBS[r.below(few + 1).min(LIMBS.len() - 1)] ^ if r.chance(1, 40) { 1 } else { 0 } })
            .collect(),
    )
}
fn spec(r: &mut Rng, n: usize) -> BigUint {
    if r.chance(1, 2) {
        limbs(r, n)
    } else {
        BigUint::new((0..n).map(|_| *r.pick(&LIMBS)).collect())
    }
}

/// a 256-bit value, with a taste for limits
fn any256(r: &mut Rng) -> BigUint {
    let p = &curve().p;
    match r.below(8) {
        0 => spec(r, 8),
        1 => {
            let d = num(r.u64() >> r.below(64));
            if r.chance(1, 2) { p + d % num(1 << 32) } else { p - d % num(1 << 32) }
        }
        2 => num(r.u64() >> r.below(64)),
        3 => {
            let k = r.below(256);
            let x = num(1) << k;
            match r.below(3) {
                0 => x,
                1 => x - 1u32,
                _ => two256() - x,
            }
        }
        4 => {
            // a run of ones
            let a = r.below(256);
            let b = r.range(a, 256);
            (num(1) << b) - (num(1) << a)
        }
        5 => {
            // p with some limbs replaced
            let mut d = p.to_u32_digits();
            for _ in 0..r.range(1, 3) {
                d[r.below(8)] = *r.pick(&LIMBS);
            }
            BigUint::new(d)
        }
        _ => from_be(&r.bytes(32)),
    }
}
fn elem(r: &mut Rng) -> BigUint {
    any256(r) % &curve().p
}

fn field_same(c: &mut Case, what: &'static str, args: &[&BigUint], got: Int256, want: &BigUint) -> Verdict {
    c.count("field operations", 1);
    let got = val(&got);
    ensure!(
        &got == want,
        "{}({}) = {:x} instead of {:x}",
        what,
        args.iter().map(|a| format!("{:x}", a)).collect::<Vec<_>>().join(", "),
        got,
        want
    );
    Ok(())
}

fn binary(c: &mut Case, a: &BigUint, b: &BigUint) -> Verdict {
    let p = &curve().p;
    let (x, y) = (raw(a), raw(b));
    field_same(c, "add", &[a, b], husk(|| x.add(&y)), &((a + b) % p))?;
    field_same(c, "sub", &[a, b], husk(|| x.sub(&y)), &((a + p - b) % p))?;
    field_same(c, "mult", &[a, b], husk(|| x.mult(&y)), &(a * b % p))?;
    let cmp = husk(|| x.compare(&y)).0;
    ensure!((cmp == 0) == (a == b) && cmp <= 1, "compare({:x}, {:x}) = {}", a, b, cmp);
    field_same(c, "choose 0", &[a, b], husk(|| Int256::choose(Wrapping(0), &x, &y)), a)?;
    field_same(c, "choose 1", &[a, b], husk(|| Int256::choose(Wrapping(1), &x, &y)), b)
}
fn unary(c: &mut Case, a: &BigUint) -> Verdict {
    let p = &curve().p;
    let x = raw(a);
    field_same(c, "double", &[a], husk(|| x.double()), &((a + a) % p))?;
    field_same(c, "square", &[a], husk(|| x.square()), &(a * a % p))?;
    let half = if a.bit(0) { (a + p) >> 1 } else { a >> 1 };
    field_same(c, "divide_by_2", &[a], husk(|| x.divide_by_2()), &half)?;
    ensure!(husk(|| x.to_bytes()) == be32(a), "to_bytes({:x})", a);
    Ok(())
}

fn field(c: &mut Case) -> Verdict {
    for _ in 0..200 {
        let (a, b) = (elem(&mut c.rng), elem(&mut c.rng));
        binary(c, &a, &b)?;
        binary(c, &a, &a)?;
        unary(c, &a)?;
        c.sigs(&format!("{:x} {:x}", a, b));
    }
    Ok(())
}

/// differences of one bit in every position, for compare
fn bits(c: &mut Case) -> Verdict {
    let p = &curve().p;
    let a = if c.idx == 0 { num(0) } else { elem(&mut c.rng) };
    for i in 0..256u64 {
        let mut b = a.clone();
        b.set_bit(i, !a.bit(i));
        let cmp = husk(|| raw(&a).compare(&raw(&b))).0;
        ensure!(cmp == 1, "compare says that values differing in bit {} are equal", i);
        if &b < p {
            binary(c, &a, &b)?;
            binary(c, &b, &a)?;
        }
    }
    c.sigs(&format!("{:x}", a));
    Ok(())
}

/// products chosen by their upper half: the reduction's terms get any wanted value
fn products(c: &mut Case) -> Verdict {
    let p = &curve().p;
    for _ in 0..400 {
        let mut hi = spec(&mut c.rng, 8).to_u32_digits();
        hi.resize(8, 0);
        // as limbs 8..15 of the product: make one of the reduction's terms close to the modulus
        let v = |i: usize| i - 8;
        match c.rng.below(8) {
            0 => { hi[v(8)] = !0; hi[v(13)] = c.rng.below(3) as u32; }
            1 => { hi[v(15)] = !0; hi[v(14)] = c.rng.below(3) as u32; hi[v(8)] = !0; hi[v(9)] = !0; hi[v(10)] = !0 - c.rng.below(2) as u32; }
            2 => { hi[v(10)] = !0; hi[v(8)] = c.rng.below(3) as u32; hi[v(11)] = !0; hi[v(12)] = !0; hi[v(13)] = !0; }
            3 => { hi[v(11)] = !0; hi[v(9)] = c.rng.below(3) as u32; hi[v(12)] = !0; hi[v(13)] = !0; hi[v(14)] = !0; }
            4 => { hi[v(12)] = !0; hi[v(13)] = !0; hi[v(14)] = !0; hi[v(15)] = !0; }
            5 => { hi[v(13)] = !0; hi[v(14)] = !0; hi[v(15)] = !0; }
            6 => { hi[v(15)] = !0; hi[v(14)] = c.rng.below(3) as u32; hi[v(13)] = 0; hi[v(12)] = 0; }
            _ => {}
        }
        // the product of two elements is below p^2
        if hi[7] == !0 && hi[6] > 1 && c.rng.chance(2, 3) {
            hi[7] -= 1;
        }
        let n = (BigUint::new(hi) << 256u32) + spec(&mut c.rng, 8);
        let mut a = match c.rng.below(3) {
            0 => p - num(1 + c.rng.below(4) as u64),
            1 => p - from_be(&c.rng.bytes(28)),
            _ => spec(&mut c.rng, 8) % p,
        };
        if a == num(0) {
            a = num(1);
        }
        let b = &n / &a % p;
        binary(c, &a, &b)?;
        c.count("products with a chosen upper half", ((&a * &b) >> 260u32 == &n >> 260u32) as u64);
        c.sigs(&format!("{:x} {:x}", a, b));
    }
    Ok(())
}

fn inverse(c: &mut Case) -> Verdict {
    let p = &curve().p;
    for i in 0..4 {
        let a = if c.idx == 0 { num([1u64, 2, 3, 0xffff_ffff][i]) } else { elem(&mut c.rng) };
        let x = raw(&a);
        let inv = husk(|| x.inverse());
        ensure!(&val(&inv) < p, "inverse({:x}) is not reduced", a);
        if a != num(0) {
            let one = &a * val(&inv) % p;
            ensure!(one == num(1), "inverse({:x}) = {:x}, the product is not 1", a, val(&inv));
        }
        c.sigs(&format!("{:x}", a));
        c.count("inverses", 1);
    }
    Ok(())
}

/// reduction over its whole domain: value + carry * 2^256 < 2p
fn reduce(c: &mut Case) -> Verdict {
    let p = &curve().p;
    let t = two256();
    for i in 0..200 {
        let whole = match (c.idx, i) {
            (0, 0) => num(0),
            (0, 1) => p - 1u32,
            (0, 2) => p.clone(),
            (0, 3) => p + 1u32,
            (0, 4) => &t - 1u32,
            (0, 5) => t.clone(),
            (0, 6) => p * 2u32 - 1u32,
            _ => match c.rng.below(3) {
                0 => any256(&mut c.rng),
                1 => any256(&mut c.rng) + p,
                _ => any256(&mut c.rng) + &t,
            },
        };
        let whole = if whole >= p * 2u32 { whole % p + p } else { whole };
        let (x, carry) = if whole >= t { (raw(&(&whole - &t)), 1) } else { (raw(&whole), 0) };
        field_same(c, "reduce_once", &[&whole], husk(|| x.reduce_once(Wrapping(carry))), &(&whole % p))?;
        if carry == 0 {
            field_same(c, "reduce_once_zero", &[&whole], husk(|| x.reduce_once_zero()), &(&whole % p))?;
        }
        c.sigs(&format!("{:x}", whole));
    }
    Ok(())
}

fn codec(c: &mut Case) -> Verdict {
    let p = &curve().p;
    if c.idx == 0 {
        ensure!(val(&P256) == *p && val(&ONE) == num(1) && val(&ZERO) == num(0) && val(&B) == curve().b, "the constants");
        for n in 0..100usize {
            let b = vec![if n % 2 == 0 { 0 } else { 1 }; n];
            ensure!(husk(|| Int256::from_bytes(&b)).is_some() == (n == 32), "from_bytes of {} bytes", n);
        }
        for (d, ok) in [(-2i32, true), (-1, true), (0, false), (1, false), (2, false)] {
            let x = if d < 0 { p - (-d) as u32 } else { p + d as u32 };
            ensure!(husk(|| Int256::from_bytes(&be32(&x))).is_some() == ok, "from_bytes(p {:+})", d);
        }
    }
    for _ in 0..200 {
        let x = any256(&mut c.rng);
        match husk(|| Int256::from_bytes(&be32(&x))) {
            None => ensure!(&x >= p, "from_bytes refuses {:x}", x),
            Some(v) => {
                ensure!(&x < p, "from_bytes accepts {:x}, not below the modulus", x);
                ensure!(val(&v) == x && husk(|| v.to_bytes()) == be32(&x), "from_bytes({:x}) = {:x}", x, val(&v));
            }
        }
        c.count("field element decodings", 1);
        c.sigs(&format!("{:x}", x));
    }
    Ok(())
}

// --- points ---

fn any_point(r: &mut Rng) -> (BigUint, BigUint) {
    let p = &curve().p;
    loop {
        let q = match r.below(12) {
            0 => refp256::g(),
            1 => refp256::mul(&num(1 + r.below(16) as u64), &refp256::g()),
            2 => refp256::mul(&(&curve().n - num(1 + r.below(4) as u64)), &refp256::g()),
            3 => {
                let x = num(r.u64() >> r.below(64));
                refp256::lift_x(&x).map(|y| (x, y))
            }
            4 => {
                let x = p - num(1 + (r.u64() >> r.below(63) >> 1));
                refp256::lift_x(&x).map(|y| (x, y))
            }
            5 => refp256::small_y(r),
            6 => refp256::small_y(r).map(|(x, y)| (x, p - y)),
            7 => {
                let x = num(0);
                refp256::lift_x(&x).map(|y| (x, y))
            }
            _ => {
                let x = elem(r);
                refp256::lift_x(&x).map(|y| (x, y))
            }
        };
        if let Some((x, y)) = q {
            let y = if r.chance(1, 2) && y != num(0) { p - y } else { y };
            assert!(refp256::on_curve(&x, &y));
            return (x, y);
        }
    }
}

fn any_scalar(r: &mut Rng) -> BigUint {
    let n = &curve().n;
    match r.below(7) {
        0 => num(r.below(40) as u64),
        1 => n - num(r.below(40) as u64),
        2 => n + num(r.below(40) as u64),
        3 => (n >> r.below(200)) + num(r.below(3) as u64),
        4 => from_be(&r.bytes(32)),
        _ => any256(r),
    }
}

fn to_husk(q: &(BigUint, BigUint)) -> Result<Point256, String> {
    match husk(|| NPoint256::from_uncompressed_bytes(&refp256::encode(&Some(q.clone())))) {
        Some(p) => Ok(husk(|| p.to_point())),
        None => Err(format!("the point ({:x}, {:x}) of the curve is refused", q.0, q.1)),
    }
}

/// compare a result with what the group law says
fn same_point(c: &mut Case, what: &str, got: &Point256, want: &Pt) -> Verdict {
    let np = husk(|| got.normalize());
    let enc = husk(|| np.to_uncompressed_bytes());
    match want {
        Some((x, y)) => {
            ensure!(
                enc == refp256::encode(want),
                "{}: {} instead of ({:x}, {:x})",
                what, refc::hex(&enc), x, y
            );
            let back = husk(|| NPoint256::from_uncompressed_bytes(&enc));
            match back {
                Some(b) => ensure!(val(&b.x) == *x && val(&b.y) == *y, "{}: decodes to another point", what),
                None => return Err(format!("{}: its encoding is refused", what)),
            }
            c.count("points compared", 1);
        }
        None => {
            // the point at infinity has no such encoding: what comes out must not pass for a point
            ensure!(refp256::decode(&enc).is_none(), "{}: infinity came out as the point {}", what, refc::hex(&enc));
            ensure!(husk(|| NPoint256::from_uncompressed_bytes(&enc)).is_none(), "{}: infinity's encoding is accepted", what);
            c.count("results at infinity", 1);
        }
    }
    Ok(())
}

fn product(c: &mut Case, k: &BigUint, q: &(BigUint, BigUint)) -> Result<(Point256, Pt), String> {
    let hp = to_husk(q)?;
    let s = raw(k);
    let got = husk(|| hp.mult_scalar(&s));
    let want = refp256::mul(k, &Some(q.clone()));
    same_point(c, &format!("{:x} * ({:x}, {:x})", k, q.0, q.1), &got, &want)?;
    c.count("scalar multiplications", 1);
    Ok((got, want))
}

fn special_scalars() -> Vec<BigUint> {
    let (n, p) = (&curve().n, &curve().p);
    let mut v = vec![];
    for d in 0..9u64 {
        v.extend([num(d), n - num(d), n + num(d), p - num(d), p + num(d), two256() - num(d + 1), (n >> 1) + num(d), (n >> 1) - num(d)]);
    }
    for k in 0..256u32 {
        v.push(num(1) << k);
    }
    // prefixes of the group order: every addition of the ladder meets P, -P or their neighbours
    for k in 1..256u32 {
        v.push(n >> k);
        v.push((n >> k) + num(1));
    }
    for m in ["5555", "aaaa", "3333", "ff00", "00ff", "0001", "8000"] {
        v.push(refp256::big(&m.repeat(16)));
    }
    v
}

fn scalars(c: &mut Case) -> Verdict {
    let all = special_scalars();
    let k = &all[c.idx % all.len()];
    let q = if c.idx % 2 == 0 { refp256::g().unwrap() } else { any_point(&mut c.rng) };
    let s = raw(k);
    if c.idx % 2 == 0 {
        let got = husk(|| G.mult_scalar(&s));
        let want = refp256::mul(k, &refp256::g());
        same_point(c, &format!("{:x} * G", k), &got, &want)?;
        c.count("scalar multiplications", 1);
    } else {
        product(c, k, &q)?;
    }
    c.sigs(&format!("{:x} {:x}", k, q.0));
    Ok(())
}

fn random(c: &mut Case) -> Verdict {
    for _ in 0..4 {
        let (k, q) = (any_scalar(&mut c.rng), any_point(&mut c.rng));
        let (hp, want) = product(c, &k, &q)?;
        c.sigs(&format!("{:x} {:x}", k, q.0));
        // again from the result as it is (not normalised, possibly infinity)
        let k2 = any_scalar(&mut c.rng);
        let s2 = raw(&k2);
        let got = husk(|| hp.mult_scalar(&s2));
        let w2 = refp256::mul(&k2, &want);
        same_point(c, &format!("{:x} * ({:x} * ({:x}, {:x}))", k2, k, q.0, q.1), &got, &w2)?;
        c.count("multiplications of unnormalised points", 1);
        c.sigs(&format!("{:x} {:x} {:x}", k2, k, q.0));
    }
    Ok(())
}

/// against the textbook affine formulas, which share nothing with the reference used above
fn textbook(c: &mut Case) -> Verdict {
    let (k, q) = (any_scalar(&mut c.rng), any_point(&mut c.rng));
    let hp = to_husk(&q)?;
    let s = raw(&k);
    let got = husk(|| hp.mult_scalar(&s));
    let want = refp256::mul_affine(&k, &Some(q.clone()));
    same_point(c, &format!("{:x} * ({:x}, {:x})", k, q.0, q.1), &got, &want)?;
    c.count("compared with the textbook", 1);
    c.sigs(&format!("{:x} {:x}", k, q.0));
    Ok(())
}

fn decodes(c: &mut Case, b: &[u8]) -> Verdict {
    let want = refp256::decode(b);
    let got = husk(|| NPoint256::from_uncompressed_bytes(b));
    c.count(if want.is_some() { "encodings to accept" } else { "encodings to refuse" }, 1);
    match (want, got) {
        (None, None) => Ok(()),
        (Some(_), None) => Err(format!("valid encoding {} is refused", refc::hex(b))),
        (None, Some(_)) => Err(format!("invalid encoding {} is accepted", refc::hex(b))),
        (Some((x, y)), Some(g)) => {
            ensure!(val(&g.x) == x && val(&g.y) == y, "encoding {} is read as ({:x}, {:x})", refc::hex(b), val(&g.x), val(&g.y));
            ensure!(husk(|| g.to_uncompressed_bytes()) == b, "encoding {} does not come back", refc::hex(b));
            Ok(())
        }
    }
}

fn encodings(c: &mut Case) -> Verdict {
    let p = &curve().p;
    let q = any_point(&mut c.rng);
    let e = refp256::encode(&Some(q.clone()));
    decodes(c, &e)?;
    c.sig(&e);
    // the form byte
    for b in 0..=255u8 {
        let mut v = e.clone();
        v[0] = b;
        decodes(c, &v)?;
    }
    // every length
    let mut long = e.clone();
    long.extend_from_slice(&e);
    for n in 0..long.len() {
        if n != 65 {
            decodes(c, &long[..n])?;
            // the other usual forms, cut out of a longer input
            decodes(c, &long[1..1 + n.min(129)])?;
        }
    }
    let mut v = e[..33].to_vec();
    v[0] = 2 + q.1.bit(0) as u8;
    decodes(c, &v)?;
    // one bit
    for i in 8..65 * 8 {
        let mut v = e.clone();
        v[i / 8] ^= 1 << (i % 8);
        decodes(c, &v)?;
    }
    // coordinates: negated, swapped, not reduced, shifted by one
    let (x, y) = (&q.0, &q.1);
    let t = two256();
    for a in [x.clone(), x + p, p - x, x + 1u32, num(0), p.clone(), &t - 1u32, y.clone(), x ^ &num(1)] {
        for b in [y.clone(), y + p, p - y, y + 1u32, num(0), p.clone(), &t - 1u32, x.clone(), y + p - p] {
            if a < t && b < t {
                let mut v = vec![4];
                v.extend(be32(&a));
                v.extend(be32(&b));
                c.count("encodings with an unreduced coordinate of a point", (refp256::on_curve(&(&a % p), &(&b % p)) && (&a >= p || &b >= p)) as u64);
                decodes(c, &v)?;
            }
        }
    }
    // points that miss the curve narrowly
    for _ in 0..8 {
        let i = c.rng.below(refp256::NEAR);
        let (_, x, y) = refp256::near_miss(&mut c.rng, i);
        let mut v = vec![4];
        v.extend(be32(&x));
        v.extend(be32(&y));
        decodes(c, &v)?;
    }
    // points of other curves y^2 = x^3 - 3x + b'
    for _ in 0..8 {
        let mut v = vec![4];
        v.extend(be32(&elem(&mut c.rng)));
        v.extend(be32(&elem(&mut c.rng)));
        decodes(c, &v)?;
    }
    Ok(())
}

/// the whole key agreement as the client runs it
fn agreement(c: &mut Case) -> Verdict {
    let q = any_point(&mut c.rng);
    let ske = wire::Ske::new(refp256::encode(&Some(q.clone())));
    let data = ske.body();
    let mut s = entropy::Stream::new(c.rng.u64());
    // 0 and the order give no key: the client has to draw again
    let k = if c.idx < 72 { special_scalars()[c.idx].clone() } else { any_scalar(&mut c.rng) } % two256();
    // little-endian limbs, each drawn as one little-endian word
    let mut pre = be32(&k);
    pre.reverse();
    s.prefix = pre.to_vec();
    let (res, s) = entropy::with(s, || husk(|| EllipticDiffieHellman.compute_keys(&data, &mut rand::rngs::OsRng)));
    let (public, secret) = match res {
        Ok(v) => v,
        Err(e) => return Err(format!("a valid key share is refused: {:?}", e)),
    };
    ensure!(public.len() == 66 && public[0] == 65, "the client's key share is {}", refc::hex(&public));
    // which scalar was used is for the key share to tell; the drawn words give the candidates
    let mut found = None;
    for w in s.drawn.chunks(4).collect::<Vec<_>>().windows(8) {
        let k = from_be(&w.iter().rev().flat_map(|b| b.iter().rev().copied()).collect::<Vec<u8>>());
        if refp256::encode(&refp256::mul(&k, &refp256::g())) == public[1..] {
            found = Some(k);
            break;
        }
    }
    // a scalar of another layout: nothing to compare with, but the point must be one
    ensure!(refp256::decode(&public[1..]).is_some(), "the client's key share {} is not a point", refc::hex(&public));
    match found {
        Some(k) => {
            let want = refp256::mul(&k, &Some(q.clone())).map(|p| be32(&p.0).to_vec());
            if let Some(w) = want {
                ensure!(secret == w, "shared secret {} instead of {}", refc::hex(&secret), refc::hex(&w));
                c.count("key agreements", 1);
            }
        }
        None => c.count("key agreements with an unknown scalar", 1),
    }
    c.sig(&public);
    Ok(())
}

fn run(m: &Mon) {
    let specials = special_scalars().len();
    m.par("field", m.q(400, 20_000), field);
    m.par("bit", m.q(40, 2000), bits);
    m.par("product", m.q(400, 20_000), products);
    m.par("inverse", m.q(200, 20_000), inverse);
    m.par("reduce", m.q(100, 4000), reduce);
    m.par("codec", m.q(100, 4000), codec);
    m.par("scalar", specials * m.q(2, 8), scalars);
    m.par("random", m.q(250, 20_000), random);
    m.par("textbook", m.q(24, 1000), textbook);
    m.par("encoding", m.q(60, 4000), encodings);
    m.par("agreement", m.q(150, 5000), agreement);
    m.require("field operations", 500_000);
    m.require("scalar multiplications", 2000);
    m.require("points compared", 2500);
    m.require("results at infinity", 20);
    m.require("encodings with an unreduced coordinate of a point", 10);
    m.require("products with a chosen upper half", 10_000);
}

fn main() {
    mon::main(
        "C15",
        "an execution computes with generated field elements, scalars or points and compares with arbitrary-precision arithmetic; distinct by the operands",
        run,
    );
}
