//! C17: what is executed does not depend on secrets.
//!
//! The monitor runs itself under valgrind, with the secrets of an operation marked undefined: memcheck
//! then reports every branch and every address that depends on them. In a second run, callgrind counts
//! the instructions the same operation executes for different secrets.
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::ecdhe::EllipticDiffieHellman;
use husk::cipher::prf::{hmac_sha256, Prf};
use husk::cipher::{Aead, KeyExchange};
use husk::crypto::chacha20::ChaCha20;
use husk::crypto::p256::int256::Int256;
use husk::crypto::p256::{NPoint256, G};
use husk::crypto::{poly1305, sha2::sha256};
use husk::tls::{TlsReader, TlsWriter};
use husk::util::crypto_compare;
use husk::TlsClient;
use huskmon::entropy::{self, Stream};
use huskmon::mon::{self, Case, Mon, Verdict};
use huskmon::prng::Rng;
use huskmon::refp256 as rp;
use huskmon::sim::*;
use huskmon::{ensure, refc, vg, wire};
use std::hint::black_box;
use std::io::{self, Read, Write};
use std::num::Wrapping;
use std::process::Command;

// ---------------------------------------------------------------- the measured process

struct Ctx {
    /// public inputs: the same for every variant
    public: Rng,
    /// secret inputs: different in every variant
    variant: usize,
    secret: Rng,
}

impl Ctx {
    /// secret bytes: all zero, all one, or random
    fn sec(&mut self, n: usize) -> Vec<u8> {
        // (the same allocations in every variant)
        let mut r = self.secret.bytes(n);
        match self.variant {
            0 => r.fill(0),
            1 => r.fill(0xff),
            2 | 3 if n > 0 => {
                r.fill(0);
                if self.variant == 2 {
                    r[n - 1] = 1;
                } else {
                    r[0] = 0x80;
                }
            }
            _ => {}
        }
        r
    }
    /// a secret field element or scalar below p, little-endian words
    fn elem(&mut self) -> Int256 {
        let mut b = self.secret.bytes(32);
        match self.variant {
            0 | 2 => {
                b.fill(0);
                b[31] = if self.variant == 0 { 1 } else { 2 };
            }
            // p - 1
            1 => {
                b.fill(0xff);
                b[4..7].fill(0);
                b[7] = 1;
                b[8..20].fill(0);
                b[31] = 0xfe;
            }
            3 => b.fill(0x80),
            _ => b[0] &= 0x7f,
        }
        let mut v = [Wrapping(0u32); 8];
        for i in 0..8 {
            v[7 - i] = Wrapping(u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]));
        }
        Int256 { v }
    }
    /// a secret scalar below the order of the group: one that is not drawn again
    fn scalar(&mut self) -> Int256 {
        let mut k = self.elem();
        if self.variant == 1 {
            // the order - 1
            let w = [0xfc632550u32, 0xf3b9cac2, 0xa7179e84, 0xbce6faad, !0, !0, 0, !0];
            k.v = w.map(Wrapping);
        }
        k
    }
}

/// run one operation under observation; the number of secret-dependent branches and addresses
fn watch<T>(f: impl FnOnce() -> T) -> (u64, T) {
    let e0 = vg::errors();
    vg::toggle();
    let r = black_box(f());
    vg::toggle();
    (vg::errors() - e0, r)
}

/// the transport: what is written there is public
struct PubR(SimRef);
struct PubW(SimRef);
impl Read for PubR {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        vg::toggle();
        let r = self.0.borrow_mut().read(b);
        vg::toggle();
        r
    }
}
impl Write for PubW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        vg::toggle();
        let c = b.to_vec();
        vg::public(&c);
        let r = self.0.borrow_mut().write(&c);
        vg::toggle();
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        vg::toggle();
        let r = self.0.borrow_mut().flush();
        vg::toggle();
        r
    }
}

fn session(c: &mut Ctx, mask: [u8; 12], name: &str) -> (u64, String) {
    let mut su = Setup::cheap(&mut c.public);
    su.certs = vec![c.public.bytes(40)];
    su.ske.signature = c.public.bytes(20);
    let mut sim = su.sim(vec![]);
    for it in sim.srv.script.iter_mut() {
        if let Item::Finished(m) = it {
            *m = mask;
        }
    }
    let s = sim.share();
    let mut st = Stream::new(5);
    let k = c.scalar();
    let mut pre = c.public.bytes(32);
    pre.extend(k.v.iter().flat_map(|w| w.0.to_le_bytes()));
    st.prefix = pre;
    st.taint_from = Some(0);
    let (r, w) = (PubR(s.clone()), PubW(s.clone()));
    let ((e, res), _) = entropy::with(st, || watch(|| TlsClient::new(r, w, rand::rngs::OsRng)));
    let ok = res.is_ok();
    vg::public_val(&ok);
    if name == "handshake" || name.starts_with("finished-wrong") {
        return (e, format!("{}", ok));
    }
    let mut cl = match res {
        Ok(c) => c,
        Err(_) => return (0, "handshake failed".into()),
    };
    match name {
        "session-write" => {
            let mut d = c.sec(1000);
            vg::secret(&mut d);
            let (e, r) = watch(|| cl.write_all(&d).is_ok());
            (e, format!("{}", r))
        }
        "session-read" => {
            let d = c.sec(1000);
            s.borrow_mut().srv.app(&d);
            let mut b = vec![0; 1000];
            let (e, r) = watch(|| cl.read(&mut b).unwrap_or(0));
            vg::public(&b);
            vg::public_val(&r);
            (e, format!("{}", r == 1000 && b == d))
        }
        _ => unreachable!(),
    }
}

/// one operation; returns the events and a word on what it did
fn op(name: &str, c: &mut Ctx) -> (u64, String) {
    let done = String::new();
    match name {
        "add" | "sub" | "mult" => {
            let (mut a, mut b) = (c.elem(), c.elem());
            vg::secret_val(&mut a);
            vg::secret_val(&mut b);
            let (e, _) = watch(|| match name {
                "add" => a.add(&b),
                "sub" => a.sub(&b),
                _ => a.mult(&b),
            });
            (e, done)
        }
        "double" | "square" | "inverse" | "divide_by_2" | "reduce_once" => {
            let mut a = c.elem();
            vg::secret_val(&mut a);
            let (e, _) = watch(|| match name {
                "double" => a.double(),
                "square" => a.square(),
                "inverse" => a.inverse(),
                "divide_by_2" => a.divide_by_2(),
                _ => a.reduce_once(Wrapping(0)),
            });
            (e, done)
        }
        "compare" => {
            let (mut a, mut b) = (c.elem(), c.elem());
            if c.variant % 2 == 0 {
                b = a;
            }
            vg::secret_val(&mut a);
            vg::secret_val(&mut b);
            let (e, _) = watch(|| a.compare(&b));
            (e, done)
        }
        "choose" => {
            let (mut a, mut b) = (c.elem(), c.elem());
            let mut f = Wrapping(c.variant as u32 % 2);
            vg::secret_val(&mut a);
            vg::secret_val(&mut b);
            vg::secret_val(&mut f);
            let (e, _) = watch(|| Int256::choose(f, &a, &b));
            (e, done)
        }
        "to_bytes" => {
            let mut a = c.elem();
            vg::secret_val(&mut a);
            let (e, _) = watch(|| a.to_bytes());
            (e, done)
        }
        "mult_scalar-G" | "mult_scalar-point" => {
            let k0 = rp::from_be(&c.public.bytes(32));
            let mut k = c.elem();
            let p = if name == "mult_scalar-G" {
                G
            } else {
                let e = rp::encode(&rp::mul(&k0, &rp::g()));
                NPoint256::from_uncompressed_bytes(&e).unwrap().to_point()
            };
            vg::secret_val(&mut k);
            let (e, _) = watch(|| p.mult_scalar(&k).normalize().to_uncompressed_bytes());
            (e, done)
        }
        "secret-point" => {
            // the point is secret as well (an intermediate result)
            let mut k = c.elem();
            let mut p = G;
            vg::secret_val(&mut k);
            vg::secret_val(&mut p);
            let (e, _) = watch(|| p.mult_scalar(&k).normalize().x.to_bytes());
            (e, done)
        }
        "compute_keys" => {
            let k0 = rp::from_be(&c.public.bytes(32));
            let body = wire::Ske::new(rp::encode(&rp::mul(&k0, &rp::g()))).body();
            let mut st = Stream::new(4);
            st.prefix = c.scalar().v.iter().flat_map(|w| w.0.to_le_bytes()).collect();
            st.taint_from = Some(0);
            let ((e, r), _) = entropy::with(st, || watch(|| EllipticDiffieHellman.compute_keys(&body, &mut rand::rngs::OsRng)));
            (e, format!("{}", r.is_ok()))
        }
        n if n.starts_with("poly1305-") => {
            let len: usize = n[9..].parse().unwrap();
            let (mut m, mut r, mut s) = (c.sec(len), c.sec(16), c.sec(16));
            vg::secret(&mut m);
            vg::secret(&mut r);
            vg::secret(&mut s);
            let (r, s): ([u8; 16], [u8; 16]) = (r.try_into().unwrap(), s.try_into().unwrap());
            let (e, _) = watch(|| poly1305::authenticate(&m, &r, &s));
            (e, done)
        }
        n if n.starts_with("sha256-") => {
            let len: usize = n[7..].parse().unwrap();
            let mut m = c.sec(len);
            vg::secret(&mut m);
            let (e, _) = watch(|| sha256(&m));
            (e, done)
        }
        n if n.starts_with("hmac-") => {
            let len: usize = n[5..].parse().unwrap();
            let (mut k, mut m) = (c.sec(len), c.sec(len));
            vg::secret(&mut k);
            vg::secret(&mut m);
            let (e, _) = watch(|| hmac_sha256(&k, &m));
            (e, done)
        }
        n if n.starts_with("prf-") => {
            let len: usize = n[4..].parse().unwrap();
            let (mut k, mut m) = (c.sec(len), c.sec(len));
            vg::secret(&mut k);
            vg::secret(&mut m);
            let (e, _) = watch(|| {
                let mut p = Prf::new(k, m);
                let mut v = p.get_bytes(12);
                v.extend(p.get_bytes(76));
                v
            });
            (e, done)
        }
        n if n.starts_with("chacha20-") => {
            let len: usize = n[9..].parse().unwrap();
            let (mut k, mut m, mut nn) = (c.sec(32), c.sec(len), c.sec(12));
            vg::secret(&mut k);
            vg::secret(&mut m);
            vg::secret(&mut nn);
            let (e, _) = watch(|| {
                let mut x = ChaCha20::new(&k, &nn);
                black_box(x.next());
                x.encrypt(&m)
            });
            (e, done)
        }
        n if n.starts_with("seal-") => {
            let len: usize = n[5..].parse().unwrap();
            let (mut k, mut m, mut nn) = (c.sec(32), c.sec(len), c.sec(12));
            let ad = c.public.bytes(13);
            vg::secret(&mut k);
            vg::secret(&mut m);
            vg::secret(&mut nn);
            let mut enc = ChaCha20Poly1305.new_encryptor(k);
            let (e, _) = watch(|| enc.encrypt(&nn, &m, &ad));
            (e, done)
        }
        n if n.starts_with("open-") => {
            // the key, and with it the expected tag and the plaintext, is secret
            let mut it = n[5..].split('-');
            let len: usize = it.next().unwrap().parse().unwrap();
            let how = it.next().unwrap();
            let (mut k, m, mut nn) = (c.sec(32), c.sec(len), c.sec(12));
            let ad = c.public.bytes(13);
            let mut ct = refc::seal(&k, &nn, &ad, &m);
            match how {
                "valid" => {}
                // the whole tag is another one: every byte differs
                "all" => ct[len..].iter_mut().for_each(|b| *b ^= 0xff),
                i => ct[len + i.parse::<usize>().unwrap()] ^= 1 << (c.variant % 8),
            }
            vg::secret(&mut k);
            vg::secret(&mut nn);
            let mut dec = ChaCha20Poly1305.new_decryptor(k);
            let (e, r) = watch(|| dec.decrypt(&nn, &ct, &ad).is_ok());
            vg::public_val(&r);
            (e, format!("{}", r))
        }
        n if n.starts_with("compare-") => {
            let mut it = n[8..].split('-');
            let len: usize = it.next().unwrap().parse().unwrap();
            let how = it.next().unwrap();
            let mut a = c.sec(len);
            let mut b = a.clone();
            match how {
                "same" => {}
                "all" => b.iter_mut().for_each(|b| *b ^= 0xff),
                i => b[i.parse::<usize>().unwrap()] ^= 1 << (c.variant % 8),
            }
            vg::secret(&mut a);
            vg::secret(&mut b);
            let (e, r) = watch(|| crypto_compare(&a, &b));
            vg::public_val(&r);
            (e, format!("{}", r))
        }
        "record-write" => {
            let (mut k, mut iv, mut d) = (c.sec(32), c.sec(12), c.sec(700));
            vg::secret(&mut k);
            vg::secret(&mut iv);
            vg::secret(&mut d);
            let mut w = TlsWriter::new(Vec::new());
            w.set_iv(iv);
            w.set_encryptor(ChaCha20Poly1305.new_encryptor(k));
            let (e, r) = watch(|| w.write_application_data(&d).is_ok());
            (e, format!("{}", r))
        }
        n if n.starts_with("record-read-") => {
            let how = &n[12..];
            let (mut k, mut iv, d) = (c.sec(32), c.sec(12), c.sec(700));
            let mut body = refc::seal(&k, &nonce(&iv, 0), &ad(0, APP, (3, 3), d.len()), &d);
            match how {
                "valid" => {}
                "first" => body[700] ^= 1,
                "last" => body[715] ^= 1,
                "data" => body[0] ^= 1,
                _ => unreachable!(),
            }
            let rec = wire::rec(APP, (3, 3), &body);
            vg::secret(&mut k);
            vg::secret(&mut iv);
            let mut r = TlsReader::new(&rec[..]);
            r.set_iv(iv);
            r.set_decryptor(ChaCha20Poly1305.new_decryptor(k));
            let (e, r) = watch(|| r.read_application_data().is_ok());
            vg::public_val(&r);
            (e, format!("{}", r))
        }
        "handshake" | "session-write" | "session-read" => session(c, [0; 12], name),
        "finished-wrong-first" => session(c, [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], name),
        "finished-wrong-last" => session(c, [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1], name),
        "finished-wrong-all" => session(c, [0xff; 12], name),
        // the monitor itself: these have to be noticed
        "self-branch" => {
            let mut k = c.sec(8);
            vg::secret(&mut k);
            let (e, r) = watch(|| if black_box(k[0]) == 7 { black_box(1u32) } else { black_box(2) });
            (e, format!("{}", r))
        }
        "self-index" => {
            let mut k = c.sec(8);
            let t: Vec<u8> = (0..=255).collect();
            vg::secret(&mut k);
            let (e, r) = watch(|| unsafe { *t.as_ptr().add(k[0] as usize) });
            black_box(r);
            (e, done)
        }
        "self-compare" => {
            let a = c.sec(16);
            let mut b = a.clone();
            let mut a = a;
            vg::secret(&mut a);
            vg::secret(&mut b);
            let (e, r) = watch(|| a == b);
            vg::public_val(&r);
            (e, format!("{}", r))
        }
        _ => panic!("no operation {}", name),
    }
}

fn measured(name: &str) {
    let seed: u64 = std::env::var("CT_SEED").unwrap().parse().unwrap();
    if !vg::running() {
        println!("NOT UNDER VALGRIND");
        return;
    }
    for v in std::env::var("CT_VARIANTS").unwrap().split(',') {
        let v: usize = v.parse().unwrap();
        let mut c = Ctx { public: Rng::new(seed), variant: v, secret: Rng::new(seed ^ 0x5ec2e7 ^ ((v as u64) << 40)) };
        let (e, what) = op(name, &mut c);
        println!("EV {} {} {}", v, e, what);
    }
}

// ---------------------------------------------------------------- the monitor

/// a build of this program: name and path
type Build = (String, String);

fn scratch(tag: &str) -> String {
    let d = format!("{}/target/ct", mon::verif_dir());
    let _ = std::fs::create_dir_all(&d);
    format!("{}/{}-{}", d, std::process::id(), tag.replace('/', "-"))
}

/// run one operation under a tool; what the measured process printed, and the tool's own output
fn spawn(b: &Build, tool: &str, name: &str, variants: &str, seed: u64, tag: &str) -> Result<(String, String), String> {
    let out = scratch(tag);
    let mut cmd = Command::new("valgrind");
    cmd.arg("-q").arg(format!("--tool={}", tool));
    if tool == "memcheck" {
        cmd.args(["--error-limit=no", "--num-callers=10", "--undef-value-errors=yes"]).arg(format!("--log-file={}", out));
    } else {
        cmd.args(["--collect-atstart=no"]).arg(format!("--callgrind-out-file={}", out)).arg(format!("--log-file={}.log", out));
    }
    cmd.arg(&b.1);
    cmd.env_clear().env("PATH", "/usr/bin:/bin").env("HOME", "/tmp");
    cmd.env("CT_CASE", name).env("CT_VARIANTS", variants).env("CT_SEED", format!("{:020}", seed));
    // the environment is as long for every operation, so that the stack lies the same
    cmd.env("CT_PAD", "x".repeat(60 - name.len()));
    let o = cmd.output().map_err(|e| format!("ERROR of the check: valgrind: {}", e))?;
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let log = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(format!("{}.log", out));
    if !o.status.success() || text.contains("NOT UNDER VALGRIND") {
        return Err(format!(
            "ERROR of the check: {} {} under {} ({}): {} {}",
            b.0, name, tool, o.status, text, String::from_utf8_lossy(&o.stderr)
        ));
    }
    Ok((text, log))
}

/// memcheck: (variant, events, word) for each variant, and where the first one is
fn events(b: &Build, name: &str, variants: &str, seed: u64, tag: &str) -> Result<(Vec<(usize, u64, String)>, String), String> {
    let (text, log) = spawn(b, "memcheck", name, variants, seed, tag)?;
    let mut v = vec![];
    for l in text.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        if f.len() >= 3 && f[0] == "EV" {
            v.push((f[1].parse().unwrap(), f[2].parse().unwrap(), f.get(3).unwrap_or(&"").to_string()));
        }
    }
    if v.len() != variants.split(',').count() {
        return Err(format!("ERROR of the check: {} {} printed: {}", b.0, name, text));
    }
    // where: the frames of the first reports that are in husk
    let mut places: Vec<String> = vec![];
    for l in log.lines() {
        if let Some(i) = l.find("husk::") {
            if (l.contains(" at 0x") || l.contains(" by 0x")) && places.len() < 4 {
                places.push(l[i..].to_string());
            }
        }
    }
    Ok((v, places.join(" < ")))
}

fn instructions(b: &Build, name: &str, variant: usize, seed: u64, tag: &str) -> Result<(u64, String), String> {
    let (text, log) = spawn(b, "callgrind", name, &variant.to_string(), seed, tag)?;
    let n = log.lines().find_map(|l| l.strip_prefix("totals: ")).and_then(|l| l.trim().parse().ok());
    let word = text.lines().find(|l| l.starts_with("EV")).and_then(|l| l.split(' ').nth(3)).unwrap_or("").to_string();
    match n {
        Some(n) if n > 0 => Ok((n, word)),
        _ => Err(format!("ERROR of the check: no counts of {} {}: {}", b.0, name, text)),
    }
}

#[derive(Clone)]
struct Group {
    name: String,
    /// operation, the word it has to return
    ops: Vec<(String, &'static str)>,
    /// secret-dependent branches that reveal only whether something is accepted
    limit: u64,
    /// takes long in an unoptimised build
    heavy: bool,
}

fn single(name: &str, word: &'static str, limit: u64, heavy: bool) -> Group {
    Group { name: name.into(), ops: vec![(name.into(), word)], limit, heavy }
}

fn groups(thorough: bool) -> Vec<Group> {
    let mut v = vec![];
    for n in ["add", "sub", "mult", "double", "square", "inverse", "divide_by_2", "reduce_once", "compare", "choose", "to_bytes"] {
        v.push(single(n, "", 0, false));
    }
    for n in ["mult_scalar-G", "mult_scalar-point", "secret-point"] {
        v.push(single(n, "", 0, true));
    }
    // whether a candidate for the scalar is in range shows
    v.push(single("compute_keys", "true", 2, true));
    let sizes: &[usize] = if thorough { &[0, 1, 15, 16, 17, 31, 32, 48, 63, 64, 65, 130, 300, 1000, 1040, 4100, 16_384] } else { &[0, 1, 15, 16, 17, 64, 65, 130, 1040, 16_384] };
    for s in sizes {
        v.push(single(&format!("poly1305-{}", s), "", 0, false));
        v.push(single(&format!("sha256-{}", s), "", 0, false));
        v.push(single(&format!("hmac-{}", s), "", 0, false));
        v.push(single(&format!("prf-{}", s), "", 0, false));
        v.push(single(&format!("chacha20-{}", s), "", 0, false));
        v.push(single(&format!("seal-{}", s), "", 0, false));
        let mut ops = vec![(format!("open-{}-valid", s), "true")];
        for how in ["all", "0", "7", "8", "15"] {
            ops.push((format!("open-{}-{}", s, how), "false"));
        }
        v.push(Group { name: format!("open-{}", s), ops, limit: 3, heavy: false });
    }
    for (l, hows) in [(12usize, ["all", "0", "6", "11"]), (16, ["all", "0", "8", "15"]), (32, ["all", "0", "1", "31"])] {
        let mut ops = vec![(format!("compare-{}-same", l), "true")];
        for how in hows {
            ops.push((format!("compare-{}-{}", l, how), "false"));
        }
        v.push(Group { name: format!("compare-{}", l), ops, limit: 2, heavy: false });
    }
    v.push(single("record-write", "true", 0, false));
    v.push(Group {
        name: "record-read".into(),
        ops: vec![
            ("record-read-valid".into(), "true"),
            ("record-read-first".into(), "false"),
            ("record-read-last".into(), "false"),
            ("record-read-data".into(), "false"),
        ],
        limit: 3,
        heavy: false,
    });
    v.push(single("session-write", "true", 0, true));
    v.push(single("session-read", "true", 3, true));
    // the decrypted Finished is parsed: its type and length are no secret
    v.push(Group {
        name: "finished".into(),
        ops: vec![
            ("handshake".into(), "true"),
            ("finished-wrong-first".into(), "false"),
            ("finished-wrong-last".into(), "false"),
            ("finished-wrong-all".into(), "false"),
        ],
        limit: u64::MAX,
        heavy: true,
    });
    v
}

fn taint(c: &mut Case, b: &Build, g: &Group, variants: &str) -> Verdict {
    let seed = c.rng.u64() >> 8;
    let mut seen: Vec<(String, u64, &'static str)> = vec![];
    for (op, word) in &g.ops {
        let (v, place) = events(b, op, variants, seed, &c.label)?;
        for (var, e, w) in &v {
            if w != word {
                return Err(format!("ERROR of the check: {} (secret {}) returned {:?}", op, var, w));
            }
            ensure!(
                *e <= g.limit,
                "{} (build {}, secret {}): {} branches or addresses depend on secrets{}; {}",
                op, b.0, var, e,
                if g.limit > 0 { format!(" (at most {} for accept or reject)", g.limit) } else { String::new() },
                place
            );
            ensure!(
                *e == v[0].1,
                "{} (build {}): {} secret-dependent branches with secret {}, {} with secret {}; {}",
                op, b.0, v[0].1, v[0].0, e, var, place
            );
            c.count("executions with tainted secrets", 1);
            c.sigs(&format!("{} {} {}", b.0, op, var));
        }
        c.count("secret-dependent events observed", v.iter().map(|x| x.1).sum());
        seen.push((op.clone(), v[0].1, word));
    }
    compare_rejects(b, "secret-dependent branches", &seen, 2)?;
    let n = seen.clone();
    c.sample(|| format!("{}: {:?}", b.0, n.iter().map(|x| format!("{} {}", x.0, x.1)).collect::<Vec<_>>()));
    Ok(())
}

fn compare_rejects(b: &Build, what: &str, seen: &[(String, u64, &'static str)], slack: u64) -> Verdict {
    let rej: Vec<_> = seen.iter().filter(|s| s.2 == "false").collect();
    for r in &rej {
        ensure!(r.1 == rej[0].1, "build {}: {} {} in {}, but {} in {}", b.0, rej[0].1, what, rej[0].0, r.1, r.0);
    }
    if let (Some(a), Some(r)) = (seen.iter().find(|s| s.2 == "true"), rej.first()) {
        ensure!(a.1.abs_diff(r.1) <= slack, "build {}: {} {} in {}, but {} in {}", b.0, a.1, what, a.0, r.1, r.0);
    }
    Ok(())
}

fn counts(c: &mut Case, b: &Build, g: &Group, variants: &[usize]) -> Verdict {
    let seed = c.rng.u64() >> 8;
    let mut seen: Vec<(String, u64, &'static str)> = vec![];
    for (op, word) in &g.ops {
        let mut first = None;
        for &v in variants {
            let (n, w) = instructions(b, op, v, seed, &c.label)?;
            if &w != word {
                return Err(format!("ERROR of the check: {} (secret {}) returned {:?}", op, v, w));
            }
            let f = *first.get_or_insert(n);
            ensure!(f == n, "{} (build {}): {} instructions with secret {}, {} with secret {}", op, b.0, f, variants[0], n, v);
            c.count("executions counted", 1);
            c.count("instructions counted", n);
            c.sigs(&format!("count {} {} {}", b.0, op, v));
        }
        seen.push((op.clone(), first.unwrap(), word));
    }
    let rej: Vec<_> = seen.iter().filter(|s| s.2 == "false").cloned().collect();
    compare_rejects(b, "instructions", &rej, u64::MAX)
}

fn run(m: &Mon) {
    let builds: Vec<Build> = std::env::var("CT_BINS")
        .expect("CT_BINS")
        .split(',')
        .map(|b| b.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())).unwrap())
        .collect();
    let g = groups(m.thorough);
    // the instrument first
    m.par("instrument", builds.len() * 3, |c| {
        let b = &builds[c.idx / 3];
        let name = ["self-branch", "self-index", "self-compare"][c.idx % 3];
        let (v, _) = events(b, name, "0,1,4", 1, &c.label)?;
        if v.iter().any(|x| x.1 == 0) {
            return Err(format!("ERROR of the check: {} in build {} goes unnoticed: {:?}", name, b.0, v));
        }
        c.count("planted leaks noticed", v.len() as u64);
        c.sigs(name);
        Ok(())
    });
    let mut jobs: Vec<(usize, usize)> = vec![];
    for (bi, b) in builds.iter().enumerate() {
        for (gi, x) in g.iter().enumerate() {
            let compares = x.ops.len() > 1;
            let take = m.thorough
                || match b.0.as_str() {
                    // the code as written: everything (whole sessions in another build)
                    "O0" => !(x.heavy && (compares || x.name.starts_with("session"))),
                    // what an optimised build makes of comparisons and sessions
                    "O2" => compares || x.heavy,
                    // where selections are most at risk
                    _ => ["divide_by_2", "reduce_once", "sub", "inverse", "secret-point", "open-16", "compare-16"].contains(&x.name.as_str()),
                };
            if take {
                jobs.push((bi, gi));
            }
        }
    }
    // the long ones first
    jobs.sort_by_key(|&(bi, gi)| (!g[gi].heavy, builds[bi].0 != "O0"));
    m.par("taint", jobs.len(), |c| {
        let (b, x) = (&builds[jobs[c.idx].0], &g[jobs[c.idx].1]);
        let slow = x.heavy && b.0 == "O0";
        taint(c, b, x, if slow { "0,4" } else if x.heavy && m.thorough { "0,1,3,4,5" } else if m.thorough { "0,1,2,3,4,5,6,7,8,9" } else { "0,1,2,4" })
    });
    let few: Vec<(usize, usize)> = jobs.iter().copied().filter(|&(bi, gi)| {
        m.thorough || match builds[bi].0.as_str() {
            "O0" => matches!(g[gi].name.as_str(), "mult" | "divide_by_2" | "sub" | "compare" | "poly1305-17" | "prf-17" | "seal-130" | "open-17" | "open-130" | "compare-12" | "record-read" | "record-write"),
            _ => g[gi].ops.len() > 1 || matches!(g[gi].name.as_str(), "mult_scalar-G" | "secret-point" | "session-read"),
        }
    }).collect();
    m.par("count", few.len(), |c| {
        let (b, x) = (&builds[few[c.idx].0], &g[few[c.idx].1]);
        if m.thorough && !x.heavy {
            counts(c, b, x, &[0, 1, 2, 3, 4, 5, 6])
        } else {
            counts(c, b, x, &[0, 1, 4])
        }
    });
    m.require("planted leaks noticed", 9);
    m.require("executions with tainted secrets", 300);
    m.require("executions counted", 100);
    let _ = std::fs::remove_dir(format!("{}/target/ct", mon::verif_dir()));
}

fn main() {
    if let Ok(n) = std::env::var("CT_CASE") {
        measured(&n);
        return;
    }
    mon::main(
        "C17",
        "an execution is one operation on one secret under memcheck (secrets marked undefined) or callgrind; distinct by build, operation and secret",
        run,
    );
}
