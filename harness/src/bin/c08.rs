//! C08: what an attacker did to the protected stream is never delivered, nor anything after it.
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::Aead;
use husk::tls::TlsReader;
use huskmon::ensure;
use huskmon::mon::{self, husk, Case, Verdict};
use huskmon::prng::Rng;
use huskmon::refc;
use huskmon::sim::*;
use huskmon::wire;

/// records of the server as they are on the wire, and their plaintexts
struct Stream {
    recs: Vec<Vec<u8>>,
    plain: Vec<Vec<u8>>,
}

fn make(s: &SimRef, sizes: &[usize], r: &mut Rng) -> Stream {
    let mut st = Stream { recs: vec![], plain: vec![] };
    let mut b = s.borrow_mut();
    for n in sizes {
        let d = r.bytes(*n);
        let at = b.srv.out.len();
        b.srv.record(APP, (3, 3), &d);
        let rec = b.srv.out.split_off(at);
        st.recs.push(rec);
        st.plain.push(d);
    }
    st
}

/// `bad` = index of the first record that is not as the server sent it at that place
fn judge(c: &mut Case, cl: &mut Client, s: &SimRef, st: &Stream, bytes: &[u8], bad: usize, what: &str) -> Verdict {
    s.borrow_mut().srv.out.extend_from_slice(bytes);
    let want: Vec<u8> = st.plain[..bad].concat();
    let all: Vec<u8> = st.plain.concat();
    let mut got = vec![];
    let mut zeros = 0;
    for _ in 0..60 {
        let n = if c.rng.chance(1, 2) { c.rng.range(1, 40) } else { all.len() + 50 };
        let mut buf = vec![0; n];
        let k = read(cl, &mut buf).unwrap_or(0);
        ensure!(k <= n, "read into {} bytes reports {}", n, k);
        got.extend_from_slice(&buf[..k]);
        if k == 0 {
            zeros += 1;
            if zeros > 6 {
                break;
            }
        }
        if got.len() > all.len() + 100_000 {
            break;
        }
    }
    // the lower interface as well: nothing comes after the end
    for _ in 0..3 {
        if let Ok(d) = husk(|| cl.reader.read_application_data()) {
            got.extend(d);
        }
    }
    ensure!(
        got.len() <= all.len() && got[..] == all[..got.len()],
        "{}: what was read ({} bytes) is not a prefix of what the server sent ({} bytes)",
        what,
        got.len(),
        all.len()
    );
    ensure!(got.len() <= want.len(), "{}: {} bytes delivered, but only the first {} are genuine at their place", what, got.len(), want.len());
    ensure!(got == want, "{}: {} of the {} bytes before the alteration delivered", what, got.len(), want.len());
    c.count("altered streams", 1);
    c.count("bytes before the alteration", want.len() as u64);
    c.sigs(what);
    let t = what.to_string();
    c.sample(|| t);
    Ok(())
}

/// one flipped byte anywhere in a small stream
fn flip(c: &mut Case, sizes: &[usize], off: usize, mask: u8) -> Verdict {
    let su = small_setup(&mut c.rng);
    let (mut cl, s) = established(&su, vec![])?;
    let mut r = Rng::new(c.rng.u64());
    let st = make(&s, sizes, &mut r);
    let mut bytes = st.recs.concat();
    bytes[off] ^= mask;
    let (mut bad, mut at) = (0, 0);
    while at + st.recs[bad].len() <= off {
        at += st.recs[bad].len();
        bad += 1;
    }
    judge(c, &mut cl, &s, &st, &bytes, bad, &format!("byte {} of record {} xor {:#04x}", off - at, bad, mask))
}

fn aged(c: &mut Case, cl: &mut Client, s: &SimRef, age: usize) -> Verdict {
    if age > 0 {
        let mut r = Rng::new(c.rng.u64());
        history(cl, s, &mut r, age)?;
        c.count("streams altered late in a connection", 1);
    }
    Ok(())
}

fn edit(c: &mut Case, kind: usize, age: usize) -> Verdict {
    let su = small_setup(&mut c.rng);
    let (mut cl, s) = established(&su, vec![])?;
    aged(c, &mut cl, &s, age)?;
    // something from the client, for reflection, and something already delivered, for replay
    let up = c.rng.bytes(30);
    exchange(&mut cl, &s, &up, b"earlier data")?;
    let old: Vec<u8> = {
        let b = s.borrow();
        b.srv.out[b.srv.out.len() - (5 + 12 + 16)..].to_vec()
    };
    let n = c.rng.range(2, 7);
    let sizes: Vec<usize> = (0..n).map(|_| *c.rng.pick(&[0usize, 1, 5, 16, 33, 100, 1000])).collect();
    let mut r = Rng::new(c.rng.u64());
    let st = make(&s, &sizes, &mut r);
    let mut recs = st.recs.clone();
    let i = c.rng.below(n);
    let mut bad = i;
    let what;
    match kind {
        0 => {
            recs.remove(i);
            what = format!("record {} of {} dropped", i, n);
        }
        1 => {
            let x = recs[i].clone();
            recs.insert(i + 1, x);
            bad = i + 1;
            what = format!("record {} of {} repeated", i, n);
        }
        2 => {
            let i = i.min(n - 2);
            bad = i;
            recs.swap(i, i + 1);
            what = format!("records {} and {} swapped", i, i + 1);
        }
        3 => {
            let j = c.rng.below(n);
            if j == i {
                c.trivial();
                return Ok(());
            }
            bad = i.min(j);
            recs.swap(i, j);
            what = format!("records {} and {} swapped", i, j);
        }
        4 => {
            recs.insert(i, old);
            what = format!("a record delivered earlier replayed before record {}", i);
        }
        5 => {
            // the client's own record sent back
            let b = s.borrow();
            let raw = &b.srv.c2s_raw;
            let x = raw[raw.len() - (5 + 30 + 16)..].to_vec();
            drop(b);
            recs.insert(i, x);
            what = format!("the client's record reflected before record {}", i);
        }
        6 => {
            // from another connection, at the same number
            let (mut c2, s2) = established(&su, vec![])?;
            exchange(&mut c2, &s2, &[], b"earlier data")?;
            let mut r2 = Rng::new(c.rng.u64());
            let o = make(&s2, &sizes, &mut r2);
            recs[i] = o.recs[i].clone();
            what = format!("record {} taken from another connection", i);
        }
        7 => {
            let l = c.rng.range(0, 60);
            recs.insert(i, wire::rec(APP, (3, 3), &c.rng.bytes(l)));
            what = format!("{} arbitrary bytes injected before record {}", l, i);
        }
        8 => {
            // data in the clear
            recs.insert(i, wire::rec(APP, (3, 3), b"plain text!"));
            what = format!("unprotected data injected before record {}", i);
        }
        9 => {
            // split in two records
            let l = recs[i].len() - 5;
            let k = c.rng.range(0, l);
            let b = recs[i][5..].to_vec();
            recs[i] = wire::rec(APP, (3, 3), &b[..k]);
            let mut y = wire::rec(APP, (3, 3), &b[k..]);
            recs[i].append(&mut y);
            if k == l {
                bad = i + 1; // an empty record was added after a genuine one
            }
            what = format!("record {} split after {} of {} bytes", i, k, l);
        }
        10 => {
            if i + 1 == n {
                c.trivial();
                return Ok(());
            }
            let mut b = recs[i][5..].to_vec();
            b.extend_from_slice(&recs[i + 1][5..]);
            recs[i] = wire::rec(APP, (3, 3), &b);
            recs.remove(i + 1);
            what = format!("records {} and {} merged", i, i + 1);
        }
        11 => {
            // cut short, with the length corrected
            let b = recs[i][5..].to_vec();
            let k = c.rng.below(b.len());
            let from = if c.rng.chance(1, 2) { 0 } else { b.len() - k };
            recs[i] = wire::rec(APP, (3, 3), &b[from..from + k]);
            what = format!("record {} cut to {} bytes from {}", i, k, from);
        }
        12 => {
            // lengthened
            let mut b = recs[i][5..].to_vec();
            let k = c.rng.range(1, 40);
            let pad = if c.rng.chance(1, 2) { vec![0; k] } else { c.rng.bytes(k) };
            let front = c.rng.chance(1, 3);
            if front {
                b.splice(0..0, pad);
            } else {
                b.extend(pad);
            }
            recs[i] = wire::rec(APP, (3, 3), &b);
            what = format!("record {} lengthened by {} (front: {})", i, k, front);
        }
        13 => {
            let t = c.rng.u8();
            if t == APP {
                c.trivial();
                return Ok(());
            }
            recs[i][0] = t;
            what = format!("record {} with type {}", i, t);
        }
        14 => {
            let v = *c.rng.pick(&[(3u8, 1u8), (3, 0), (3, 2), (3, 4), (2, 3), (0, 0), (0xfe, 0xfd), (3, 0x83)]);
            recs[i][1] = v.0;
            recs[i][2] = v.1;
            what = format!("record {} with version {:?}", i, v);
        }
        15 => {
            // everything cut at some byte
            let all = recs.concat();
            let k = c.rng.below(all.len());
            let (mut b, mut at) = (0, 0);
            while at + recs[b].len() <= k {
                at += recs[b].len();
                b += 1;
            }
            bad = b;
            recs = vec![all[..k].to_vec()];
            what = format!("stream cut after {} of {} bytes", k, all.len());
        }
        16 => {
            // empty record
            recs.insert(i, wire::rec(APP, (3, 3), &[]));
            what = format!("an empty unprotected record before record {}", i);
        }
        17 => {
            // a tag alone: all zero, or the key stream's
            let t = *c.rng.pick(&[0u8, 0xff]);
            recs.insert(i, wire::rec(APP, (3, 3), &[t; 16]));
            what = format!("a tag of {:#04x} bytes before record {}", t, i);
        }
        18 => {
            // tag of another record
            let j = (i + 1) % n;
            let t = recs[j][recs[j].len() - 16..].to_vec();
            let l = recs[i].len();
            recs[i][l - 16..].copy_from_slice(&t);
            what = format!("record {} with the tag of record {}", i, j);
        }
        19 => {
            // sealed without the header in the additional data
            let mut b = s.borrow_mut();
            let base = b.srv.seq - n as u64;
            let k = b.srv.keys.as_mut().unwrap();
            let q = base + i as u64;
            let (ad1, w) = match c.rng.below(5) {
                0 => (vec![], "no additional data"),
                1 => (q.to_be_bytes().to_vec(), "the number alone as additional data"),
                2 => (ad(q, APP, (3, 3), st.plain[i].len() + 16), "the ciphertext length as additional data"),
                3 => (ad(0, APP, (3, 3), st.plain[i].len()), "number 0 in the additional data"),
                _ => (ad(q, HS, (3, 3), st.plain[i].len()), "another type in the additional data"),
            };
            if q == 0 {
                c.trivial();
                return Ok(());
            }
            let ct = refc::seal(&k.sw, &nonce(&k.siv, q), &ad1, &st.plain[i]);
            drop(b);
            recs[i] = wire::rec(APP, (3, 3), &ct);
            what = format!("record {} sealed with {}", i, w);
        }
        20 => {
            // sealed with the client's keys: direction confusion
            let b = s.borrow();
            let base = b.srv.seq - n as u64;
            let k = b.srv.keys.as_ref().unwrap();
            let q = base + i as u64;
            let (key, iv) = *c.rng.pick(&[(&k.cw, &k.civ), (&k.cw, &k.siv), (&k.sw, &k.civ)]);
            let ct = refc::seal(key, &nonce(iv, q), &ad(q, APP, (3, 3), st.plain[i].len()), &st.plain[i]);
            drop(b);
            recs[i] = wire::rec(APP, (3, 3), &ct);
            what = format!("record {} sealed with the client's key or IV", i);
        }
        21 => {
            // one of this very direction, 2^8 or 2^16 numbers ago (or any number)
            let offs = {
                let b = s.borrow();
                let (o, mut at) = (&b.srv.out, 0);
                let mut v = vec![];
                while at < o.len() {
                    let l = 5 + ((o[at + 3] as usize) << 8 | o[at + 4] as usize);
                    v.push(at..at + l);
                    at += l;
                }
                v
            };
            // that of number 0 is the server's Finished
            let total = s.borrow().srv.seq as usize - n + i;
            let back = *c.rng.pick(&[1usize << 8, 1 << 8, 1 << 16, 1 << 10, 1 << 7, 1, 3]);
            if back > total {
                c.trivial();
                return Ok(());
            }
            let j = offs.len() - (total - i) + (total - back).min(total - i - 1);
            let old = s.borrow().srv.out[offs[j].clone()].to_vec();
            if back < i + 1 {
                c.trivial();
                return Ok(());
            }
            if c.rng.chance(1, 2) {
                recs[i] = old;
            } else {
                recs.insert(i, old);
            }
            what = format!("the record {} numbers before replayed as record {}", back, i);
        }
        _ => {
            // several byte changes at once, within one record
            let l = recs[i].len();
            let mut changed = false;
            for _ in 0..c.rng.range(2, 8) {
                let o = c.rng.below(l);
                let m = c.rng.u8();
                recs[i][o] ^= m;
            }
            changed |= recs[i] != st.recs[i];
            if !changed {
                c.trivial();
                return Ok(());
            }
            what = format!("record {} altered in several bytes", i);
        }
    }
    c.count("structured edits", 1);
    c.sigs(kind);
    let bytes = recs.concat();
    // "earlier data" was delivered before; only `st` is compared
    judge(c, &mut cl, &s, &st, &bytes, bad, &what)
}

/// a record the server never sent, of any type, put between two it did send
fn inject(c: &mut Case, ty: u8, l: usize) -> Verdict {
    let su = small_setup(&mut c.rng);
    let (mut cl, s) = established(&su, vec![])?;
    let age = any_age(&mut c.rng);
    aged(c, &mut cl, &s, age)?;
    let mut r = Rng::new(c.rng.u64());
    let st = make(&s, &[7, 20, 3], &mut r);
    let i = c.rng.range(0, 2);
    let ver = *c.rng.pick(&[(3u8, 3u8), (3, 3), (3, 3), (3, 3), (3, 1), (3, 0), (0, 0), (0xff, 0xff)]);
    let mut recs = st.recs.clone();
    let (body, w) = match c.rng.below(5) {
        0 => (vec![0; l], "zero"),
        // what would be a message of that type if it were not protected
        1 => {
            let mut b = match ty {
                20 => vec![1],
                21 => vec![*c.rng.pick(&[1u8, 2]), *c.rng.pick(&[0u8, 10, 20, 40, 90, 100])],
                22 => vec![0, 0, 0, 0],
                _ => b"hello".to_vec(),
            };
            b.resize(b.len().max(l), 0);
            (b, "unprotected")
        }
        // a genuine record of theirs under another type
        2 if ty != APP => (recs[i][5..].to_vec(), "copied"),
        _ => (c.rng.bytes(l), "arbitrary"),
    };
    let what = format!("{} {} bytes of type {} and version {:?} injected before record {}", body.len(), w, ty, ver, i);
    recs.insert(i, wire::rec(ty, ver, &body));
    c.count("injected records", 1);
    judge(c, &mut cl, &s, &st, &recs.concat(), i, &what)
}

/// something that is no whole record comes between two records
fn header(c: &mut Case) -> Verdict {
    let su = small_setup(&mut c.rng);
    let (mut cl, s) = established(&su, vec![])?;
    let age = any_age(&mut c.rng);
    aged(c, &mut cl, &s, age)?;
    let mut r = Rng::new(c.rng.u64());
    let st = make(&s, &[7, 20, 3, 400], &mut r);
    let i = c.rng.range(0, 3);
    let ty = if c.idx % 2 == 0 { 20 + (c.idx / 2 % 4) as u8 } else { (c.idx / 2 % 256) as u8 };
    let ver = *c.rng.pick(&[(3u8, 3u8), (3, 3), (3, 1), (0xff, 0xff)]);
    let l = match c.rng.below(6) {
        0 => 0xffff,
        1 => MAX + 2049,
        2 => c.rng.range(MAX + 2049, 0xffff),
        3 => c.rng.range(MAX + 1, MAX + 2048),
        4 => c.rng.below(600),
        _ => 0x8000,
    };
    let mut b = wire::rec(ty, ver, &[]);
    b[3] = (l >> 8) as u8;
    b[4] = l as u8;
    // the header alone (what follows it is the genuine stream), a part of it, more than one of them
    match c.rng.below(6) {
        0 => b.truncate(c.rng.range(1, 4)),
        1 => {
            let again = b.clone();
            (0..c.rng.range(1, 20)).for_each(|_| b.extend(&again));
        }
        2 => {
            let n = c.rng.below(40);
            b.extend(c.rng.bytes(n));
        }
        _ => (),
    }
    let what = format!("{:02x?} inserted before record {}", &b[..b.len().min(10)], i);
    let mut recs = st.recs.clone();
    recs.insert(i, b);
    c.count("inserted bytes that are no record", 1);
    judge(c, &mut cl, &s, &st, &recs.concat(), i, &what)
}

/// a stream of megabytes, altered somewhere
fn bulk(c: &mut Case, most: usize) -> Verdict {
    let su = small_setup(&mut c.rng);
    let (mut cl, s) = established(&su, vec![])?;
    let n = 1 << c.rng.range(2, most.ilog2() as usize);
    let small = c.rng.chance(1, 3);
    let sizes: Vec<usize> = (0..n).map(|_| if small && c.rng.chance(1, 2) { c.rng.below(300) } else { MAX }).collect();
    let mut r = Rng::new(c.rng.u64());
    let st = make(&s, &sizes, &mut r);
    let mut recs = st.recs.clone();
    let i = c.rng.below(n - 1);
    let (bad, what) = match c.rng.below(6) {
        0 => {
            recs.remove(i);
            (i, format!("record {} of {} dropped", i, n))
        }
        1 => {
            recs.insert(i, st.recs[i].clone());
            (i + 1, format!("record {} of {} twice", i, n))
        }
        2 => {
            recs.swap(i, i + 1);
            (i, format!("records {} and {} of {} swapped", i, i + 1, n))
        }
        3 => {
            let l = recs[i].len();
            recs[i].truncate(c.rng.below(l));
            (i, format!("record {} of {} cut short", i, n))
        }
        _ => {
            let l = recs[i].len();
            let o = *c.rng.pick(&[0, 2, 4, 5, l - 17, l - 16, l - 1, c.rng.clone().below(l)]);
            recs[i][o] ^= 1 << c.rng.below(8);
            (i, format!("byte {} of record {} of {} altered", o, i, n))
        }
    };
    c.count("long streams altered", 1);
    judge(c, &mut cl, &s, &st, &recs.concat(), bad, &what)
}

/// record number `at`, with a body of `n` bytes, does not verify
fn altered(c: &mut Case, at: u64, d: &[u8], n: usize) -> Verdict {
    let key = c.rng.bytes(32);
    let iv = c.rng.bytes(12);
    let mk = |q: u64, d: &[u8]| refc::seal(&key, &nonce(&iv, q), &ad(q, APP, (3, 3), d.len()), d);
    let mut b = mk(at, d);
    b.truncate(n);
    let l = b.len();
    // in the data, in the tag, or both changed beyond recognition
    match c.rng.below(4) {
        0 if l > 16 => b[c.rng.below(l - 16)] ^= 1 << c.rng.below(8),
        1 if l > 0 => b = c.rng.bytes(l),
        _ if l > 0 => b[l - 1 - c.rng.below(l.min(16))] ^= 1 << c.rng.below(8),
        _ => (),
    }
    let mut bytes = wire::rec(APP, (3, 3), &b);
    for q in at..at + 3 {
        bytes.extend(wire::rec(APP, (3, 3), &mk(q, b"genuine")));
    }
    let mut r = TlsReader::new(&bytes[..]);
    r.set_iv(iv.clone());
    r.set_decryptor(ChaCha20Poly1305.new_decryptor(key.clone()));
    if at > 0 {
        #[cfg(husk_verif)]
        r.verif_set_read_count(at);
    }
    for i in 0..5 {
        if let Ok(x) = husk(|| r.read_application_data()) {
            return Err(format!("record {} of {} bytes was altered; call {} delivered {} bytes", at, l, i, x.len()));
        }
    }
    c.count("damaged records refused by the record layer", 1);
    Ok(())
}

const INJECTED: [usize; 8] = [0, 1, 2, 15, 16, 17, 18, 60];

fn main() {
    mon::main(
        "C08",
        "one case = one established connection whose server-to-client stream was altered in one way; what the application \
         reads is compared with the genuine data before the first altered record; distinct = different alteration. \
         Exhaustive: every byte and bit of a stream of three small records; each edit kind at drawn places",
        |m| {
            let sizes: &[usize] = &[3, 9, 0];
            let total: usize = sizes.iter().map(|n| n + 21).sum();
            m.par("flip", total * 8, |c| flip(c, sizes, c.idx / 8, 1 << (c.idx % 8)));
            m.par("flip-any", m.q(400, 8000), |c| {
                let n = c.rng.range(1, 4);
                let v: Vec<usize> = (0..n).map(|_| c.rng.size(600)).collect();
                let t: usize = v.iter().map(|n| n + 21).sum();
                let (o, k) = (c.rng.below(t), c.rng.range(1, 255) as u8);
                flip(c, &v, o, k)
            });
            // all 255 masks of the header and the tag of one record
            m.par("flip-values", m.q(21, 21) * 255, |c| {
                if !m.thorough && c.idx % 5 != (c.idx / 255) % 5 {
                    c.trivial();
                    return Ok(());
                }
                let o = c.idx / 255;
                let o = if o < 5 { o } else { 20 + o - 5 };
                flip(c, &[15, 4], o, (c.idx % 255) as u8 + 1)
            });
            m.par("large", m.q(30, 300), |c| {
                let v = [MAX, 5, MAX];
                let t = 2 * (MAX + 21) + 26;
                let (o, k) = (c.rng.below(t), 1 << c.rng.below(8));
                flip(c, &v, o, k)
            });
            // records as long as the numbers that occur in the code; the altered byte at their ends and anywhere
            let nums = huskmon::dict::around(3, MAX);
            m.par("number", nums.len() * 6, |c| {
                let n = nums[c.idx / 6];
                let v = [n, 5, n];
                let at = [5, 5 + n - 1, 5 + n, 5 + n + 15, 5 + c.rng.below(n), n + 21 + 26 + 5 + c.rng.below(n + 16)][c.idx % 6];
                let k = 1 << c.rng.below(8);
                flip(c, &v, at, k)
            });
            // streams altered after as many records as that
            let ages = huskmon::dict::around(3, m.q(5000, 70_000));
            m.par("number-late", ages.len() * m.q(1, 6), |c| {
                let (i, kind) = (c.idx % ages.len(), c.rng.below(23));
                edit(c, kind, ages[i])
            });
            m.par("edit", 23 * m.q(60, 1500), |c| {
                let age = any_age(&mut c.rng);
                edit(c, c.idx % 23, age)
            });
            // after thousands of records; past 2^16 of them
            m.par("edit-late", 23 * m.q(3, 9), |c| {
                let age = if c.idx < 23 { [66_000, 5000][(c.idx == 21) as usize ^ 1] } else { c.rng.range(1000, 12_000) };
                edit(c, c.idx % 23, age)
            });
            m.par("inject", 256 * 8 * m.q(1, 20), |c| inject(c, (c.idx % 256) as u8, INJECTED[c.idx / 256 % 8]));
            // those that mean something, more often
            m.par("inject-known", 4 * 8 * m.q(12, 300), |c| inject(c, 20 + (c.idx % 4) as u8, INJECTED[c.idx / 4 % 8]));
            m.par("bulk", m.q(120, 2000), |c| bulk(c, m.q(256, 2048)));
            m.par("header", 512 * m.q(2, 40), header);
            m.par("inject-long", m.q(40, 600), |c| {
                let l = *c.rng.pick(&[255usize, 256, 1000, MAX, MAX + 16, MAX + 17, MAX + 2047, MAX + 2048, MAX + 2049, 0xffff]);
                let t = *c.rng.pick(&[20u8, 21, 22, 23, 24, 0]);
                inject(c, t, l)
            });
            // the record layer alone: opening any damaged record fails, and closes the stream
            m.par("reader", m.q(4000, 200_000), |c| {
                let key = c.rng.bytes(32);
                let iv = c.rng.bytes(12);
                let mk = |q: u64, d: &[u8]| {
                    wire::rec(APP, (3, 3), &refc::seal(&key, &nonce(&iv, q), &ad(q, APP, (3, 3), d.len()), d))
                };
                let n = c.rng.size(300);
                let d = c.rng.bytes(n);
                let mut a = mk(0, &d);
                let l = a.len();
                let o = c.rng.below(l);
                a[o] ^= c.rng.range(1, 255) as u8;
                let mut bytes = a;
                for q in 0..3 {
                    bytes.extend(mk(q, b"genuine"));
                }
                let mut r = TlsReader::new(&bytes[..]);
                r.set_iv(iv.clone());
                r.set_decryptor(ChaCha20Poly1305.new_decryptor(key.clone()));
                for i in 0..5 {
                    if let Ok(x) = husk(|| r.read_application_data()) {
                        return Err(format!("byte {} of a record of {} bytes was altered; call {} delivered {} bytes", o, n, i, x.len()));
                    }
                }
                c.count("damaged records refused by the record layer", 1);
                c.sigs(format!("{} {}", o, n));
                Ok(())
            });
            // records of every length
            m.par("reader-length", 145, |c| {
                for k in 0..128 {
                    let n = c.idx + 145 * k;
                    if n <= MAX + 2048 + 16 {
                        let d = c.rng.bytes(n.saturating_sub(16));
                        altered(c, 0, &d, n)?;
                    }
                }
                c.sigs(c.idx);
                Ok(())
            });
            // records of every number below 2^16, and around 2^17
            if cfg!(husk_verif) {
                m.par("reader-number", 520, |c| {
                    for at in c.idx as u64 * 127..(c.idx as u64 + 1) * 127 {
                        let at = if c.idx >= 516 { at + 65_500 } else { at };
                        for n in [0usize, 1, 20] {
                            let d = c.rng.bytes(n);
                            altered(c, at, &d, n + 16)?;
                        }
                    }
                    c.sigs(c.idx);
                    Ok(())
                });
            }
            m.require("altered streams", 2000);
            m.require("structured edits", 800);
            m.require("injected records", 2300);
            m.require("streams altered late in a connection", 250);
            m.require("bytes before the alteration", 1000);
        },
    )
}
