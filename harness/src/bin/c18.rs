//! C18: no undefined behaviour and no memory error. The oracle is the instrument this program is built
//! with or run in (AddressSanitizer, MemorySanitizer, Miri, the debug assertions of the standard library);
//! the program supplies hostile and honest work, and digests of the results, which must not depend on how
//! the code was compiled.
#[path = "../work.rs"]
#[allow(dead_code)]
mod work;
use huskmon::mon;
use huskmon::prng::{hash64, mix, Rng};
use huskmon::entropy;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

fn rng(seed: u64, kind: usize, i: usize) -> Rng {
    Rng::new(mix(seed ^ hash64(format!("c18/{}/{}", kind, i).as_bytes())))
}

/// case `i` of kind `k` (beyond the pieces: whole connections)
fn run(seed: u64, k: usize, i: usize, big: bool) -> u64 {
    let mut r = rng(seed, k, i);
    let e = r.u64();
    entropy::with(entropy::Stream::new(e), || {
        if k < work::KINDS {
            work::piece(k, &mut r, big)
        } else {
            work::session(k - work::KINDS, &mut r, big)
        }
    })
    .0
}

fn name(k: usize) -> &'static str {
    if k < work::KINDS {
        work::NAMES[k]
    } else {
        work::SESSION_NAMES[k - work::KINDS]
    }
}

/// `small SEED KIND FROM TO`: the cases a slow instrument can afford, one line each
fn small(a: &[String]) {
    let seed: u64 = a[0].parse().unwrap();
    let kind: usize = a[1].parse().unwrap();
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        if loc.starts_with("src/") || loc.contains("/verif/harness/") {
            eprintln!("HARNESS PANIC {}", i);
        }
    }));
    for i in a[2].parse::<usize>().unwrap()..a[3].parse().unwrap() {
        eprintln!("CASE {} {} {}", kind, i, name(kind));
        match std::panic::catch_unwind(|| run(seed, kind, i, false)) {
            Ok(d) => println!("D {} {} {:016x}", kind, i, d),
            Err(_) => println!("D {} {} panic", kind, i),
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 5 && a[1] == "small" {
        return small(&a[2..]);
    }
    #[cfg(not(miri))]
    mon::main(
        "C18",
        "one case = one piece of hostile or honest work (hashes, ciphers, codecs, record layer, field and curve, whole \
         connections) executed by the real code under the instrument of this part; distinct = different result",
        |m| {
            let all = work::KINDS + work::SESSIONS;
            // a sanitizer costs a factor of 2 to 4
            for k in 0..all {
                let n = match k {
                    9 => m.q(3000, 100_000),
                    10 => m.q(200, 6000),
                    14 | 15 => m.q(400, 20_000),
                    16 => m.q(150, 6000),
                    3 | 6 | 7 | 8 => m.q(2500, 80_000),
                    _ => m.q(1500, 80_000),
                };
                let n = if k == 10 { n } else { n * 4 };
                let sum = AtomicU64::new(0);
                let group = format!("{}-{}", k, name(k).replace(' ', "-"));
                m.par(&group, n, |c| {
                    let i = c.idx;
                    match mon::catch(|| run(m.seed, k, i, true)) {
                        mon::Caught::Ok(d) => {
                            c.sig(&d.to_be_bytes());
                            sum.fetch_add(mix(d), Relaxed);
                            c.count(name(k), 1);
                        }
                        // C10's business
                        mon::Caught::Panic(..) => {
                            sum.fetch_add(1, Relaxed);
                            c.count("panics (not judged here)", 1)
                        }
                    }
                    Ok(())
                });
                // the runner compares these between the builds
                m.note(format!("digest of {} cases of {}: {:016x}", n, name(k), sum.load(Relaxed)));
                m.require(name(k), n as u64 * 9 / 10);
            }
        },
    )
}
