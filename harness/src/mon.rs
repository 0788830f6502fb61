//! The monitor frame: enumerates cases, runs them on worker threads, classifies panics, keeps what was
//! observed, writes evidence and replay files, and supervises the run from a parent process so that a
//! crash or a case that never returns becomes a verdict about that case.
//!
//! Verdicts: exit 0 (held on everything observed), exit 1 with a VIOLATION line, exit 2 (inconclusive
//! or an error of the harness; never folded into the other two).
use crate::entropy;
use crate::prng::{hash64, mix, Rng};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    static IN_HUSK: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<Option<(String, String, bool)>> = const { RefCell::new(None) };
    static WORKER: RefCell<Option<Arc<Worker>>> = const { RefCell::new(None) };
}

/// run code of the system under test (so that a panic without a telling location is attributed to it)
pub fn husk<T>(f: impl FnOnce() -> T) -> T {
    let old = IN_HUSK.with(|c| c.replace(true));
    let r = f();
    IN_HUSK.with(|c| c.set(old));
    r
}
/// run harness code called back from the system under test
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let old = IN_HUSK.with(|c| c.replace(false));
    let r = f();
    IN_HUSK.with(|c| c.set(old));
    r
}

pub enum Caught<T> {
    Ok(T),
    /// the code under test panicked: message, location
    Panic(String, String),
}

/// catch a panic of the code under test; panics of the harness itself pass through
pub fn catch<T>(f: impl FnOnce() -> T) -> Caught<T> {
    let old = IN_HUSK.with(|c| c.get());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Caught::Ok(v),
        Err(e) => {
            let (msg, loc, inh) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or((payload(&e), "?".into(), false));
            IN_HUSK.with(|c| c.set(old));
            if is_sut(&msg, &loc, inh) {
                Caught::Panic(msg, loc)
            } else {
                LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc, inh)));
                std::panic::resume_unwind(e)
            }
        }
    }
}

fn is_sut(msg: &str, loc: &str, in_husk: bool) -> bool {
    if msg.starts_with("MONITOR:") {
        return true;
    }
    if loc.starts_with("src/") || loc.contains("/verif/harness/") {
        return false;
    }
    loc.starts_with("/repo/") || in_husk
}

fn payload(e: &Box<dyn Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

struct Worker {
    id: usize,
    label: Mutex<String>,
    clock: AtomicU64,
    busy: AtomicBool,
    start_ns: AtomicU64,
    seen_ns: AtomicU64,
    still: AtomicU64,
}

fn cpu_ns(clock: libc::clockid_t) -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut t) != 0 {
            return 0;
        }
        t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
    }
}

#[derive(Default)]
struct Stats {
    evals: u64,
    sigs: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    group_samples: BTreeMap<String, usize>,
    violations: Vec<(String, String)>,
    harness_errors: Vec<String>,
    notes: Vec<String>,
}

pub struct Mon {
    pub prop: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<String>,
    pub threads: usize,
    stats: Mutex<Stats>,
    t0: Instant,
    inflight: Option<std::fs::File>,
    min: Mutex<Vec<(String, u64)>>,
    pub cpu_limit_s: AtomicU64,
    /// a case that uses no CPU at all for this long is blocked for ever (0: not judged)
    pub stall_limit_s: AtomicU64,
    pub stack: AtomicUsize,
    /// the CPU clock of the thread that runs the check, and what it showed when the last group was through
    main_clock: AtomicU64,
    main_mark: AtomicU64,
}

pub struct Case {
    pub rng: Rng,
    pub label: String,
    pub idx: usize,
    sig: u64,
    trivial: bool,
    counters: BTreeMap<&'static str, u64>,
    sample: Option<String>,
}

pub type Verdict = Result<(), String>;

impl Case {
    /// mix an observation into the signature of this case
    pub fn sig(&mut self, b: &[u8]) {
        self.sig = mix(self.sig ^ hash64(b));
    }
    pub fn sigs(&mut self, s: impl std::fmt::Display) {
        self.sig(s.to_string().as_bytes());
    }
    /// the case exercised nothing of the property
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_default() += n;
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(s());
        }
    }
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

impl Mon {
    pub fn q(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn note(&self, s: impl Into<String>) {
        self.stats.lock().unwrap().notes.push(s.into());
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.stats.lock().unwrap().counters.entry(name.into()).or_default() += n;
    }
    /// the run is inconclusive unless this counter reaches n
    pub fn require(&self, counter: &str, n: u64) {
        self.min.lock().unwrap().push((counter.into(), n));
    }
    pub fn violation(&self, label: impl Into<String>, detail: impl Into<String>) {
        self.stats.lock().unwrap().violations.push((label.into(), detail.into()));
    }
    pub fn harness_error(&self, detail: impl Into<String>) {
        self.stats.lock().unwrap().harness_errors.push(detail.into());
    }
    pub fn counter(&self, name: &str) -> u64 {
        self.stats.lock().unwrap().counters.get(name).copied().unwrap_or(0)
    }

    /// Run cases `group/0 .. group/n-1` in parallel. Each has its own PRNG and entropy stream, both a
    /// function of (seed, group, index).
    pub fn par(&self, group: &str, n: usize, f: impl Fn(&mut Case) -> Verdict + Sync) {
        self.par_n(group, n, self.threads, f)
    }

    pub fn par_n(&self, group: &str, n: usize, threads: usize, f: impl Fn(&mut Case) -> Verdict + Sync) {
        let range: Vec<usize> = match &self.only {
            None => (0..n).collect(),
            Some(l) => match l.rsplit_once('/') {
                Some((g, i)) if g == group => match i.parse::<usize>() {
                    Ok(i) if i < n => vec![i],
                    _ => return,
                },
                _ => return,
            },
        };
        self.mark();
        let next = AtomicUsize::new(0);
        let workers: Mutex<Vec<Arc<Worker>>> = Mutex::new(Vec::new());
        let done = AtomicBool::new(false);
        let live = AtomicUsize::new(0);
        std::thread::scope(|s| {
            let nt = threads.min(range.len()).max(1);
            live.store(nt, SeqCst);
            for id in 0..nt {
                let (range, next, workers, f, live, done) = (&range, &next, &workers, &f, &live, &done);
                std::thread::Builder::new()
                    .stack_size(self.stack.load(SeqCst))
                    .spawn_scoped(s, move || {
                        let mut ck: libc::clockid_t = 0;
                        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut ck) };
                        let w = Arc::new(Worker {
                            id,
                            label: Mutex::new(String::new()),
                            clock: AtomicU64::new(ck as i64 as u64),
                            busy: AtomicBool::new(false),
                            start_ns: AtomicU64::new(0),
                            seen_ns: AtomicU64::new(0),
                            still: AtomicU64::new(0),
                        });
                        workers.lock().unwrap().push(w.clone());
                        WORKER.with(|c| *c.borrow_mut() = Some(w.clone()));
                        loop {
                            let k = next.fetch_add(1, SeqCst);
                            if k >= range.len() || self.too_many() {
                                break;
                            }
                            self.one(group, range[k], &w, f);
                        }
                        w.busy.store(false, SeqCst);
                        if live.fetch_sub(1, SeqCst) == 1 {
                            done.store(true, SeqCst);
                        }
                    })
                    .unwrap();
            }
            let (workers, done) = (&workers, &done);
            s.spawn(move || {
                let mut tick = 0u32;
                while !done.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    tick += 1;
                    if tick % 25 != 0 {
                        continue;
                    }
                    for w in workers.lock().unwrap().iter() {
                        if w.busy.load(SeqCst) {
                            let used = cpu_ns(w.clock.load(SeqCst) as i64 as libc::clockid_t)
                                .saturating_sub(w.start_ns.load(SeqCst));
                            let lim = self.cpu_limit_s.load(SeqCst);
                            if used > lim * 1_000_000_000 {
                                let l = w.label.lock().unwrap().clone();
                                self.finish_hang(&l, &format!("used more than {} s of CPU without returning", lim));
                            }
                            // half-second ticks without progress
                            let cpu = cpu_ns(w.clock.load(SeqCst) as i64 as libc::clockid_t);
                            let stall = self.stall_limit_s.load(SeqCst);
                            if cpu != w.seen_ns.swap(cpu, SeqCst) {
                                w.still.store(0, SeqCst);
                            } else if w.still.fetch_add(1, SeqCst) > 2 * stall && stall > 0 {
                                let l = w.label.lock().unwrap().clone();
                                self.finish_hang(&l, &format!("has been blocked for {} s", stall));
                            }
                        }
                    }
                }
            });
        });
    }

    fn mark(&self) {
        let ck = self.main_clock.load(SeqCst);
        if ck != 0 {
            self.main_mark.store(cpu_ns(ck as i64 as libc::clockid_t), SeqCst);
        }
    }

    fn too_many(&self) -> bool {
        let s = self.stats.lock().unwrap();
        // a violation that takes a time-out to show is reported soon, not after as many as there are cases
        let late = self.t0.elapsed() > Duration::from_secs(60) && !self.thorough;
        s.violations.len() >= if late { 1 } else { 8 } || s.harness_errors.len() >= 8
    }

    fn case(&self, group: &str, idx: usize) -> Case {
        let label = format!("{}/{}", group, idx);
        let h = mix(self.seed ^ hash64(label.as_bytes()));
        Case {
            rng: Rng::new(h),
            label,
            idx,
            sig: hash64(group.as_bytes()),
            trivial: false,
            counters: BTreeMap::new(),
            sample: None,
        }
    }

    fn exec(
        &self,
        c: &mut Case,
        f: &(impl Fn(&mut Case) -> Verdict + Sync),
    ) -> Result<Verdict, String> {
        let eseed = c.rng.clone().u64();
        let r = catch_unwind(AssertUnwindSafe(|| {
            entropy::with(entropy::Stream::new(eseed), || f(c)).0
        }));
        match r {
            Ok(Err(d)) if d.starts_with("ERROR of the check: ") => Err(format!("{}: {}", c.label, &d[20..])),
            Ok(v) => Ok(v),
            Err(e) => {
                let (msg, loc, inh) = LAST_PANIC
                    .with(|p| p.borrow_mut().take())
                    .unwrap_or((payload(&e), "?".into(), false));
                IN_HUSK.with(|c| c.set(false));
                if is_sut(&msg, &loc, inh) {
                    Ok(Err(format!("the code under test panicked: {} at {}", msg, loc)))
                } else {
                    Err(format!("{}: harness panic: {} at {}", c.label, msg, loc))
                }
            }
        }
    }

    fn one(&self, group: &str, idx: usize, w: &Arc<Worker>, f: &(impl Fn(&mut Case) -> Verdict + Sync)) {
        let mut c = self.case(group, idx);
        *w.label.lock().unwrap() = c.label.clone();
        w.start_ns.store(cpu_ns(w.clock.load(SeqCst) as i64 as libc::clockid_t), SeqCst);
        w.busy.store(true, SeqCst);
        if let Some(fl) = &self.inflight {
            let mut b = [b' '; 128];
            let l = c.label.as_bytes();
            let n = l.len().min(127);
            b[..n].copy_from_slice(&l[..n]);
            b[127] = b'\n';
            let _ = fl.write_at(&b, w.id as u64 * 128);
        }
        let t = Instant::now();
        let r = self.exec(&mut c, f);
        let r = match r {
            Ok(Err(d)) if t.elapsed() < Duration::from_secs(10) => {
                // the case is a function of (seed, label): say whether it repeats
                let mut c2 = self.case(group, idx);
                let again = matches!(self.exec(&mut c2, f), Ok(Err(_)));
                Ok(Err(format!("{}\nrepeats when run again: {}", d, again)))
            }
            r => r,
        };
        w.busy.store(false, SeqCst);
        let mut s = self.stats.lock().unwrap();
        s.evals += 1;
        if !c.trivial {
            s.sigs.insert(c.sig);
        }
        for (k, v) in &c.counters {
            *s.counters.entry(k.to_string()).or_default() += v;
        }
        if let Some(t) = c.sample.take() {
            let n = s.group_samples.entry(group.to_string()).or_default();
            *n += 1;
            if *n <= 2 && s.samples.len() < 40 {
                s.samples.push(format!("{}: {}", c.label, t));
            }
        }
        match r {
            Ok(Ok(())) => {}
            Ok(Err(d)) => s.violations.push((c.label.clone(), d)),
            Err(d) => s.harness_errors.push(d),
        }
    }

    fn finish_hang(&self, label: &str, what: &str) -> ! {
        let path = self.write_replay(
            label,
            &format!("the call under test {}", what),
        );
        let st = self.stats.lock().unwrap();
        self.evidence(&st, "", 1);
        println!("VIOLATION property={} replay={}", self.prop, path);
        println!("  {}: the call under test {}", label, what);
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(1) }
    }

    fn write_replay(&self, label: &str, detail: &str) -> String {
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let safe: String = label
            .chars()
            .map(|c| if c.is_ascii_alphanumeric() || c == '-' { c } else { '_' })
            .collect();
        let path = format!("{}/{}-{}.txt", dir, self.prop, safe);
        let tier = if self.thorough { "thorough" } else { "quick" };
        let body = format!(
            "property: {}\ncase: {}\nseed: {}\ntier: {}\nreplay: cd /verif && VERIF_SEED={} VERIF_TIER={} ./check {} --only '{}'\n\n{}\n",
            self.prop, label, self.seed, tier, self.seed, tier, self.prop, label, detail
        );
        let _ = std::fs::write(&path, body);
        path
    }

    fn evidence(&self, s: &Stats, rule: &str, violations: usize) {
        let mut o = String::new();
        let mut cov = String::new();
        write!(
            cov,
            "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"observed\": {{",
            s.evals,
            s.sigs.len(),
            js(rule)
        )
        .unwrap();
        for (i, (k, v)) in s.counters.iter().enumerate() {
            write!(cov, "{}{}: {}", if i > 0 { ", " } else { "" }, js(k), v).unwrap();
        }
        cov.push_str("}, \"samples\": [");
        for (i, t) in s.samples.iter().enumerate() {
            write!(cov, "{}{}", if i > 0 { ", " } else { "" }, js(t)).unwrap();
        }
        cov.push_str("], \"notes\": [");
        for (i, t) in s.notes.iter().enumerate() {
            write!(cov, "{}{}", if i > 0 { ", " } else { "" }, js(t)).unwrap();
        }
        cov.push(']');
        write!(
            o,
            "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
            js(self.prop),
            js(if self.thorough { "thorough" } else { "quick" }),
            self.seed & 0x7fff_ffff_ffff_ffff,
            js(&std::env::var("HUSKMON_LEVEL").unwrap_or_else(|_| "exploration".into())),
            cov,
            js("the reference server, crypto and encoders in /verif/harness/src are right (they pass the standards' known answers on every run)"),
            self.t0.elapsed().as_secs_f64(),
            violations
        )
        .unwrap();
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
        let suffix = std::env::var("HUSKMON_PART").map(|p| format!(".{}", p)).unwrap_or_default();
        let _ = std::fs::write(format!("{}/evidence/{}{}.json", verif_dir(), self.prop, suffix), o);
    }

    fn finish(&self, rule: &str) -> i32 {
        let s = self.stats.lock().unwrap();
        let mut printed = 0;
        for (label, detail) in s.violations.iter().take(8) {
            let path = self.write_replay(label, detail);
            println!("VIOLATION property={} replay={}", self.prop, path);
            println!("  {}: {}", label, detail.lines().next().unwrap_or(""));
            printed += 1;
        }
        self.evidence(&s, rule, s.violations.len());
        if printed > 0 {
            return 1;
        }
        if !s.harness_errors.is_empty() {
            for e in s.harness_errors.iter().take(5) {
                println!("ERROR of the check: {}", e);
            }
            return 2;
        }
        if self.only.is_none() {
            if s.evals == 0 || s.sigs.is_empty() {
                println!("INCONCLUSIVE property={}: nothing was observed", self.prop);
                return 2;
            }
            for (k, n) in self.min.lock().unwrap().iter() {
                let v = s.counters.get(k).copied().unwrap_or(0);
                if v < *n {
                    println!("INCONCLUSIVE property={}: observed {} = {} (needs {})", self.prop, k, v, n);
                    return 2;
                }
            }
        }
        println!(
            "{}: held on {} executions ({} distinct), {:.1} s",
            self.prop,
            s.evals,
            s.sigs.len(),
            self.t0.elapsed().as_secs_f64()
        );
        for (k, v) in &s.counters {
            println!("  observed {}: {}", k, v);
        }
        0
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Entry point of a check.
pub fn main(prop: &'static str, rule: &'static str, body: impl FnOnce(&Mon)) {
    let args: Vec<String> = std::env::args().collect();
    let mut only = None;
    let mut i = 1;
    while i < args.len() {
        if args[i] == "--only" && i + 1 < args.len() {
            only = Some(args[i + 1].clone());
            i += 1;
        }
        i += 1;
    }
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i128>().ok())
        .map(|v| v as u64)
        .unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let part = std::env::var("HUSKMON_PART").map(|p| format!(".{}", p)).unwrap_or_default();
    let inflight_path = format!("{}/evidence/.inflight-{}{}", verif_dir(), prop, part);
    let mk = |inflight| Mon {
        prop,
        thorough,
        seed,
        only: only.clone(),
        threads: std::env::var("HUSKMON_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).min(8)),
        stats: Mutex::new(Stats::default()),
        t0: Instant::now(),
        inflight,
        min: Mutex::new(Vec::new()),
        cpu_limit_s: AtomicU64::new(60),
        stall_limit_s: AtomicU64::new(0),
        stack: AtomicUsize::new(16 << 20),
        main_clock: AtomicU64::new(0),
        main_mark: AtomicU64::new(0),
    };
    if std::env::var_os("HUSKMON_CHILD").is_some() {
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let loc = info.location().map_or("?".into(), |l| format!("{}:{}", l.file(), l.line()));
            let inh = IN_HUSK.try_with(|c| c.get()).unwrap_or(false);
            if std::env::var_os("HUSKMON_TRACE").is_some() {
                eprintln!("panic: {} at {} (in_husk={})", msg, loc, inh);
            }
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((msg, loc, inh)));
        }));
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
        let fl = if only.is_none() { std::fs::File::create(&inflight_path).ok() } else { None };
        let m = mk(fl);
        if let Err(e) = crate::refc::self_test().and_then(|_| crate::refp256::self_test()) {
            println!("ERROR of the check: {}", e);
            std::process::exit(2);
        }
        // what runs outside of the groups (dry runs that later cases build on) is watched too
        let mut ck: libc::clockid_t = 0;
        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut ck) };
        m.main_clock.store(ck as i64 as u64, SeqCst);
        m.mark();
        let over = AtomicBool::new(false);
        std::thread::scope(|s| {
            s.spawn(|| {
                while !over.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    let used = cpu_ns(ck).saturating_sub(m.main_mark.load(SeqCst));
                    if used > 120 * 1_000_000_000 {
                        m.finish_hang("dry/0", "used more than 120 s of CPU without returning");
                    }
                }
            });
            if let Err(e) = catch_unwind(AssertUnwindSafe(|| body(&m))) {
                let (msg, loc, inh) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or((payload(&e), "?".into(), false));
                if is_sut(&msg, &loc, inh) {
                    m.violation("dry/0", format!("the code under test panicked: {} at {}", msg, loc));
                } else {
                    m.harness_error(format!("panic: {} at {}", msg, loc));
                }
            }
            over.store(true, SeqCst);
        });
        let rc = m.finish(rule);
        let _ = std::fs::remove_file(&inflight_path);
        std::process::exit(rc);
    }
    // parent: supervise
    let run = |extra: Option<&str>, limit: u64| -> Result<std::process::ExitStatus, String> {
        let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
        cmd.env("HUSKMON_CHILD", "1");
        match extra {
            Some(l) => {
                cmd.args(["--only", l]).stdout(std::process::Stdio::null());
            }
            None => {
                cmd.args(&args[1..]);
            }
        }
        let mut ch = cmd.spawn().map_err(|e| e.to_string())?;
        let t = Instant::now();
        loop {
            match ch.try_wait() {
                Ok(Some(st)) => return Ok(st),
                Ok(None) => {}
                Err(e) => return Err(e.to_string()),
            }
            if t.elapsed() > Duration::from_secs(limit) {
                let _ = ch.kill();
                let _ = ch.wait();
                return Err("timed out".into());
            }
            std::thread::sleep(Duration::from_millis(10));
        }
    };
    let limit = std::env::var("HUSKMON_WALL_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 6 * 3600 } else { 840 });
    let code = match run(None, limit) {
        Err(e) => {
            println!("INCONCLUSIVE property={}: the run {}", prop, e);
            2
        }
        Ok(st) => match st.signal() {
            None => st.code().unwrap_or(2),
            Some(sig) => {
                // crashed: which of the cases in flight does it?
                let text = std::fs::read_to_string(&inflight_path).unwrap_or_default();
                let labels: Vec<String> =
                    text.lines().map(|l| l.trim_matches(|c: char| c == ' ' || c == '\0').to_string()).filter(|l| !l.is_empty()).collect();
                let m = mk(None);
                let mut code = 2;
                for l in labels {
                    if let Ok(st2) = run(Some(&l), 300) {
                        if st2.signal() == Some(sig) {
                            m.violation(l, format!("the process died with signal {} while the code under test ran this case", sig));
                            m.stats.lock().unwrap().evals = 1;
                            code = m.finish(rule);
                            break;
                        }
                    }
                }
                if code == 2 {
                    println!("ERROR of the check: the run died with signal {} and no single case repeats it", sig);
                }
                code
            }
        },
    };
    let _ = std::fs::remove_file(&inflight_path);
    std::process::exit(code);
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
