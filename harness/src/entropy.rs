//! Interposes the entropy system call (the `getrandom` crate reaches it through `syscall(2)`), so that
//! a run is a deterministic function of a seed and the monitors see every byte of entropy drawn.
//! Threads without a stream installed get the kernel's answer.
use crate::prng::Rng;
use std::cell::RefCell;

pub struct Stream {
    rng: Rng,
    /// every byte handed out so far
    pub drawn: Vec<u8>,
    /// how many calls asked for bytes
    pub calls: u64,
    /// xor masks by byte position
    pub flips: Vec<(usize, u8)>,
    /// fixed bytes served first
    pub prefix: Vec<u8>,
    /// under valgrind: mark what is handed out as secret, from this position on
    pub taint_from: Option<usize>,
    /// the source fails for good at this position, with this error number
    pub fail: Option<(usize, i32)>,
    /// one call in so many is interrupted, one answers with fewer bytes than asked for (0: none)
    pub interrupts: u64,
    pub refused: u64,
    chaos: Rng,
}

thread_local! {
    static CUR: RefCell<Option<Stream>> = const { RefCell::new(None) };
}

impl Stream {
    pub fn new(seed: u64) -> Stream {
        Stream {
            rng: Rng::new(seed ^ 0x656e74726f7079),
            drawn: Vec::new(),
            calls: 0,
            flips: Vec::new(),
            prefix: Vec::new(),
            taint_from: None,
            fail: None,
            interrupts: 0,
            refused: 0,
            chaos: Rng::new(seed ^ 0x6368616f73),
        }
    }
    /// what the system call answers: the number of bytes, or an error number
    fn answer(&mut self, out: &mut [u8]) -> Result<usize, i32> {
        let mut n = out.len();
        if let Some((at, e)) = self.fail {
            // a request that reaches the position gets what is before it, the next one nothing
            n = n.min(at.saturating_sub(self.drawn.len()));
            if n == 0 {
                self.refused += 1;
                return Err(e);
            }
        }
        if self.interrupts > 0 {
            match self.chaos.below(self.interrupts as usize) {
                0 => {
                    self.refused += 1;
                    return Err(libc::EINTR);
                }
                1 => n = self.chaos.range(1, n),
                _ => {}
            }
        }
        self.fill(&mut out[..n]);
        Ok(n)
    }
    fn fill(&mut self, out: &mut [u8]) {
        for b in out.iter_mut() {
            let pos = self.drawn.len();
            let mut v = self.rng.u8();
            if pos < self.prefix.len() {
                v = self.prefix[pos];
            }
            for &(p, m) in &self.flips {
                if p == pos {
                    v ^= m;
                }
            }
            self.drawn.push(v);
            *b = v;
            if self.taint_from.map_or(false, |t| pos >= t) {
                crate::vg::secret(std::slice::from_mut(b));
            }
        }
        if !out.is_empty() {
            self.calls += 1;
        }
    }
}

/// Run `f` with this thread's entropy coming from `s`; returns what was drawn.
pub fn with<T>(s: Stream, f: impl FnOnce() -> T) -> (T, Stream) {
    struct Guard(Option<Stream>);
    impl Drop for Guard {
        fn drop(&mut self) {
            CUR.with(|c| *c.borrow_mut() = self.0.take());
        }
    }
    let g = Guard(CUR.with(|c| c.borrow_mut().replace(s)));
    let r = f();
    let s = CUR.with(|c| c.borrow_mut().take()).unwrap();
    drop(g);
    (r, s)
}

/// Position in the stream right now (bytes drawn), if a stream is installed.
pub fn position() -> usize {
    CUR.with(|c| c.borrow().as_ref().map_or(0, |s| s.drawn.len()))
}

/// None: not ours to answer
fn serve(buf: *mut u8, len: usize) -> Option<Result<usize, i32>> {
    if len == 0 {
        return None;
    }
    CUR.try_with(|c| {
        if let Ok(mut c) = c.try_borrow_mut() {
            if let Some(s) = c.as_mut() {
                let out = unsafe { std::slice::from_raw_parts_mut(buf, len) };
                let measured = s.taint_from.is_some();
                if measured {
                    crate::vg::toggle();
                }
                let r = crate::alloc::pause(|| s.answer(out));
                if measured {
                    crate::vg::toggle();
                }
                return Some(r);
            }
        }
        None
    })
    .unwrap_or(None)
}

#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri), not(husk_no_interpose)))]
mod imp {
    unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        let r: i64;
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
            options(nostack));
        r
    }

    // MemorySanitizer does not see what the kernel writes
    #[cfg(husk_msan)]
    extern "C" {
        fn __msan_unpoison(a: *const u8, n: usize);
    }
    #[cfg(husk_msan)]
    unsafe fn written(n: i64, a: i64, len: i64) {
        if n == libc::SYS_getrandom && len > 0 {
            __msan_unpoison(a as *const u8, len as usize);
        }
    }
    #[cfg(not(husk_msan))]
    unsafe fn written(_: i64, _: i64, _: i64) {}

    unsafe fn answered(r: Result<usize, i32>) -> i64 {
        match r {
            Ok(n) => n as i64,
            Err(e) => {
                *libc::__errno_location() = e;
                -1
            }
        }
    }

    /// libc's `syscall`, with getrandom diverted
    #[no_mangle]
    pub unsafe extern "C" fn syscall(
        n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64,
    ) -> i64 {
        if n == libc::SYS_getrandom {
            if let Some(r) = super::serve(a as *mut u8, b as usize) {
                return answered(r);
            }
        }
        let r = raw(n, a, b, c, d, e, f);
        if (-4095..0).contains(&r) {
            *libc::__errno_location() = -r as i32;
            return -1;
        }
        written(n, a, r);
        r
    }

    /// libc's `getrandom`, for callers that do not go through `syscall`
    #[no_mangle]
    pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
        if let Some(r) = super::serve(buf, len) {
            return answered(r) as isize;
        }
        let r = raw(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0);
        if (-4095..0).contains(&r) {
            *libc::__errno_location() = -r as i32;
            return -1;
        }
        written(libc::SYS_getrandom, buf as i64, r);
        r as isize
    }
}
