//! Attribution of panics, aborts and runaway cases.
//!
//! * A panic hook records message and location of a panic per thread instead of printing it.
//! * `CURRENT` remembers, per worker slot, which case is being executed and whether control is
//!   inside the crate under test, so that a fatal signal or abort can be attributed: the signal
//!   handler prints a `CRASH slot=.. case=..` line that the driver turns into a verdict.

use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const SLOTS: usize = 64;
static CASE: [AtomicU64; SLOTS] = [const { AtomicU64::new(u64::MAX) }; SLOTS];
static INSIDE: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static OVERSIZE: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn set_slot(s: usize) {
    SLOT.with(|c| c.set(s));
}
pub fn slot() -> usize {
    SLOT.with(|c| c.get())
}
pub fn set_case(c: u64) {
    CASE[SLOT.with(|c| c.get())].store(c, Relaxed);
}
pub fn note_oversize(n: usize) {
    OVERSIZE.store(n, Relaxed);
}
pub fn case_of(slot: usize) -> (u64, u64) {
    (CASE[slot].load(Relaxed), INSIDE[slot].load(Relaxed))
}

pub fn install() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let _p = crate::alloc::pause();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<non-string payload>".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
        } else {
            default(info);
        }
    }));
    #[cfg(not(miri))]
    unsafe {
        for s in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            // ASan installs its own SEGV handler; keep it in that build.
            if std::env::var_os("PEDMON_ASAN").is_some() && s != libc::SIGABRT {
                continue;
            }
            libc::signal(s, handler as *const () as usize);
        }
    }
}

#[cfg(not(miri))]
extern "C" fn handler(sig: libc::c_int) {
    // async-signal-safe: only write(2) of a stack buffer
    let slot = SLOT.try_with(|c| c.get()).unwrap_or(0);
    report_crash(slot, "signal", sig as u64);
    unsafe { libc::_exit(70) }
}

#[cfg(not(miri))]
pub fn report_crash(slot: usize, what: &str, n: u64) {
    let mut b = [0u8; 256];
    let mut at = 0;
    let mut put = |s: &[u8]| {
        for &c in s {
            if at < b.len() {
                b[at] = c;
                at += 1;
            }
        }
    };
    let mut digits = [0u8; 20];
    fn num(mut v: u64, d: &mut [u8; 20]) -> &[u8] {
        let mut i = d.len();
        loop {
            i -= 1;
            d[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        &d[i..]
    }
    let (case, inside) = case_of(slot);
    put(b"\nCRASH what=");
    put(what.as_bytes());
    put(b" n=");
    put(num(n, &mut digits));
    put(b" case=");
    put(num(case, &mut digits));
    put(b" inside=");
    put(num(inside, &mut digits));
    put(b" oversize=");
    put(num(OVERSIZE.load(Relaxed) as u64, &mut digits));
    put(b"\n");
    unsafe {
        libc::write(1, b.as_ptr() as *const _, at);
    }
}

/// Run `f` (a call into the crate under test); a panic becomes `Err(message)`.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let slot = SLOT.with(|c| c.get());
    QUIET.with(|q| q.set(true));
    INSIDE[slot].store(1, Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    INSIDE[slot].store(0, Relaxed);
    QUIET.with(|q| q.set(false));
    match r {
        Ok(v) => Ok(v),
        Err(payload) => {
            {
                // the payload was allocated outside of the counting pause
                drop(payload);
            }
            let _p = crate::alloc::pause();
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(m)
        }
    }
}

/// CPU time of the calling thread's clock id, for the watchdog.
#[cfg(not(miri))]
pub fn thread_clock() -> libc::clockid_t {
    unsafe {
        let mut c: libc::clockid_t = 0;
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
        c
    }
}
#[cfg(not(miri))]
pub fn clock_secs(c: libc::clockid_t) -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(c, &mut t) != 0 {
            return -1.0;
        }
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

static CLOCKS: [std::sync::atomic::AtomicI64; SLOTS] = [const { std::sync::atomic::AtomicI64::new(i64::MIN) }; SLOTS];

/// Seconds of CPU one case may burn before it counts as not terminating.  Cases take
/// milliseconds; the limit is in CPU time of that thread, so machine load does not matter.
pub const CASE_CPU_LIMIT: f64 = 60.0;

pub fn register_clock(_slot: usize) {
    #[cfg(not(miri))]
    CLOCKS[_slot].store(thread_clock() as i64, Relaxed);
}

/// Watch the workers until all of them are done; a case that exceeds its CPU limit is reported
/// like a crash.
pub fn watchdog(_threads: usize, _live: &AtomicU64) {
    #[cfg(not(miri))]
    {
        let mut seen = [(u64::MAX, 0f64); SLOTS];
        while _live.load(Relaxed) > 0 {
            for _ in 0..20 {
                std::thread::sleep(std::time::Duration::from_millis(5));
                if _live.load(Relaxed) == 0 {
                    return;
                }
            }
            for s in 0.._threads {
                let (case, inside) = case_of(s);
                let c = CLOCKS[s].load(Relaxed);
                if case == u64::MAX || c == i64::MIN {
                    continue;
                }
                let now = clock_secs(c as libc::clockid_t);
                if now < 0.0 {
                    continue;
                }
                if seen[s].0 != case {
                    seen[s] = (case, now);
                } else if now - seen[s].1 > CASE_CPU_LIMIT && inside == 1 {
                    report_crash(s, "hang", (now - seen[s].1) as u64);
                    unsafe { libc::_exit(71) }
                }
            }
        }
    }
}
