//! Turns a crash (abort from a failed unsafe precondition, segmentation fault,
//! corrupted heap, runaway allocation) or a hang of the code under test into a
//! report of the history that was being executed.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

extern "C" {
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn _exit(code: i32) -> !;
}

// glibc's struct sigaction on x86_64 / aarch64 Linux
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
const SA_ONSTACK: i32 = 0x0800_0000;

/// What a thread is executing right now.
pub trait Describe {
    fn describe(&self) -> String;
}

pub const SLOTS: usize = 64;
thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}
static NEXT: AtomicUsize = AtomicUsize::new(0);
static DATA: [AtomicPtr<()>; SLOTS] = [const { AtomicPtr::new(std::ptr::null_mut()) }; SLOTS];
static VTAB: [AtomicPtr<()>; SLOTS] = [const { AtomicPtr::new(std::ptr::null_mut()) }; SLOTS];
static BEAT: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static FILE: Mutex<Option<String>> = Mutex::new(None);
static PATH: AtomicPtr<String> = AtomicPtr::new(std::ptr::null_mut());
static DYING: AtomicBool = AtomicBool::new(false);

thread_local! {
    static LAST: Cell<Option<String>> = const { Cell::new(None) };
}

fn slot() -> usize {
    SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT.fetch_add(1, SeqCst) % SLOTS);
        }
        s.get()
    })
}

/// Publishes what this thread is about to run; must outlive `f`.
pub fn running<R>(d: &dyn Describe, f: impl FnOnce() -> R) -> R {
    let s = slot();
    let (a, b): (*mut (), *mut ()) = unsafe { std::mem::transmute(d) };
    let (pa, pb) = (DATA[s].load(Relaxed), VTAB[s].load(Relaxed));
    DATA[s].store(a, Relaxed);
    VTAB[s].store(b, Relaxed);
    struct Back(usize, *mut (), *mut ());
    impl Drop for Back {
        fn drop(&mut self) {
            DATA[self.0].store(self.1, Relaxed);
            VTAB[self.0].store(self.2, Relaxed);
        }
    }
    let _b = Back(s, pa, pb);
    f()
}

/// Signals progress, for the watchdog.
#[inline]
pub fn beat() {
    let s = slot();
    BEAT[s].store(BEAT[s].load(Relaxed).wrapping_add(1), Relaxed);
}

fn dump(s: usize, why: &str) -> ! {
    crate::alloc::CRASHED.store(true, SeqCst);
    if DYING.swap(true, SeqCst) {
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
        }
    }
    let (a, b) = (DATA[s].load(Relaxed), VTAB[s].load(Relaxed));
    let text = if a.is_null() {
        String::from("(no history: crash in the harness itself)")
    } else {
        let d: &dyn Describe = unsafe { std::mem::transmute((a, b)) };
        d.describe()
    };
    let last = LAST.try_with(|l| l.take()).ok().flatten().unwrap_or_default();
    let out = format!("{}\n{}\n{}\n", why.replace('\n', " "), last.replace('\n', " "), text);
    let p = PATH.load(SeqCst);
    unsafe {
        if !p.is_null() {
            let _ = std::fs::write((*p).as_str(), out.as_bytes());
        }
        _exit(70)
    }
}

/// Reports the history the current thread is running and ends the process.
pub fn die(why: &str) -> ! {
    dump(slot(), why)
}

extern "C" fn on_signal(sig: i32) {
    let why = match sig {
        6 => "abort (failed unsafe precondition, double panic or heap check)",
        11 => "segmentation fault",
        7 => "bus error",
        4 => "illegal instruction",
        8 => "arithmetic fault",
        _ => "fatal signal",
    };
    dump(slot(), why)
}

/// Keeps the message of each panic instead of printing it.
pub fn hook() {
    let trace = std::env::var("MC_TRACE").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        crate::alloc::unscoped(|| {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            if trace {
                eprintln!("panic: {}{}", m, l);
            }
            let _ = LAST.try_with(|c| c.set(Some(format!("{}{}", m, l))));
        })
    }));
}

/// Installs the handlers. `path` receives the crash report.
pub fn install(path: &str, hang_s: u64) {
    *FILE.lock().unwrap() = Some(path.to_string());
    PATH.store(Box::into_raw(Box::new(path.to_string())), SeqCst);
    for s in [4, 6, 7, 8, 11] {
        unsafe {
            let a = SigAction { handler: on_signal as extern "C" fn(i32) as usize, mask: [0; 16], flags: SA_ONSTACK, restorer: 0 };
            sigaction(s, &a, std::ptr::null_mut());
        }
    }
    hook();
    if hang_s > 0 {
        std::thread::spawn(move || {
            let mut last = [0u64; SLOTS];
            let mut same = [0u64; SLOTS];
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                for s in 0..SLOTS {
                    let b = BEAT[s].load(Relaxed);
                    if !DATA[s].load(Relaxed).is_null() && b == last[s] {
                        same[s] += 1;
                        if same[s] >= hang_s {
                            dump(s, "no progress: a call does not return");
                        }
                    } else {
                        same[s] = 0;
                    }
                    last[s] = b;
                }
            }
        });
    }
}

/// Message of the last panic on this thread.
pub fn last_panic() -> String {
    LAST.with(|l| {
        let s = l.take();
        let r = s.clone().unwrap_or_default();
        l.set(s);
        r
    })
}
