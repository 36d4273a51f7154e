//! A global allocator that (1) puts checked red zones around every block and
//! fills fresh and freed memory with poison, so that stray reads and writes
//! show up, and (2) accounts for what the code under test requests.
//!
//! Blocks allocated inside [`scope`] are tagged as belonging to the code under
//! test; their bytes are counted per thread until they are freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Guarded;

const PRE: usize = 64; // multiple of every alignment we hand out directly
const POST: usize = 32;
const CAN: u8 = 0xFD;
const FREED: u8 = 0xD9;
const MAGIC: u64 = 0x5ca1_ab1e_0dd5_eed5;

/// A single request above this is reported as a crash of the code under test.
pub const HUGE: usize = 1 << 30;

#[derive(Clone, Copy, Default, Debug)]
pub struct Stats {
    pub calls: u64,
    pub live: usize,
    pub peak: usize,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<usize> = const { Cell::new(0) };
    static PEAK: Cell<usize> = const { Cell::new(0) };
    /// What fresh memory is filled with. Running the same history with two
    /// fills and comparing shows whether uninitialised memory was read.
    pub static FRESH: Cell<u8> = const { Cell::new(0xA7) };
}

pub static CRASHED: AtomicBool = AtomicBool::new(false);
static ARENA_POS: AtomicUsize = AtomicUsize::new(0);
static mut ARENA: [u128; 1 << 16] = [0; 1 << 16];

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    tagged: u64,
}

unsafe fn arena(l: Layout) -> *mut u8 {
    // After a crash the heap may be corrupt: serve the reporter from here.
    let n = (l.size() + 31) / 16;
    let p = ARENA_POS.fetch_add(n, Relaxed);
    if p + n > (1 << 16) {
        return std::ptr::null_mut();
    }
    (std::ptr::addr_of_mut!(ARENA) as *mut u128).add(p) as *mut u8
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if CRASHED.load(Relaxed) {
            return arena(l);
        }
        let tag = ON.try_with(|c| c.get()).unwrap_or(false);
        if tag && l.size() > HUGE {
            crate::crash::die("allocation of more than 1 GiB requested");
        }
        let total = PRE + l.size() + POST;
        let base = System.alloc(Layout::from_size_align_unchecked(total, l.align().max(64)));
        if base.is_null() {
            return base;
        }
        let h = base as *mut Head;
        (*h).magic = MAGIC;
        (*h).size = l.size();
        (*h).tagged = tag as u64;
        let user = base.add(PRE);
        std::ptr::write_bytes(base.add(PRE - 32), CAN, 32);
        std::ptr::write_bytes(user.add(l.size()), CAN, POST);
        let fresh = FRESH.try_with(|c| c.get()).unwrap_or(0xA7);
        if l.size() <= 1 << 16 {
            std::ptr::write_bytes(user, fresh, l.size());
        } else {
            std::ptr::write_bytes(user, fresh, 1 << 16);
            std::ptr::write_bytes(user.add(l.size() - (1 << 12)), fresh, 1 << 12);
        }
        if tag {
            CALLS.with(|c| c.set(c.get() + 1));
            let n = LIVE.with(|c| {
                c.set(c.get() + l.size());
                c.get()
            });
            PEAK.with(|c| c.set(c.get().max(n)));
        }
        user
    }
    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        if CRASHED.load(Relaxed) {
            return;
        }
        let base = user.sub(PRE);
        let h = base as *mut Head;
        if (*h).magic != MAGIC || (*h).size != l.size() {
            crate::crash::die("free of a block that is not allocated with that size (double free or overwritten header)");
        }
        for i in 0..32 {
            if *base.add(PRE - 32 + i) != CAN || *user.add(l.size() + i) != CAN {
                crate::crash::die("memory next to an allocated block was overwritten");
            }
        }
        if (*h).tagged != 0 {
            LIVE.with(|c| c.set(c.get().wrapping_sub(l.size())));
        }
        (*h).magic = 0;
        std::ptr::write_bytes(user, FREED, l.size().min(1 << 12));
        System.dealloc(base, Layout::from_size_align_unchecked(PRE + l.size() + POST, l.align().max(64)));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

/// Runs `f` with its allocations attributed to the code under test.
pub fn scope<R>(f: impl FnOnce() -> R) -> R {
    struct Off(bool);
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|c| c.set(self.0));
        }
    }
    let _off = Off(ON.with(|c| c.replace(true)));
    f()
}

/// Runs `f` with attribution switched off (harness work inside a callback).
pub fn unscoped<R>(f: impl FnOnce() -> R) -> R {
    struct Off(bool);
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|c| c.set(self.0));
        }
    }
    let _off = Off(ON.with(|c| c.replace(false)));
    f()
}

/// Resets the peak to the current live size.
pub fn mark() {
    PEAK.with(|p| p.set(LIVE.with(|l| l.get())));
}

pub fn stats() -> Stats {
    Stats {
        calls: CALLS.with(|c| c.get()),
        live: LIVE.with(|c| c.get()),
        peak: PEAK.with(|c| c.get()),
    }
}

pub fn reset_live() {
    LIVE.with(|c| c.set(0));
}
