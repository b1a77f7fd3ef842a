//! Instrumentation shared by all monitors: counting allocator, panic capture,
//! crash breadcrumbs and a CPU-time watchdog.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct CountingAlloc;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// Bytes a single observed call may request before it counts as runaway.
pub const CALL_BUDGET: u64 = 1 << 30;

fn note(size: usize) {
    let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| {
        let b = c.get() + size as u64;
        c.set(b);
        if BUDGET.try_with(Cell::get).is_ok_and(|m| b > m) {
            runaway();
        }
    });
}

#[cold]
fn runaway() -> ! {
    // The breadcrumb file tells the driver which call this was.
    let s = SLOT.try_with(Cell::get).unwrap_or(usize::MAX);
    let base = CRUMBS.load(Ordering::Relaxed);
    if s < SLOTS && base != 0 && !cfg!(miri) {
        unsafe { ((base as usize + s * SLOT_BYTES + 24) as *mut u32).write_volatile(3) };
    }
    unsafe { _exit(97) }
}

extern "C" {
    fn _exit(code: i32) -> !;
    #[cfg(not(miri))]
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    #[cfg(not(miri))]
    fn pthread_self() -> usize;
    #[cfg(not(miri))]
    fn pthread_getcpuclockid(t: usize, clk: *mut i32) -> i32;
    #[cfg(not(miri))]
    fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        let _ = LIVE.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64));
        System.realloc(p, l, n)
    }
}

pub fn allocs() -> u64 {
    ALLOCS.with(Cell::get)
}

/// Bytes currently held by allocations made on this thread (same-thread frees).
pub fn live() -> i64 {
    LIVE.with(Cell::get)
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
}

/// As `observe`, without a limit on memory (a whole workload).
pub fn observe_unlimited<R>(f: impl FnOnce() -> R) -> (Result<R, String>, u64) {
    let before = allocs();
    let r = catch_unwind(AssertUnwindSafe(f));
    let made = allocs().wrapping_sub(before);
    (r.map_err(|_| PANIC.with(|p| p.borrow().clone())), made)
}

/// Runs `f`, returning its result (or the panic message) and the number of
/// heap allocations it made.
pub fn observe<R>(f: impl FnOnce() -> R) -> (Result<R, String>, u64) {
    let before = allocs();
    BUDGET.with(|b| b.set(BYTES.with(Cell::get) + CALL_BUDGET));
    let r = catch_unwind(AssertUnwindSafe(f));
    BUDGET.with(|b| b.set(u64::MAX));
    let made = allocs().wrapping_sub(before);
    (r.map_err(|_| PANIC.with(|p| p.borrow().clone())), made)
}

// ---- breadcrumbs and watchdog -------------------------------------------

pub const SLOTS: usize = 64;
pub const SLOT_BYTES: usize = 256;

static CRUMBS: AtomicU64 = AtomicU64::new(0);
#[cfg(not(miri))]
static CLOCKS: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static SEQ: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static ACTIVE: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static NEXT_SLOT: AtomicU64 = AtomicU64::new(0);

#[cfg(not(miri))]
pub fn open_crumbs(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path);
    if let Ok(f) = f {
        if f.set_len((SLOTS * SLOT_BYTES) as u64).is_ok() {
            let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * SLOT_BYTES, 3, 1, f.as_raw_fd(), 0) };
            if p as isize != -1 {
                CRUMBS.store(p as u64, Ordering::SeqCst);
            }
        }
    }
}
#[cfg(miri)]
pub fn open_crumbs(_: &str) {}

pub fn register_thread() {
    let s = NEXT_SLOT.fetch_add(1, Ordering::SeqCst) as usize % SLOTS;
    SLOT.with(|c| c.set(s));
    #[cfg(not(miri))]
    unsafe {
        let mut clk = 0i32;
        if pthread_getcpuclockid(pthread_self(), &mut clk) == 0 {
            CLOCKS[s].store(clk as u32 as u64, Ordering::SeqCst);
        }
    }
    ACTIVE[s].store(1, Ordering::SeqCst);
}

pub fn unregister_thread() {
    let s = SLOT.with(Cell::get);
    if s < SLOTS {
        ACTIVE[s].store(0, Ordering::SeqCst);
    }
}

/// Records the call about to be made, so that a crash, hang or runaway
/// allocation can be attributed to it.
pub fn crumb(name: &str, w: u32, v: u128) {
    let s = SLOT.with(Cell::get);
    if s >= SLOTS {
        return;
    }
    SEQ[s].fetch_add(1, Ordering::Relaxed);
    let base = CRUMBS.load(Ordering::Relaxed);
    if base != 0 && !cfg!(miri) {
        let p = (base as usize + s * SLOT_BYTES) as *mut u8;
        let n = name.len().min(SLOT_BYTES - 32);
        unsafe {
            (p as *mut u64).write_volatile(v as u64);
            (p.add(8) as *mut u64).write_volatile((v >> 64) as u64);
            (p.add(16) as *mut u32).write_volatile(w);
            (p.add(20) as *mut u32).write_volatile(n as u32);
            (p.add(24) as *mut u32).write_volatile(1);
            std::ptr::copy_nonoverlapping(name.as_ptr(), p.add(32), n);
        }
    }
}

/// Starts the watchdog: a single observed call that burns more than
/// `limit_s` seconds of its own CPU time never terminates for our purposes.
#[cfg(not(miri))]
pub fn watchdog(limit_s: f64) {
    std::thread::spawn(move || {
        let mut last = [(0u64, 0f64); SLOTS];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for s in 0..SLOTS {
                if ACTIVE[s].load(Ordering::SeqCst) == 0 {
                    last[s] = (0, 0.0);
                    continue;
                }
                let mut ts = [0i64; 2];
                let clk = CLOCKS[s].load(Ordering::SeqCst) as u32 as i32;
                if clk == 0 || unsafe { clock_gettime(clk, &mut ts) } != 0 {
                    continue;
                }
                let cpu = ts[0] as f64 + ts[1] as f64 * 1e-9;
                let seq = SEQ[s].load(Ordering::Relaxed);
                if last[s].0 != seq || last[s].1 == 0.0 {
                    last[s] = (seq, cpu);
                } else if cpu - last[s].1 > limit_s {
                    let base = CRUMBS.load(Ordering::Relaxed);
                    if base != 0 {
                        let p = (base as usize + s * SLOT_BYTES) as *mut u8;
                        unsafe { (p.add(24) as *mut u32).write_volatile(2) };
                    }
                    unsafe { _exit(96) }
                }
            }
        }
    });
}
#[cfg(miri)]
pub fn watchdog(_: f64) {}

/// Takes back allocations the monitor itself made during an observation.
pub fn forgive(n: u64) {
    ALLOCS.with(|c| c.set(c.get() - n));
}
