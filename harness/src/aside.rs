//! Runs a call in a thread of its own, under an allocator that counts what the
//! thread asks for: one that has asked for more than a rejection could need is
//! parked for good, and reported. So a call that would start using 128 GiB is
//! observed without using them.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::mpsc;
use std::sync::Arc;
use std::time::{Duration, Instant};

/// Bytes requested in total, frees not subtracted.
const LIMIT: usize = 4 << 20;

/// Threads parked so far in this process.
pub static PARKED: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static FLAG: Cell<*const AtomicBool> = const { Cell::new(std::ptr::null()) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
}

// Bytes this thread has asked for and not given back; and the most since the
// mark was reset.
thread_local! {
    static HELD: Cell<isize> = const { Cell::new(0) };
    static TOP: Cell<isize> = const { Cell::new(0) };
}

#[inline]
fn took(size: isize) {
    let _ = HELD.try_with(|h| {
        let now = h.get() + size;
        h.set(now);
        let _ = TOP.try_with(|t| {
            if now > t.get() {
                t.set(now)
            }
        });
    });
}

/// Bytes that this thread holds.
pub fn held() -> isize {
    HELD.with(|h| h.get())
}

/// How much more than before the call the thread held at most.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, isize) {
    let before = held();
    TOP.with(|t| t.set(before));
    let r = f();
    (r, TOP.with(|t| t.get()) - before)
}

thread_local! {
    static FILL: Cell<Option<u8>> = const { Cell::new(None) };
}

/// What this thread's fresh memory, and what it gives back, is filled with.
pub fn fill(with: Option<u8>) {
    FILL.with(|f| f.set(with));
}

unsafe fn paint(p: *mut u8, size: usize) {
    if let Ok(Some(b)) = FILL.try_with(|f| f.get()) {
        if !p.is_null() {
            std::ptr::write_bytes(p, b, size);
        }
    }
}

pub struct Trap;

/// Bytes live in the whole process, very large zeroed ones (which cost
/// nothing until they are written) excepted.
static LIVE: AtomicUsize = AtomicUsize::new(0);
const MOST: usize = 3 << 30;
const UNCOUNTED: usize = 1 << 32;

/// What no case comes near (the largest takes about half) is a failure of the
/// code under test: end the process, which the driver confirms and reports.
fn account(size: usize) {
    took(size as isize);
    if LIVE.fetch_add(size, Ordering::Relaxed) + size > MOST {
        eprintln!("more than {} bytes in use", MOST);
        std::process::abort();
    }
}

fn trap(size: usize) {
    let flag = FLAG.try_with(|f| f.get()).unwrap_or(std::ptr::null());
    if flag.is_null() {
        return;
    }
    let total = TOTAL.try_with(|t| {
        t.set(t.get().saturating_add(size));
        t.get()
    });
    if total.unwrap_or(0) <= LIMIT {
        return;
    }
    PARKED.fetch_add(1, Ordering::SeqCst);
    unsafe { (*flag).store(true, Ordering::SeqCst) };
    loop {
        std::thread::sleep(Duration::from_secs(3600));
    }
}

unsafe impl GlobalAlloc for Trap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        trap(l.size());
        account(l.size());
        let p = System.alloc(l);
        paint(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        trap(l.size());
        if l.size() < UNCOUNTED {
            account(l.size());
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() < UNCOUNTED {
            took(-(l.size() as isize));
            LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        }
        paint(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        trap(n);
        account(n);
        if l.size() < UNCOUNTED {
            took(-(l.size() as isize));
            LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        }
        let p = System.realloc(p, l, n);
        if n > l.size() && !p.is_null() {
            paint(p.add(l.size()), n - l.size());
        }
        p
    }
}

pub enum Aside<T> {
    Done(T),
    /// Parked: it had begun the work.
    Huge,
    Panic(String),
    /// Neither returned nor asked for much within 20 s.
    Timeout,
    NoThread,
}

pub fn run<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(f: F) -> Aside<T> {
    let flag = Arc::new(AtomicBool::new(false));
    let inner = flag.clone();
    let (tx, rx) = mpsc::channel();
    let spawned = std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
        FLAG.with(|f| f.set(Arc::as_ptr(&inner)));
        let r = crate::catch(f);
        FLAG.with(|f| f.set(std::ptr::null()));
        let _ = tx.send(r);
        drop(inner);
    });
    if spawned.is_err() {
        return Aside::NoThread;
    }
    let start = Instant::now();
    loop {
        match rx.recv_timeout(Duration::from_millis(2)) {
            Ok(Ok(v)) => return Aside::Done(v),
            Ok(Err(m)) => return Aside::Panic(m),
            Err(_) => {
                if flag.load(Ordering::SeqCst) {
                    return Aside::Huge;
                }
                if start.elapsed() > Duration::from_secs(20) {
                    return Aside::Timeout;
                }
            }
        }
    }
}
