//! Receiver of the coverage instrumentation that rustc-wrap.sh puts into the
//! crate under test (guided build only): edge counters, and a value profile
//! of comparisons. The constants it compares with become a dictionary.

use std::cell::UnsafeCell;

struct Shared<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}

static RANGES: Shared<Vec<(usize, usize)>> = Shared(UnsafeCell::new(Vec::new()));
const PROFILE: usize = 1 << 16;
static SEEN_CMP: Shared<[u8; PROFILE]> = Shared(UnsafeCell::new([0; PROFILE]));
static NEW_CMP: Shared<bool> = Shared(UnsafeCell::new(false));
static DICT: Shared<Vec<u64>> = Shared(UnsafeCell::new(Vec::new()));

thread_local! {
    static ACTIVE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

#[no_mangle]
extern "C" fn __sanitizer_cov_8bit_counters_init(start: usize, end: usize) {
    // Runs before main, once per object.
    unsafe { (*RANGES.0.get()).push((start, end)) };
}

#[no_mangle]
extern "C" fn __sanitizer_cov_pcs_init(_: usize, _: usize) {}

fn on_cmp(a: u64, b: u64, pc: usize, constant: bool) {
    if !ACTIVE.try_with(|x| x.get()).unwrap_or(false) {
        return;
    }
    // Addresses, and distances between them, differ from run to run.
    let address = |x: u64| {
        let m = x.min(x.wrapping_neg());
        m >= 1 << 36 && m < 1 << 47 && m.count_ones() > 2
    };
    if address(a) || address(b) {
        return;
    }
    // Relative, so that address randomisation does not show.
    let pc = pc.wrapping_sub(on_cmp as *const () as usize);
    let bits = (a ^ b).count_ones() as usize;
    let near = (a.wrapping_sub(b).min(b.wrapping_sub(a))).min(7) as usize;
    let h = crate::engine::mix64((pc as u64) ^ ((bits * 8 + near) as u64) << 48) as usize % PROFILE;
    unsafe {
        let seen = &mut *SEEN_CMP.0.get();
        if seen[h] == 0 {
            seen[h] = 1;
            *NEW_CMP.0.get() = true;
        }
        if constant && a > 1 {
            let d = &mut *DICT.0.get();
            if d.len() < 256 && !d.contains(&a) {
                d.push(a);
            }
        }
    }
}

macro_rules! cmp_hook {
    ($name:ident, $imp:ident, $t:ty, $constant:expr) => {
        // The caller's address tells comparisons apart: pass it on as a third
        // argument.
        #[no_mangle]
        #[unsafe(naked)]
        extern "C" fn $name(a: $t, b: $t) {
            std::arch::naked_asm!("mov rdx, [rsp]", "jmp {f}", f = sym $imp)
        }
        extern "C" fn $imp(a: $t, b: $t, pc: usize) {
            on_cmp(a as u64, b as u64, pc, $constant);
        }
    };
}

cmp_hook!(__sanitizer_cov_trace_cmp1, imp_cmp1, u8, false);
cmp_hook!(__sanitizer_cov_trace_cmp2, imp_cmp2, u16, false);
cmp_hook!(__sanitizer_cov_trace_cmp4, imp_cmp4, u32, false);
cmp_hook!(__sanitizer_cov_trace_cmp8, imp_cmp8, u64, false);
cmp_hook!(__sanitizer_cov_trace_const_cmp1, imp_ccmp1, u8, true);
cmp_hook!(__sanitizer_cov_trace_const_cmp2, imp_ccmp2, u16, true);
cmp_hook!(__sanitizer_cov_trace_const_cmp4, imp_ccmp4, u32, true);
cmp_hook!(__sanitizer_cov_trace_const_cmp8, imp_ccmp8, u64, true);

#[no_mangle]
#[unsafe(naked)]
extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    std::arch::naked_asm!("mov rdx, [rsp]", "jmp {f}", f = sym imp_switch)
}

extern "C" fn imp_switch(v: u64, cases: *const u64, pc: usize) {
    unsafe {
        let n = *cases as usize;
        for i in 0..n {
            on_cmp(*cases.add(2 + i), v, pc + i, true);
        }
    }
}

pub struct Coverage {
    seen: Vec<u8>,
    pub edges: u64,
}

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

impl Coverage {
    pub fn new() -> Coverage {
        let n: usize = ranges().iter().map(|(a, b)| b - a).sum();
        Coverage { seen: vec![0; n], edges: 0 }
    }

    pub fn total(&self) -> u64 {
        self.seen.len() as u64
    }

    pub fn start(&mut self) {
        for (a, b) in ranges() {
            unsafe { std::ptr::write_bytes(*a as *mut u8, 0, b - a) };
        }
        unsafe { *NEW_CMP.0.get() = false };
        ACTIVE.with(|x| x.set(true));
    }

    /// True if the case showed anything new.
    pub fn finish(&mut self, keep: bool) -> bool {
        ACTIVE.with(|x| x.set(false));
        if !keep {
            return false;
        }
        let mut new = unsafe { *NEW_CMP.0.get() };
        let mut i = 0;
        for (a, b) in ranges() {
            for p in *a..*b {
                let v = bucket(unsafe { *(p as *const u8) });
                if v & !self.seen[i] != 0 {
                    if self.seen[i] == 0 {
                        self.edges += 1;
                    }
                    self.seen[i] |= v;
                    new = true;
                }
                i += 1;
            }
        }
        new
    }

    pub fn dictionary(&self) -> &'static [u64] {
        unsafe { &*DICT.0.get() }
    }

    pub fn comparisons(&self) -> u64 {
        unsafe { (*SEEN_CMP.0.get()).iter().map(|x| u64::from(*x)).sum() }
    }
}

/// How often the call went along each edge (modulo 256), for edges it took.
pub fn edges<T>(f: impl FnOnce() -> T) -> (T, Vec<(u32, u8)>) {
    let at = |p: usize| p as *mut u8;
    let before: Vec<u8> = ranges().iter().flat_map(|(a, b)| (*a..*b).map(|p| unsafe { *at(p) })).collect();
    for (a, b) in ranges() {
        unsafe { std::ptr::write_bytes(*a as *mut u8, 0, b - a) };
    }
    let r = f();
    let mut taken = Vec::new();
    for (i, p) in ranges().iter().flat_map(|(a, b)| *a..*b).enumerate() {
        let n = unsafe { *at(p) };
        if n > 0 {
            taken.push((i as u32, n));
        }
        unsafe { *at(p) = n.saturating_add(before[i]) };
    }
    (r, taken)
}

/// Comparisons are not looked at during the call.
pub fn quietly<T>(f: impl FnOnce() -> T) -> T {
    let was = ACTIVE.with(|x| x.replace(false));
    let r = f();
    ACTIVE.with(|x| x.set(was));
    r
}

fn ranges() -> &'static [(usize, usize)] {
    unsafe { &*RANGES.0.get() }
}
