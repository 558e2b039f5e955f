//! Records which instructions a call executes: the thread single-steps itself
//! (trap flag, SIGTRAP handler), so no other process and no clock is involved.

/// Instruction addresses of one call. Empty where stepping is not available.
pub type Path = Vec<usize>;

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod imp {
    use std::arch::asm;
    use std::cell::UnsafeCell;
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::Once;

    const MOST: usize = 1 << 20;

    struct Buffer(UnsafeCell<[usize; MOST]>);
    // Written by the handler of the one thread that steps.
    unsafe impl Sync for Buffer {}
    static PATH: Buffer = Buffer(UnsafeCell::new([0; MOST]));
    static COUNT: AtomicUsize = AtomicUsize::new(0);
    static INSTALL: Once = Once::new();

    #[repr(C)]
    struct SigAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }

    const SIGTRAP: i32 = 5;
    const SA_SIGINFO: i32 = 4;
    /// uc_mcontext.gregs[REG_RIP] in units of eight bytes from the ucontext.
    const RIP: usize = 5 + 16;

    extern "C" {
        fn sigaction(signal: i32, new: *const SigAction, old: *mut SigAction) -> i32;
        static __executable_start: u8;
        static etext: u8;
    }

    extern "C" fn on_trap(_signal: i32, _info: *mut u8, context: *mut u64) {
        let n = COUNT.load(Ordering::Relaxed);
        if n < MOST {
            unsafe { (*PATH.0.get())[n] = *context.add(RIP) as usize };
        }
        COUNT.store(n + 1, Ordering::Relaxed);
    }

    #[inline(never)]
    pub fn stepped<T>(f: impl FnOnce() -> T) -> (T, super::Path) {
        INSTALL.call_once(|| {
            let a = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
            unsafe { sigaction(SIGTRAP, &a, std::ptr::null_mut()) };
        });
        COUNT.store(0, Ordering::SeqCst);
        let r;
        unsafe {
            asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            r = f();
            asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq");
        }
        let n = COUNT.load(Ordering::SeqCst);
        let mut path = unsafe { (&(*PATH.0.get()))[..n.min(MOST)].to_vec() };
        if n > MOST {
            path.push(n);
        }
        (r, path)
    }

    /// Leaves out what was executed in shared libraries.
    pub fn in_program(p: &[usize]) -> super::Path {
        let (a, b) = unsafe { (&__executable_start as *const u8 as usize, &etext as *const u8 as usize) };
        p.iter().copied().filter(|x| (a..b).contains(x)).collect()
    }
}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod imp {
    pub fn stepped<T>(f: impl FnOnce() -> T) -> (T, super::Path) {
        (f(), vec![])
    }
    pub fn in_program(p: &[usize]) -> super::Path {
        p.to_vec()
    }
}

pub use imp::{in_program, stepped};
