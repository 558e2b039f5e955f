//! A thread in which system calls that have an effect outside the process's
//! memory are not carried out but recorded (seccomp filter, SIGSYS handler).

/// System call, its first argument, what it was to write, and how much.
#[derive(Clone, Debug)]
pub struct Attempt {
    pub number: usize,
    pub first: usize,
    pub data: Vec<u8>,
    pub len: usize,
}

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod imp {
    use super::Attempt;
    use std::cell::UnsafeCell;
    use std::sync::atomic::{AtomicUsize, Ordering};

    const MOST: usize = 16;
    const KEPT: usize = 96;

    #[derive(Clone, Copy)]
    struct Slot {
        number: usize,
        first: usize,
        len: usize,
        data: [u8; KEPT],
    }
    struct Slots(UnsafeCell<[Slot; MOST]>);
    // Every slot is written once, by the handler that took its index.
    unsafe impl Sync for Slots {}
    static SLOTS: Slots = Slots(UnsafeCell::new([Slot { number: 0, first: 0, len: 0, data: [0; KEPT] }; MOST]));
    static TAKEN: AtomicUsize = AtomicUsize::new(0);

    #[repr(C)]
    struct SigAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    #[repr(C)]
    #[derive(Clone, Copy)]
    struct Insn {
        code: u16,
        yes: u8,
        no: u8,
        k: u32,
    }
    #[repr(C)]
    struct Program {
        len: u16,
        code: *const Insn,
    }

    extern "C" {
        fn sigaction(signal: i32, new: *const SigAction, old: *mut SigAction) -> i32;
        fn prctl(what: i32, a: usize, b: usize, c: usize, d: usize) -> i32;
    }

    const WRITE: usize = 1;
    const PWRITE: usize = 18;
    const SENDTO: usize = 44;
    const OPEN: u32 = 2;
    const OPENAT: u32 = 257;

    /// pwrite, sendfile, sockets and what is sent through them, fork, vfork,
    /// execve, kill, shared memory, truncate, renames, directories, links,
    /// modes and owners, mounts, ids, the clock, limits, pipes, splice, memfd,
    /// io_uring and so on.
    const EFFECTS: [u32; 78] = [
        1, 18, 20, 22, 29, 31, 40, 41, 42, 44, 46, 49, 50, 53, 57, 58, 59, 62, 64, 68, 69, 76, 77, 80, 81, 82, 83, 84,
        85, 86, 87, 88, 90, 91, 92, 93, 94, 95, 101, 105, 106, 113, 114, 117, 119, 132, 133, 161, 164, 165, 166, 188,
        189, 190, 227, 235, 240, 258, 259, 260, 261, 263, 264, 265, 266, 268, 275, 280, 285, 293, 296, 307, 316, 319,
        322, 328, 425, 437,
    ];

    extern "C" fn on_sys(_signal: i32, _info: *mut u8, context: *mut u64) {
        unsafe {
            let reg = |i: usize| *context.add(5 + i) as usize;
            let (number, first, at, len) = (reg(13), reg(8), reg(9), reg(12));
            let i = TAKEN.fetch_add(1, Ordering::SeqCst);
            let bytes = matches!(number, WRITE | PWRITE | SENDTO);
            if i < MOST {
                let s = &mut (*SLOTS.0.get())[i];
                *s = Slot { number, first, len: if bytes { len } else { 0 }, data: [0; KEPT] };
                if bytes {
                    for k in 0..len.min(KEPT) {
                        s.data[k] = *(at as *const u8).add(k);
                    }
                }
            }
            // As if all had been written; everything else is not there.
            *context.add(5 + 13) = if bytes { len as u64 } else { (-38i64) as u64 };
        }
    }

    /// Puts this thread, and those it will start, into the cage. False if that
    /// cannot be done here.
    pub fn enter() -> bool {
        const RET: u16 = 6;
        const LOAD: u16 = 0x20;
        const JEQ: u16 = 0x15;
        const JSET: u16 = 0x45;
        const ALLOW: u32 = 0x7fff_0000;
        const TRAP: u32 = 0x0003_0000;
        let insn = |code, yes, no, k| Insn { code, yes, no, k };
        // seccomp_data: nr at 0, arch at 4, arguments from 16 on.
        let mut code = vec![
            insn(LOAD, 0, 0, 4),
            insn(JEQ, 1, 0, 0xc000_003e),
            insn(RET, 0, 0, ALLOW),
            insn(LOAD, 0, 0, 0),
            // Files opened to be changed.
            insn(JEQ, 0, 4, OPENAT),
            insn(LOAD, 0, 0, 32),
            insn(JSET, 0, 1, 0o1103),
            insn(RET, 0, 0, TRAP),
            insn(RET, 0, 0, ALLOW),
            insn(JEQ, 0, 4, OPEN),
            insn(LOAD, 0, 0, 24),
            insn(JSET, 0, 1, 0o1103),
            insn(RET, 0, 0, TRAP),
            insn(RET, 0, 0, ALLOW),
        ];
        for n in EFFECTS {
            code.push(insn(JEQ, 0, 1, n));
            code.push(insn(RET, 0, 0, TRAP));
        }
        code.push(insn(RET, 0, 0, ALLOW));
        let program = Program { len: code.len() as u16, code: code.as_ptr() };
        let a = SigAction { handler: on_sys as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        unsafe {
            sigaction(31, &a, std::ptr::null_mut()) == 0
                && prctl(38, 1, 0, 0, 0) == 0
                && prctl(22, 2, &program as *const Program as usize, 0, 0) == 0
        }
    }

    /// What was attempted since the last time.
    pub fn attempts() -> Vec<Attempt> {
        let n = TAKEN.load(Ordering::SeqCst).min(MOST);
        let v = (0..n)
            .map(|i| {
                let s = unsafe { &(&*SLOTS.0.get())[i] };
                Attempt { number: s.number, first: s.first, data: s.data[..s.len.min(KEPT)].to_vec(), len: s.len }
            })
            .collect();
        TAKEN.store(0, Ordering::SeqCst);
        v
    }
}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod imp {
    pub fn enter() -> bool {
        false
    }
    pub fn attempts() -> Vec<super::Attempt> {
        vec![]
    }
}

pub use imp::{attempts, enter};
