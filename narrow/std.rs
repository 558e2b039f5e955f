//! As much of `std` as the crate under test needs, on a target that has none
//! here (wasm32): core and alloc under the names that std gives them, an
//! allocator, and a panic handler that leaves its message for the host.

#![no_std]

extern crate alloc as alloc_crate;

pub use alloc_crate::{borrow, boxed, fmt, format, rc, slice, str, string, vec};
pub use core::{
    any, array, ascii, assert_eq, assert_ne, cell, char, clone, cmp, column, concat, convert, debug_assert,
    debug_assert_eq, debug_assert_ne, default, error, file, hash, hint, include, include_bytes, include_str, iter, line,
    marker, matches, mem, module_path, num, ops, option, panic, pin, ptr, r#try, result, stringify, task, time, todo,
    unimplemented, unreachable, write, writeln, assert, arch, cfg, env, option_env, compile_error, format_args,
};
pub use core::{f32, f64, i128, i16, i32, i64, i8, isize, u128, u16, u32, u64, u8, usize};

#[macro_export]
macro_rules! print {
    ($($t:tt)*) => {{ let _ = $crate::format_args!($($t)*); }};
}
#[macro_export]
macro_rules! println {
    ($($t:tt)*) => {{ let _ = $crate::format_args!($($t)*); }};
}
#[macro_export]
macro_rules! eprintln {
    ($($t:tt)*) => {{ let _ = $crate::format_args!($($t)*); }};
}

pub mod prelude {
    pub mod v1 {
        pub use alloc_crate::{borrow::ToOwned, boxed::Box, string::{String, ToString}, vec::Vec};
        pub use crate::{eprintln, format, matches, print, println, thread_local, vec, write, writeln};
        pub use core::prelude::v1::*;
    }
    pub mod rust_2015 {
        pub use super::v1::*;
        pub use core::prelude::rust_2015::*;
    }
    pub mod rust_2018 {
        pub use super::v1::*;
        pub use core::prelude::rust_2018::*;
    }
    pub mod rust_2021 {
        pub use super::v1::*;
        pub use core::prelude::rust_2021::*;
    }
    pub mod rust_2024 {
        pub use super::v1::*;
        pub use core::prelude::rust_2024::*;
    }
}

pub mod collections {
    pub use alloc_crate::collections::*;
}

pub mod alloc {
    pub use alloc_crate::alloc::*;
}

/// One thread.
pub mod sync {
    pub use alloc_crate::sync::*;
    pub use core::cell::{Ref as RwLockReadGuard, RefMut as MutexGuard, RefMut as RwLockWriteGuard};
    pub use core::sync::atomic;
    use core::cell::{LazyCell, OnceCell, RefCell};
    use core::convert::Infallible;

    #[derive(Default, Debug)]
    pub struct Mutex<T>(RefCell<T>);
    unsafe impl<T> Sync for Mutex<T> {}
    impl<T> Mutex<T> {
        pub const fn new(v: T) -> Self {
            Mutex(RefCell::new(v))
        }
        pub fn lock(&self) -> Result<MutexGuard<'_, T>, Infallible> {
            Ok(self.0.borrow_mut())
        }
    }

    #[derive(Default, Debug)]
    pub struct RwLock<T>(RefCell<T>);
    unsafe impl<T> Sync for RwLock<T> {}
    impl<T> RwLock<T> {
        pub const fn new(v: T) -> Self {
            RwLock(RefCell::new(v))
        }
        pub fn read(&self) -> Result<RwLockReadGuard<'_, T>, Infallible> {
            Ok(self.0.borrow())
        }
        pub fn write(&self) -> Result<RwLockWriteGuard<'_, T>, Infallible> {
            Ok(self.0.borrow_mut())
        }
    }

    #[derive(Default, Debug)]
    pub struct OnceLock<T>(OnceCell<T>);
    unsafe impl<T> Sync for OnceLock<T> {}
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock(OnceCell::new())
        }
        pub fn get(&self) -> Option<&T> {
            self.0.get()
        }
        pub fn set(&self, v: T) -> Result<(), T> {
            self.0.set(v)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            self.0.get_or_init(f)
        }
    }

    pub struct LazyLock<T, F = fn() -> T>(LazyCell<T, F>);
    unsafe impl<T, F> Sync for LazyLock<T, F> {}
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            LazyLock(LazyCell::new(f))
        }
    }
    impl<T, F: FnOnce() -> T> core::ops::Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.0
        }
    }

    pub struct Once(OnceCell<()>);
    unsafe impl Sync for Once {}
    impl Once {
        pub const fn new() -> Self {
            Once(OnceCell::new())
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            self.0.get_or_init(f);
        }
    }
}

pub mod thread {
    pub struct LocalKey<T: 'static>(pub core::cell::LazyCell<T>);
    unsafe impl<T> Sync for LocalKey<T> {}
    impl<T> LocalKey<T> {
        pub fn with<R, F: FnOnce(&T) -> R>(&'static self, f: F) -> R {
            f(&self.0)
        }
    }
}

#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $e:block $(; $($rest:tt)*)?) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey($crate::cell::LazyCell::new(|| $e));
        $($crate::thread_local!($($rest)*);)?
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $e:expr $(; $($rest:tt)*)?) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey($crate::cell::LazyCell::new(|| $e));
        $($crate::thread_local!($($rest)*);)?
    };
}

mod heap {
    use core::alloc::{GlobalAlloc, Layout};
    use core::cell::UnsafeCell;

    /// Free lists of powers of two, filled from the end of the memory.
    struct Heap(UnsafeCell<State>);
    struct State {
        free: [usize; 32],
        next: usize,
        end: usize,
    }
    unsafe impl Sync for Heap {}

    #[global_allocator]
    static HEAP: Heap = Heap(UnsafeCell::new(State { free: [0; 32], next: 0, end: 0 }));

    fn class(l: &Layout) -> usize {
        let n = l.size().max(l.align()).max(16);
        (usize::BITS - (n - 1).leading_zeros()) as usize
    }

    unsafe impl GlobalAlloc for Heap {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let s = &mut *self.0.get();
            let c = class(&l);
            if c >= 31 {
                return core::ptr::null_mut();
            }
            let p = s.free[c];
            if p != 0 {
                s.free[c] = *(p as *const usize);
                return p as *mut u8;
            }
            let size = 1usize << c;
            // Every piece lies at a multiple of its size up to a page.
            let align = size.min(65_536);
            let at = (s.next + align - 1) & !(align - 1);
            if at + size > s.end || s.next == 0 {
                let pages = size.max(1 << 20) / 65_536 + 1;
                #[cfg(target_arch = "wasm32")]
                let old = core::arch::wasm32::memory_grow(0, pages);
                #[cfg(not(target_arch = "wasm32"))]
                let old = usize::MAX;
                if old == usize::MAX {
                    return core::ptr::null_mut();
                }
                let start = old * 65_536;
                if start != s.end || s.next == 0 {
                    s.next = start;
                }
                s.end = start + pages * 65_536;
                return self.alloc(l);
            }
            s.next = at + size;
            at as *mut u8
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let s = &mut *self.0.get();
            let c = class(&l);
            *(p as *mut usize) = s.free[c];
            s.free[c] = p as usize;
        }
    }
}

/// The text of the last panic: length, then bytes.
pub mod last_words {
    use core::fmt::Write;

    pub struct Words {
        pub len: usize,
        pub text: [u8; 300],
    }
    pub static mut WORDS: Words = Words { len: 0, text: [0; 300] };

    impl Write for Words {
        fn write_str(&mut self, s: &str) -> core::fmt::Result {
            for b in s.bytes() {
                if self.len < self.text.len() {
                    self.text[self.len] = b;
                    self.len += 1;
                }
            }
            Ok(())
        }
    }

    #[cfg(target_arch = "wasm32")]
    #[panic_handler]
    fn on_panic(info: &core::panic::PanicInfo) -> ! {
        unsafe {
            let w = &mut *core::ptr::addr_of_mut!(WORDS);
            w.len = 0;
            let _ = write!(w, "{}", info);
        }
        core::arch::wasm32::unreachable()
    }
}
