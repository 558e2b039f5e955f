//! What compiled code calls without naming it, for targets whose own
//! compiler_builtins cannot be built here.

#![feature(compiler_builtins)]
#![allow(internal_features)]
#![compiler_builtins]
#![no_builtins]
#![no_std]

#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    let mut i = 0;
    while i < n {
        *d.add(i) = *s.add(i);
        i += 1;
    }
    d
}

#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if (d as usize) <= s as usize {
        return memcpy(d, s, n);
    }
    let mut i = n;
    while i > 0 {
        i -= 1;
        *d.add(i) = *s.add(i);
    }
    d
}

#[no_mangle]
pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    let mut i = 0;
    while i < n {
        *d.add(i) = c as u8;
        i += 1;
    }
    d
}

#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    while i < n {
        let (x, y) = (*a.add(i), *b.add(i));
        if x != y {
            return x as i32 - y as i32;
        }
        i += 1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    memcmp(a, b, n)
}

/// 128-bit product in four 32-bit digits.
#[no_mangle]
pub unsafe extern "C" fn __multi3(r: *mut u64, a: u64, a_hi: u64, b: u64, b_hi: u64) {
    let (a0, a1) = (a & 0xffff_ffff, a >> 32);
    let (b0, b1) = (b & 0xffff_ffff, b >> 32);
    let p00 = a0.wrapping_mul(b0);
    let p01 = a0.wrapping_mul(b1);
    let p10 = a1.wrapping_mul(b0);
    let p11 = a1.wrapping_mul(b1);
    let mid = (p00 >> 32).wrapping_add(p01 & 0xffff_ffff).wrapping_add(p10 & 0xffff_ffff);
    *r = (p00 & 0xffff_ffff) | (mid << 32);
    *r.add(1) = p11
        .wrapping_add(p01 >> 32)
        .wrapping_add(p10 >> 32)
        .wrapping_add(mid >> 32)
        .wrapping_add(a.wrapping_mul(b_hi))
        .wrapping_add(a_hi.wrapping_mul(b));
}
