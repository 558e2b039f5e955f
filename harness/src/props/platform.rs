//! C19 the same results on other platforms.

use super::system::{gen_op, Op};
use crate::backend;
use crate::engine::*;
use crate::ensure;

fn num(o: &mut Vec<u8>, n: u64) {
    o.extend_from_slice(&n.to_le_bytes());
}

fn literal(o: &mut Vec<u8>, d: &[u8]) {
    o.push(0);
    num(o, d.len() as u64);
    o.extend_from_slice(d);
}

/// Bytes that the interpreter makes from a seed.
fn made(o: &mut Vec<u8>, seed: u64, len: u64) {
    o.push(1);
    num(o, len);
    num(o, seed);
}

/// The code of an operation, and its cost in blocks.
fn encode(op: &Op, o: &mut Vec<u8>) -> u64 {
    let blocks = |n: usize, size: usize| (n / size + 2) as u64;
    match op {
        Op::ShaNew(_) => {
            o.push(0);
            0
        }
        Op::ShaUpdate(d) => {
            o.push(1);
            literal(o, d);
            blocks(d.len(), 64) - 2
        }
        Op::ShaDigest => {
            o.push(2);
            2
        }
        Op::HmacNew(k) => {
            o.push(4);
            literal(o, k);
            blocks(k.len(), 64) + 1
        }
        Op::HmacUpdate(d) => {
            o.push(5);
            literal(o, d);
            blocks(d.len(), 64) - 2
        }
        Op::HmacDigest => {
            o.push(6);
            3
        }
        Op::AesNew => {
            o.push(7);
            0
        }
        Op::AesInit(k) => {
            o.push(8);
            literal(o, k);
            2
        }
        Op::AesCrypt(b) => {
            o.push(9);
            o.extend_from_slice(b);
            3
        }
        Op::CipherNew(iv) => {
            o.push(10);
            o.extend_from_slice(iv);
            0
        }
        Op::CipherInit(k) => {
            o.push(11);
            literal(o, k);
            3
        }
        Op::CipherWrite(d) => {
            o.push(12);
            literal(o, d);
            blocks(d.len(), 16)
        }
        Op::CipherFlush => {
            o.push(13);
            1
        }
        Op::DecipherNew(iv) => {
            o.push(14);
            o.extend_from_slice(iv);
            0
        }
        Op::DecipherInit(k) => {
            o.push(15);
            literal(o, k);
            2
        }
        Op::DecipherWrite(d) => {
            o.push(16);
            literal(o, d);
            blocks(d.len(), 16)
        }
        Op::DecipherFeed => {
            o.push(17);
            8
        }
        Op::DecipherFlush => {
            o.push(18);
            1
        }
        Op::Pbkdf2(p, s, c, n) => {
            o.push(19);
            literal(o, p);
            literal(o, s);
            num(o, *c as u64);
            num(o, *n as u64);
            (blocks(*n, 32) - 1) * (*c as u64 * 6 + blocks(s.len() + p.len(), 64))
        }
        Op::Scrypt(r, n, p, pw, salt, len) => {
            o.push(20);
            num(o, *r as u64);
            num(o, *n as u64);
            num(o, *p as u64);
            literal(o, pw);
            literal(o, salt);
            num(o, *len as u64);
            (*r * *p * 24) as u64 + (2 * *n * *r * *p * 2) as u64 + blocks(*len, 32) * 8
        }
        Op::Salsa(d, rounds) => {
            o.push(21);
            literal(o, d);
            num(o, *rounds as u64);
            (d.len() / 64 * (rounds / 3 + 1)) as u64
        }
    }
}

/// Run here and there.
pub fn compare(code: &[u8]) -> Res {
    compare_as(code, false)
}

/// With threads: there, the history is run by two threads at once.
pub fn compare_as(code: &[u8], threads: bool) -> Res {
    let here = match crate::catch(|| crate::interp::run(code)) {
        Ok(v) => v,
        Err(m) => return fail(format!("on this platform: {}", m)),
    };
    let there = if threads { backend::run(&[&[255], code].concat()) } else { backend::run(code) };
    match there {
        Ok(there) => {
            ensure!(there == here, "{}: output of the history: {}", name(), diff(&there, &here));
            Ok(())
        }
        Err(m) => fail(format!("{}: {}", name(), m.replace('\n', " "))),
    }
}

fn name() -> &'static str {
    match backend::platform() {
        "wasm" => "32 bits",
        "host" => "Miri",
        _ => "big-endian",
    }
}

fn large19(which: u64, src: &mut Src, ctx: &mut Ctx) -> Res {
    let seed = src.draw(u64::MAX);
    let mut c = Vec::new();
    let mut sha = |piece: u64, times: u64, rest: u64| {
        c.push(3);
        made(&mut c, seed, piece);
        num(&mut c, times);
        c.push(1);
        made(&mut c, seed, rest);
        c.push(2);
    };
    match which {
        1 => sha(1 << 20, 511, (1 << 20) - 1),
        2 => sha(1 << 20, 512, 0),
        3 => sha(1 << 20, 512, seed % 100),
        4 => sha(1 << 20, 513, seed % 200),
        14 => sha(1 << 20, 4096, seed % 200),
        6 => {
            // The same, counted by an HMAC: 2^29 bytes.
            c.push(4);
            made(&mut c, seed, 20);
            for _ in 0..4 {
                c.push(5);
                made(&mut c, seed, 1 << 27);
            }
            c.push(6);
        }
        7 => {
            c.push(19);
            made(&mut c, seed, 12);
            made(&mut c, seed, 12);
            num(&mut c, 1);
            num(&mut c, (1 << 24) + 5);
        }
        8 => {
            c.push(10);
            c.extend_from_slice(&[7; 16]);
            c.push(11);
            made(&mut c, seed, 32);
            c.push(12);
            made(&mut c, seed, (1 << 20) + 5);
            c.extend_from_slice(&[13, 17, 18]);
        }
        9 => {
            c.push(21);
            made(&mut c, seed, 64 << 18);
            num(&mut c, 4);
        }
        n => {
            let (r, n, p) = [(8u64, 16_384u64, 1u64), (1, 32_768, 3), (600, 4, 2), (1, 2, 5_000), (2, 65_536, 1)][if n == 5 { 4 } else { n as usize - 10 }];
            c.push(20);
            num(&mut c, r);
            num(&mut c, n);
            num(&mut c, p);
            made(&mut c, seed, 9);
            made(&mut c, seed, 9);
            num(&mut c, 65);
        }
    }
    ctx.nontrivial();
    ctx.class("large");
    ctx.say(|| format!("large case {} with seed {}", which, seed));
    compare(&c)
}

/// Near the edges of 32-bit products.
fn wide(src: &mut Src) -> u64 {
    let n = match src.draw(4) {
        0 => src.draw(8),
        1 | 2 => {
            let e = src.draw(31);
            (1u64 << e).wrapping_add(src.draw(8)).wrapping_sub(src.draw(4))
        }
        3 => (1u64 << 32) / (1 + src.draw(300)) + src.draw(3),
        _ => src.draw(u32::MAX as u64),
    };
    n.min(u32::MAX as u64)
}

fn wide_scrypt(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut r, mut p) = (wide(src), wide(src));
    match src.draw(5) {
        0 | 1 => r = 1 + src.draw(7),
        2 => p = 1 + src.draw(3),
        // A product that 2^32 bytes divide, or nearly.
        3 => {
            let e = src.draw(25);
            r = 1 << e;
            p = (1u64 << (25 - e)) + src.draw(5);
        }
        4 => {
            let bound = (u64::from(u32::MAX) / 4) / r.max(1);
            p = (bound + src.draw(2)).saturating_sub(src.draw(2));
        }
        _ => {}
    }
    let n = match src.draw(3) {
        0 | 1 => 2u64 << src.draw(3),
        2 => 2u64 << src.draw(30),
        _ => wide(src),
    };
    let n = n.min(u32::MAX as u64);
    let p = p.min(u32::MAX as u64);
    let pw = src.bytes(5);
    let salt = src.bytes(5);
    let mut c = vec![20];
    num(&mut c, r);
    num(&mut c, n);
    num(&mut c, p);
    literal(&mut c, &pw);
    literal(&mut c, &salt);
    num(&mut c, 33);
    let (wr, wn, wp) = (r as u128, n as u128, p as u128);
    let valid = r >= 1
        && n > 1
        && n.is_power_of_two()
        && (r >= 4 || wn >> (16 * r) == 0)
        && p >= 1
        && wp * wr * 4 <= u128::from(u32::MAX);
    ctx.say(|| format!("scrypt r={} N={} p={}: {}", r, n, p, if valid { "valid" } else { "invalid" }));
    if !valid {
        ctx.class("scrypt:invalid");
        ctx.nontrivial();
        return compare(&c);
    }
    let (b, v) = (128 * wr * wp, 128 * wr * wn);
    if b < 1 << 18 && v < 1 << 18 && wr * wp * wn < 4_000 {
        ctx.class("scrypt:small");
        if backend::platform() == "wasm" {
            ctx.nontrivial();
            return compare(&c);
        }
    }
    if backend::platform() == "wasm" && (b >= 1 << 32 || (v >= 1 << 32 && wn >= 1 << 27)) {
        // Cannot be done in 32 bits; anything but a key will do.
        ctx.class("scrypt:beyond-address-space");
        ctx.nontrivial();
        if let Ok(out) = backend::run(&c) {
            ensure!(
                out[0] == 0,
                "32 bits: scrypt r={} N={} p={} needs more memory than there are addresses, and gave the key {}",
                r, n, p, hex(&out[9..])
            );
        }
        return Ok(());
    }
    ctx.excluded += 1;
    Ok(())
}

/// Up to 16 calls that cost no more than the budget, encoded.
pub fn history(src: &mut Src, ctx: &mut Ctx, budget: u64) -> Vec<u8> {
    let focus = src.draw(6);
    let mut code = Vec::new();
    let mut cost = 0;
    let mut ops = Vec::new();
    for _ in 0..1 + src.usize(15) {
        let op = gen_op(src, focus);
        let before = code.len();
        let more = encode(&op, &mut code);
        if cost + more > budget {
            code.truncate(before);
            continue;
        }
        cost += more;
        ops.push(op);
    }
    // What the objects hold in the end.
    let used = |f: fn(&Op) -> bool| ops.iter().any(f);
    if used(|o| matches!(o, Op::ShaNew(_) | Op::ShaUpdate(_))) {
        code.push(2);
    }
    if used(|o| matches!(o, Op::HmacNew(_) | Op::HmacUpdate(_))) {
        code.push(6);
    }
    if used(|o| matches!(o, Op::CipherInit(_))) {
        code.push(13);
    }
    if used(|o| matches!(o, Op::DecipherInit(_) | Op::CipherInit(_))) {
        code.extend_from_slice(&[17, 18]);
    }
    ctx.steps += ops.len() as u64;
    ctx.class(["focus:hash", "focus:hmac", "focus:aes", "focus:cipher", "focus:decipher", "focus:kdf", "focus:salsa"][focus as usize]);
    if ops.len() >= 3 {
        ctx.nontrivial();
    }
    ctx.say(|| ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join(", "));
    code
}

fn run19(src: &mut Src, ctx: &mut Ctx) -> Res {
    let large = src.special(14);
    if backend::platform().is_empty() {
        ctx.class("no-other-platform");
        ctx.inconclusive += 1;
        return Ok(());
    }
    if large != 0 && backend::platform() == "big" {
        // Would take hours.
        ctx.excluded += 1;
        return Ok(());
    }
    if large != 0 {
        return large19(large, src, ctx);
    }
    if src.draw(4) == 4 {
        return wide_scrypt(src, ctx);
    }
    let budget = if backend::platform() == "wasm" { 20_000 } else { 60 };
    let code = history(src, ctx, budget);
    compare(&code)
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "histories of 1..16 calls over the whole public API run in this build and on another platform (a wasm32 module with overflow checks, one without, and Miri for s390x), all output compared; scrypt parameters around every 32-bit product; fourteen large cases (2^29 to 2^32 bytes hashed, > 2^16 blocks, N = 2^16, ...) on wasm32; non-trivial: at least three calls, or scrypt parameters that are invalid or beyond the address space",
        run: run19,
        heavy: 0,
        sweep_len: |_| 14,
        sweep: |_, i| vec![1 + i],
        random: (70_000, 10_000_000),
        guided: (0, 0),
    }
}
