//! C22 how much work a call does.

use super::memory::{create, messages, size, step, Bytes, Object, Step};
use crate::engine::*;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;

#[repr(C)]
struct Timespec {
    seconds: i64,
    nanos: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, at: *mut Timespec) -> i32;
}

/// Processor time of this thread: others do not count.
fn now() -> f64 {
    const THREAD: i32 = 3;
    let mut t = Timespec { seconds: 0, nanos: 0 };
    unsafe { clock_gettime(THREAD, &mut t) };
    t.seconds as f64 + t.nanos as f64 * 1e-9
}

fn cost(f: impl FnOnce()) -> f64 {
    let t = now();
    f();
    now() - t
}

/// How many times more than in proportion something may cost. What grows with
/// the square is beyond it by far at the sizes used.
const LIMIT: f64 = 4.0;
const ROUNDS: usize = 7;

/// `f` gives the cost per unit of the small and of the large. Noise only adds
/// to a cost, so the least of several is taken before it is a failure.
fn settle(ctx: &mut Ctx, mut f: impl FnMut() -> (f64, f64)) -> Option<(f64, f64)> {
    let mut least = (f64::MAX, f64::MAX);
    for round in 0..ROUNDS {
        let (a, b) = f();
        if round == 0 {
            ctx.class_if(b > 1.5 * a, "above 1.5 at first");
            ctx.class_if(b > 2.5 * a, "above 2.5 at first");
            ctx.class_if(b > 4.0 * a, "above 4 at first");
        } else {
            ctx.class("measured again");
        }
        if b <= LIMIT * a {
            return None;
        }
        least = (least.0.min(a), least.1.min(b));
        if least.1 <= LIMIT * least.0 {
            return None;
        }
        if round > 1 {
            std::thread::sleep(std::time::Duration::from_millis(40));
        }
    }
    Some(least)
}

fn verdict(what: &str, r: Option<(f64, f64)>) -> Res {
    match r {
        None => Ok(()),
        Some((a, b)) => fail(format!("{}: {:.0} ns at first, {:.0} ns then, {:.0} times as much", what, a * 1e9, b * 1e9, b / a)),
    }
}

/// Blocks of 16 bytes, about, that an operation on the object works on.
fn units(kind: u64, s: Step, keys: usize) -> usize {
    match s {
        Step::Finish => 12,
        Step::Init(_) if kind == 1 => 12 + keys / 16,
        Step::Init(_) => 12,
        s => 4 + size(s) / 16,
    }
}

fn aged(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.draw(4);
    let keys = *src.pick(&[20usize, 64, 100]);
    let begin_key = *src.pick(&[16usize, 24, 32]);
    let mut body = Vec::new();
    for _ in 0..1 + src.usize(3) {
        body.push(match src.draw(9) {
            0..=4 => Step::Feed(src.length(80, 16)),
            5 => Step::Feed(src.usize(600)),
            6 => Step::Finish,
            7 => Step::Init(*src.pick(&[16usize, 24, 32, 0, 17, 40])),
            _ => Step::Message(src.length(80, 16)),
        });
    }
    let fresh = src.flag();
    let alive = fresh && src.flag();
    let seed = src.draw(u64::MAX);
    let most = body.iter().map(|s| size(*s)).max().unwrap_or(0);
    let unit: usize = body.iter().map(|s| units(kind, *s, keys)).sum::<usize>() + if fresh { 24 } else { 0 };
    // About 40 ms, if nothing is wrong.
    let life = (40_000 / unit).max(300);
    let some = (life / 20).max(40);
    let name = ["SHA256", "HMac", "AES", "Cipher", "Decipher"][kind as usize];
    ctx.say(|| {
        format!(
            "{} (AES key of {} bytes, HMAC key of {}): {:?} {} times on {}, seed {}",
            name, begin_key, keys, body, life,
            if alive { "new objects, all kept" } else if fresh { "new objects" } else { "one object" }, seed
        )
    });
    ctx.class(["sha", "hmac", "aes", "cipher", "decipher"][kind as usize]);
    ctx.class(if alive { "objects kept" } else if fresh { "objects" } else { "one object" });
    ctx.steps += (life * body.len()) as u64;
    ctx.nontrivial();
    let ready = messages();
    let mut bytes = Bytes { room: vec![0; most.max(400)], seed };
    let start = |bytes: &mut Bytes| {
        let mut o = create(kind, keys, bytes);
        step(&mut o, Step::Init(begin_key), keys, bytes, &ready);
        o
    };
    let r = settle(ctx, || {
        let mut kept: Vec<Object> = Vec::with_capacity(if alive { life + 3 * some } else { 0 });
        let mut one = start(&mut bytes);
        let mut run = |times: usize, bytes: &mut Bytes| {
            for _ in 0..times {
                if fresh {
                    let mut o = start(bytes);
                    for s in &body {
                        step(&mut o, *s, keys, bytes, &ready);
                    }
                    if alive {
                        kept.push(o);
                    }
                } else {
                    for s in &body {
                        step(&mut one, *s, keys, bytes, &ready);
                    }
                }
            }
        };
        run(some / 4, &mut bytes);
        let a = cost(|| run(some, &mut bytes)) / some as f64;
        run(life - some, &mut bytes);
        let b = cost(|| run(some, &mut bytes)) / some as f64;
        (a, b)
    });
    verdict(&format!("{:?} on {} after having been done {} times", body, name, life), r)
}

/// One call with more and more data.
fn larger(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.draw(5);
    let n = (512 << src.usize(3)) + src.usize(100);
    let times = *src.pick(&[64usize, 16, 256]);
    let times = times.min((1 << 20) / n);
    let seed = src.draw(u64::MAX);
    let name = ["SHA256::update", "HMac::update", "HMac::new", "Cipher::write", "Decipher::write", "salsa20"][kind as usize];
    ctx.say(|| format!("{} of {} bytes, and of {} times as many, seed {}", name, n, times, seed));
    ctx.class(name);
    ctx.nontrivial();
    let data = expand(seed, (n * times + 63) / 64 * 64);
    let mut out = vec![0; data.len()];
    // `reps` calls with as many bytes.
    let mut run = |len: usize, reps: usize| {
        let mut total = 0.0;
        for _ in 0..reps {
            total += match kind {
                0 => {
                    let mut h = SHA256::new();
                    cost(|| h.update(&data[..len]))
                }
                1 => {
                    let mut h = HMac::new(b"key");
                    cost(|| h.update(&data[..len]))
                }
                2 => cost(|| drop(HMac::new(&data[..len]))),
                3 => {
                    let mut c = Cipher::new([1; 16]);
                    let _ = c.init(&[2; 16]);
                    cost(|| drop(c.write(&data[..len])))
                }
                4 => {
                    let mut c = Decipher::new([1; 16]);
                    let _ = c.init(&[2; 16]);
                    cost(|| drop(c.write(&data[..len])))
                }
                _ => {
                    let whole = len / 64 * 64;
                    cost(|| salsa20(&data[..whole], 10, &mut out[..whole]))
                }
            };
        }
        total / (reps * len) as f64
    };
    let r = settle(ctx, || (run(n, 8), run(n * times, 1)));
    verdict(&format!("{} of {} times {} bytes, per byte", name, times, n), r)
}

/// The same number of bytes in one call and in many.
fn pieces(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.draw(3);
    let n = *src.pick(&[16usize, 1, 15, 17, 32, 64, 100, 5]);
    let total = *src.pick(&[200_000usize, 20_000, 60_000]);
    let total = total.min(20_000 * n);
    let seed = src.draw(u64::MAX);
    let name = ["SHA256", "HMac", "Cipher", "Decipher"][kind as usize];
    ctx.say(|| format!("{}: {} bytes in pieces of {}, seed {}", name, total, n, seed));
    ctx.class(name);
    ctx.class("pieces");
    ctx.steps += (total / n) as u64;
    ctx.nontrivial();
    let data = expand(seed, total);
    let run = |len: usize| {
        let part = &data[..len];
        match kind {
            0 => {
                let mut h = SHA256::new();
                cost(|| part.chunks(n).for_each(|p| h.update(p)))
            }
            1 => {
                let mut h = HMac::new(b"key");
                cost(|| part.chunks(n).for_each(|p| h.update(p)))
            }
            2 => {
                let mut c = Cipher::new([1; 16]);
                let _ = c.init(&[2; 16]);
                cost(|| part.chunks(n).for_each(|p| drop(c.write(p))))
            }
            _ => {
                let mut c = Decipher::new([1; 16]);
                let _ = c.init(&[2; 16]);
                cost(|| part.chunks(n).for_each(|p| drop(c.write(p))))
            }
        }
    };
    let small = (total / 64).max(16 * n.min(64)).min(total);
    let r = settle(ctx, || {
        run(small);
        (run(small) / small as f64, run(total) / total as f64)
    });
    verdict(&format!("{} of {} bytes in pieces of {}, per byte", name, total, n), r)
}

fn derivations(src: &mut Src, ctx: &mut Ctx) -> Res {
    let seed = src.draw(u64::MAX);
    if src.flag() {
        // In blocks of 64 bytes hashed: password, salt, iterations, output.
        let count = |p: usize, s: usize, c: usize, n: usize| -> f64 {
            let blocks = (n + 31) / 32;
            let key = if p > 64 { p / 64 + 1 } else { 0 };
            ((s / 64 + 1) + c * (4 + key)) as f64 * blocks as f64
        };
        let small = (src.usize(80), src.usize(80), 1 + src.usize(3), 1 + src.usize(80));
        let mut big = small;
        let which = src.draw(3);
        match which {
            0 => big.0 = 3_000 + src.usize(60_000),
            1 => big.1 = 3_000 + src.usize(60_000),
            2 => big.2 = 300 + src.usize(2_000),
            _ => big.3 = (3_000 + src.usize(60_000)) << src.usize(4),
        }
        // Long arguments together with many iterations.
        if which == 1 && src.flag() {
            big.2 = 200 + src.usize(800);
        }
        if which == 0 {
            big.3 = big.3.min(32);
        }
        ctx.say(|| format!("pbkdf2 (password, salt, c, out) {:?} and {:?}, seed {}", small, big, seed));
        ctx.class(["password", "salt", "iterations", "output"][which as usize]);
        ctx.class("pbkdf2");
        ctx.nontrivial();
        let data = expand(seed, 70_000);
        let mut out = vec![0; big.3.max(small.3)];
        let mut run = |(p, s, c, n): (usize, usize, usize, usize), reps: usize| {
            cost(|| (0..reps).for_each(|_| pbkdf2_sha256(&data[..p], &data[..s], c, &mut out[..n])))
                / (reps as f64 * count(p, s, c, n))
        };
        let r = settle(ctx, || (run(small, 20), run(big, 1)));
        return verdict(&format!("pbkdf2 {:?}, per block hashed, to {:?}", big, small), r);
    }
    let r0 = 1 + src.usize(3);
    let n0 = 4usize << src.usize(2);
    let p0 = 1 + src.usize(2);
    let (mut r, mut n, mut p) = (r0, n0, p0);
    let which = src.draw(2);
    match which {
        0 => n = n0 << (4 + src.usize(5)),
        1 => r = r0 * (16 + src.usize(50)),
        _ => p = p0 * (16 + src.usize(100)),
    }
    while r * n * p > 24_000 {
        match which {
            0 => n /= 2,
            1 => r = (r / 2).max(1),
            _ => p = (p / 2).max(1),
        }
    }
    ctx.say(|| format!("scrypt r={} N={} p={} and r={} N={} p={}", r0, n0, p0, r, n, p));
    ctx.class(["N", "r", "p"][which as usize]);
    ctx.class("scrypt");
    ctx.nontrivial();
    let data = expand(seed, 40);
    let mut out = [0; 32];
    let mut run = |r: usize, n: usize, p: usize, reps: usize| {
        // The two derivations around the mixing take their share.
        let work = (r * p) as f64 * (4.0 * n as f64 + 24.0) + 16.0;
        cost(|| (0..reps).for_each(|_| drop(Scrypt::new(r, n, p).derive(&data[..20], &data[20..], &mut out))))
            / (reps as f64 * work)
    };
    let v = settle(ctx, || (run(r0, n0, p0, 8), run(r, n, p, 1)));
    verdict(&format!("scrypt r={} N={} p={}, in proportion to r={} N={} p={}", r, n, p, r0, n0, p0), v)
}

fn run22(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.draw(7) {
        0..=3 => aged(src, ctx),
        4 => larger(src, ctx),
        5 => pieces(src, ctx),
        _ => derivations(src, ctx),
    }
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "processor time of the calling thread, the least of up to seven measurements: for bodies of 1..4 calls at the beginning and at the end of the life of one object, or of as many objects one after the other or at once; for one call with up to 256 times as much data; for up to 20000 pieces; for derivations with one parameter 16 to 1000 times as large; all cases are non-trivial",
        run: run22,
        heavy: 0,
        sweep_len: |_| 0,
        sweep: |_, _| vec![],
        random: (12_000, 400_000),
        guided: (0, 0),
    }
}
