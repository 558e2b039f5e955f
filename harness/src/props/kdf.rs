//! C04 PBKDF2 value, C05 output buffer contract, C07 scrypt value,
//! C08 scrypt parameter validation.

use crate::engine::*;
use crate::ensure;
use crate::reference as rf;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::{Scrypt, ScryptError};

/// Sometimes make the password and the salt equal, or nearly.
fn mix_up(src: &mut Src, pw: &mut Vec<u8>, salt: &mut Vec<u8>) {
    match src.draw(31) {
        31 => *salt = pw.clone(),
        30 => *salt = src.related(pw),
        29 => *pw = src.related(salt),
        // A password that differs from its hashed form only in length.
        28 => pw.push(0),
        _ => {}
    }
}

/// Counts that take minutes at least, but not if they are cut to 32 bits.
pub const BEYOND: [usize; 4] = [1 << 32, (1 << 32) + 1, (1 << 33) + 3, 1 << 48];

// ------------------------------------------------------------------- C04

fn run04(src: &mut Src, ctx: &mut Ctx) -> Res {
    let heavy = src.special(6);
    if heavy == 6 {
        // Nobody can compute these here; nor may anything else be the answer.
        let c = *src.pick(&BEYOND);
        let (pw, salt) = (src.bytes(9), src.bytes(9));
        ctx.nontrivial();
        ctx.class("c:>=2^32");
        ctx.say(|| format!("password={} salt={} c={}: no answer at once", hex(&pw), hex(&salt), c));
        if let Some(got) = crate::at_once("pbkdf2", c, &pw, &salt) {
            return fail(format!("PBKDF2 with c={} ended at once, with {}", c, got));
        }
        return Ok(());
    }
    if heavy == 4 {
        // Iteration counts beyond two bytes; three at the first point.
        let c = [
            16_777_217usize, 255, 256, 257, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 5000, 8192, 10_000,
            32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 65_538, 100_000, 131_073, 262_147,
        ][src.usize(24)];
        let (pn, sn) = (src.usize(150), src.usize(80));
        let pw = src.bytes(pn);
        let salt = src.bytes(sn);
        let len = if c > 300_000 { 20 } else { 1 + src.usize(63) };
        ctx.nontrivial();
        ctx.class("c:large");
        ctx.say(|| format!("password={} salt={} c={} out of {} bytes", hex(&pw), hex(&salt), c, len));
        let mut got = vec![0xa5u8; len];
        pbkdf2_sha256(at(KEY, &pw), at(SALT, &salt), c, &mut got);
        let want = rf::pbkdf2(&pw, &salt, c, len);
        ensure!(got == want, "PBKDF2 c={}: {}", c, diff(&got, &want));
        return Ok(());
    }
    if heavy == 5 {
        // Long passwords and salts.
        let lens = [0usize, 3, 511, 513, 1000, 4096, 4100, 65_535, 65_536, 65_600, 1 << 20];
        let (pn, sn) = (lens[src.usize(10)], lens[src.usize(10)]);
        let (pw, salt) = (expand(src.draw(u64::MAX), pn), expand(src.draw(u64::MAX), sn));
        let len = 1 + src.usize(69);
        ctx.nontrivial();
        ctx.class("long-password-or-salt");
        ctx.say(|| format!("password of {} bytes, salt of {} bytes, c=2 out of {} bytes", pn, sn, len));
        let mut got = vec![0xa5u8; len];
        pbkdf2_sha256(at(KEY, &pw), at(SALT, &salt), 2, &mut got);
        let want = rf::pbkdf2(&pw, &salt, 2, len);
        ensure!(got == want, "PBKDF2 of a {}-byte password and a {}-byte salt: {}", pn, sn, diff(&got, &want));
        return Ok(());
    }
    if heavy != 0 {
        // Block counters beyond one, two and three bytes.
        let len = [0usize, 256 * 32 + 40, 65_536 * 32 + 40, 16_777_216 * 32 + 40][heavy as usize];
        let (pn, sn) = (src.usize(80), src.usize(80));
        let pw = src.bytes(pn);
        let salt = src.bytes(sn);
        let c = if heavy == 1 { 1 + src.usize(2) } else { 1 };
        ctx.nontrivial();
        ctx.class(["", "out:>2^8-blocks", "out:>2^16-blocks", "out:>2^24-blocks"][heavy as usize]);
        ctx.say(|| format!("password={} salt={} c={} out of {} bytes", hex(&pw), hex(&salt), c, len));
        let mut out = vec![0xa5u8; len];
        pbkdf2_sha256(at(KEY, &pw), at(SALT, &salt), c, &mut out);
        let blocks = (len + 31) / 32;
        let stride = if heavy == 3 { 509 } else { 1 };
        for (i, got) in out.chunks(32).enumerate() {
            // All blocks near the counter's byte boundaries, and a stride.
            let n = i + 1;
            let near = n < 300 || (n & 0xffff) < 2 || blocks - n < 300;
            if near || n % stride == 0 {
                let want = rf::pbkdf2_block(&pw, &salt, c, n as u32);
                ctx.steps += 1;
                ensure!(got == &want[..got.len()], "block {} of PBKDF2: {}", n, diff(got, &want[..got.len()]));
            }
        }
        return Ok(());
    }
    let pn = src.length(200, 64);
    let sn = src.length(300, 64);
    let c = match src.draw(15) {
        0..=5 => 1,
        6..=9 => 2,
        10..=13 => 1 + src.usize(7),
        14 => 1 + src.usize(40),
        _ => {
            let most = if src.chance(1, 16) { 600 } else { 10 };
            1 + src.usize(most)
        }
    };
    let on = src.length(if c < 4 { 300 } else { 100 }, 32);
    let mut pw = src.bytes(pn);
    let mut salt = src.bytes(sn);
    let fill = src.draw(255) as u8;
    mix_up(src, &mut pw, &mut salt);
    let (pn, sn) = (pw.len(), salt.len());
    ctx.class_if(c == 1, "c:1");
    ctx.class_if(c == 2, "c:2");
    ctx.class_if(c > 2, "c:>2");
    ctx.class_if(on == 0, "out:empty");
    ctx.class_if(on > 0 && on < 32, "out:part-of-a-block");
    ctx.class_if(on > 32 && on % 32 != 0, "out:partial-last-block");
    ctx.class_if(on > 0 && on % 32 == 0, "out:whole-blocks");
    ctx.class_if(pn > 64, "password:hashed");
    if on > 32 || (on > 0 && c > 1) {
        ctx.nontrivial();
    }
    ctx.say(|| format!("password[{}]={} salt[{}]={} c={} out={} bytes", pn, hex(&pw), sn, hex(&salt), c, on));
    let lead = usize::from(fill) % 16;
    let mut out = vec![fill; on + lead];
    let got = &mut out[lead..];
    pbkdf2_sha256(at(KEY, &pw), at(SALT, &salt), c, got);
    ctx.observe(got);
    let want = rf::pbkdf2(&pw, &salt, c, on);
    ensure!(got == want, "PBKDF2 c={} password {} salt {} bytes: {}", c, pn, sn, diff(got, &want));
    Ok(())
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "password 0..200, salt 0..300, c 1..600 (1..=100 swept), 24 counts of 255..262147 (2^24+1 when thorough), output 0..300 bytes (0..=300 swept), outputs of more than 2^8, 2^16 and 2^24 blocks, passwords and salts of up to 2^20 bytes, four counts of 2^32 and more (which must not be answered at once); non-trivial: more than one block of output, or c > 1 with some output",
        run: run04,
        heavy: 2,
        sweep_len: |_| 6 + 24 + 121 + 301 * 3 + 100 + 201 + 301 + BEYOND.len() as u64,
        sweep: |thorough, i| {
            if i >= 6 + 24 + 121 + 301 * 3 + 100 + 201 + 301 {
                return vec![6, i - (6 + 24 + 121 + 301 * 3 + 100 + 201 + 301)];
            }
            if i < 6 {
                return if i == 1 { vec![4, if thorough { 0 } else { 24 }] } else { vec![[3, 4, 2, 2, 1, 1][i as usize]] };
            }
            let i = i - 6;
            if i < 24 {
                return vec![4, 1 + i];
            }
            let i = i - 24;
            if i < 121 {
                return vec![5, i % 11, i / 11];
            }
            let i = i - 121;
            if i < 903 {
                let (len, k) = (i % 301, i / 301);
                // pw length, salt length, c class, out length
                return vec![0, 0, 8, 0, 8, [0, 6, 10][k as usize], 2, len]
                    .into_iter()
                    .enumerate()
                    .map(|(j, v)| if k == 2 && j == 6 { 2 } else { v })
                    .collect();
            }
            let i = i - 903;
            if i < 100 {
                // c = 1..=100 through the last class (1 + draw(10 or 600))
                return vec![0, 0, 8, 0, 8, 15, 15, i, 2, 40];
            }
            let i = i - 100;
            if i < 201 {
                return vec![0, 2, i, 0, 8, 6, 2, 33];
            }
            vec![0, 0, 8, 2, i - 201, 6, 2, 33]
        },
        random: (1000000, 30000000),
        guided: (20000, 600000),
    }
}

// ------------------------------------------------------------------- C05

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kdf {
    Pbkdf2(usize),
    Scrypt(usize, usize, usize),
}

fn kdf(k: Kdf, pw: &[u8], salt: &[u8], out: &mut [u8]) -> Res {
    match k {
        Kdf::Pbkdf2(c) => {
            pbkdf2_sha256(at(KEY, pw), at(SALT, salt), c, out);
            Ok(())
        }
        Kdf::Scrypt(r, n, p) => match Scrypt::new(r, n, p).derive(at(KEY, pw), at(SALT, salt), out) {
            Ok(()) => Ok(()),
            Err(e) => fail(format!("scrypt r={} n={} p={} failed: {:?}", r, n, p, e)),
        },
    }
}

fn run05(src: &mut Src, ctx: &mut Ctx) -> Res {
    let what = src.draw(4);
    if what == 4 {
        // Salsa20: the output is written whole, from the input alone.
        let blocks = 1 + src.usize(2);
        let rounds = src.usize(12);
        let input = src.bytes(64 * blocks);
        let before = src.bytes(64 * blocks);
        ctx.class("salsa20");
        if before.iter().any(|b| *b != 0) {
            ctx.nontrivial();
        }
        ctx.say(|| format!("salsa20 rounds={} input={} previous output={}", rounds, hex(&input), hex(&before)));
        let mut a = before.clone();
        let mut b: Vec<u8> = before.iter().map(|x| !x).collect();
        salsa20(at(DATA, &input), rounds, &mut a);
        salsa20(at(DATA, &input), rounds, &mut b);
        ctx.observe(&a);
        ensure!(a == b, "the previous content of the output shows in the result: {}", diff(&a, &b));
        for (i, block) in input.chunks(64).enumerate() {
            let mut c = vec![0; 64];
            salsa20(block, rounds, &mut c);
            ensure!(a[64 * i..64 * i + 64] == c[..], "block {} of {} alone and in the whole input differ: {}", i, blocks, diff(&a[64 * i..64 * i + 64], &c));
        }
        return Ok(());
    }
    let k = if what < 3 {
        Kdf::Pbkdf2(1 + src.usize(4))
    } else {
        Kdf::Scrypt(1 + src.usize(3), 2 << src.usize(3), 1 + src.usize(2))
    };
    let long = match src.special(9) {
        0 => src.length(260, 32),
        k => [511usize, 1024, 4097, 8192, 65_535, 65_536, 65_537, 70_001, 200_000][k as usize - 1],
    };
    let short = match src.draw(2) {
        0 => src.usize(long),
        1 => long / 32 * 32,
        _ => long.saturating_sub(1),
    };
    let (pn, sn) = (src.length(100, 64), src.length(100, 64));
    let pw = src.bytes(pn);
    let salt = src.bytes(sn);
    let before = src.bytes(long);
    let margin = src.usize(40);
    ctx.class(if what < 3 { "pbkdf2" } else { "scrypt" });
    ctx.class_if(short % 32 != 0, "short:partial-block");
    if short > 0 && short < long {
        ctx.nontrivial();
    }
    ctx.say(|| format!("{:?} password={} salt={} out {} then {} bytes, previous content {}", k, hex(&pw), hex(&salt), long, short, hex(&before)));
    // Previous content does not matter, and it is fully overwritten.
    let mut a = before.clone();
    let mut b: Vec<u8> = before.iter().map(|x| !x).collect();
    kdf(k, &pw, &salt, &mut a)?;
    kdf(k, &pw, &salt, &mut b)?;
    ctx.observe(&a);
    ensure!(a == b, "the previous content of the output shows in the result: {}", diff(&a, &b));
    // A shorter output is a prefix, and nothing beyond it is written.
    let mut framed = vec![0xee; margin + short + margin];
    kdf(k, &pw, &salt, &mut framed[margin..margin + short])?;
    ensure!(framed[margin..margin + short] == a[..short], "{} bytes are not a prefix of {}: {}", short, long, diff(&framed[margin..margin + short], &a[..short]));
    ensure!(framed[..margin].iter().chain(&framed[margin + short..]).all(|x| *x == 0xee), "bytes outside the output were written");
    let want = match k {
        Kdf::Pbkdf2(c) => rf::pbkdf2(&pw, &salt, c, long),
        Kdf::Scrypt(r, n, p) => rf::scrypt(&pw, &salt, n, r, p, long),
    };
    ensure!(a == want, "{:?}: {}", k, diff(&a, &want));
    Ok(())
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "PBKDF2, scrypt and Salsa20 writing over two complementary previous contents, and over a shorter slice of a larger buffer (every pair of lengths 0..=70 swept for PBKDF2; outputs of up to 200000 bytes); non-trivial: a proper non-empty prefix, or a non-zero previous content",
        run: run05,
        heavy: 0,
        sweep_len: |_| 71 * 72 / 2 + 70 * 4 + 18,
        sweep: |_, i| {
            let pairs = 71 * 72 / 2;
            if i < pairs {
                // long, short <= long
                let mut long = 0;
                let mut rest = i;
                while rest > long {
                    rest -= long + 1;
                    long += 1;
                }
                return vec![0, 0, 0, 2, long, 0, rest];
            }
            let i = i - pairs;
            if i >= 280 {
                let i = i - 280;
                return if i % 2 == 0 { vec![0, i % 3, 1 + i / 2] } else { vec![3, 0, 0, 0, 1 + i / 2] };
            }
            vec![3, i % 2, (i / 2) % 2, i % 3, 0, 2, 1 + i / 4, 2]
        },
        random: (600000, 18000000),
        guided: (50000, 1500000),
    }
}

// ------------------------------------------------------------------- C07

/// r * N * p of a generated case.
const COST_QUICK: usize = 700;

fn run07(src: &mut Src, ctx: &mut Ctx) -> Res {
    let fixed = src.special(17) as usize;
    let (r, n, p);
    if fixed != 0 {
        let t = [
            (0, 0, 0),
            (1, 32_768, 1),
            (8, 8_192, 1),
            (1, 2, 300),
            (300, 4, 1),
            (2, 65_536, 1),
            (3, 16, 90),
            (64, 64, 3),
            (32, 2, 33),
            (17, 256, 5),
            (1, 16_384, 2),
            (5, 4096, 2),
            (1000, 2, 1),
            (8, 1 << 20, 1),
            (2, 131_072, 1),
            (1, 2, 70_000),
            (66_000, 2, 1),
            (8, 16_384, 1),
        ][fixed];
        r = t.0;
        n = t.1;
        p = t.2;
    } else {
        // The generator keeps r * N * p within the cost bound.
        let rr = match src.draw(5) {
            0 | 1 => 1,
            2 => 2,
            3 => 1 + src.usize(7),
            4 => 8,
            _ => 1 + src.usize(39),
        };
        let max_log = (COST_QUICK / rr).max(2).ilog2() as usize;
        let nn = 2usize << src.usize(max_log.min(9).saturating_sub(1));
        let max_p = (COST_QUICK / (rr * nn)).max(1).min(20);
        let pp = match src.draw(3) {
            0 | 1 => 1,
            2 => 1 + src.usize(max_p.min(3) - 1),
            _ => 1 + src.usize(max_p - 1),
        };
        r = rr;
        n = nn;
        p = pp;
    }
    let (mut on, mut pn, mut sn) = (src.length(200, 32), src.length(100, 64), src.length(100, 64));
    // A long output, passphrase or salt.
    match src.special(9) {
        0 => {}
        k => *[&mut on, &mut pn, &mut sn][k as usize % 3] = [4_100usize, 65_537, 200_000][(k as usize - 1) / 3],
    }
    let mut pw = src.bytes(pn);
    let mut salt = src.bytes(sn);
    if fixed == 0 {
        mix_up(src, &mut pw, &mut salt);
    }
    let (pn, sn) = (pw.len(), salt.len());
    let lead = pn * 3 % 16;
    ctx.class_if(r == 1, "r:1");
    ctx.class_if(r > 1 && r < 8, "r:2..7");
    ctx.class_if(r >= 8, "r:>=8");
    ctx.class_if(n == 2, "N:2");
    ctx.class_if(n > 2 && n < 256, "N:4..128");
    ctx.class_if(n >= 256, "N:>=256");
    ctx.class_if(p > 1, "p:>1");
    ctx.class_if(p * r > 64, "p*r:>64");
    ctx.class_if(on > 32, "out:>1-block");
    if on > 0 && (n > 2 || p > 1 || r > 1) {
        ctx.nontrivial();
    }
    ctx.steps += (2 * n * p) as u64;
    ctx.say(|| format!("r={} N={} p={} passphrase[{}]={} salt[{}]={} out={} bytes", r, n, p, pn, hex(&pw), sn, hex(&salt), on));
    let s = Scrypt::new(r, n, p);
    let mut out = vec![0u8; on + lead];
    let got = &mut out[lead..];
    if let Err(e) = s.derive(at(KEY, &pw), at(SALT, &salt), got) {
        return fail(format!("derive with r={} N={} p={} failed: {:?}", r, n, p, e));
    }
    ctx.observe(got);
    let want = rf::scrypt(&pw, &salt, n, r, p, on);
    ensure!(got == want, "scrypt r={} N={} p={}: {}", r, n, p, diff(got, &want));
    if fixed == 0 && src.chance(1, 4) {
        // The object carries no state from one derivation to the next.
        let pw2 = src.related(&pw);
        let mut other = vec![0u8; on];
        if s.derive(at(KEY, &pw2), at(SALT, &salt), &mut other).is_err() {
            return fail("a second derivation failed".into());
        }
        ensure!(other == rf::scrypt(&pw2, &salt, n, r, p, on), "second derivation with passphrase {} after {}", hex(&pw2), hex(&pw));
        ctx.class("second-derivation");
    }
    Ok(())
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "valid (r, N, p): r 1..40, N 2..1024, p 1..20 with r*N*p <= 700, all r <= 8 x N <= 64 x p <= 4 swept, and seventeen larger points (N up to 2^20, r up to 66000, p up to 70000); passphrase, salt, output lengths block-edge biased; non-trivial: non-empty output and some parameter above its minimum",
        run: run07,
        heavy: 1,
        sweep_len: |_| 17 + 9 + 8 * 6 * 4,
        sweep: |_, i| {
            if i < 17 {
                return vec![[13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17][i as usize], 2, 70];
            }
            let i = i - 17;
            if i < 9 {
                // r = 2, N = 4, p = 1; lengths; then one long
                return vec![0, 2, 1, 0, 2, 33, 2, 9, 2, 9, 1 + i];
            }
            let i = i - 9;
            let (r, n, p) = (i % 8, (i / 8) % 6, i / 48);
            // special, r class 3 (1 + r), N, p class 3
            vec![0, 3, r, n, 3, p]
        },
        random: (100000, 3000000),
        guided: (16000, 480000),
    }
}

// ------------------------------------------------------------------- C08

/// The documented domain. None: outside by something no listed error names.
fn violated(r: u128, n: u128, p: u128) -> Vec<&'static str> {
    let mut v = Vec::new();
    if r < 1 {
        v.push("RIsTooSmall");
    }
    if n <= 1 {
        v.push("NIsTooSmall");
    }
    if n.count_ones() != 1 {
        v.push("NIsNotAPowerOfTwo");
    }
    if p < 1 {
        v.push("PIsTooSmall");
    }
    if r >= 1 && r < 8 && n >= 1u128 << (16 * r) {
        v.push("N too large");
    }
    if r >= 1 && p > (u128::from(u32::MAX) / 4) / r {
        v.push("p too large");
    }
    v
}

enum Outcome {
    Done(Result<(), ScryptError>, Vec<u8>),
    /// Started the derivation: asked for more memory than a rejection needs.
    Started,
    Panicked(String),
    Late,
    Unknown,
}

fn derive_aside(r: usize, n: usize, p: usize, pw: Vec<u8>, salt: Vec<u8>, out: Vec<u8>) -> Outcome {
    let h = crate::aside::run(move || {
        let mut out = out;
        let res = Scrypt::new(r, n, p).derive(at(KEY, &pw), at(SALT, &salt), &mut out);
        (res, out)
    });
    match h {
        crate::aside::Aside::Done((res, out)) => Outcome::Done(res, out),
        crate::aside::Aside::Huge => Outcome::Started,
        crate::aside::Aside::Panic(m) => Outcome::Panicked(m),
        crate::aside::Aside::Timeout => Outcome::Late,
        crate::aside::Aside::NoThread => Outcome::Unknown,
    }
}

fn run08(src: &mut Src, ctx: &mut Ctx) -> Res {
    const BIG_R: [usize; 11] = [
        1 << 29, (1 << 30) - 1, 1 << 30, (1 << 30) + 1, 1 << 31, 1 << 32, 1 << 40, 1 << 57,
        1 << 58, 1 << 63, usize::MAX,
    ];
    let mode = src.draw(15);
    let (r, n, p);
    let mut aside = false;
    match mode {
        0..=9 => {
            // Small numbers around every lower bound.
            r = src.usize(3);
            n = match src.draw(5) {
                0 | 1 => src.usize(9),
                2 => 1usize << src.usize(7),
                3 => (1usize << (1 + src.usize(6))) + 1,
                4 => (1usize << (1 + src.usize(6))) - 1,
                _ => src.usize(300),
            };
            p = src.usize(3);
        }
        10 | 11 => {
            // N far too large for memory and not a power of two.
            r = 1 + src.usize(8);
            let a = 30 + src.usize(33);
            let b = src.usize(a - 1);
            n = (1usize << a) | (1usize << b);
            p = 1 + src.usize(3);
            aside = true;
        }
        12 | 13 => {
            // p * r above the documented limit of (2^32 - 1) / 4.
            r = match src.draw(2) {
                0 => 1 + src.usize(40),
                1 => 1usize << src.usize(30),
                _ => *src.pick(&BIG_R),
            };
            let limit = (u32::MAX as usize / 4) / r;
            p = match src.draw(4) {
                0 => limit + 1,
                1 => limit + 1 + src.usize(3),
                2 => (1usize << 57) / r.min(1 << 57) + src.usize(2),
                3 => {
                    let room = (63 - r.min(1 << 60).ilog2()) as usize;
                    1usize << src.usize(room).max(31usize.saturating_sub(r.ilog2() as usize)).min(62)
                }
                _ => usize::MAX >> src.usize(8),
            }
            .max(limit + 1);
            n = 2usize << src.usize(3);
            aside = true;
        }
        14 => {
            // Inside the domain, too large to finish here.
            r = *src.pick(&[1usize, 2, 3, 7, 8, 16, 1000, 1 << 20, (1 << 30) - 1]);
            let limit = (u32::MAX as usize / 4) / r;
            if src.flag() {
                p = limit - src.usize(limit.min(3) - 1).min(limit / 2);
                n = 2usize << src.usize(3);
            } else {
                p = 1;
                n = if r >= 3 { 1usize << (30 + src.usize(10)) } else { 2 };
            }
            // Only those far too large to finish (and not more threads parked
            // than a process bears).
            aside = true;
            if (r * p < 1 << 27 && n < 1 << 30) || crate::aside::PARKED.load(std::sync::atomic::Ordering::SeqCst) > 800 {
                ctx.excluded += 1;
                return Ok(());
            }
        }
        _ => {
            // N at and above the documented upper limit 2^(16 r); the valid
            // neighbour below it for r = 1 in the sweep.
            if src.special(1) == 1 {
                r = 1;
                n = 1 << 15;
            } else {
                r = 1 + src.usize(2);
                n = 1usize << (16 * r + src.usize(63 - 16 * r));
                aside = true;
            }
            p = 1 + src.usize(2);
        }
    }
    let on = src.length(70, 32);
    let (pn, sn) = (src.usize(20), src.usize(20));
    let pw = src.bytes(pn);
    let salt = src.bytes(sn);
    let before = src.bytes(on);
    let bad = violated(r as u128, n as u128, p as u128);
    ctx.class_if(bad.is_empty(), "valid");
    ctx.class_if(bad.len() == 1, "one-constraint-violated");
    ctx.class_if(bad.len() > 1, "several-constraints-violated");
    for b in &bad {
        ctx.class(b);
    }
    ctx.class_if(aside, "huge");
    if !bad.is_empty() && on > 0 {
        ctx.nontrivial();
    }
    ctx.say(|| format!("r={} N={} p={} violates {:?}; passphrase={} salt={} out before={}", r, n, p, bad, hex(&pw), hex(&salt), hex(&before)));
    let outcome = if aside {
        derive_aside(r, n, p, pw.clone(), salt.clone(), before.clone())
    } else {
        let mut out = before.clone();
        let res = Scrypt::new(r, n, p).derive(&pw, &salt, &mut out);
        Outcome::Done(res, out)
    };
    match outcome {
        Outcome::Late => {
            ensure!(
                bad.is_empty() || !matches!(derive_aside(r, n, p, pw, salt, before), Outcome::Late),
                "r={} N={} p={} ({:?}) was not rejected within 20 s, twice", r, n, p, bad
            );
            ctx.inconclusive += 1;
            Ok(())
        }
        Outcome::Unknown => {
            ctx.inconclusive += 1;
            Ok(())
        }
        Outcome::Panicked(m) => {
            ensure!(bad.is_empty(), "r={} N={} p={} ({:?}) panicked instead of being rejected: {}", r, n, p, bad, m);
            // Memory that cannot exist: not decided here.
            ctx.inconclusive += 1;
            Ok(())
        }
        Outcome::Started => {
            ensure!(bad.is_empty(), "r={} N={} p={} ({:?}) was not rejected: the derivation started", r, n, p, bad);
            ctx.class("accepted-and-started");
            Ok(())
        }
        Outcome::Done(res, out) => {
            ctx.observe(format!("{:?}", res).as_bytes());
            ctx.observe(&out);
            if bad.is_empty() {
                if let Err(e) = &res {
                    return fail(format!("valid r={} N={} p={} was rejected: {:?}", r, n, p, e));
                }
                ensure!(!aside, "r={} N={} p={} finished without the memory it needs", r, n, p);
                let want = rf::scrypt(&pw, &salt, n, r, p, on);
                ensure!(out == want, "scrypt r={} N={} p={}: {}", r, n, p, diff(&out, &want));
                return Ok(());
            }
            match res {
                Ok(()) => Err(Fail {
                    sig: Some(format!("accepted r={} n={} p={}", r, n, p)),
                    msg: format!("r={} N={} p={} ({:?}) was accepted", r, n, p, bad),
                }),
                Err(e) => {
                    let name = format!("{:?}", e);
                    ensure!(out == before, "a rejected derivation changed the output: {}", diff(&out, &before));
                    ensure!(!e.to_string().is_empty(), "error {} has no text", name);
                    // The error names a constraint that is violated; the upper
                    // limits may be reported under any name but a violated
                    // lower one.
                    let upper = bad.iter().any(|b| b.contains("too large"));
                    let lower_names = ["RIsTooSmall", "NIsTooSmall", "NIsNotAPowerOfTwo", "PIsTooSmall"];
                    let ok = bad.iter().any(|b| *b == name)
                        || (upper && !lower_names.contains(&name.as_str()))
                        // 0 is rejected both as too small and as no power of two
                        || (n == 0 && name == "NIsNotAPowerOfTwo");
                    ensure!(ok, "r={} N={} p={} violates {:?} but was rejected with {}", r, n, p, bad, name);
                    Ok(())
                }
            }
        }
    }
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "r, N, p around every documented bound (r, p in 0..=3 x N in 0..=300 swept; N = 2^a + 2^b up to 2^63; p*r just above (2^32-1)/4 up to products that wrap a machine word; every power of two from 2^(16 r) up; valid points too large to finish, observed by the memory they ask for); non-trivial: a violated constraint and a non-empty output buffer",
        run: run08,
        heavy: 0,
        sweep_len: |_| 97 + 4 * 301 * 4 + 40 + 27,
        sweep: |_, i| {
            if i == 0 {
                return vec![15, 1, 0, 2, 40];
            }
            if i < 97 {
                // every power of two from 2^(16 r) for r = 1, 2, 3
                let i = i - 1;
                let (r, e) = if i < 48 { (0, i) } else if i < 80 { (1, i - 48) } else { (2, i - 80) };
                return vec![15, 0, r, e, 0, 2, 33];
            }
            let i = i - 97;
            if i < 4816 {
                let (r, p, n) = (i % 4, (i / 4) % 4, i / 16);
                return vec![0, r, 5, n, p, 2, 33];
            }
            let i = i - 4816;
            if i < 40 {
                // exact boundary: r = 1..=40, p = limit + 1
                return vec![12, 0, i, 0, 0, 2, 33];
            }
            let i = i - 40;
            vec![14, i % 9, i / 9, i % 3, 2, 33]
        },
        random: (500000, 15000000),
        guided: (40000, 1200000),
    }
}
