//! C21 what the time of hashing and key derivation tells about their input.

use crate::engine::*;
use crate::ensure;
use crate::step::{in_program, stepped, Path};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Once;

/// What is called, apart from the bytes it is given.
#[derive(Clone, Debug)]
enum Call {
    Sha { pieces: Vec<usize> },
    HMac { key: usize, pieces: Vec<usize> },
    Pbkdf2 { password: usize, salt: usize, c: usize, out: usize },
    Salsa { blocks: usize, rounds: usize },
    Scrypt { r: usize, n: usize, p: usize, password: usize, salt: usize, out: usize },
}

impl Call {
    /// The lengths of the byte strings it takes.
    fn fields(&self) -> Vec<usize> {
        match self {
            Call::Sha { pieces } => vec![pieces.iter().sum()],
            Call::HMac { key, pieces } => vec![*key, pieces.iter().sum()],
            Call::Pbkdf2 { password, salt, .. } | Call::Scrypt { password, salt, .. } => vec![*password, *salt],
            Call::Salsa { blocks, .. } => vec![64 * blocks],
        }
    }
    fn room(&self) -> usize {
        match self {
            Call::Pbkdf2 { out, .. } | Call::Scrypt { out, .. } => *out,
            Call::Salsa { blocks, .. } => 64 * blocks,
            _ => 32,
        }
    }
}

#[inline(never)]
fn call(c: &Call, a: &[u8], b: &[u8], out: &mut [u8]) {
    match c {
        Call::Sha { pieces } => {
            let mut h = SHA256::new();
            let mut rest = a;
            for n in pieces {
                let (x, y) = rest.split_at(*n);
                h.update(x);
                rest = y;
            }
            out.copy_from_slice(&h.digest());
        }
        Call::HMac { pieces, .. } => {
            let mut h = HMac::new(a);
            let mut rest = b;
            for n in pieces {
                let (x, y) = rest.split_at(*n);
                h.update(x);
                rest = y;
            }
            out.copy_from_slice(&h.digest());
        }
        Call::Pbkdf2 { c, .. } => pbkdf2_sha256(a, b, *c, out),
        Call::Salsa { rounds, .. } => salsa20(a, *rounds, out),
        Call::Scrypt { r, n, p, .. } => drop(Scrypt::new(*r, *n, *p).derive(a, b, out)),
    }
}

/// Always the same places, so that only the contents differ.
struct Places {
    a: Vec<u8>,
    b: Vec<u8>,
    out: Vec<u8>,
}

type Content = Vec<Vec<u8>>;

impl Places {
    fn put(&mut self, content: &Content) {
        self.a.copy_from_slice(&content[0]);
        if content.len() > 1 {
            self.b.copy_from_slice(&content[1]);
        }
        self.out.iter_mut().for_each(|x| *x = 0);
    }
}

fn run(c: &Call, place: &mut Places) -> Result<(), String> {
    let (a, b, out) = (&place.a[..], &place.b[..], &mut place.out[..]);
    crate::catch(|| call(c, a, b, out))
}

/// The instructions of the program that were executed: where a table lies and
/// how the allocator serves a request are not the library's doing.
fn record(c: &Call, place: &mut Places, content: &Content) -> Path {
    place.put(content);
    #[allow(unused_mut)]
    let mut step = || stepped(|| run(c, place));
    #[cfg(feature = "guided")]
    let (r, p) = crate::cov::quietly(step);
    #[cfg(not(feature = "guided"))]
    let (r, p) = step();
    if let Err(text) = r {
        std::panic::panic_any(text);
    }
    in_program(&p)
}

/// Something that is the same if the instructions are, and is there quickly.
#[cfg(feature = "guided")]
fn quick(c: &Call, place: &mut Places, content: &Content) -> Vec<(u32, u8)> {
    place.put(content);
    let (r, e) = crate::cov::edges(|| run(c, place));
    if let Err(text) = r {
        std::panic::panic_any(text);
    }
    e
}

#[cfg(not(feature = "guided"))]
fn quick(c: &Call, place: &mut Places, content: &Content) -> Path {
    record(c, place, content)
}

/// Other contents of the same lengths.
fn vary(src: &mut Src, base: &Content) -> Content {
    let mut v = base.clone();
    let which = src.usize(v.len() - 1);
    let other = v[v.len() - 1 - which].clone();
    let f = &mut v[which];
    if f.is_empty() {
        return v;
    }
    let n = f.len();
    match src.draw(8) {
        0 => {
            let i = src.usize(n - 1);
            f[i] ^= 1 << src.usize(7);
        }
        1 => f.iter_mut().for_each(|x| *x = 0),
        2 => f.iter_mut().for_each(|x| *x = 0xff),
        // One word, or a block, of one value.
        3 | 4 => {
            let w = *src.pick(&[4usize, 1, 8, 16, 32, 64]);
            let i = src.usize((n - 1) / w) * w;
            let x = *src.pick(&[0u8, 0xff, 0x80, 0x36, 0x5c]);
            f[i..n.min(i + w)].iter_mut().for_each(|y| *y = x);
        }
        // Two blocks, or words, that are the same.
        5 => {
            let w = *src.pick(&[64usize, 4, 16, 32]);
            if n >= 2 * w {
                let (i, j) = (src.usize(n / w - 1) * w, src.usize(n / w - 1) * w);
                let x = f[i..i + w].to_vec();
                f[j..j + w].copy_from_slice(&x);
            }
        }
        // The other argument, as far as it goes.
        6 => {
            let m = n.min(other.len());
            f[..m].copy_from_slice(&other[..m]);
        }
        _ => *f = src.bytes(n),
    }
    v
}

static WARM: Once = Once::new();

fn small_pieces(src: &mut Src, len: usize) -> Vec<usize> {
    let mut v = src.pieces(len);
    if v.len() > 8 {
        let rest: usize = v.drain(8..).sum();
        v.push(rest);
    }
    v
}

fn run21(src: &mut Src, ctx: &mut Ctx) -> Res {
    let c = match src.draw(9) {
        0 | 1 => {
            let n = src.length(200, 64);
            Call::Sha { pieces: small_pieces(src, n) }
        }
        2 | 3 => {
            let key = src.length(140, 64);
            let n = src.length(140, 64);
            Call::HMac { key, pieces: small_pieces(src, n) }
        }
        4 | 5 => Call::Salsa { blocks: 1 + src.usize(3), rounds: src.usize(12) },
        6 | 7 | 8 => Call::Pbkdf2 {
            password: src.length(140, 64),
            salt: src.length(140, 64),
            c: 1 + src.usize(2),
            out: src.length(70, 32),
        },
        _ => Call::Scrypt {
            r: 1 + src.usize(1),
            n: 2 << src.usize(1),
            p: 1 + src.usize(1),
            password: src.length(70, 64),
            salt: src.length(70, 64),
            out: src.length(40, 32),
        },
    };
    // Stepping is slow.
    let stepping = !cfg!(feature = "guided");
    let c = match c {
        Call::Pbkdf2 { password, salt, c, out } if stepping => Call::Pbkdf2 { password, salt, c: c.min(2), out: out.min(33) },
        Call::Scrypt { password, salt, out, .. } if stepping => Call::Scrypt { r: 1, n: 2, p: 1, password, salt, out: out.min(32) },
        c => c,
    };
    let fields = c.fields();
    let base: Content = fields.iter().map(|n| src.bytes(*n)).collect();
    let more = if !stepping {
        5
    } else if matches!(c, Call::Scrypt { .. } | Call::Pbkdf2 { .. }) {
        1
    } else {
        2
    };
    let mut contents = vec![base.clone()];
    for _ in 0..more {
        let v = vary(src, &base);
        contents.push(v);
    }
    contents.sort_unstable();
    contents.dedup();
    ctx.say(|| {
        let v: Vec<String> = contents.iter().map(|c| c.iter().map(|f| hex(f)).collect::<Vec<_>>().join("/")).collect();
        format!("{:?} of {}", c, v.join(" and of "))
    });
    ctx.class(match c {
        Call::Sha { .. } => "sha",
        Call::HMac { .. } => "hmac",
        Call::Pbkdf2 { .. } => "pbkdf2",
        Call::Salsa { .. } => "salsa20",
        Call::Scrypt { .. } => "scrypt",
    });
    let mut place = Places {
        a: vec![0; fields[0]],
        b: vec![0; fields.get(1).copied().unwrap_or(0)],
        out: vec![0; c.room()],
    };
    WARM.call_once(|| {
        record(&c, &mut place, &base);
    });
    let mut first = None;
    let mut other = None;
    for (i, content) in contents.iter().enumerate() {
        let p = quick(&c, &mut place, content);
        if p.is_empty() {
            ctx.class("no-stepping");
            ctx.inconclusive += 1;
            return Ok(());
        }
        ctx.steps += 1;
        match &first {
            None => first = Some(p),
            Some(f) if *f != p => {
                other = Some(i);
                break;
            }
            Some(_) => {}
        }
    }
    if contents.len() > 1 {
        ctx.nontrivial();
    }
    let Some(i) = other else {
        return repeated(ctx, &c, &mut place);
    };
    // Only what comes again every time counts.
    const ORDER: [usize; 10] = [0, 1, 1, 0, 1, 0, 0, 0, 1, 1];
    let mut seen: [Vec<Path>; 2] = [vec![], vec![]];
    for k in ORDER {
        seen[k].push(record(&c, &mut place, &contents[[0, i][k]]));
    }
    if seen.iter().all(|v| v.iter().all(|p| *p == v[0])) {
        let (a, b) = (&seen[0][0], &seen[1][0]);
        let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        let show = |c: &Content| c.iter().map(|f| hex(f)).collect::<Vec<_>>().join("/");
        ensure!(
            a == b,
            "{:?} takes {} instructions for {} and {} for {}, the same each time; they part after {}",
            c, a.len(), show(&contents[0]), b.len(), show(&contents[i]), at
        );
        ctx.class("settled-by-repeating");
        return Ok(());
    }
    ctx.class("not-repeatable");
    ctx.inconclusive += 1;
    Ok(())
}

/// Bytes that were not used before.
fn unused(fields: &[usize]) -> Content {
    static NEXT: AtomicU64 = AtomicU64::new(1);
    fields.iter().map(|n| expand(mix64(NEXT.fetch_add(1, Ordering::Relaxed)), *n)).collect()
}

/// Whether a call with bytes that were processed before is like the first one
/// with them.
fn repeated(ctx: &mut Ctx, c: &Call, place: &mut Places) -> Res {
    let fields = c.fields();
    if fields.iter().all(|n| *n < 16) {
        return Ok(());
    }
    ctx.class("once-more");
    let content = unused(&fields);
    if quick(c, place, &content) == quick(c, place, &content) {
        return Ok(());
    }
    // Only what comes every time counts, not what is prepared once.
    let mut seen: [Vec<Path>; 2] = [vec![], vec![]];
    for k in 0..6 {
        let content = unused(&fields);
        for v in &mut seen {
            let p = record(c, place, &content);
            if k > 0 {
                v.push(p);
            }
        }
    }
    if seen.iter().all(|v| v.iter().all(|p| *p == v[0])) {
        ensure!(
            seen[0][0] == seen[1][0],
            "{:?} takes {} instructions for bytes it has not seen before and {} for the same bytes once more, every time",
            c, seen[0][0].len(), seen[1][0].len()
        );
        ctx.class("settled-by-repeating");
        return Ok(());
    }
    ctx.class("not-repeatable");
    ctx.inconclusive += 1;
    Ok(())
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "up to six contents of the same lengths (arbitrary, one bit changed, zero or one-valued words and blocks, repeated blocks, one argument a copy of the other) for SHA256 and HMac over generated pieces, pbkdf2, salsa20 and scrypt; the instruction path of every call is recorded, and those of two calls with the same bytes that were not used before; non-trivial: at least two different contents and recorded paths",
        run: run21,
        heavy: 0,
        // Lengths about 64 and 128, and all kinds of calls.
        sweep_len: |_| 18 + 18 + 40,
        sweep: |_, i| match i {
            0..=17 => vec![0, 2, 52 + i % 9 * 2 + 64 * (i / 9)],
            18..=35 => vec![2, 2, 53 + i % 9 * 2 + 64 * (i / 9 - 2)],
            _ => vec![i % 10],
        },
        random: (240, 24_000),
        guided: (100_000, 5_000_000),
    }
}
