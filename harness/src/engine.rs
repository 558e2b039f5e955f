//! The property-based testing engine: a typed choice sequence ("tape") from
//! which every generated case is drawn, so that random search, systematic
//! sweeps, coverage-guided mutation, shrinking and replay all act on one
//! representation.

use std::collections::BTreeMap;

/// SplitMix64: the only source of randomness, seeded from
/// (VERIF_SEED, property, stream, case index).
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix64(self.0)
    }

    /// Uniform in 0..=max.
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            return self.next();
        }
        (((self.next() as u128) * ((max as u128) + 1)) >> 64) as u64
    }
}

pub fn mix64(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

pub fn case_seed(seed: u64, prop: &str, stream: &str, index: u64) -> u64 {
    mix64(seed ^ mix64(hash_str(prop)) ^ mix64(hash_str(stream).rotate_left(17)))
        .wrapping_add(mix64(index.wrapping_mul(0xd134_2543_de82_ef95).wrapping_add(1)))
}

/// Source of choices. The first choices come from `prefix` (a sweep point, a
/// mutated tape or a replayed tape); after that from the generator, or zeros
/// (the simplest choice everywhere) when there is none.
pub struct Src<'a> {
    prefix: &'a [u64],
    pos: usize,
    rng: Option<Rng>,
    allow_special: bool,
    pub tape: Vec<u64>,
    pub bounds: Vec<u64>,
}

/// Bound recorded for a "special" choice, which random and guided search
/// never turn on.
pub const SPECIAL: u64 = u64::MAX - 1;

thread_local! {
    static SPILL: std::cell::RefCell<Option<std::fs::File>> = const { std::cell::RefCell::new(None) };
}

/// From now on, choices also go to this file as they are made: the case may
/// end the process.
pub fn spill_to(file: std::fs::File) {
    SPILL.with(|s| *s.borrow_mut() = Some(file));
}

impl<'a> Src<'a> {
    fn spill(&self, v: u64) {
        SPILL.with(|s| {
            if let Some(f) = s.borrow_mut().as_mut() {
                use std::io::Write;
                let _ = f.write_all(format!("{} ", v).as_bytes());
            }
        });
    }

    pub fn random(rng: Rng) -> Src<'static> {
        Src { prefix: &[], pos: 0, rng: Some(rng), allow_special: false, tape: vec![], bounds: vec![] }
    }

    /// Systematic sweep: forced prefix (special choices allowed), then random.
    pub fn sweep(prefix: &'a [u64], rng: Rng) -> Src<'a> {
        Src { prefix, pos: 0, rng: Some(rng), allow_special: true, tape: vec![], bounds: vec![] }
    }

    /// Guided mutation: prefix, then random, no special choices.
    pub fn mutated(prefix: &'a [u64], rng: Rng) -> Src<'a> {
        Src { prefix, pos: 0, rng: Some(rng), allow_special: false, tape: vec![], bounds: vec![] }
    }

    /// Replay: exactly this tape, zeros after its end.
    pub fn replay(prefix: &'a [u64]) -> Src<'a> {
        Src { prefix, pos: 0, rng: None, allow_special: true, tape: vec![], bounds: vec![] }
    }

    /// A choice in 0..=max. 0 is always the simplest value.
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = if self.pos < self.prefix.len() {
            let v = self.prefix[self.pos];
            if v <= max {
                v
            } else {
                v % (max + 1)
            }
        } else {
            match &mut self.rng {
                Some(r) => r.upto(max),
                None => 0,
            }
        };
        self.pos += 1;
        self.tape.push(v);
        self.spill(v);
        self.bounds.push(max);
        v
    }

    pub fn usize(&mut self, max: usize) -> usize {
        self.draw(max as u64) as usize
    }

    pub fn flag(&mut self) -> bool {
        self.draw(1) == 1
    }

    /// true with probability num/den; false is the simple value.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1) >= den - num
    }

    /// A choice only a forced prefix can make non-zero: expensive cases.
    pub fn special(&mut self, max: u64) -> u64 {
        let v = if self.pos < self.prefix.len() && self.allow_special {
            let v = self.prefix[self.pos];
            if v <= max {
                v
            } else {
                0
            }
        } else {
            0
        };
        self.pos += 1;
        self.tape.push(v);
        self.spill(v);
        self.bounds.push(SPECIAL);
        v
    }

    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.usize(xs.len() - 1);
        &xs[i]
    }

    /// A length in 0..=max, biased towards block boundaries.
    /// Sweeps force `[2, len]` for an exact length.
    pub fn length(&mut self, max: usize, block: usize) -> usize {
        const EDGES: [usize; 40] = [
            0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 54, 55, 56, 57, 62, 63, 64, 65, 66, 95, 96,
            97, 111, 112, 119, 120, 121, 126, 127, 128, 129, 130, 183, 184, 191, 192, 193, 255,
            256,
        ];
        match self.draw(5) {
            0 => self.usize(max.min(8)),
            1 => {
                let k = self.usize(max / block) * block;
                let d = self.usize(20);
                (k + d).saturating_sub(10).min(max)
            }
            2 | 3 => self.usize(max),
            4 => self.usize(max.min(3 * block)),
            _ => (*self.pick(&EDGES)).min(max),
        }
    }

    /// Byte content of a given length.
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        if len == 0 {
            return Vec::new();
        }
        match self.draw(11) {
            0 => vec![0; len],
            1 => vec![self.draw(255) as u8; len],
            2 | 3 | 4 | 5 if len <= 80 => (0..len).map(|_| self.draw(255) as u8).collect(),
            6 => {
                // A constant background with a few bytes set.
                let mut v = vec![*self.pick(&[0u8, 0xff, 0x80, 0x10]); len];
                for _ in 0..=self.usize(3) {
                    let i = self.usize(len - 1);
                    v[i] = self.draw(255) as u8;
                }
                v
            }
            7 => vec![0xff; len],
            8 => {
                let start = self.draw(255) as u8;
                (0..len).map(|i| start.wrapping_add(i as u8)).collect()
            }
            9 => {
                // Printable text.
                let s = self.draw(u64::MAX);
                expand(s, len).into_iter().map(|b| b' ' + b % 95).collect()
            }
            10 => {
                // A short piece repeated.
                let n = *self.pick(&[16usize, 2, 4, 8, 3, 32, 64, 12]);
                let s = self.draw(u64::MAX);
                expand(s, n).into_iter().cycle().take(len).collect()
            }
            _ => {
                let s = self.draw(u64::MAX);
                expand(s, len)
            }
        }
    }

    pub fn array<const N: usize>(&mut self) -> [u8; N] {
        let v = self.bytes(N);
        let mut a = [0u8; N];
        a.copy_from_slice(&v);
        a
    }

    /// A byte string that is close to `base`: the inputs that a cache, a
    /// truncated comparison or stale state would confuse with it.
    pub fn related(&mut self, base: &[u8]) -> Vec<u8> {
        let mut v = base.to_vec();
        match self.draw(6) {
            0 => {}
            1 | 2 if !v.is_empty() => {
                let i = self.usize(v.len() - 1);
                let b = self.usize(7);
                v[i] ^= 1 << b;
            }
            3 => {
                v.pop();
            }
            4 => v.push(self.draw(255) as u8),
            5 => v.reverse(),
            _ => {
                let n = v.len();
                v = self.bytes(n);
            }
        }
        v
    }

    /// Split `len` into consecutive pieces; zero-length pieces are allowed.
    /// Sweeps force `[1, a]` for the two pieces a, len - a and `[3, k - 1]`
    /// for equal pieces of k.
    pub fn pieces(&mut self, len: usize) -> Vec<usize> {
        const EDGES: [usize; 24] = [
            0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 55, 56, 63, 64, 65, 80, 119, 127,
            128, 129,
        ];
        let mut out = Vec::new();
        let mut rest = len;
        match self.draw(7) {
            0 => out.push(len),
            1 => {
                let a = self.usize(len);
                out.push(a);
                out.push(len - a);
            }
            2 => {
                let k = if len <= 600 { 1 } else { 16 };
                while rest > 0 {
                    let n = k.min(rest);
                    out.push(n);
                    rest -= n;
                }
            }
            3 => {
                let mut k = self.usize(139) + 1;
                if len / k > 600 {
                    k = len / 600 + 1;
                }
                while rest > 0 {
                    let n = k.min(rest);
                    out.push(n);
                    rest -= n;
                }
            }
            4 | 5 => {
                let mut zeros = 0;
                while rest > 0 && out.len() < 60 {
                    let n = (*self.pick(&EDGES)).min(rest);
                    if n == 0 {
                        zeros += 1;
                        // After the choices have run out every draw is 0.
                        if zeros > 6 {
                            break;
                        }
                    }
                    out.push(n);
                    rest -= n;
                }
                out.push(rest);
            }
            _ => {
                let step = (len / 4).max(1).min(200);
                while rest > 0 && out.len() < 60 {
                    let n = self.usize(step).min(rest);
                    out.push(n);
                    rest -= n;
                }
                out.push(rest);
            }
        }
        if self.chance(1, 8) {
            out.push(0);
        }
        if self.chance(1, 8) {
            out.insert(0, 0);
        }
        out
    }
}

/// Pseudo-random content named by a 64-bit seed (part of the case).
pub fn expand(seed: u64, len: usize) -> Vec<u8> {
    let mut r = Rng(seed);
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(len);
    v
}

// ------------------------------------------------- where arguments lie

/// Roles of arguments, each with a buffer of its own per thread.
pub const KEY: usize = 0;
pub const BLOCK: usize = 1;
pub const DATA: usize = 2;
pub const SALT: usize = 3;
const SLOTS: usize = 4;

thread_local! {
    static PLACES: std::cell::RefCell<[Vec<u8>; SLOTS]> =
        const { std::cell::RefCell::new([Vec::new(), Vec::new(), Vec::new(), Vec::new()]) };
    /// How far from an aligned address; None until the case's first use.
    static SKEW: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
    static EXACT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Whether arguments lie in allocations of exactly their length, each call's
/// freed when the next one comes.
pub fn exact(on: bool) {
    EXACT.with(|e| e.set(on));
}

/// A copy of `data` at the address that every argument of this role has in
/// this case (so that nothing can be concluded from an address that comes
/// again), at one of sixteen alignments, which follows from the case.
/// Valid until the next call for the same slot in the same thread. Very long
/// data stays where it is.
pub fn at(slot: usize, data: &[u8]) -> &[u8] {
    if data.len() > 4 << 20 {
        return data;
    }
    if EXACT.with(|e| e.get()) {
        return PLACES.with(|p| {
            let buf = &mut p.borrow_mut()[slot];
            *buf = Vec::with_capacity(data.len());
            buf.extend_from_slice(data);
            // As below.
            unsafe { std::slice::from_raw_parts(buf.as_ptr(), data.len()) }
        });
    }
    let skew = SKEW.with(|s| match s.get() {
        Some(v) => v,
        None => {
            let mut h = data.len() as u64;
            for b in data.iter().take(64) {
                h = mix64(h ^ u64::from(*b));
            }
            let v = (h % 16) as usize;
            s.set(Some(v));
            v
        }
    });
    let skew = (skew + 5 * slot) % 16;
    PLACES.with(|p| {
        let buf = &mut p.borrow_mut()[slot];
        let need = data.len() + 32;
        if buf.len() < need {
            *buf = vec![0xd7; need.max(4096)];
        }
        let start = (16 - buf.as_ptr() as usize % 16) % 16 + skew;
        buf[start..start + data.len()].copy_from_slice(data);
        // The buffer lives as long as the thread, and is only replaced by a
        // later call for this slot.
        unsafe { std::slice::from_raw_parts(buf.as_ptr().add(start), data.len()) }
    })
}

/// A block for the calls that take an array.
pub fn at16(data: &[u8; 16]) -> &[u8; 16] {
    unsafe { &*(at(BLOCK, data).as_ptr() as *const [u8; 16]) }
}

/// What one evaluation reports besides its verdict.
pub struct Ctx {
    pub classes: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub excluded: u64,
    pub inconclusive: u64,
    /// Evaluations below the level of a case (e.g. operations, blocks).
    pub steps: u64,
    /// Fold of everything observed, for the cross-build comparison.
    pub trace: u64,
    /// The coverage of this case depends on scheduling.
    pub unsteady: bool,
    want_text: bool,
    pub text: String,
    /// A file to which the text is written as it comes.
    pub show: Option<String>,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            classes: BTreeMap::new(),
            nontrivial: false,
            excluded: 0,
            inconclusive: 0,
            steps: 0,
            trace: 0,
            unsteady: false,
            want_text: false,
            text: String::new(),
            show: None,
        }
    }

    pub fn start(&mut self, want_text: bool) {
        SKEW.with(|s| s.set(None));
        self.nontrivial = false;
        self.unsteady = false;
        self.trace = 0x1234_5678;
        self.want_text = want_text;
        self.text.clear();
    }

    pub fn class(&mut self, name: &'static str) {
        *self.classes.entry(name).or_insert(0) += 1;
    }

    pub fn class_if(&mut self, cond: bool, name: &'static str) {
        if cond {
            self.class(name);
        }
    }

    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    /// Add to the readable form of the case (only built when needed).
    pub fn say<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_text {
            if !self.text.is_empty() {
                self.text.push_str("; ");
            }
            let s = f();
            self.text.push_str(&s);
            if let Some(path) = &self.show {
                let _ = std::fs::write(path, &self.text);
            }
        }
    }

    pub fn observe(&mut self, data: &[u8]) {
        let mut h = self.trace ^ (data.len() as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        for c in data.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            h = mix64(h ^ u64::from_le_bytes(w));
        }
        self.trace = mix64(h);
    }
}

/// A property failure. `sig` identifies failures that the known-findings file
/// can list; every other failure has none.
pub struct Fail {
    pub sig: Option<String>,
    pub msg: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(msg: String) -> Result<T, Fail> {
    Err(Fail { sig: None, msg })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::engine::Fail { sig: None, msg: format!($($arg)*) });
        }
    };
}

pub fn hex(b: &[u8]) -> String {
    let full: String = b.iter().take(96).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 96 {
        format!("{}..({} bytes)", full, b.len())
    } else {
        full
    }
}

/// Where two byte strings differ, for messages.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    if got.len() != want.len() {
        return format!(
            "length {} instead of {}; got {} want {}",
            got.len(),
            want.len(),
            hex(got),
            hex(want)
        );
    }
    match got.iter().zip(want).position(|(a, b)| a != b) {
        None => "equal".to_string(),
        Some(i) => {
            let n = got.iter().zip(want).filter(|(a, b)| a != b).count();
            let a = i.saturating_sub(0);
            let e = (i + 32).min(got.len());
            format!(
                "first difference at byte {} of {} ({} bytes differ): got {} want {}",
                i,
                got.len(),
                n,
                hex(&got[a..e]),
                hex(&want[a..e])
            )
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub run: fn(&mut Src, &mut Ctx) -> Res,
    /// How many sweep points, from the first, are too expensive to run in
    /// more than one build.
    pub heavy: u64,
    /// Number of sweep points of a tier (true: thorough).
    pub sweep_len: fn(bool) -> u64,
    /// Choice prefix of a sweep point.
    pub sweep: fn(bool, u64) -> Vec<u64>,
    /// Cases per tier: (quick, thorough).
    pub random: (u64, u64),
    pub guided: (u64, u64),
}
