//! C20 memory: what is held, what a call needs, what is given back.

use crate::aside::{held, peak};
use crate::engine::*;
use crate::ensure;
use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;

/// Room for what does not depend on any argument.
const CONSTANT: usize = 64 << 10;

pub(super) enum Object {
    Sha(SHA256),
    HMac(HMac),
    Aes(AES),
    Cipher(Cipher),
    Decipher(Decipher),
}

#[derive(Clone, Copy, Debug)]
pub(super) enum Step {
    Init(usize),
    Feed(usize),
    /// digest, flush, or a block both ways
    Finish,
    /// A whole message of another cipher, then flush.
    Message(usize),
}

/// Bytes that differ from one repetition to the next, in a buffer that was
/// there before.
pub(super) struct Bytes {
    pub(super) room: Vec<u8>,
    pub(super) seed: u64,
}

impl Bytes {
    pub(super) fn next(&mut self, len: usize) -> &[u8] {
        self.seed = mix64(self.seed.wrapping_add(0x9e37_79b9_7f4a_7c15));
        let mut z = self.seed;
        for part in self.room[..len].chunks_mut(8) {
            z = z.wrapping_mul(0xd129_0829_8bbd_9b11).wrapping_add(0x1234_5678_9abc_def1);
            let w = (z ^ (z >> 29)).to_le_bytes();
            part.copy_from_slice(&w[..part.len()]);
        }
        &self.room[..len]
    }
    fn block(&mut self) -> [u8; 16] {
        let mut b = [0; 16];
        b.copy_from_slice(self.next(16));
        b
    }
}

pub(super) fn create(kind: u64, keys: usize, bytes: &mut Bytes) -> Object {
    match kind {
        0 => Object::Sha(SHA256::new()),
        1 => Object::HMac(HMac::new(bytes.next(keys))),
        2 => Object::Aes(AES::new()),
        3 => Object::Cipher(Cipher::new(bytes.block())),
        _ => Object::Decipher(Decipher::new(bytes.block())),
    }
}

/// The object's call, and the most memory it needed beyond what was held.
pub(super) fn step(o: &mut Object, s: Step, keys: usize, bytes: &mut Bytes, ready: &[Vec<u8>]) -> isize {
    match (o, s) {
        (Object::Sha(h), Step::Feed(n)) | (Object::Sha(h), Step::Message(n)) => {
            let d = bytes.next(n);
            peak(|| h.update(d)).1
        }
        (Object::Sha(h), Step::Finish) => peak(|| drop(h.digest())).1,
        (Object::Sha(h), Step::Init(_)) => peak(|| *h = SHA256::new()).1,
        (Object::HMac(h), Step::Feed(n)) | (Object::HMac(h), Step::Message(n)) => {
            let d = bytes.next(n);
            peak(|| h.update(d)).1
        }
        (Object::HMac(h), Step::Finish) => peak(|| drop(h.digest())).1,
        (Object::HMac(h), Step::Init(_)) => {
            let k = bytes.next(keys);
            peak(|| *h = HMac::new(k)).1
        }
        (Object::Aes(a), Step::Init(n)) => {
            let k = bytes.next(n);
            peak(|| drop(a.init(k))).1
        }
        (Object::Aes(a), _) => {
            let b = bytes.block();
            peak(|| {
                drop(a.encrypt(&b));
                drop(a.decrypt(&b));
            })
            .1
        }
        (Object::Cipher(c), Step::Init(n)) => {
            let k = bytes.next(n);
            peak(|| drop(c.init(k))).1
        }
        (Object::Cipher(c), Step::Feed(n)) | (Object::Cipher(c), Step::Message(n)) => {
            let d = bytes.next(n);
            peak(|| drop(c.write(d))).1
        }
        (Object::Cipher(c), Step::Finish) => peak(|| drop(c.flush())).1,
        (Object::Decipher(c), Step::Init(n)) => {
            let k = bytes.next(n);
            peak(|| drop(c.init(k))).1
        }
        (Object::Decipher(c), Step::Feed(n)) => {
            let d = bytes.next(n);
            peak(|| drop(c.write(d))).1
        }
        (Object::Decipher(c), Step::Finish) => peak(|| drop(c.flush())).1,
        (Object::Decipher(c), Step::Message(n)) => {
            // Made beforehand for this key and IV: accepted.
            let m = &ready[n % ready.len()];
            *c = Decipher::new([9; 16]);
            drop(c.init(&[3; 16]));
            peak(|| {
                drop(c.write(m));
                drop(c.flush());
            })
            .1
        }
    }
}

pub(super) fn size(s: Step) -> usize {
    match s {
        Step::Init(n) | Step::Feed(n) => n,
        // At most what `ready` has.
        Step::Message(n) => n.max(200),
        Step::Finish => 0,
    }
}

/// Does `f`, done over and over, keep more memory every time? The bytes per
/// repetition, over many, if so.
fn grows(mut f: impl FnMut() -> Res, more: usize) -> Result<Option<f64>, Fail> {
    for _ in 0..24 {
        f()?;
    }
    let at = held();
    for _ in 0..24 {
        f()?;
    }
    if held() - at < 24 {
        return Ok(None);
    }
    // A table may fill up; what goes on growing is not a table.
    for _ in 0..more {
        f()?;
    }
    let at = held();
    for _ in 0..more {
        f()?;
    }
    let growth = held() - at;
    if growth < more as isize {
        return Ok(None);
    }
    Ok(Some(growth as f64 / more as f64))
}

/// Ciphertexts for `Step::Message`.
pub(super) fn messages() -> Vec<Vec<u8>> {
    let mut ready = Vec::new();
    for n in [0usize, 15, 16, 100] {
        let mut c = Cipher::new([9; 16]);
        let _ = c.init(&[3; 16]);
        let mut m = c.write(&vec![7; n]).unwrap_or_default();
        m.extend(c.flush().unwrap_or_default());
        ready.push(m);
    }
    ready
}

fn length(src: &mut Src) -> usize {
    match src.draw(12) {
        0..=7 => src.length(100, 16),
        8 | 9 => src.length(2_000, 64),
        10 => src.length(20_000, 64),
        11 => src.usize(60_000),
        _ => 16 * src.usize(5_000),
    }
}

fn objects(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.draw(4);
    let keys = match src.draw(2) {
        0 => src.length(70, 64),
        1 => src.length(300, 64),
        _ => 32,
    };
    let begin_key = *src.pick(&[16usize, 24, 32, 5]);
    let mut body = Vec::new();
    for _ in 0..1 + src.usize(6) {
        body.push(match src.draw(9) {
            0..=4 => Step::Feed(length(src)),
            5 | 6 => Step::Finish,
            7 => Step::Init(*src.pick(&[16usize, 24, 32, 0, 17, 40])),
            _ => Step::Message(length(src)),
        });
    }
    let most = body.iter().map(|s| size(*s)).max().unwrap_or(0);
    let seed = src.draw(u64::MAX);
    let name = ["SHA256", "HMac", "AES", "Cipher", "Decipher"][kind as usize];
    ctx.say(|| format!("{} with a key of {} bytes (hmac: {}), {:?} over and over, seed {}", name, begin_key, keys, body, seed));
    ctx.class(["sha", "hmac", "aes", "cipher", "decipher"][kind as usize]);
    ctx.steps += body.len() as u64;
    if body.len() >= 2 {
        ctx.nontrivial();
    }
    let ready = messages();
    let mut bytes = Bytes { room: vec![0; most.max(400)], seed };
    let more = if most > 5_000 { 300 } else { 2_000 };

    // What one object holds and its calls need.
    let before = held();
    {
        let mut o = create(kind, keys, &mut bytes);
        step(&mut o, Step::Init(begin_key), keys, &mut bytes, &ready);
        let mut largest = keys;
        for round in 0..3 {
            for s in &body {
                largest = largest.max(size(*s));
                let need = step(&mut o, *s, keys, &mut bytes, &ready);
                let bound = (CONSTANT + 24 * (size(*s) + largest)) as isize;
                ensure!(need <= bound, "{}: {:?} needed {} bytes of memory", name, s, need);
                let holds = held() - before;
                let bound = match o {
                    Object::Cipher(_) | Object::Decipher(_) => CONSTANT + 8 * largest,
                    _ => CONSTANT + 8 * keys,
                } as isize;
                ensure!(
                    holds <= bound,
                    "{}: {} bytes held after {:?} in round {}, the largest write being of {}",
                    name, holds, s, round, largest
                );
            }
        }
    }
    // Over the life of one object.
    let mut o = create(kind, keys, &mut bytes);
    step(&mut o, Step::Init(begin_key), keys, &mut bytes, &ready);
    let rate = grows(
        || {
            for s in &body {
                step(&mut o, *s, keys, &mut bytes, &ready);
            }
            Ok(())
        },
        more,
    )?;
    if let Some(r) = rate {
        return fail(format!("{}: one object keeps {:.1} more bytes every time {:?} is done", name, r, body));
    }
    drop(o);
    // One object after the other.
    let rate = grows(
        || {
            let mut o = create(kind, keys, &mut bytes);
            step(&mut o, Step::Init(begin_key), keys, &mut bytes, &ready);
            for s in &body {
                step(&mut o, *s, keys, &mut bytes, &ready);
            }
            Ok(())
        },
        more,
    )?;
    if let Some(r) = rate {
        return fail(format!("{}: {:.1} bytes are not given back for every object that was used for {:?}", name, r, body));
    }
    Ok(())
}

fn functions(src: &mut Src, ctx: &mut Ctx) -> Res {
    let seed = src.draw(u64::MAX);
    let mut bytes = Bytes { room: vec![0; 90_000], seed };
    match src.draw(4) {
        0 => {
            let (p, s, c, n) = (src.length(200, 64), length(src), 1 + src.usize(5), src.length(2_000, 32));
            let many = src.chance(1, 12);
            let (c, n) = if many { (5_000 + 4 * c, n % 80) } else { (c, n) };
            ctx.say(|| format!("pbkdf2 password of {}, salt of {}, c={}, {} bytes", p, s, c, n));
            ctx.class("pbkdf2");
            ctx.nontrivial();
            let mut out = vec![0; n];
            let salt = bytes.next(s).to_vec();
            let bound = (CONSTANT + 16 * (p + s) + 8 * n) as isize;
            if many {
                let pw = bytes.next(p);
                let need = peak(|| pbkdf2_sha256(pw, &salt, c, &mut out)).1;
                ensure!(need <= bound, "pbkdf2 needed {} bytes of memory", need);
                return Ok(());
            }
            let rate = grows(
                || {
                    let pw = bytes.next(p);
                    let need = peak(|| pbkdf2_sha256(pw, &salt, c, &mut out)).1;
                    ensure!(need <= bound, "pbkdf2 needed {} bytes of memory", need);
                    Ok(())
                },
                300,
            )?;
            ensure!(rate.is_none(), "pbkdf2 does not give back {:.1} bytes per call", rate.unwrap_or(0.0));
        }
        1 => {
            let (blocks, rounds) = (src.usize(60), src.usize(8));
            ctx.say(|| format!("salsa20 of {} blocks, {} rounds", blocks, rounds));
            ctx.class("salsa20");
            ctx.nontrivial();
            let mut out = vec![0; 64 * blocks];
            let bound = (CONSTANT + 8 * 64 * blocks) as isize;
            let rate = grows(
                || {
                    let d = bytes.next(64 * blocks);
                    let need = peak(|| salsa20(d, rounds, &mut out)).1;
                    ensure!(need <= bound, "salsa20 needed {} bytes of memory", need);
                    Ok(())
                },
                1_000,
            )?;
            ensure!(rate.is_none(), "salsa20 does not give back {:.1} bytes per call", rate.unwrap_or(0.0));
        }
        2 => {
            // Rejected.
            let (r, n, p) = *src.pick(&[(0usize, 16usize, 1usize), (1, 1, 1), (1, 0, 1), (1, 3, 1), (2, 16, 0), (1, 65_536, 1), (1, 2, usize::MAX), (1, usize::MAX, 1)]);
            ctx.say(|| format!("scrypt r={} N={} p={}", r, n, p));
            ctx.class("scrypt:rejected");
            let mut out = [0; 40];
            let rate = grows(
                || {
                    let pw = bytes.next(20);
                    let need = peak(|| drop(Scrypt::new(r, n, p).derive(pw, b"salt", &mut out))).1;
                    ensure!(need <= CONSTANT as isize, "a rejection by scrypt needed {} bytes of memory", need);
                    Ok(())
                },
                1_000,
            )?;
            ensure!(rate.is_none(), "a rejection by scrypt does not give back {:.1} bytes", rate.unwrap_or(0.0));
        }
        _ => {
            // Big enough for the constants not to matter.
            let r = 1 + src.usize(16);
            let n = 2usize << src.usize(11);
            let p = 1 + src.usize(40);
            let (n, p) = if r < 4 && n >> (16 * r) != 0 { (2, p) } else { (n, p) };
            let work = r * n * p;
            if work > 60_000 {
                ctx.excluded += 1;
                return Ok(());
            }
            ctx.say(|| format!("scrypt r={} N={} p={}, seed {}", r, n, p, seed));
            ctx.class("scrypt");
            ctx.class_if(p >= 8 && n >= 64, "scrypt:many lanes");
            ctx.nontrivial();
            let s = src.length(100, 32);
            let salt = bytes.next(s).to_vec();
            let mut out = vec![0; src.length(200, 32)];
            let pw = bytes.next(20).to_vec();
            let (_, need) = peak(|| drop(Scrypt::new(r, n, p).derive(&pw, &salt, &mut out)));
            // Each block of 64 bytes may be an allocation with a header.
            let bound = (CONSTANT + 3 * 128 * r * n + 10 * 128 * r * p + 8 * out.len()) as isize;
            ensure!(
                need <= bound,
                "scrypt r={} N={} p={} needed {} bytes of memory; one table of N blocks is {}",
                r, n, p, need, 128 * r * n
            );
            if work < 2_000 {
                let rate = grows(
                    || {
                        let pw = bytes.next(20);
                        drop(Scrypt::new(r, n, p).derive(pw, &salt, &mut out));
                        Ok(())
                    },
                    100,
                )?;
                ensure!(rate.is_none(), "scrypt does not give back {:.1} bytes per call", rate.unwrap_or(0.0));
            }
        }
    }
    Ok(())
}

/// Enough for every call: what needs more has stack that grows with its work.
const STACK: usize = 256 << 10;

fn run20(src: &mut Src, ctx: &mut Ctx) -> Res {
    let work = || {
        if src.draw(3) == 3 {
            functions(src, ctx)
        } else {
            objects(src, ctx)
        }
    };
    std::thread::scope(|scope| match std::thread::Builder::new().stack_size(STACK).spawn_scoped(scope, work) {
        Ok(handle) => match handle.join() {
            Ok(r) => r,
            Err(cause) => std::panic::resume_unwind(cause),
        },
        Err(e) => panic!("no thread: {}", e),
    })
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "the bytes allocated and not freed by the thread, counted by the harness's allocator: after every call and at its highest during the call, for bodies of 1..7 calls on an object of any kind done 24 + 24 times on one object and on 24 + 24 objects with fresh contents, for pbkdf2, salsa20 and scrypt called as often, and for single derivations with up to 41 lanes; all on a stack of 256 KiB; non-trivial: two calls or more, or a derivation",
        run: run20,
        heavy: 0,
        sweep_len: |_| 0,
        sweep: |_, _| vec![],
        random: (7_000, 400_000),
        guided: (0, 0),
    }
}
