//! C16 isolation of instances and threads, C17 agreement of builds.

use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::props::aes::{bad_key, gen_key};
use crate::reference as rf;
use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;
use std::sync::{Arc, Barrier};

// ------------------------------------------------------------------- C16

/// Whether a type may cross threads, without refusing to compile when not.
mod probe {
    pub struct Probe<T>(std::marker::PhantomData<T>);
    #[allow(dead_code)]
    pub trait Fallback {
        const SEND: bool = false;
        const SYNC: bool = false;
    }
    impl<T> Fallback for Probe<T> {}
    pub struct IsSend<T>(std::marker::PhantomData<T>);
    pub struct IsSync<T>(std::marker::PhantomData<T>);
    impl<T> Fallback for IsSend<T> {}
    impl<T> Fallback for IsSync<T> {}
    #[allow(dead_code)]
    impl<T: Send> IsSend<T> {
        pub const SEND: bool = true;
    }
    #[allow(dead_code)]
    impl<T: Sync> IsSync<T> {
        pub const SYNC: bool = true;
    }
}

#[allow(unused_imports)]
fn may_cross_threads() -> bool {
    use probe::{Fallback, IsSend, IsSync};
    IsSend::<SHA256>::SEND
        && IsSend::<HMac>::SEND
        && IsSend::<AES>::SEND
        && IsSend::<Cipher>::SEND
        && IsSend::<Decipher>::SEND
        && IsSend::<Scrypt>::SEND
        && IsSync::<AES>::SYNC
        && IsSync::<Scrypt>::SYNC
}

/// Only made when `may_cross_threads`.
struct Cross<T>(T);
unsafe impl<T> Send for Cross<T> {}
unsafe impl<T> Sync for Cross<T> {}

enum Obj {
    Sha(SHA256, Vec<u8>),
    Hmac(HMac, Vec<u8>, Vec<u8>),
    Aes(AES, rf::RefAes),
    Enc(Cipher, CipherModel),
    /// The queue is ciphertext of the message under way.
    Dec(Decipher, DecipherModel, Vec<u8>),
    /// Stateless functions, salted with this object's key.
    Kdf(Vec<u8>),
}

#[derive(Clone, Debug)]
enum Act {
    Key(Vec<u8>),
    Data(Vec<u8>),
    End,
}

fn make(kind: u64, key: &[u8], iv: [u8; 16]) -> Result<Obj, Fail> {
    Ok(match kind {
        0 => Obj::Sha(SHA256::new(), vec![]),
        1 => Obj::Hmac(HMac::new(at(KEY, key)), key.to_vec(), vec![]),
        2 => {
            let mut a = AES::new();
            if let Err(e) = a.init(at(KEY, key)) {
                return fail(format!("AES::init: {:?}", e));
            }
            Obj::Aes(a, rf::RefAes::new(key))
        }
        3 => {
            let mut c = Cipher::new(iv);
            if let Err(e) = c.init(at(KEY, key)) {
                return fail(format!("Cipher::init: {:?}", e));
            }
            let mut m = CipherModel::new(iv);
            m.key = Some(rf::RefAes::new(key));
            Obj::Enc(c, m)
        }
        4 => {
            let mut d = Decipher::new(iv);
            if let Err(e) = d.init(at(KEY, key)) {
                return fail(format!("Decipher::init: {:?}", e));
            }
            let mut m = DecipherModel::new(iv);
            m.key = Some(rf::RefAes::new(key));
            Obj::Dec(d, m, vec![])
        }
        _ => Obj::Kdf(key.to_vec()),
    })
}

fn step(i: usize, o: &mut Obj, act: &Act) -> Res {
    match (o, act) {
        (Obj::Sha(s, d), Act::Data(x)) => {
            s.update(at(DATA, x));
            d.extend_from_slice(x);
        }
        (Obj::Sha(s, d), _) => {
            let got = s.digest();
            let want = rf::sha256(d);
            ensure!(got == want, "object {}: SHA-256 of its own {} bytes: {}", i, d.len(), diff(&got, &want));
            *s = SHA256::new();
            d.clear();
        }
        (Obj::Hmac(h, _, d), Act::Data(x)) => {
            h.update(at(DATA, x));
            d.extend_from_slice(x);
        }
        (Obj::Hmac(h, k, d), act) => {
            let got = h.digest();
            let want = rf::hmac(k, d);
            ensure!(got == want, "object {}: HMAC of its own {} bytes: {}", i, d.len(), diff(&got, &want));
            if let Act::Key(n) = act {
                *k = n.clone();
            }
            *h = HMac::new(at(KEY, k));
            d.clear();
        }
        (Obj::Aes(a, r), Act::Key(k)) => {
            if let Err(e) = a.init(at(KEY, k)) {
                return fail(format!("object {}: init: {:?}", i, e));
            }
            *r = rf::RefAes::new(k);
        }
        (Obj::Aes(a, r), act) => {
            let mut b = [0x5au8; 16];
            if let Act::Data(x) = act {
                for (p, q) in b.iter_mut().zip(x) {
                    *p = *q;
                }
            }
            aes_step(i, a, r, &b)?;
        }
        (Obj::Enc(c, m), Act::Key(k)) => {
            if let Err(e) = c.init(at(KEY, k)) {
                return fail(format!("object {}: init: {:?}", i, e));
            }
            m.key = Some(rf::RefAes::new(k));
        }
        (Obj::Enc(c, m), act) => {
            let (got, want) = match act {
                Act::Data(x) => (c.write(at(DATA, x)), m.write(x).unwrap_or_default()),
                _ => (c.flush(), m.flush().unwrap_or_default()),
            };
            match got {
                Ok(g) => ensure!(g == want, "object {}: Cipher: {}", i, diff(&g, &want)),
                Err(e) => return fail(format!("object {}: Cipher: {:?}", i, e)),
            }
        }
        (Obj::Dec(d, m, queue), act) => {
            if let Act::Key(k) = act {
                // Between messages only: the rest of one would become noise.
                if queue.is_empty() && m.held.is_empty() && m.pending.is_empty() {
                    if let Err(e) = d.init(at(KEY, k)) {
                        return fail(format!("object {}: init: {:?}", i, e));
                    }
                    m.key = Some(rf::RefAes::new(k));
                }
                return Ok(());
            }
            if let (Act::Data(text), true) = (act, queue.is_empty() && m.held.is_empty() && m.pending.is_empty()) {
                if let Some(k) = &m.key {
                    *queue = rf::cbc_raw_encrypt(k, &m.chain, &rf::pkcs7_pad(text)).0;
                }
            }
            if queue.is_empty() && m.held.is_empty() && m.pending.is_empty() {
                return Ok(());
            }
            let ending = matches!(act, Act::End);
            let n = if ending { queue.len() } else { queue.len() / 2 + 1 }.min(queue.len());
            let part: Vec<u8> = queue.drain(..n).collect();
            let want = m.write(&part).unwrap_or_default();
            match d.write(at(DATA, &part)) {
                Ok(g) => ensure!(g == want, "object {}: Decipher: {}", i, diff(&g, &want)),
                Err(e) => return fail(format!("object {}: Decipher::write: {:?}", i, e)),
            }
            if ending {
                match (d.flush(), m.flush()) {
                    (Ok(g), Ok(w)) => ensure!(g == w, "object {}: Decipher: {}", i, diff(&g, &w)),
                    (g, w) => return fail(format!("object {}: Decipher::flush {:?}, expected {:?}", i, g.map(|x| hex(&x)), w.map(|x| hex(&x)))),
                }
            }
        }
        (Obj::Kdf(k), act) => {
            let data = match act {
                Act::Data(x) => x.clone(),
                Act::Key(n) => {
                    *k = n.clone();
                    vec![]
                }
                Act::End => {
                    let mut out = [0u8; 24];
                    if let Err(e) = Scrypt::new(1, 2, 1).derive(at(KEY, k), b"salt", &mut out) {
                        return fail(format!("object {}: scrypt: {:?}", i, e));
                    }
                    ensure!(out[..] == rf::scrypt(k, b"salt", 2, 1, 1, 24)[..], "object {}: scrypt of {}: {}", i, hex(k), hex(&out));
                    vec![1]
                }
            };
            let mut out = [0u8; 40];
            pbkdf2_sha256(at(KEY, &data), at(SALT, k), 2, &mut out);
            ensure!(out[..] == rf::pbkdf2(&data, k, 2, 40)[..], "object {}: PBKDF2 of {} salt {}: {}", i, hex(&data), hex(k), hex(&out));
            let mut block = [7u8; 64];
            for (p, q) in block.iter_mut().zip(k.iter().chain(&data)) {
                *p = *q;
            }
            let mut out = [0u8; 64];
            salsa20(at(DATA, &block), 4, &mut out);
            ensure!(out[..] == rf::salsa20(&block, 4)[..], "object {}: salsa20 of {}: {}", i, hex(&block), hex(&out));
        }
    }
    Ok(())
}

fn aes_step(i: usize, a: &AES, r: &rf::RefAes, b: &[u8; 16]) -> Res {
    let e = a.encrypt(at16(b));
    ensure!(e == Ok(r.encrypt(b)), "object {}: encrypt({}) = {:?}, want {}", i, hex(b), e, hex(&r.encrypt(b)));
    let d = a.decrypt(at16(b));
    ensure!(d == Ok(r.decrypt(b)), "object {}: decrypt({}) = {:?}, want {}", i, hex(b), d, hex(&r.decrypt(b)));
    Ok(())
}

fn run16(src: &mut Src, ctx: &mut Ctx) -> Res {
    let many = src.special(2) as usize;
    let threaded = src.chance(1, 24) && many == 0;
    let count = [2 + src.usize(4), 300, 5_000][many];
    let base = gen_key(src);
    let same_kind = if src.flag() { Some(src.draw(5)) } else { None };
    let mut objs = Vec::new();
    let mut keys = Vec::new();
    for _ in 0..count {
        let kind = match same_kind {
            Some(k) => k,
            None => src.draw(5),
        };
        // Keys and IVs that are equal or nearly so.
        let mut key = src.related(&base);
        let n = *src.pick(&[16usize, 16, 24, 32]);
        key.resize(n, 0);
        let iv = if src.flag() { src.array::<16>() } else { [3; 16] };
        ctx.say(|| format!("object {} of kind {} key={} iv={}", objs.len(), kind, hex(&key), hex(&iv)));
        objs.push(make(kind, &key, iv)?);
        keys.push(key);
    }
    let pool: Vec<Vec<u8>> = (0..3)
        .map(|_| {
            let n = src.length(90, 16);
            src.bytes(n)
        })
        .collect();
    let nops = if many > 0 { 2 * count } else { 2 + src.usize(if threaded { 60 } else { 30 }) };
    let mut plan: Vec<(usize, Act)> = Vec::new();
    for _ in 0..nops {
        let o = src.usize(count - 1);
        let act = match src.draw(7) {
            0 => {
                let other = src.usize(count - 1);
                let mut k = src.related(&keys[other]);
                let n = *src.pick(&[16usize, 24, 32]);
                k.resize(n, 0);
                Act::Key(k)
            }
            1 | 2 => Act::End,
            _ => Act::Data(pool[src.usize(2)].clone()),
        };
        plan.push((o, act));
    }
    for i in 0..count {
        plan.push((i, Act::End));
    }
    ctx.steps += plan.len() as u64;
    let switches = plan.windows(2).filter(|w| w[0].0 != w[1].0).count();
    ctx.unsteady = threaded;
    ctx.class_if(threaded, "threads");
    ctx.class_if(many > 0, "hundreds-of-objects");
    ctx.class_if(!threaded, "interleaved");
    ctx.class_if(same_kind.is_some(), "all-of-one-kind");
    if switches >= 4 {
        ctx.nontrivial();
    }
    ctx.say(|| {
        format!(
            "{} plan {}",
            if threaded { "threaded" } else { "interleaved" },
            plan.iter()
                .map(|(o, a)| match a {
                    Act::Key(k) => format!("{}:key({})", o, hex(k)),
                    Act::Data(d) => format!("{}:data({})", o, hex(d)),
                    Act::End => format!("{}:end", o),
                })
                .collect::<Vec<_>>()
                .join(" ")
        )
    });
    if !threaded || !may_cross_threads() {
        for (o, act) in &plan {
            step(*o, &mut objs[*o], act)?;
        }
        return Ok(());
    }
    // Objects split over threads, which also share one AES instance and one
    // Scrypt; halfway, the objects move to other threads.
    let mut shared = AES::new();
    if let Err(e) = shared.init(&base) {
        return fail(format!("init: {:?}", e));
    }
    let shared = Arc::new(Cross((shared, Scrypt::new(2, 4, 1), rf::RefAes::new(&base))));
    let scrypt_want = rf::scrypt(&base, &pool[0], 4, 2, 1, 48);
    let threads = 2 + src.usize(1);
    let half = plan.len() / 2;
    for (phase, ops) in [&plan[..half], &plan[half..]].into_iter().enumerate() {
        let barrier = Arc::new(Barrier::new(threads));
        let mut groups: Vec<Vec<(usize, Obj)>> = (0..threads).map(|_| vec![]).collect();
        for (i, o) in objs.drain(..).enumerate() {
            groups[(i + phase) % threads].push((i, o));
        }
        let mut handles = Vec::new();
        for group in groups {
            let group = Cross(group);
            let ops: Vec<(usize, Act)> = ops.to_vec();
            let (barrier, shared) = (barrier.clone(), shared.clone());
            let (base, salt, scrypt_want) = (base.clone(), pool[0].clone(), scrypt_want.clone());
            handles.push(std::thread::spawn(move || {
                let whole = group;
                let mut group = whole;
                barrier.wait();
                let r = crate::catch(|| -> Res {
                    let (aes, scrypt, model) = {
                        let s = &shared.0;
                        (&s.0, &s.1, &s.2)
                    };
                    let mut b = [9u8; 16];
                    for (n, (o, act)) in ops.iter().enumerate() {
                        for (i, obj) in group.0.iter_mut() {
                            if i == o {
                                step(*i, obj, act)?;
                            }
                        }
                        b[n % 16] ^= (n + 1) as u8;
                        aes_step(99, aes, model, &b)?;
                    }
                    let mut out = vec![0u8; 48];
                    match scrypt.derive(at(KEY, &base), at(SALT, &salt), &mut out) {
                        Ok(()) => ensure!(out == scrypt_want, "shared scrypt: {}", diff(&out, &scrypt_want)),
                        Err(e) => return fail(format!("shared scrypt: {:?}", e)),
                    }
                    Ok(())
                });
                (r, group)
            }));
        }
        let mut back: Vec<(usize, Obj)> = Vec::new();
        let mut first: Res = Ok(());
        for h in handles {
            match h.join() {
                Ok((r, g)) => {
                    back.extend(g.0);
                    let r = match r {
                        Ok(r) => r,
                        Err(m) => fail(format!("panic in a thread: {}", m)),
                    };
                    if first.is_ok() {
                        first = r;
                    }
                }
                Err(_) => first = fail("a thread died".into()),
            }
        }
        first?;
        back.sort_by_key(|x| x.0);
        objs = back.into_iter().map(|x| x.1).collect();
    }
    Ok(())
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "2..6 live objects (hash, HMAC, AES, Cipher, Decipher, key derivations) with equal or nearly equal keys, IVs and data, 2..30 operations interleaved over them, each result against that object's own model; 1 case in 24 splits the objects over 2..3 threads that also share an AES and a Scrypt and swaps them between threads halfway; 300 and 5000 live objects at six points; non-trivial: at least four switches between objects",
        run: run16,
        heavy: 0,
        sweep_len: |_| 6,
        sweep: |_, i| vec![1 + i % 2],
        random: (500000, 15000000),
        guided: (80000, 2400000),
    }
}

// ------------------------------------------------------------------- C17

pub fn heavy17(which: u64, seed: u64, ctx: &mut Ctx) {
    ctx.nontrivial();
    ctx.class("large");
    match which {
        1 => {
            // More than 2^32 bits hashed.
            let piece = expand(seed, 1 << 20);
            let mut s = SHA256::new();
            for _ in 0..512 {
                s.update(&piece);
            }
            s.update(&piece[..(seed % 200) as usize]);
            ctx.say(|| "SHA-256 of more than 2^29 bytes".into());
            ctx.observe(&s.digest());
        }
        2 => {
            // More than 2^16 blocks of output.
            let mut out = vec![0u8; 70_000 * 32 + (seed % 32) as usize];
            pbkdf2_sha256(b"password", &expand(seed, 20), 1, &mut out);
            ctx.say(|| format!("PBKDF2 output of {} bytes", out.len()));
            ctx.observe(&out);
        }
        3 => {
            let mut out = vec![0u8; 64];
            let r = Scrypt::new(1, 2, 5_000).derive(b"pass", &expand(seed, 9), &mut out);
            ctx.say(|| "scrypt r=1 N=2 p=5000".into());
            ctx.observe(format!("{:?}", r).as_bytes());
            ctx.observe(&out);
        }
        4 => {
            let mut out = vec![0u8; 64];
            let r = Scrypt::new(600, 4, 1).derive(b"pass", &expand(seed, 9), &mut out);
            ctx.say(|| "scrypt r=600 N=4 p=1".into());
            ctx.observe(format!("{:?}", r).as_bytes());
            ctx.observe(&out);
        }
        5 => {
            let mut out = vec![0u8; 64];
            let r = Scrypt::new(1, 32_768, 1).derive(b"pass", &expand(seed, 9), &mut out);
            ctx.say(|| "scrypt r=1 N=32768 p=1".into());
            ctx.observe(format!("{:?}", r).as_bytes());
            ctx.observe(&out);
        }
        _ => {
            let text = expand(seed, (1 << 20) + 5);
            let mut c = Cipher::new([1; 16]);
            let mut d = Decipher::new([1; 16]);
            ctx.say(|| "CBC of 2^20 + 5 bytes in one write".into());
            let ok = c.init(&text[..32]).is_ok() && d.init(&text[..32]).is_ok();
            ctx.observe(&[ok as u8]);
            let mut all = c.write(&text).unwrap_or_default();
            all.extend(c.flush().unwrap_or_default());
            ctx.observe(&all);
            ctx.observe(&d.write(&all).unwrap_or_default());
            ctx.observe(&d.flush().unwrap_or_default());
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    ShaNew(bool),
    ShaUpdate(Vec<u8>),
    ShaDigest,
    HmacNew(Vec<u8>),
    HmacUpdate(Vec<u8>),
    HmacDigest,
    AesNew,
    AesInit(Vec<u8>),
    AesCrypt([u8; 16]),
    CipherNew([u8; 16]),
    CipherInit(Vec<u8>),
    CipherWrite(Vec<u8>),
    CipherFlush,
    DecipherNew([u8; 16]),
    DecipherInit(Vec<u8>),
    DecipherWrite(Vec<u8>),
    /// Everything the cipher has produced so far.
    DecipherFeed,
    DecipherFlush,
    Pbkdf2(Vec<u8>, Vec<u8>, usize, usize),
    Scrypt(usize, usize, usize, Vec<u8>, Vec<u8>, usize),
    Salsa(Vec<u8>, usize),
}

fn any_key(src: &mut Src) -> Vec<u8> {
    if src.chance(1, 5) {
        bad_key(src)
    } else {
        gen_key(src)
    }
}

pub fn gen_op(src: &mut Src, focus: u64) -> Op {
    let group = if src.chance(1, 3) { src.draw(6) } else { focus };
    let len = |src: &mut Src| {
        let n = src.length(150, 16);
        src.bytes(n)
    };
    match group {
        0 => match src.draw(7) {
            0 => Op::ShaNew(src.flag()),
            1 => Op::ShaDigest,
            _ => {
                let n = src.length(300, 64);
                Op::ShaUpdate(src.bytes(n))
            }
        },
        1 => match src.draw(7) {
            0 | 1 => {
                let n = src.length(150, 64);
                Op::HmacNew(src.bytes(n))
            }
            2 => Op::HmacDigest,
            _ => {
                let n = src.length(300, 64);
                Op::HmacUpdate(src.bytes(n))
            }
        },
        2 => match src.draw(7) {
            0 => Op::AesNew,
            1 | 2 => Op::AesInit(any_key(src)),
            _ => Op::AesCrypt(src.array::<16>()),
        },
        3 => match src.draw(9) {
            0 => Op::CipherNew(src.array::<16>()),
            1 | 2 => Op::CipherInit(any_key(src)),
            3 | 4 => Op::CipherFlush,
            _ => Op::CipherWrite(len(src)),
        },
        4 => match src.draw(11) {
            0 => Op::DecipherNew(src.array::<16>()),
            1 | 2 => Op::DecipherInit(any_key(src)),
            3 | 4 => Op::DecipherFlush,
            5 => Op::DecipherFeed,
            6 => Op::CipherFlush,
            7 => Op::CipherWrite(len(src)),
            _ => Op::DecipherWrite(len(src)),
        },
        5 => match src.draw(2) {
            0 => {
                let (p, s) = (len(src), len(src));
                let c = 1 + src.usize(5);
                let on = src.length(200, 32);
                Op::Pbkdf2(p, s, c, on)
            }
            _ => {
                let (r, p) = (src.usize(4), src.usize(3));
                let n = if src.flag() { 2 << src.usize(4) } else { src.usize(20) };
                let (pw, salt) = (len(src), len(src));
                let on = src.length(100, 32);
                Op::Scrypt(r, n, p, pw, salt, on)
            }
        },
        _ => {
            let b = 1 + src.usize(2);
            let x = src.bytes(64 * b);
            Op::Salsa(x, src.usize(20))
        }
    }
}

pub struct World {
    sha: SHA256,
    hmac: HMac,
    aes: AES,
    cipher: Cipher,
    decipher: Decipher,
    made: Vec<u8>,
}

pub fn world() -> World {
    World {
        sha: SHA256::new(),
        hmac: HMac::new(b""),
        aes: AES::new(),
        cipher: Cipher::new([0; 16]),
        decipher: Decipher::new([0; 16]),
        made: vec![],
    }
}

pub fn perform(w: &mut World, op: &Op, ctx: &mut Ctx) {
    macro_rules! outcome {
        ($r:expr) => {
            match $r {
                Ok(v) => {
                    ctx.observe(b"ok");
                    Some(v)
                }
                Err(e) => {
                    ctx.observe(format!("{:?} {}", e, e).as_bytes());
                    None
                }
            }
        };
    }
    match op {
        Op::ShaNew(alt) => w.sha = if *alt { SHA256::default() } else { SHA256::new() },
        Op::ShaUpdate(d) => w.sha.update(at(DATA, d)),
        Op::ShaDigest => ctx.observe(&w.sha.digest()),
        Op::HmacNew(k) => w.hmac = HMac::new(at(KEY, k)),
        Op::HmacUpdate(d) => w.hmac.update(at(DATA, d)),
        Op::HmacDigest => ctx.observe(&w.hmac.digest()),
        Op::AesNew => w.aes = AES::new(),
        Op::AesInit(k) => {
            outcome!(w.aes.init(at(KEY, k)));
        }
        Op::AesCrypt(b) => {
            if let Some(c) = outcome!(w.aes.encrypt(at16(b))) {
                ctx.observe(&c);
            }
            if let Some(c) = outcome!(w.aes.decrypt(at16(b))) {
                ctx.observe(&c);
            }
        }
        Op::CipherNew(iv) => {
            w.cipher = Cipher::new(*iv);
            w.decipher = Decipher::new(*iv);
            w.made.clear();
        }
        Op::CipherInit(k) => {
            outcome!(w.cipher.init(at(KEY, k)));
            outcome!(w.decipher.init(at(KEY, k)));
        }
        Op::CipherWrite(d) => {
            if let Some(c) = outcome!(w.cipher.write(at(DATA, d))) {
                ctx.observe(&c);
                w.made.extend(c);
            }
        }
        Op::CipherFlush => {
            if let Some(c) = outcome!(w.cipher.flush()) {
                ctx.observe(&c);
                w.made.extend(c);
            }
        }
        Op::DecipherNew(iv) => w.decipher = Decipher::new(*iv),
        Op::DecipherInit(k) => {
            outcome!(w.decipher.init(at(KEY, k)));
        }
        Op::DecipherWrite(d) => {
            if let Some(c) = outcome!(w.decipher.write(at(DATA, d))) {
                ctx.observe(&c);
            }
        }
        Op::DecipherFeed => {
            let d = std::mem::take(&mut w.made);
            if let Some(c) = outcome!(w.decipher.write(at(DATA, &d))) {
                ctx.observe(&c);
            }
        }
        Op::DecipherFlush => {
            if let Some(c) = outcome!(w.decipher.flush()) {
                ctx.observe(&c);
            }
        }
        Op::Pbkdf2(p, s, c, on) => {
            let mut out = vec![0xc3; *on];
            pbkdf2_sha256(at(KEY, p), at(SALT, s), *c, &mut out);
            ctx.observe(&out);
        }
        Op::Scrypt(r, n, p, pw, salt, on) => {
            let mut out = vec![0xc3; *on];
            outcome!(Scrypt::new(*r, *n, *p).derive(at(KEY, pw), at(SALT, salt), &mut out));
            ctx.observe(&out);
        }
        Op::Salsa(x, rounds) => {
            let mut out = vec![0xc3; x.len()];
            salsa20(at(DATA, x), *rounds, &mut out);
            ctx.observe(&out);
        }
    }
}

fn run17(src: &mut Src, ctx: &mut Ctx) -> Res {
    let heavy = src.special(6);
    if heavy != 0 {
        let seed = src.draw(u64::MAX);
        heavy17(heavy, seed, ctx);
        return Ok(());
    }
    let focus = src.draw(6);
    let ops: Vec<Op> = (0..1 + src.usize(23)).map(|_| gen_op(src, focus)).collect();
    ctx.steps += ops.len() as u64;
    ctx.class(["focus:hash", "focus:hmac", "focus:aes", "focus:cipher", "focus:decipher", "focus:kdf", "focus:salsa"][focus as usize]);
    if ops.len() >= 4 {
        ctx.nontrivial();
    }
    ctx.say(|| ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join(", "));
    let start = ctx.trace;
    let mut w = world();
    for op in &ops {
        perform(&mut w, op, ctx);
    }
    let first = ctx.trace;
    ctx.trace = start;
    let mut w = world();
    for op in &ops {
        perform(&mut w, op, ctx);
    }
    ensure!(ctx.trace == first, "the same history gave other results the second time");
    Ok(())
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "histories of 1..24 calls over the whole public API (misuse that an error covers included), run twice in a build with overflow checks and debug assertions and in one without, all observable results folded into a digest per history and compared; plus six large cases (2^29 bytes hashed, > 2^16 output blocks, p=5000, r=600, N=32768, 2^20 bytes in one write); non-trivial: at least four calls",
        run: run17,
        heavy: 0,
        sweep_len: |_| 6,
        sweep: |_, i| vec![1 + i],
        random: (300000, 9000000),
        guided: (50000, 1500000),
    }
}
