//! C09 AES value, C10 inverse, C11 key life cycle.

use crate::engine::*;
use crate::ensure;
use crate::reference as rf;
use dumb_crypto::aes::{AESError, AES};

pub fn gen_key(src: &mut Src) -> Vec<u8> {
    let n = *src.pick(&[16usize, 24, 32]);
    src.bytes(n)
}

fn class_key(ctx: &mut Ctx, key: &[u8]) {
    ctx.class_if(key.len() == 16, "key:128");
    ctx.class_if(key.len() == 24, "key:192");
    ctx.class_if(key.len() == 32, "key:256");
}

fn init(aes: &mut AES, key: &[u8]) -> Res {
    match aes.init(at(KEY, key)) {
        Ok(()) => Ok(()),
        Err(e) => fail(format!("init with a {}-byte key failed: {:?}", key.len(), e)),
    }
}

fn enc(aes: &AES, b: &[u8; 16]) -> Result<[u8; 16], Fail> {
    match aes.encrypt(at16(b)) {
        Ok(c) => Ok(c),
        Err(e) => fail(format!("encrypt failed: {:?}", e)),
    }
}

fn dec(aes: &AES, b: &[u8; 16]) -> Result<[u8; 16], Fail> {
    match aes.decrypt(at16(b)) {
        Ok(c) => Ok(c),
        Err(e) => fail(format!("decrypt failed: {:?}", e)),
    }
}

// ------------------------------------------------------------------- C09

fn run09(src: &mut Src, ctx: &mut Ctx) -> Res {
    let key = gen_key(src);
    let nblocks = 1 + src.usize(3);
    class_key(ctx, &key);
    let mut blocks: Vec<[u8; 16]> = (0..nblocks).map(|_| src.array::<16>()).collect();
    if src.chance(1, 16) {
        // Part of the key, or that with one bit changed.
        let at = src.usize(key.len() - 16);
        blocks[0].copy_from_slice(&key[at..at + 16]);
        if src.flag() {
            blocks[0][src.usize(15)] ^= 1 << src.draw(7);
        }
    }
    let blocks = blocks;
    if key.iter().any(|b| *b != key[0]) || blocks.iter().any(|b| b.iter().any(|x| *x != b[0])) {
        ctx.nontrivial();
    }
    ctx.steps += 2 * nblocks as u64;
    ctx.say(|| format!("key={} blocks={:?}", hex(&key), blocks.iter().map(|b| hex(b)).collect::<Vec<_>>()));
    let mut aes = AES::new();
    init(&mut aes, &key)?;
    let r = rf::RefAes::new(&key);
    for b in &blocks {
        let got = enc(&aes, b)?;
        let want = r.encrypt(b);
        ctx.observe(&got);
        ensure!(got == want, "AES-{} encrypt({}) under {}: got {} want {}", key.len() * 8, hex(b), hex(&key), hex(&got), hex(&want));
        let got = dec(&aes, b)?;
        let want = r.decrypt(b);
        ctx.observe(&got);
        ensure!(got == want, "AES-{} decrypt({}) under {}: got {} want {}", key.len() * 8, hex(b), hex(&key), hex(&got), hex(&want));
    }
    Ok(())
}

/// One bit set in the key / in the block, and every byte value in every
/// position: the shape of the NIST known-answer sets.
pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "keys of 128/192/256 bits and 1..4 blocks each, encrypted and decrypted (single-bit keys, single-bit blocks, every byte value at every block position swept for the three sizes); non-trivial: key or a block not constant",
        run: run09,
        heavy: 0,
        sweep_len: |_| (128 + 192 + 256) + 3 * 128 + 3 * 16 * 256,
        sweep: |_, i| {
            if i < 576 {
                let (k, bit) = if i < 128 { (0, i) } else if i < 320 { (1, i - 128) } else { (2, i - 320) };
                // key: sparse on zeros, one byte
                return vec![k, 6, 0, 0, bit / 8, 0x80 >> (bit % 8), 0, 0];
            }
            let i = i - 576;
            if i < 384 {
                let (k, bit) = (i / 128, i % 128);
                return vec![k, 0, 0, 6, 0, 0, bit / 8, 0x80 >> (bit % 8)];
            }
            let i = i - 384;
            let (k, pos, v) = (i / 4096, (i / 256) % 16, i % 256);
            // key from the generator (class 11: seed), block sparse
            vec![k, 11, i, 0, 6, 0, 0, pos, v]
        },
        random: (8000000, 240000000),
        guided: (1000000, 30000000),
    }
}

// ------------------------------------------------------------------- C10

fn run10(src: &mut Src, ctx: &mut Ctx) -> Res {
    let key = gen_key(src);
    let nblocks = 1 + src.usize(5);
    let mut blocks: Vec<[u8; 16]> = Vec::new();
    for _ in 0..nblocks {
        let b = if !blocks.is_empty() && src.flag() {
            // A neighbour of an earlier block: injectivity.
            let base = blocks[src.usize(blocks.len() - 1)];
            let mut n = base;
            let i = src.usize(15);
            n[i] ^= 1 << src.draw(7);
            n
        } else {
            src.array::<16>()
        };
        blocks.push(b);
    }
    class_key(ctx, &key);
    if nblocks > 1 {
        ctx.nontrivial();
    }
    ctx.class_if(nblocks > 1, "several-blocks");
    ctx.steps += 2 * nblocks as u64;
    ctx.say(|| format!("key={} blocks={:?}", hex(&key), blocks.iter().map(|b| hex(b)).collect::<Vec<_>>()));
    let mut aes = AES::default();
    init(&mut aes, &key)?;
    let mut cts = Vec::new();
    for b in &blocks {
        let c = enc(&aes, b)?;
        let back = dec(&aes, &c)?;
        ensure!(back == *b, "decrypt(encrypt({})) = {} under {}", hex(b), hex(&back), hex(&key));
        let p = dec(&aes, b)?;
        let again = enc(&aes, &p)?;
        ensure!(again == *b, "encrypt(decrypt({})) = {} under {}", hex(b), hex(&again), hex(&key));
        ctx.observe(&c);
        cts.push(c);
    }
    // The same instance keeps giving the same permutation, whatever the order.
    let mut second = AES::new();
    init(&mut second, &key)?;
    for i in (0..blocks.len()).rev() {
        let c = enc(&aes, &blocks[i])?;
        ensure!(c == cts[i], "a repeated encryption of {} gave {} after {}", hex(&blocks[i]), hex(&c), hex(&cts[i]));
        let b = dec(&second, &cts[i])?;
        ensure!(b == blocks[i], "another instance with the same key decrypts {} to {}", hex(&cts[i]), hex(&b));
        for j in 0..i {
            ensure!((blocks[i] == blocks[j]) == (cts[i] == cts[j]), "blocks {} and {} both encrypt to {}", hex(&blocks[i]), hex(&blocks[j]), hex(&cts[i]));
        }
    }
    Ok(())
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "a key of each size and 1..6 blocks, neighbours (one bit apart) included; both compositions, repetition in another order, a second instance; non-trivial: at least two blocks",
        run: run10,
        heavy: 0,
        sweep_len: |_| 3 * 256,
        sweep: |_, i| vec![i / 256, 11, i, 5, 1, i % 256],
        random: (4000000, 120000000),
        guided: (400000, 12000000),
    }
}

// ------------------------------------------------------------------- C11

/// A key length that AES does not have.
pub fn bad_key(src: &mut Src) -> Vec<u8> {
    // Lengths that equal a valid one in 32 bits: zero pages nobody touches.
    match src.special(3) {
        0 => {}
        k => return vec![0; (1 << 32) + 8 + 8 * k as usize],
    }
    let n = match src.draw(4) {
        0 => src.usize(15),
        1 => *src.pick(&[0usize, 1, 4, 8, 12, 15, 17, 20, 23, 25, 28, 31, 33, 36, 40, 48, 56, 64]),
        2 => 33 + src.usize(300),
        3 => *src.pick(&[128usize, 192, 256, 272, 280, 288, 1024, 65_552, 65_560, 65_568]),
        _ => 17 + src.usize(14),
    };
    let n = if n == 24 { 25 } else { n };
    src.bytes(n)
}

/// One object through a life of more than 2^16 uses of one sort.
fn long11(which: u64, src: &mut Src, ctx: &mut Ctx) -> Res {
    let count = 66_000 + src.usize(10_000);
    let mut r = Rng(src.draw(u64::MAX));
    let mut key = gen_key(src);
    let mut aes = AES::new();
    init(&mut aes, &key)?;
    let mut model = rf::RefAes::new(&key);
    ctx.nontrivial();
    ctx.class(["", "long:blocks", "long:keys", "long:rejected-keys", "long:objects"][which as usize]);
    ctx.say(|| format!("{} times {}, first key {}", count, ["", "a block", "a new key and a block", "a rejected key", "an object"][which as usize], hex(&key)));
    let mut others: Vec<AES> = vec![];
    for i in 0..count {
        ctx.steps += 1;
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&r.next().to_le_bytes());
        b[8..].copy_from_slice(&r.next().to_le_bytes());
        match which {
            2 => {
                let n = key.len();
                key[i % n] ^= b[0] | 1;
                if i % 1000 == 999 {
                    key.resize([16, 24, 32][i / 1000 % 3], b[1]);
                }
                init(&mut aes, &key)?;
                model = rf::RefAes::new(&key);
            }
            3 => {
                let n = [0usize, 15, 17, 20, 28, 33, 40][i % 7];
                let bad = expand(r.next(), n);
                let e = aes.init(at(KEY, &bad));
                ensure!(e == Err(AESError::InvalidKeySize), "init with a {}-byte key returned {:?}", n, e);
                if i % 16 != 0 {
                    continue;
                }
            }
            4 => {
                others.push(AES::new());
            }
            _ => {}
        }
        let (e, d) = (enc(&aes, &b)?, dec(&aes, &b)?);
        ensure!(e == model.encrypt(&b), "encrypt({}) under {} in use {}: {}", hex(&b), hex(&key), i, hex(&e));
        ensure!(d == model.decrypt(&b), "decrypt({}) under {} in use {}: {}", hex(&b), hex(&key), i, hex(&d));
    }
    for (i, o) in others.iter_mut().enumerate() {
        let b = [i as u8; 16];
        ensure!(o.encrypt(&b) == Err(AESError::NotInitialized), "object {} without a key encrypts", i);
        if i % 64 == 0 {
            init(o, &key)?;
            ensure!(o.encrypt(&b) == Ok(model.encrypt(&b)), "object {}: encrypt({})", i, hex(&b));
        }
    }
    Ok(())
}

fn run11(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.special(4) {
        0 => {}
        k => return long11(k, src, ctx),
    }
    let nops = 1 + src.usize(11);
    let mut aes = if nops % 2 == 0 { AES::default() } else { AES::new() };
    let mut model: Option<(Vec<u8>, rf::RefAes)> = None;
    let (mut inits, mut bads, mut uses) = (0, 0, 0);
    for _ in 0..nops {
        ctx.steps += 1;
        let mut kind = src.draw(9);
        if kind > 3 && model.is_none() && src.chance(2, 3) {
            kind = 0;
        }
        match kind {
            0 | 1 => {
                let key = match &model {
                    // Sometimes a relative of the current key, of valid size.
                    Some((k, _)) if src.flag() => {
                        let mut k2 = src.related(k);
                        let n = *src.pick(&[16usize, 24, 32]);
                        k2.resize(n, 0);
                        k2
                    }
                    _ => gen_key(src),
                };
                ctx.say(|| format!("init({})", hex(&key)));
                init(&mut aes, &key)?;
                ctx.class_if(model.is_some(), "re-key");
                if let Some((k, _)) = &model {
                    ctx.class_if(k.len() != key.len(), "re-key:other-size");
                }
                model = Some((key.clone(), rf::RefAes::new(&key)));
                inits += 1;
            }
            2 | 3 => {
                let key = bad_key(src);
                ctx.say(|| format!("init(bad[{}])", key.len()));
                ctx.class_if(model.is_some(), "rejected-re-key");
                let r = aes.init(at(KEY, &key));
                ensure!(r == Err(AESError::InvalidKeySize), "init with a {}-byte key returned {:?}", key.len(), r);
                bads += 1;
            }
            k => {
                let b = src.array::<16>();
                let encrypting = k % 2 == 0;
                ctx.say(|| format!("{}({})", if encrypting { "encrypt" } else { "decrypt" }, hex(&b)));
                let got = if encrypting { aes.encrypt(at16(&b)) } else { aes.decrypt(at16(&b)) };
                uses += 1;
                match &model {
                    None => {
                        ctx.class("use-without-key");
                        ensure!(got == Err(AESError::NotInitialized), "use without a key returned {:?}", got.map(|x| hex(&x)));
                    }
                    Some((k, r)) => {
                        let want = if encrypting { r.encrypt(&b) } else { r.decrypt(&b) };
                        match got {
                            Ok(g) => {
                                ctx.observe(&g);
                                ensure!(g == want, "{}({}) under the last accepted key {}: got {} want {}", if encrypting { "encrypt" } else { "decrypt" }, hex(&b), hex(k), hex(&g), hex(&want));
                            }
                            Err(e) => return fail(format!("use with a key failed: {:?}", e)),
                        }
                    }
                }
            }
        }
    }
    // Every history ends by using the instance both ways.
    let b = src.array::<16>();
    let (e, d) = (aes.encrypt(&b), aes.decrypt(&b));
    match &model {
        None => {
            ensure!(e == Err(AESError::NotInitialized) && d == Err(AESError::NotInitialized), "use without a key returned {:?} / {:?}", e, d);
        }
        Some((k, r)) => {
            ensure!(e == Ok(r.encrypt(&b)), "final encrypt({}) under {}: {:?}", hex(&b), hex(k), e);
            ensure!(d == Ok(r.decrypt(&b)), "final decrypt({}) under {}: {:?}", hex(&b), hex(k), d);
        }
    }
    if (inits > 1 || bads > 0) && uses > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "histories of 1..12 operations (init with a valid or related key, init with an invalid key size, encrypt, decrypt) against a model holding the last accepted key; every invalid key length 0..=400 swept before and after a valid init; four lives of more than 66000 blocks, keys, rejected keys, or objects; non-trivial: at least one use and a re-key or a rejected key",
        run: run11,
        // two ops: [init?] bad init of length n, then final use
        heavy: 0,
        sweep_len: |_| 4 + 2 * 400 + 6,
        sweep: |_, i| {
            if i < 4 {
                return vec![1 + i];
            }
            let i = i - 4;
            let n = i / 2;
            let bad = |n: u64| -> Vec<u64> {
                if n >= 400 {
                    vec![2, n - 399]
                } else if n < 16 {
                    vec![2, 0, 0, n]
                } else if n >= 33 && n <= 333 {
                    vec![2, 0, 2, n - 33]
                } else if n >= 17 && n < 32 {
                    vec![2, 0, 4, n - 17]
                } else {
                    vec![2, 0, 3, n % 10]
                }
            };
            let mut v = vec![0, if i % 2 == 0 { 0 } else { 1 }];
            if i % 2 == 1 {
                v.extend([0, n % 3, 11, n]);
            }
            v.extend(bad(n));
            v
        },
        random: (5000000, 150000000),
        guided: (700000, 21000000),
    }
}
