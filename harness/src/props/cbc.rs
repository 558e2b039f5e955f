//! C12 CBC encryption value, C13 round trip, C14 rejection, C15 life cycle.

use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::props::aes::{bad_key, gen_key};
use crate::reference as rf;
use dumb_crypto::aes::AESError;
use dumb_crypto::aes_cbc::{Cipher, Decipher, DecipherError};

fn cipher(iv: [u8; 16], key: &[u8]) -> Result<Cipher, Fail> {
    let mut c = Cipher::new(iv);
    match c.init(at(KEY, key)) {
        Ok(()) => Ok(c),
        Err(e) => fail(format!("Cipher::init with a {}-byte key failed: {:?}", key.len(), e)),
    }
}

fn decipher(iv: [u8; 16], key: &[u8]) -> Result<Decipher, Fail> {
    let mut d = Decipher::new(iv);
    match d.init(at(KEY, key)) {
        Ok(()) => Ok(d),
        Err(e) => fail(format!("Decipher::init with a {}-byte key failed: {:?}", key.len(), e)),
    }
}

/// Does this rejection carry the reason the model gives?
fn same_reason(e: &DecipherError, why: rf::Bad) -> bool {
    match e {
        DecipherError::PKCS7(u) => {
            let name = format!("{:?}", u);
            name == match why {
                rf::Bad::Unfinished => "UnfinishedBlock",
                rf::Bad::Padding => "InvalidPadding",
            }
        }
        _ => false,
    }
}

fn class_text(ctx: &mut Ctx, len: usize, pieces: &[usize]) {
    ctx.class_if(len == 0, "text:empty");
    ctx.class_if(len > 0 && len % 16 == 0, "text:whole-blocks");
    ctx.class_if(len % 16 != 0, "text:partial-last-block");
    ctx.class_if(len > 16, "text:several-blocks");
    ctx.class_if(pieces.iter().filter(|n| **n > 0).count() > 1, "several-writes");
    ctx.class_if(pieces.contains(&0), "with-empty-write");
}

const VERY_LONG: usize = (1 << 32) + (1 << 20);

/// More than 2^32 bytes through one object, by blocks that come out the same
/// every time: zero is encrypted over and over again, or decrypted.
fn very_long(src: &mut Src, ctx: &mut Ctx, there: bool) -> Res {
    let key = gen_key(src);
    let aes = rf::RefAes::new(&key);
    let zero = aes.decrypt(&[0; 16]);
    let text: Vec<u8> = zero.iter().copied().cycle().take(1 << 20).collect();
    let none = vec![0u8; 1 << 20];
    let end = src.bytes(1_000);
    let (end_ct, _) = rf::cbc_raw_encrypt(&aes, &[0; 16], &rf::pkcs7_pad(&end));
    ctx.nontrivial();
    ctx.class("2^32-bytes");
    ctx.say(|| format!("key={}, {} bytes, then text {}", hex(&key), VERY_LONG, hex(&end)));
    let times = VERY_LONG >> 20;
    if there {
        let mut c = cipher([0; 16], &key)?;
        for i in 0..times {
            let got = c.write(&text).unwrap_or_default();
            ensure!(got == none, "write {} of 2^20 bytes: {}", i, diff(&got, &none));
        }
        let mut got = c.write(&end).unwrap_or_default();
        got.extend_from_slice(&c.flush().unwrap_or_default());
        ensure!(got == end_ct, "the end of {} bytes: {}", VERY_LONG + end.len(), diff(&got, &end_ct));
    } else {
        let mut d = decipher([0; 16], &key)?;
        for i in 0..times {
            let got = d.write(&none).unwrap_or_default();
            let want = if i == 0 { &text[16..] } else { &text[..] };
            ensure!(got == want, "write {} of 2^20 bytes: {}", i, diff(&got, want));
        }
        let mut got = d.write(&end_ct).unwrap_or_default();
        let last = d.flush();
        ensure!(last.is_ok(), "flush after {} bytes: {:?}", VERY_LONG + end_ct.len(), last);
        got.extend_from_slice(&last.unwrap_or_default());
        let want = [&zero[..], &end[..]].concat();
        ensure!(got == want, "the end of {} bytes: {}", VERY_LONG + end.len(), diff(&got, &want));
    }
    Ok(())
}

/// Sweeps force `[k > 0]` for a long text.
fn text_length(src: &mut Src) -> (usize, usize) {
    let len = match src.special(14) {
        14 => return (VERY_LONG, 0),
        0 => {
            let longest = if src.chance(1, 64) { 3_000 } else { 200 };
            src.length(longest, 16)
        }
        // A long life in small pieces.
        k if k > 10 => return [(70_003, 1), (200_000, 3), (1_100_000, 16)][k as usize - 11],
        k => [4_095usize, 4_096, 4_097, 8_192, 65_519, 65_535, 65_536, 65_553, 262_150, (1 << 20) + 16][k as usize - 1],
    };
    (len, 0)
}

fn steps(src: &mut Src, len: usize, step: usize) -> Vec<usize> {
    let pieces = src.pieces(len);
    if step == 0 {
        return pieces;
    }
    let mut v = vec![step; len / step];
    v.push(len % step);
    v
}

/// Sometimes an IV that is part of the key or of the text, or a text whose
/// blocks make the blocks that are encrypted equal.
fn mix_up(src: &mut Src, key: &[u8], iv: &mut [u8; 16], text: &mut [u8]) {
    match src.draw(31) {
        31 => iv.copy_from_slice(&key[..16]),
        30 if text.len() >= 16 => iv.copy_from_slice(&text[..16]),
        29 if text.len() >= 32 => {
            // Text block k is the ciphertext before it: zero goes into AES.
            let r = rf::RefAes::new(key);
            let mut chain = *iv;
            let word = src.draw(255) as u8;
            for b in text.chunks_mut(16) {
                for (x, c) in b.iter_mut().zip(chain.iter()) {
                    *x = c ^ word;
                }
                chain = r.encrypt(&[word; 16]);
            }
        }
        _ => {}
    }
}

// ------------------------------------------------------------------- C12

fn run12(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (len, step) = text_length(src);
    if len == VERY_LONG {
        return very_long(src, ctx, true);
    }
    let pieces = steps(src, len, step);
    let key = gen_key(src);
    let mut iv = src.array::<16>();
    let mut text = src.bytes(len);
    mix_up(src, &key, &mut iv, &mut text);
    class_text(ctx, len, &pieces);
    ctx.class(match key.len() {
        16 => "key:128",
        24 => "key:192",
        _ => "key:256",
    });
    if len >= 16 && pieces.iter().filter(|n| **n > 0).count() > 1 {
        ctx.nontrivial();
    }
    ctx.steps += pieces.len() as u64;
    ctx.say(|| format!("key={} iv={} text[{}]={} pieces={:?}", hex(&key), hex(&iv), len, hex(&text), pieces));
    let mut c = cipher(iv, &key)?;
    let mut m = CipherModel::new(iv);
    m.key = Some(rf::RefAes::new(&key));
    let mut pos = 0;
    let mut all = Vec::new();
    for n in &pieces {
        let want = m.write(&text[pos..pos + n]).unwrap_or_default();
        let got = match c.write(at(DATA, &text[pos..pos + n])) {
            Ok(v) => v,
            Err(e) => return fail(format!("write of {} bytes failed: {:?}", n, e)),
        };
        pos += n;
        ensure!(got == want, "write after {} of {} bytes in pieces {:?}: {}", pos, len, pieces, diff(&got, &want));
        all.extend_from_slice(&got);
    }
    let got = match c.flush() {
        Ok(v) => v,
        Err(e) => return fail(format!("flush failed: {:?}", e)),
    };
    let want = m.flush().unwrap_or_default();
    ensure!(got == want, "flush after {} bytes in pieces {:?}: {}", len, pieces, diff(&got, &want));
    all.extend_from_slice(&got);
    ctx.observe(&all);
    // Against the one-shot definition, independent of the streaming model.
    let (want, _) = rf::cbc_raw_encrypt(&rf::RefAes::new(&key), &iv, &rf::pkcs7_pad(&text));
    ensure!(all == want, "ciphertext of {} bytes in pieces {:?}: {}", len, pieces, diff(&all, &want));
    Ok(())
}

fn tri(i: u64) -> (u64, u64) {
    let (mut len, mut rest) = (0, i);
    while rest > len {
        rest -= len + 1;
        len += 1;
    }
    (len, rest)
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "key of each size, IV, plaintext of 0..3000 bytes and ten lengths up to 2^20+16 (2^32 when thorough) in generated writes (every two-write split of 0..=100 bytes, all equal write sizes swept); non-trivial: at least a block of text in at least two non-empty writes",
        run: run12,
        heavy: 0,
        sweep_len: |thorough| 101 * 102 / 2 + 60 * 8 + 83 + u64::from(thorough),
        sweep: |thorough, i| {
            if thorough && i == 0 {
                return vec![14];
            }
            let i = i - u64::from(thorough);
            let pairs = 101 * 102 / 2;
            if i < pairs {
                let (len, a) = tri(i);
                return vec![0, 0, 2, len, 1, a, 0, 0, i % 3];
            }
            let i = i - pairs;
            if i >= 480 {
                // Long texts, cut by the generator or in small steps.
                let i = i - 480;
                return if i < 80 { vec![1 + i % 10, i / 10] } else { vec![11 + (i - 80)] };
            }
            vec![0, 0, 2, [33, 48, 64, 95, 100, 128, 160, 200][(i / 60) as usize], 3, i % 60, 0, 0, i % 3]
        },
        random: (5000000, 150000000),
        guided: (120000, 3600000),
    }
}

// ------------------------------------------------------------------- C13

fn run13(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (len, step) = text_length(src);
    if len == VERY_LONG {
        return very_long(src, ctx, false);
    }
    let inp = steps(src, len, step);
    let clen = (len / 16 + 1) * 16;
    let back = steps(src, clen, step);
    let key = gen_key(src);
    let mut iv = src.array::<16>();
    let text = match src.draw(3) {
        // A text that itself ends like padding.
        3 if len > 0 => {
            let mut t = src.bytes(len);
            let v = 1 + src.usize(15);
            let n = src.usize(v.min(len));
            for b in &mut t[len - n..] {
                *b = v as u8;
            }
            ctx.class("text:ends-like-padding");
            t
        }
        _ => src.bytes(len),
    };
    let mut text = text;
    mix_up(src, &key, &mut iv, &mut text);
    class_text(ctx, len, &back);
    if len > 0 && back.iter().filter(|n| **n > 0).count() > 1 {
        ctx.nontrivial();
    }
    ctx.steps += (inp.len() + back.len()) as u64;
    ctx.say(|| format!("key={} iv={} text[{}]={} written in {:?}, read back in {:?}", hex(&key), hex(&iv), len, hex(&text), inp, back));
    let mut c = cipher(iv, &key)?;
    let mut ct = Vec::new();
    let mut pos = 0;
    for n in &inp {
        match c.write(at(DATA, &text[pos..pos + n])) {
            Ok(v) => ct.extend_from_slice(&v),
            Err(e) => return fail(format!("Cipher::write failed: {:?}", e)),
        }
        pos += n;
    }
    match c.flush() {
        Ok(v) => ct.extend_from_slice(&v),
        Err(e) => return fail(format!("Cipher::flush failed: {:?}", e)),
    }
    ensure!(ct.len() == clen, "{} bytes of text gave {} bytes of ciphertext instead of {}", len, ct.len(), clen);
    let mut d = decipher(iv, &key)?;
    let mut out = Vec::new();
    let mut pos = 0;
    for n in &back {
        match d.write(at(DATA, &ct[pos..pos + n])) {
            Ok(v) => out.extend_from_slice(&v),
            Err(e) => return fail(format!("Decipher::write failed on a genuine ciphertext: {:?}", e)),
        }
        pos += n;
        // Everything but the last complete block, and never a padding byte.
        let due = (pos / 16 * 16).saturating_sub(16);
        ensure!(out.len() == due, "after {} bytes of ciphertext in pieces {:?}, {} bytes of text are out instead of {}", pos, back, out.len(), due);
        ensure!(out[..] == text[..due.min(len)], "after {} bytes of ciphertext in pieces {:?}: {}", pos, back, diff(&out, &text[..due.min(len)]));
    }
    match d.flush() {
        Ok(v) => out.extend_from_slice(&v),
        Err(e) => return fail(format!("Decipher::flush failed on a genuine ciphertext: {:?}", e)),
    }
    ctx.observe(&out);
    ensure!(out == text, "round trip of {} bytes, pieces {:?} and {:?}: {}", len, inp, back, diff(&out, &text));
    Ok(())
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "key, IV, plaintext of 0..3000 bytes and ten lengths up to 2^20+16 (2^32 when thorough), written in one list of pieces and read back in another (every two-piece split of the ciphertext of 0..=100 bytes swept), texts ending like padding; non-trivial: non-empty text read back in at least two non-empty pieces",
        run: run13,
        heavy: 0,
        sweep_len: |thorough| {
            // for each len 0..=100, each split point 0..=clen
            (0..=100u64).map(|l| (l / 16 + 1) * 16 + 1).sum::<u64>() + 83 + u64::from(thorough)
        },
        sweep: |thorough, i| {
            if thorough && i == 0 {
                return vec![14];
            }
            let i = i - u64::from(thorough);
            if i < 83 {
                // Long texts, cut by the generator or in small steps.
                return vec![if i < 80 { 1 + i % 10 } else { i - 69 }];
            }
            let mut rest = i - 83;
            let mut len = 0u64;
            loop {
                let n = (len / 16 + 1) * 16 + 1;
                if rest < n {
                    break;
                }
                rest -= n;
                len += 1;
            }
            vec![0, 0, 2, len, 0, 0, 0, 1, rest, 0, 0, i % 3]
        },
        random: (5000000, 150000000),
        guided: (60000, 1800000),
    }
}

// ------------------------------------------------------------------- C14

fn run14(src: &mut Src, ctx: &mut Ctx) -> Res {
    let key = gen_key(src);
    let iv = src.array::<16>();
    let aes = rf::RefAes::new(&key);
    let ct = match src.draw(9) {
        0 => {
            // Anything at all.
            let n = src.length(100, 16);
            src.bytes(n)
        }
        k => {
            // Blocks of known plaintext ending in (nearly) a padding.
            let nblocks = 1 + src.usize(3);
            let mut text = src.bytes(16 * nblocks);
            let total = text.len();
            let mut last = src.draw(255) as usize;
            let style = src.draw(6);
            if style > 3 {
                last = 1 + last % 16;
            }
            let count = match style {
                0 | 4 | 5 | 6 => last,
                1 => src.usize(17),
                2 => 1,
                _ => 16,
            }
            .min(total)
            .max(1);
            for b in &mut text[total - count..] {
                *b = last as u8;
            }
            if src.draw(3) == 3 {
                // One bit of the last block is off.
                let i = total - 1 - src.usize(15);
                text[i] ^= 1 << src.draw(7);
            }
            let (mut ct, _) = rf::cbc_raw_encrypt(&aes, &iv, &text);
            if k >= 7 {
                // Cut short or extended by part of a block.
                if src.flag() {
                    let n = 1 + src.usize(14);
                    let tail = src.bytes(n);
                    ct.extend_from_slice(&tail);
                } else {
                    let n = 1 + src.usize(14);
                    ct.truncate(ct.len() - n);
                }
            }
            ct
        }
    };
    let pieces = src.pieces(ct.len());
    let padded = rf::cbc_raw_decrypt(&aes, &iv, &ct[..ct.len() / 16 * 16]);
    let verdict = if ct.len() % 16 != 0 { Err(rf::Bad::Unfinished) } else { rf::pkcs7_unpad(&padded) };
    ctx.class(match verdict {
        Ok(_) => "accepted",
        Err(rf::Bad::Unfinished) => "rejected:length",
        Err(rf::Bad::Padding) => "rejected:padding",
    });
    ctx.class_if(ct.is_empty(), "empty-ciphertext");
    ctx.class_if(ct.len() > 16 && ct.len() % 16 != 0, "trailing-partial-block");
    let mut unit = None;
    if ct.len() % 16 == 0 && !ct.is_empty() {
        unit = padded.last().copied();
    }
    ctx.class_if(unit == Some(0), "last-byte:0");
    ctx.class_if(unit.map_or(false, |b| b > 16), "last-byte:>16");
    if verdict.is_err() && !ct.is_empty() {
        ctx.nontrivial();
    }
    ctx.say(|| format!("key={} iv={} ciphertext[{}]={} (decrypts to {}) in pieces {:?}: {:?}", hex(&key), hex(&iv), ct.len(), hex(&ct), hex(&padded), pieces, verdict));
    let mut d = decipher(iv, &key)?;
    let mut out = Vec::new();
    let mut pos = 0;
    for n in &pieces {
        match d.write(at(DATA, &ct[pos..pos + n])) {
            Ok(v) => out.extend_from_slice(&v),
            Err(e) => return fail(format!("Decipher::write failed: {:?}", e)),
        }
        pos += n;
    }
    let released = padded.len().saturating_sub(16);
    ensure!(out == padded[..released], "text released before the end: {}", diff(&out, &padded[..released]));
    match (d.flush(), verdict) {
        (Ok(v), Ok(n)) => {
            out.extend_from_slice(&v);
            ctx.observe(&out);
            ensure!(out == padded[..n], "accepted text: {}", diff(&out, &padded[..n]));
        }
        (Ok(v), Err(why)) => {
            return fail(format!("a ciphertext of {} bytes whose text is {} was accepted with a final {} (should be rejected: {:?})", ct.len(), hex(&padded), hex(&v), why));
        }
        (Err(e), Ok(n)) => {
            return fail(format!("a valid ciphertext of {} bytes with {} bytes of text was rejected: {:?}", ct.len(), n, e));
        }
        (Err(e), Err(why)) => {
            ctx.observe(format!("{:?}", e).as_bytes());
            ensure!(same_reason(&e, why), "a ciphertext of {} bytes (text {}) was rejected with {:?} instead of {:?}", ct.len(), hex(&padded), e, why);
            ensure!(!e.to_string().is_empty(), "error without text");
        }
    }
    // Nothing more was written: a further flush cannot find a message.
    if let Ok(v) = d.flush() {
        return fail(format!("a second flush without further input returned {}", hex(&v)));
    }
    Ok(())
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "ciphertexts built from known text: every last byte 0..=255, correct or with one byte off (all 256 last bytes x all run lengths 1..=16 swept), every partial trailing or missing part 1..=15, and arbitrary bytes, in generated pieces; non-trivial: a non-empty ciphertext that must be rejected",
        run: run14,
        heavy: 0,
        sweep_len: |_| 256 * 18 + 16 * 16 * 8 + 4 * 30,
        sweep: |_, i| {
            if i < 256 * 18 {
                let (last, count) = (i % 256, i / 256);
                // key (seed), iv const, k=1, one to four blocks, bytes seed, last, count, not mutated
                return vec![i % 3, 11, i, 1, i % 256, 1, last % 4, 11, i, last, 1, count, 0, i % 5];
            }
            let i = i - 256 * 18;
            if i < 2048 {
                // correct padding v, one byte of the last block off by one bit
                let (v, pos, bit) = (1 + i % 16, (i / 16) % 16, i / 256);
                return vec![i % 3, 11, i, 1, i % 256, 1, i % 4, 11, i, v, 0, 3, pos, bit];
            }
            let i = i - 2048;
            let (nb, n) = (i / 30, i % 30);
            vec![i % 3, 11, i, 1, i % 256, 9, nb, 11, i, 16, 3, 0, if n < 15 { 1 } else { 0 }, n % 15]
        },
        random: (8000000, 240000000),
        guided: (1000000, 30000000),
    }
}

// ------------------------------------------------------------------- C15

fn valid_key(src: &mut Src, current: &Option<Vec<u8>>) -> Vec<u8> {
    match current {
        Some(k) if src.flag() => {
            let mut k2 = src.related(k);
            let n = *src.pick(&[16usize, 24, 32]);
            k2.resize(n, 0);
            k2
        }
        _ => gen_key(src),
    }
}

fn history_cipher(src: &mut Src, ctx: &mut Ctx) -> Res {
    let iv = src.array::<16>();
    let mut c = Cipher::new(iv);
    let mut m = CipherModel::new(iv);
    let mut current: Option<Vec<u8>> = None;
    let (mut messages, mut bads) = (0, 0);
    ctx.say(|| format!("Cipher iv={}", hex(&iv)));
    for _ in 0..1 + src.usize(13) {
        ctx.steps += 1;
        let mut kind = src.draw(11);
        if kind > 3 && current.is_none() && src.chance(7, 8) {
            kind = 0;
        }
        match kind {
            0..=2 => {
                let key = valid_key(src, &current);
                ctx.say(|| format!("init({})", hex(&key)));
                if let Err(e) = c.init(at(KEY, &key)) {
                    return fail(format!("init with a {}-byte key failed: {:?}", key.len(), e));
                }
                m.key = Some(rf::RefAes::new(&key));
                ctx.class_if(current.is_some(), "re-key");
                current = Some(key);
            }
            3 => {
                let key = bad_key(src);
                ctx.say(|| format!("init(bad[{}])", key.len()));
                let r = c.init(at(KEY, &key));
                ensure!(r == Err(AESError::InvalidKeySize), "init with a {}-byte key returned {:?}", key.len(), r);
                ctx.class_if(current.is_some(), "rejected-re-key");
                bads += 1;
            }
            4..=8 => {
                let n = src.length(70, 16);
                let data = src.bytes(n);
                ctx.say(|| format!("write({})", hex(&data)));
                let got = c.write(at(DATA, &data));
                match (got, m.write(&data)) {
                    (Ok(g), Some(w)) => {
                        ctx.observe(&g);
                        ensure!(g == w, "write: {}", diff(&g, &w));
                    }
                    (Err(AESError::NotInitialized), None) => {
                        // What the object holds after this is not specified.
                        ctx.class("write-without-key");
                        ctx.nontrivial();
                        return Ok(());
                    }
                    (g, w) => return fail(format!("write of {} bytes returned {:?}, expected {:?}", n, g.map(|x| hex(&x)), w.map(|x| hex(&x)))),
                }
            }
            _ => {
                ctx.say(|| "flush".to_string());
                match (c.flush(), m.flush()) {
                    (Ok(g), Some(w)) => {
                        ctx.observe(&g);
                        ensure!(g == w, "flush of message {}: {}", messages, diff(&g, &w));
                        messages += 1;
                    }
                    (Err(AESError::NotInitialized), None) => {
                        ctx.class("flush-without-key");
                        ctx.nontrivial();
                        return Ok(());
                    }
                    (g, w) => return fail(format!("flush returned {:?}, expected {:?}", g.map(|x| hex(&x)), w.map(|x| hex(&x)))),
                }
            }
        }
    }
    ctx.class_if(messages > 1, "several-messages");
    if messages > 1 || bads > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

fn history_decipher(src: &mut Src, ctx: &mut Ctx) -> Res {
    let iv = src.array::<16>();
    let mut d = Decipher::new(iv);
    let mut m = DecipherModel::new(iv);
    let mut current: Option<Vec<u8>> = None;
    let (mut messages, mut bads) = (0, 0);
    // Ciphertext still to be delivered, made for the current key and chain.
    let mut queue: Vec<u8> = Vec::new();
    ctx.say(|| format!("Decipher iv={}", hex(&iv)));
    for _ in 0..1 + src.usize(13) {
        ctx.steps += 1;
        let mut kind = src.draw(11);
        if kind > 3 && current.is_none() && src.chance(7, 8) {
            kind = 0;
        }
        match kind {
            0..=2 => {
                let key = valid_key(src, &current);
                ctx.say(|| format!("init({})", hex(&key)));
                if let Err(e) = d.init(at(KEY, &key)) {
                    return fail(format!("init with a {}-byte key failed: {:?}", key.len(), e));
                }
                m.key = Some(rf::RefAes::new(&key));
                ctx.class_if(current.is_some(), "re-key");
                current = Some(key);
                queue.clear();
            }
            3 => {
                let key = bad_key(src);
                ctx.say(|| format!("init(bad[{}])", key.len()));
                let r = d.init(at(KEY, &key));
                ensure!(r == Err(AESError::InvalidKeySize), "init with a {}-byte key returned {:?}", key.len(), r);
                ctx.class_if(current.is_some(), "rejected-re-key");
                bads += 1;
            }
            4..=8 => {
                // A genuine message to read, when there is none under way.
                if queue.is_empty() && m.pending.is_empty() && m.held.is_empty() {
                    if let Some(k) = &m.key {
                        let n = src.length(60, 16);
                        let text = src.bytes(n);
                        queue = rf::cbc_raw_encrypt(k, &m.chain, &rf::pkcs7_pad(&text)).0;
                    }
                }
                let data = if queue.is_empty() || src.chance(1, 12) {
                    let n = src.length(50, 16);
                    src.bytes(n)
                } else {
                    let n = if src.flag() { queue.len() } else { src.usize(queue.len()) };
                    queue.drain(..n).collect()
                };
                ctx.say(|| format!("write({})", hex(&data)));
                match (d.write(at(DATA, &data)), m.write(&data)) {
                    (Ok(g), Some(w)) => {
                        ctx.observe(&g);
                        ensure!(g == w, "write: {}", diff(&g, &w));
                    }
                    (Err(DecipherError::AES(AESError::NotInitialized)), None) => {
                        ctx.class("write-without-key");
                        ctx.nontrivial();
                        return Ok(());
                    }
                    (g, w) => return fail(format!("write of {} bytes returned {:?}, expected {:?}", data.len(), g.map(|x| hex(&x)), w.map(|x| hex(&x)))),
                }
            }
            _ => {
                // Flush at the end of the message, mostly.
                if !queue.is_empty() && !src.chance(1, 6) {
                    let data: Vec<u8> = queue.drain(..).collect();
                    ctx.say(|| format!("write({})", hex(&data)));
                    match (d.write(at(DATA, &data)), m.write(&data)) {
                        (Ok(g), Some(w)) => ensure!(g == w, "write: {}", diff(&g, &w)),
                        (g, w) => return fail(format!("write of {} bytes returned {:?}, expected {:?}", data.len(), g.map(|x| hex(&x)), w.map(|x| hex(&x)))),
                    }
                }
                ctx.say(|| "flush".to_string());
                let keyed = m.key.is_some();
                match (d.flush(), m.flush()) {
                    (Ok(g), Ok(w)) => {
                        ctx.observe(&g);
                        ensure!(g == w, "flush of message {}: {}", messages, diff(&g, &w));
                        messages += 1;
                    }
                    (Err(e), Err(why)) => {
                        ensure!(!keyed || same_reason(&e, why), "flush rejected with {:?}, expected {:?}", e, why);
                        // After a rejected end the object is not used again.
                        ctx.class("rejected-message");
                        if messages > 0 || !keyed {
                            ctx.nontrivial();
                        }
                        return Ok(());
                    }
                    (g, w) => return fail(format!("flush returned {:?}, expected {:?}", g.map(|x| hex(&x)), w.map(|x| hex(&x)))),
                }
            }
        }
    }
    ctx.class_if(messages > 1, "several-messages");
    if messages > 1 || bads > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

/// One object through more messages or keys than 16 bits count.
fn long15(which: u64, src: &mut Src, ctx: &mut Ctx) -> Res {
    let count = 66_000 + src.usize(5_000);
    let mut r = Rng(src.draw(u64::MAX));
    let mut key = gen_key(src);
    let iv = src.array::<16>();
    ctx.nontrivial();
    ctx.class(["", "long:messages", "long:keys", "long:rejected-keys"][which as usize]);
    ctx.say(|| format!("{} {}, first key {} iv {}", count, ["", "messages", "messages with a key each", "messages with a rejected key each"][which as usize], hex(&key), hex(&iv)));
    let mut c = cipher(iv, &key)?;
    let mut d = decipher(iv, &key)?;
    let (mut cm, mut dm) = (CipherModel::new(iv), DecipherModel::new(iv));
    cm.key = Some(rf::RefAes::new(&key));
    dm.key = cm.key.clone();
    for i in 0..count {
        ctx.steps += 1;
        if which == 2 {
            let n = key.len();
            key[i % n] = key[i % n].wrapping_add(1);
            for e in [c.init(at(KEY, &key)), d.init(at(KEY, &key))] {
                ensure!(e == Ok(()), "init number {}: {:?}", i, e);
            }
            cm.key = Some(rf::RefAes::new(&key));
            dm.key = cm.key.clone();
        } else if which == 3 {
            let bad = expand(r.next(), [0usize, 15, 17, 31, 33][i % 5]);
            for e in [c.init(at(KEY, &bad)), d.init(at(KEY, &bad))] {
                ensure!(e == Err(AESError::InvalidKeySize), "init number {} with {} bytes: {:?}", i, bad.len(), e);
            }
        }
        let text = expand(r.next(), (r.upto(40) as usize).saturating_sub(8));
        let mut got = c.write(at(DATA, &text)).unwrap_or_default();
        got.extend(c.flush().unwrap_or_default());
        let mut want = cm.write(&text).unwrap_or_default();
        want.extend(cm.flush().unwrap_or_default());
        ensure!(got == want, "message {} of {} bytes: {}", i, text.len(), diff(&got, &want));
        let mut back = d.write(at(DATA, &want)).unwrap_or_default();
        match d.flush() {
            Ok(v) => back.extend(v),
            Err(e) => return fail(format!("message {} of {} bytes is rejected: {:?}", i, text.len(), e)),
        }
        ensure!(back == text, "message {} read back: {}", i, diff(&back, &text));
    }
    Ok(())
}

fn run15(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.special(3) {
        0 => {}
        k => return long15(k, src, ctx),
    }
    if src.flag() {
        ctx.class("decipher");
        history_decipher(src, ctx)
    } else {
        ctx.class("cipher");
        history_cipher(src, ctx)
    }
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "histories of 1..14 operations (init valid, init with an invalid size, write, flush) on one Cipher or Decipher against a model of key, chaining value, pending and withheld bytes; non-trivial: several messages, a rejected key, use without a key, or a rejected message after an accepted one; three lives of more than 66000 messages, with new keys, or with rejected keys",
        run: run15,
        heavy: 0,
        sweep_len: |_| 3,
        sweep: |_, i| vec![1 + i],
        random: (5000000, 150000000),
        guided: (500000, 15000000),
    }
}
