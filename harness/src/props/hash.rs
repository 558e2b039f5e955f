//! C01 SHA-256 value, C02 incremental use, C03 HMAC value.

use crate::engine::*;
use crate::ensure;
use crate::reference as rf;
use dumb_crypto::hmac::HMac;
use dumb_crypto::sha256::SHA256;

fn new_sha(alt: bool) -> SHA256 {
    if alt {
        SHA256::default()
    } else {
        SHA256::new()
    }
}

fn lib_sha(data: &[u8]) -> [u8; 32] {
    let mut s = SHA256::new();
    s.update(at(DATA, data));
    s.digest()
}

fn lib_hmac(key: &[u8], data: &[u8]) -> [u8; 32] {
    let mut h = HMac::new(at(KEY, key));
    h.update(at(DATA, data));
    h.digest()
}

fn class_len(ctx: &mut Ctx, len: usize) {
    let m = len % 64;
    ctx.class_if(len == 0, "len:empty");
    ctx.class_if(len > 0 && m == 0, "len:whole-blocks");
    ctx.class_if(m == 55, "len:padding-just-fits");
    ctx.class_if(m > 55, "len:padding-spills");
    ctx.class_if(len >= 64, "len:multi-block");
    ctx.class_if(len >= 1 << 13, "len:>=2^16-bits");
    ctx.class_if(len >= 1 << 21, "len:>=2^24-bits");
    ctx.class_if(len >= 1 << 29, "len:>=2^32-bits");
    ctx.class_if(len as u64 >= 1 << 32, "len:>=2^32-bytes");
}

// ------------------------------------------------------------------- C01

fn run01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let heavy = src.special(4) as usize;
    if heavy == 4 {
        // More than 2^32 bytes in one update: zero pages nobody writes to.
        let total = (1usize << 32) + src.usize(200);
        class_len(ctx, total);
        ctx.nontrivial();
        ctx.say(|| format!("{} zero bytes in one update", total));
        let reference = std::thread::spawn(move || {
            let piece = vec![0u8; 1 << 20];
            let mut r = rf::RefSha::new();
            let mut rest = total;
            while rest > 0 {
                let n = rest.min(piece.len());
                r.update(&piece[..n]);
                rest -= n;
            }
            r.finish()
        });
        let data = vec![0u8; total];
        let got = lib_sha(&data);
        let want = reference.join().map_err(|_| Fail { sig: None, msg: "reference thread".into() })?;
        ensure!(got == want, "SHA-256 of {} zero bytes in one update: {}", total, diff(&got, &want));
        return Ok(());
    }
    if heavy != 0 {
        // Length field beyond 32 bits: a long message of a repeated piece.
        let total: u64 = [0u64, 1 << 29, 1 << 32, 1 << 37][heavy] + src.draw(200);
        let piece = expand(src.draw(u64::MAX), 1 << 20);
        class_len(ctx, total as usize);
        ctx.nontrivial();
        ctx.say(|| format!("message of {} bytes: a 2^20-byte pattern repeated", total));
        let p2 = piece.clone();
        let reference = std::thread::spawn(move || {
            let mut r = rf::RefSha::new();
            let mut rest = total;
            while rest > 0 {
                let n = rest.min(p2.len() as u64) as usize;
                r.update(&p2[..n]);
                rest -= n as u64;
            }
            r.finish()
        });
        let mut s = SHA256::new();
        let mut rest = total;
        while rest > 0 {
            let n = rest.min(piece.len() as u64) as usize;
            s.update(&piece[..n]);
            rest -= n as u64;
        }
        let got = s.digest();
        let want = reference.join().map_err(|_| Fail { sig: None, msg: "reference thread".into() })?;
        ensure!(got == want, "SHA-256 of {} bytes: {}", total, diff(&got, &want));
        return Ok(());
    }
    let alt = src.flag();
    let max = match src.draw(63) {
        63 => 70_000,
        60..=62 => 9_000,
        _ => 700,
    };
    let big = src.special(1) == 1;
    let len = if big { src.usize(2_200_000) } else { src.length(max, 64) };
    let data = src.bytes(len);
    class_len(ctx, len);
    if len >= 56 {
        ctx.nontrivial();
    }
    ctx.say(|| format!("message[{}]={}", len, hex(&data)));
    let mut s = new_sha(alt);
    s.update(at(DATA, &data));
    let got = s.digest();
    ctx.observe(&got);
    let want = rf::sha256(&data);
    ensure!(got == want, "SHA-256 of {} bytes: {}", len, diff(&got, &want));
    Ok(())
}

const S01_BIG: [u64; 10] = [
    2_097_151, 2_097_152, 2_097_153, 2_097_207, 2_097_208, 2_097_215, 2_097_216, 2_199_999,
    1_048_576, 131_072,
];

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "messages drawn by length (block-boundary biased, 0..70000, swept exactly over 0..=9000 bytes, 2 MiB edges, 2^29, 2^32 and, in the thorough tier, 2^37 bytes, 2^32 in a single update) and content (constant, sparse, textual, random); non-trivial: at least 56 bytes, so that the padding spills or the message spans blocks",
        run: run01,
        heavy: 3,
        sweep_len: |thorough| 3 + S01_BIG.len() as u64 + if thorough { 66_001 } else { 9_001 },
        sweep: |thorough, i| {
            let heavies: u64 = if thorough { 4 } else { 3 };
            if i < heavies {
                // The longest takes half an hour.
                return vec![[3, 2, 4, 1][(i + 4 - heavies) as usize]];
            }
            let i = i - heavies;
            if i < S01_BIG.len() as u64 {
                return vec![0, 0, 0, 1, S01_BIG[i as usize]];
            }
            let _ = thorough;
            // The length class 63 admits up to 70000.
            vec![0, i % 2, 63, 0, 2, i - S01_BIG.len() as u64]
        },
        random: (3000000, 90000000),
        guided: (120000, 3600000),
    }
}

// ------------------------------------------------------------------- C02

fn run02(src: &mut Src, ctx: &mut Ctx) -> Res {
    let keyed = src.flag();
    let long = src.special(9) as usize;
    let len = match long {
        0 => src.length(700, 64),
        k => [4_096usize, 65_535, 65_600, 131_073, 1 << 20, (1 << 21) + 9, 131_200, 198_000, 900][k - 1],
    };
    let mut pieces = src.pieces(len);
    if long > 6 {
        // A very long life in tiny updates, or in many empty ones.
        let step = [1usize, 3, 1][long - 7];
        pieces = vec![step; len / step];
        if long == 9 {
            let mut with = vec![0; 70_000];
            with.extend(pieces.iter().flat_map(|n| [*n, 0, 0]));
            pieces = with;
        }
    }
    let data = src.bytes(len);
    let key = if keyed {
        let n = src.length(150, 64);
        src.bytes(n)
    } else {
        vec![]
    };
    let nonempty = pieces.iter().filter(|n| **n > 0).count();
    ctx.class_if(keyed, "hmac");
    ctx.class_if(!keyed, "sha256");
    ctx.class_if(pieces.contains(&0), "with-empty-update");
    ctx.class_if(pieces.iter().any(|n| *n > 64), "update-longer-than-block");
    ctx.class_if(nonempty >= 2, "split");
    ctx.class_if(len > 4_000, "long");
    if nonempty >= 2 && len > 64 {
        ctx.nontrivial();
    }
    ctx.steps += pieces.len() as u64;
    ctx.say(|| {
        format!(
            "{} key[{}]={} data[{}]={} pieces={:?}",
            if keyed { "hmac" } else { "sha256" },
            key.len(),
            hex(&key),
            len,
            hex(&data),
            pieces
        )
    });
    let (got, whole, want);
    if keyed {
        let mut h = HMac::new(at(KEY, &key));
        let mut pos = 0;
        for n in &pieces {
            h.update(at(DATA, &data[pos..pos + n]));
            pos += n;
        }
        got = h.digest();
        whole = lib_hmac(&key, &data);
        want = rf::hmac(&key, &data);
    } else {
        let mut s = SHA256::new();
        let mut pos = 0;
        for n in &pieces {
            s.update(at(DATA, &data[pos..pos + n]));
            pos += n;
        }
        got = s.digest();
        whole = lib_sha(&data);
        want = rf::sha256(&data);
    }
    ctx.observe(&got);
    ensure!(got == whole, "pieces {:?} of {} bytes and one update disagree: {}", pieces, len, diff(&got, &whole));
    ensure!(got == want, "pieces {:?} of {} bytes: {}", pieces, len, diff(&got, &want));
    Ok(())
}

/// All two-piece splits of lengths 0..=LIM, for both functions.
const S02_LIM: u64 = 200;

fn tri(i: u64) -> (u64, u64) {
    // i -> (len, a) with a <= len.
    let mut len = (((8.0 * i as f64 + 1.0).sqrt() - 1.0) / 2.0) as u64;
    while len * (len + 1) / 2 > i {
        len -= 1;
    }
    while (len + 1) * (len + 2) / 2 <= i {
        len += 1;
    }
    (len, i - len * (len + 1) / 2)
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "SHA-256 and HMAC objects fed one message in generated pieces (every two-piece split of 0..=200 bytes, every equal piece size 1..=140 of several lengths, messages of up to 2^21 bytes, more than 2^17 updates of a byte, more than 2^16 empty ones, block-edge and random piece lists, empty updates); non-trivial: more than one block of data in at least two non-empty updates",
        run: run02,
        heavy: 0,
        sweep_len: |_| 2 * ((S02_LIM + 1) * (S02_LIM + 2) / 2) + 2 * 140 * 6 + 2 * 9 * 12,
        sweep: |_, i| {
            let pairs = (S02_LIM + 1) * (S02_LIM + 2) / 2;
            if i < 2 * pairs {
                let (len, a) = tri(i / 2);
                // flag, length(2, len), pieces(1, a), no empties
                return vec![i % 2, 0, 2, len, 1, a, 0, 0];
            }
            let i = i - 2 * pairs;
            if i >= 1680 {
                // Long messages, cut by the generator.
                let i = i - 1680;
                return vec![i % 2, 1 + (i / 2) % 9, i / 18 % 8];
            }
            let len = [65, 129, 192, 300, 511, 640][(i / 2 / 140) as usize];
            vec![i % 2, 0, 2, len, 3, (i / 2) % 140, 0, 0]
        },
        random: (6000000, 180000000),
        guided: (1000000, 30000000),
    }
}

// ------------------------------------------------------------------- C03

fn run03(src: &mut Src, ctx: &mut Ctx) -> Res {
    const LONG: [usize; 9] = [8_191, 8_192, 65_535, 65_536, 65_537, 65_600, 1 << 20, (1 << 21) - 64, (1 << 21) + 1];
    let large = src.special(19) as usize;
    if large == 19 {
        // A key whose length is small modulo 2^32.
        let n = (1usize << 32) + src.usize(64);
        let key = vec![0u8; n];
        let data = src.bytes(20);
        ctx.nontrivial();
        ctx.class("key:>=2^32-bytes");
        ctx.say(|| format!("key of {} zero bytes, message {}", n, hex(&data)));
        let got = lib_hmac(&key, &data);
        let want = rf::hmac(&lib_sha(&key), &data);
        ensure!(got == want, "HMAC with a {}-byte key: {}", n, diff(&got, &want));
        return Ok(());
    }
    let max = if src.chance(1, 64) { 5_000 } else { 300 };
    let mut klen = src.length(max, 64);
    let longest = if src.chance(1, 64) { 5_000 } else { 300 };
    let mut dlen = src.length(longest, 64);
    if large > 9 {
        klen = LONG[large - 10];
    } else if large > 0 {
        dlen = LONG[large - 1];
    }
    let key = src.bytes(klen);
    let mut data = src.bytes(dlen);
    match src.draw(31) {
        // The key, part of it, or more than it, as the message.
        31 => data = key.clone(),
        30 => data = key.iter().cycle().take(if key.is_empty() { 0 } else { dlen }).copied().collect(),
        29 => data = key.iter().map(|b| b ^ 0x36).collect(),
        _ => {}
    }
    let (data, dlen) = (&data, data.len());
    ctx.class_if(klen == 0, "key:empty");
    ctx.class_if(klen > 0 && klen < 64, "key:short");
    ctx.class_if(klen == 64, "key:exactly-block");
    ctx.class_if(klen > 64, "key:hashed");
    ctx.class_if(dlen == 0, "message:empty");
    if klen > 0 && dlen > 0 {
        ctx.nontrivial();
    }
    ctx.say(|| format!("key[{}]={} message[{}]={}", klen, hex(&key), dlen, hex(data)));
    let mut h = HMac::new(at(KEY, &key));
    h.update(at(DATA, data));
    let got = h.digest();
    ctx.observe(&got);
    let want = rf::hmac(&key, data);
    ensure!(got == want, "HMAC with a {}-byte key of {} bytes: {}", klen, dlen, diff(&got, &want));
    // Key equivalences of RFC 2104.
    if klen > 64 {
        let got = lib_hmac(&lib_sha(&key), data);
        ensure!(got == want, "a {}-byte key and its hash differ: {}", klen, diff(&got, &want));
    } else {
        let mut k = key.clone();
        let n = src.usize(64 - klen);
        k.resize(klen + n, 0);
        let got = lib_hmac(&k, data);
        ensure!(got == want, "a {}-byte key and the key with {} zero bytes added differ: {}", klen, n, diff(&got, &want));
    }
    Ok(())
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "keys and messages of 0..5000 bytes and of up to 2^21 bytes at 18 points (key lengths 0..=300 swept exactly against message lengths 0, 1, 55, 64, 200; block-edge biased); non-trivial: non-empty key and non-empty message",
        run: run03,
        heavy: 1,
        sweep_len: |t| 37 + 301 * 5 * if t { 8 } else { 2 },
        sweep: |_, i| {
            if i < 37 {
                return vec![if i == 0 { 19 } else { 1 + i % 18 }];
            }
            let i = i - 37;
            let k = i % 301;
            let d = [0u64, 1, 55, 64, 200][((i / 301) % 5) as usize];
            vec![0, 0, 2, k, 0, 2, d]
        },
        random: (4000000, 120000000),
        guided: (400000, 12000000),
    }
}
