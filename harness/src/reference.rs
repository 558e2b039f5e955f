//! Reference implementations: the oracle. Written from the standards,
//! independently of the crate under test; constants are computed, not copied
//! (SHA-256's from prime roots, AES's S-boxes from the field inverse and the
//! affine map). `tools/qualify.mjs` compares this file with OpenSSL.

use std::sync::OnceLock;

// ---------------------------------------------------------------- SHA-256

struct ShaConst {
    h: [u32; 8],
    k: [u32; 64],
}

/// floor(2^32 * frac(n^(1/root))) by integer bisection.
fn root_frac(n: u128, root: u32) -> u32 {
    // x = floor(n^(1/root) * 2^32), i.e. x^root <= n * 2^(32*root).
    let (mut lo, mut hi) = (0u128, 1u128 << 42);
    while lo + 1 < hi {
        let mid = (lo + hi) / 2;
        let ok = if root == 2 {
            mid * mid <= n << 64
        } else {
            // mid^3 <= n * 2^96, with mid < 2^36: compare in 256 bits by
            // splitting mid^2 * mid.
            let sq = mid * mid;
            let (shi, slo) = (sq >> 64, sq & 0xffff_ffff_ffff_ffff);
            let low = slo * mid;
            let high = shi * mid + (low >> 64);
            let low = low & 0xffff_ffff_ffff_ffff;
            // n * 2^96 = (n << 32) * 2^64
            let nhi = n << 32;
            high < nhi || (high == nhi && low == 0)
        };
        if ok {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo as u32
}

fn sha_const() -> &'static ShaConst {
    static C: OnceLock<ShaConst> = OnceLock::new();
    C.get_or_init(|| {
        let mut primes = Vec::new();
        let mut n = 2u128;
        while primes.len() < 64 {
            if primes.iter().all(|p| n % p != 0) {
                primes.push(n);
            }
            n += 1;
        }
        let mut c = ShaConst { h: [0; 8], k: [0; 64] };
        for i in 0..8 {
            c.h[i] = root_frac(primes[i], 2);
        }
        for i in 0..64 {
            c.k[i] = root_frac(primes[i], 3);
        }
        c
    })
}

pub struct RefSha {
    state: [u32; 8],
    tail: Vec<u8>,
    bits: u128,
}

fn compress(state: &mut [u32; 8], block: &[u8], k: &[u32; 64]) {
    let mut w = [0u32; 64];
    for (t, c) in block.chunks_exact(4).enumerate() {
        w[t] = u32::from_be_bytes([c[0], c[1], c[2], c[3]]);
    }
    for t in 16..64 {
        let x = w[t - 15];
        let y = w[t - 2];
        let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
        let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10);
        w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
    }
    let mut v = *state;
    for t in 0..64 {
        let [a, b, c, d, e, f, g, h] = v;
        let t1 = h
            .wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25))
            .wrapping_add(g ^ (e & (f ^ g)))
            .wrapping_add(k[t])
            .wrapping_add(w[t]);
        let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22))
            .wrapping_add((a & b) | (c & (a | b)));
        v = [t1.wrapping_add(t2), a, b, c, d.wrapping_add(t1), e, f, g];
    }
    for (s, x) in state.iter_mut().zip(v) {
        *s = s.wrapping_add(x);
    }
}

impl RefSha {
    pub fn new() -> RefSha {
        RefSha { state: sha_const().h, tail: Vec::new(), bits: 0 }
    }

    pub fn update(&mut self, data: &[u8]) {
        self.bits += (data.len() as u128) * 8;
        let k = &sha_const().k;
        let mut data = data;
        if !self.tail.is_empty() {
            let n = (64 - self.tail.len()).min(data.len());
            self.tail.extend_from_slice(&data[..n]);
            data = &data[n..];
            if self.tail.len() < 64 {
                return;
            }
            compress(&mut self.state, &self.tail, k);
            self.tail.clear();
        }
        let mut it = data.chunks_exact(64);
        for b in &mut it {
            compress(&mut self.state, b, k);
        }
        self.tail.extend_from_slice(it.remainder());
    }

    pub fn finish(mut self) -> [u8; 32] {
        let k = &sha_const().k;
        let bits = self.bits as u64;
        self.tail.push(0x80);
        while self.tail.len() % 64 != 56 {
            self.tail.push(0);
        }
        self.tail.extend_from_slice(&bits.to_be_bytes());
        for b in self.tail.chunks_exact(64) {
            compress(&mut self.state, b, k);
        }
        let mut out = [0u8; 32];
        for (o, s) in out.chunks_exact_mut(4).zip(self.state) {
            o.copy_from_slice(&s.to_be_bytes());
        }
        out
    }
}

pub fn sha256(data: &[u8]) -> [u8; 32] {
    let mut s = RefSha::new();
    s.update(data);
    s.finish()
}

// ------------------------------------------------------------------- HMAC

pub fn hmac(key: &[u8], data: &[u8]) -> [u8; 32] {
    hmac_parts(key, &[data])
}

pub fn hmac_parts(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = if key.len() > 64 { sha256(key).to_vec() } else { key.to_vec() };
    k.resize(64, 0);
    let ipad: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    let opad: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    let mut inner = RefSha::new();
    inner.update(&ipad);
    for p in parts {
        inner.update(p);
    }
    let inner = inner.finish();
    let mut outer = RefSha::new();
    outer.update(&opad);
    outer.update(&inner);
    outer.finish()
}

// ----------------------------------------------------------------- PBKDF2

/// Block number `i` (from 1) of the derived key.
pub fn pbkdf2_block(password: &[u8], salt: &[u8], c: usize, i: u32) -> [u8; 32] {
    let mut u = hmac_parts(password, &[salt, &i.to_be_bytes()]);
    let mut t = u;
    for _ in 1..c {
        u = hmac(password, &u);
        for (x, y) in t.iter_mut().zip(u) {
            *x ^= y;
        }
    }
    t
}

pub fn pbkdf2(password: &[u8], salt: &[u8], c: usize, len: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(len + 32);
    let mut i = 1u32;
    while out.len() < len {
        out.extend_from_slice(&pbkdf2_block(password, salt, c, i));
        i += 1;
    }
    out.truncate(len);
    out
}

// ---------------------------------------------------------------- Salsa20

/// The Salsa20 hash of one 64-byte block with `double_rounds` double rounds.
pub fn salsa20_words(x: &[u32; 16], double_rounds: usize) -> [u32; 16] {
    // In-place formulation with the quarter-round index lists.
    const Q: [[usize; 4]; 8] = [
        [0, 4, 8, 12],
        [5, 9, 13, 1],
        [10, 14, 2, 6],
        [15, 3, 7, 11],
        [0, 1, 2, 3],
        [5, 6, 7, 4],
        [10, 11, 8, 9],
        [15, 12, 13, 14],
    ];
    let mut s = *x;
    for _ in 0..double_rounds {
        for [a, b, c, d] in Q {
            s[b] ^= s[a].wrapping_add(s[d]).rotate_left(7);
            s[c] ^= s[b].wrapping_add(s[a]).rotate_left(9);
            s[d] ^= s[c].wrapping_add(s[b]).rotate_left(13);
            s[a] ^= s[d].wrapping_add(s[c]).rotate_left(18);
        }
    }
    for (a, b) in s.iter_mut().zip(x) {
        *a = a.wrapping_add(*b);
    }
    s
}

fn words(b: &[u8]) -> Vec<u32> {
    b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}

pub fn salsa20(input: &[u8], double_rounds: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(input.len());
    for block in input.chunks_exact(64) {
        let mut x = [0u32; 16];
        x.copy_from_slice(&words(block));
        for w in salsa20_words(&x, double_rounds) {
            out.extend_from_slice(&w.to_le_bytes());
        }
    }
    out
}

// ----------------------------------------------------------------- scrypt

fn block_mix(b: &[u32], r: usize) -> Vec<u32> {
    let mut out = vec![0u32; 32 * r];
    let mut x = [0u32; 16];
    x.copy_from_slice(&b[16 * (2 * r - 1)..]);
    for i in 0..2 * r {
        for j in 0..16 {
            x[j] ^= b[16 * i + j];
        }
        x = salsa20_words(&x, 4);
        let to = if i % 2 == 0 { i / 2 } else { r + i / 2 };
        out[16 * to..16 * to + 16].copy_from_slice(&x);
    }
    out
}

pub fn scrypt_lanes(password: &[u8], salt: &[u8], n: usize, r: usize, p: usize) -> Vec<u8> {
    let b = pbkdf2(password, salt, 1, p * 128 * r);
    let mut all = Vec::with_capacity(b.len());
    for lane in b.chunks_exact(128 * r) {
        let mut x = words(lane);
        let mut v: Vec<u32> = Vec::with_capacity(n * 32 * r);
        for _ in 0..n {
            v.extend_from_slice(&x);
            x = block_mix(&x, r);
        }
        for _ in 0..n {
            let lo = u64::from(x[16 * (2 * r - 1)]) | (u64::from(x[16 * (2 * r - 1) + 1]) << 32);
            let j = (lo % (n as u64)) as usize;
            for (a, b) in x.iter_mut().zip(&v[j * 32 * r..(j + 1) * 32 * r]) {
                *a ^= b;
            }
            x = block_mix(&x, r);
        }
        for w in x {
            all.extend_from_slice(&w.to_le_bytes());
        }
    }
    all
}

pub fn scrypt(password: &[u8], salt: &[u8], n: usize, r: usize, p: usize, len: usize) -> Vec<u8> {
    let lanes = scrypt_lanes(password, salt, n, r, p);
    pbkdf2(password, &lanes, 1, len)
}

// -------------------------------------------------------------------- AES

struct AesTables {
    sbox: [u8; 256],
    inv: [u8; 256],
    mul: Vec<[u8; 256]>, // mul[k][b] for k < 16
}

fn gf_mul(mut a: u8, mut b: u8) -> u8 {
    let mut p = 0u8;
    for _ in 0..8 {
        if b & 1 != 0 {
            p ^= a;
        }
        let carry = a & 0x80 != 0;
        a = a.wrapping_shl(1);
        if carry {
            a ^= 0x1b;
        }
        b >>= 1;
    }
    p
}

fn aes_tables() -> &'static AesTables {
    static T: OnceLock<AesTables> = OnceLock::new();
    T.get_or_init(|| {
        let mut sbox = [0u8; 256];
        let mut inv = [0u8; 256];
        for x in 0..=255u8 {
            // Multiplicative inverse as x^254, then the affine map.
            let mut y = 1u8;
            for _ in 0..254 {
                y = gf_mul(y, x);
            }
            if x == 0 {
                y = 0;
            }
            let mut s = 0u8;
            for bit in 0..8 {
                let v = (y >> bit)
                    ^ (y >> ((bit + 4) % 8))
                    ^ (y >> ((bit + 5) % 8))
                    ^ (y >> ((bit + 6) % 8))
                    ^ (y >> ((bit + 7) % 8))
                    ^ (0x63 >> bit);
                s |= (v & 1) << bit;
            }
            sbox[x as usize] = s;
            inv[s as usize] = x;
        }
        let mul = (0..16u8)
            .map(|k| {
                let mut row = [0u8; 256];
                for b in 0..=255u8 {
                    row[b as usize] = gf_mul(b, k);
                }
                row
            })
            .collect();
        AesTables { sbox, inv, mul }
    })
}

#[derive(Clone)]
pub struct RefAes {
    round_keys: Vec<[u8; 16]>,
}

impl RefAes {
    /// `key` must have 16, 24 or 32 bytes.
    pub fn new(key: &[u8]) -> RefAes {
        let t = aes_tables();
        let nk = key.len() / 4;
        let rounds = nk + 6;
        let mut w: Vec<[u8; 4]> =
            key.chunks_exact(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (rounds + 1) {
            let mut x = w[i - 1];
            if i % nk == 0 {
                x = [
                    t.sbox[x[1] as usize] ^ rcon,
                    t.sbox[x[2] as usize],
                    t.sbox[x[3] as usize],
                    t.sbox[x[0] as usize],
                ];
                rcon = gf_mul(rcon, 2);
            } else if nk == 8 && i % 8 == 4 {
                for b in &mut x {
                    *b = t.sbox[*b as usize];
                }
            }
            let prev = w[i - nk];
            for (a, b) in x.iter_mut().zip(prev) {
                *a ^= b;
            }
            w.push(x);
        }
        let round_keys = w
            .chunks_exact(4)
            .map(|c| {
                let mut k = [0u8; 16];
                for (i, word) in c.iter().enumerate() {
                    k[4 * i..4 * i + 4].copy_from_slice(word);
                }
                k
            })
            .collect();
        RefAes { round_keys }
    }

    pub fn encrypt(&self, block: &[u8; 16]) -> [u8; 16] {
        let t = aes_tables();
        let last = self.round_keys.len() - 1;
        let mut s = *block;
        xor(&mut s, &self.round_keys[0]);
        for r in 1..=last {
            let mut n = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    n[4 * c + row] = t.sbox[s[4 * ((c + row) % 4) + row] as usize];
                }
            }
            s = if r == last { n } else { mix(&n, [2, 3, 1, 1]) };
            xor(&mut s, &self.round_keys[r]);
        }
        s
    }

    pub fn decrypt(&self, block: &[u8; 16]) -> [u8; 16] {
        let t = aes_tables();
        let last = self.round_keys.len() - 1;
        let mut s = *block;
        for r in (1..=last).rev() {
            xor(&mut s, &self.round_keys[r]);
            if r != last {
                s = mix(&s, [14, 11, 13, 9]);
            }
            let mut n = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    n[4 * ((c + row) % 4) + row] = t.inv[s[4 * c + row] as usize];
                }
            }
            s = n;
        }
        xor(&mut s, &self.round_keys[0]);
        s
    }
}

fn xor(a: &mut [u8; 16], b: &[u8; 16]) {
    for (x, y) in a.iter_mut().zip(b) {
        *x ^= y;
    }
}

fn mix(s: &[u8; 16], m: [usize; 4]) -> [u8; 16] {
    let t = aes_tables();
    let mut n = [0u8; 16];
    for c in 0..4 {
        for row in 0..4 {
            let mut v = 0;
            for k in 0..4 {
                v ^= t.mul[m[(k + 4 - row) % 4]][s[4 * c + k] as usize];
            }
            n[4 * c + row] = v;
        }
    }
    n
}

// ---------------------------------------------------------- CBC and PKCS7

/// CBC without padding; `data` is a whole number of blocks. Returns the
/// ciphertext and the chaining value after it.
pub fn cbc_raw_encrypt(aes: &RefAes, iv: &[u8; 16], data: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let mut chain = *iv;
    let mut out = Vec::with_capacity(data.len());
    for b in data.chunks_exact(16) {
        for (c, x) in chain.iter_mut().zip(b) {
            *c ^= x;
        }
        chain = aes.encrypt(&chain);
        out.extend_from_slice(&chain);
    }
    (out, chain)
}

pub fn cbc_raw_decrypt(aes: &RefAes, iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len());
    let mut prev = *iv;
    for b in data.chunks_exact(16) {
        let mut block = [0u8; 16];
        block.copy_from_slice(b);
        let mut p = aes.decrypt(&block);
        xor(&mut p, &prev);
        prev = block;
        out.extend_from_slice(&p);
    }
    out
}

pub fn pkcs7_pad(data: &[u8]) -> Vec<u8> {
    let mut v = data.to_vec();
    let n = 16 - data.len() % 16;
    v.resize(data.len() + n, n as u8);
    v
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Bad {
    /// Not a positive whole number of blocks.
    Unfinished,
    /// The last block does not end in 1..=16 bytes of its own count.
    Padding,
}

/// Length of the plaintext that a padded text holds, or why it is rejected.
pub fn pkcs7_unpad(padded: &[u8]) -> Result<usize, Bad> {
    if padded.is_empty() || padded.len() % 16 != 0 {
        return Err(Bad::Unfinished);
    }
    let n = padded[padded.len() - 1] as usize;
    if n == 0 || n > 16 {
        return Err(Bad::Padding);
    }
    if padded[padded.len() - n..].iter().any(|b| *b as usize != n) {
        return Err(Bad::Padding);
    }
    Ok(padded.len() - n)
}
