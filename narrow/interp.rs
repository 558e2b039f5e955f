// Runs an encoded history of calls of the crate under test and writes down
// everything that can be observed. The same text is compiled into the harness
// (64-bit), into a wasm32 module and, under Miri, for a big-endian target, so
// it uses nothing but what all of them have.

use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;
use std::fmt::Debug;
use std::fmt::Display;
use std::format;
use std::vec;
use std::vec::Vec;

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

fn expand(seed: u64, len: usize) -> Vec<u8> {
    let mut s = seed;
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let z = mix(s);
        for k in 0..8 {
            v.push((z >> (8 * k)) as u8);
        }
    }
    v.truncate(len);
    v
}

struct Reader<'a> {
    b: &'a [u8],
}

impl<'a> Reader<'a> {
    fn byte(&mut self) -> u8 {
        let x = self.b[0];
        self.b = &self.b[1..];
        x
    }
    fn num(&mut self) -> u64 {
        let mut v = 0;
        for k in 0..8 {
            v |= u64::from(self.byte()) << (8 * k);
        }
        v
    }
    fn size(&mut self) -> usize {
        self.num() as usize
    }
    /// Literal bytes, or a seed to make them from.
    fn data(&mut self) -> Vec<u8> {
        let literal = self.byte() == 0;
        let n = self.size();
        if literal {
            let v = self.b[..n].to_vec();
            self.b = &self.b[n..];
            v
        } else {
            let seed = self.num();
            expand(seed, n)
        }
    }
    fn block(&mut self) -> [u8; 16] {
        let mut a = [0; 16];
        for x in a.iter_mut() {
            *x = self.byte();
        }
        a
    }
}

fn put_num(out: &mut Vec<u8>, n: u64) {
    for k in 0..8 {
        out.push((n >> (8 * k)) as u8);
    }
}

fn put(out: &mut Vec<u8>, data: &[u8]) {
    put_num(out, data.len() as u64);
    if data.len() <= 512 {
        out.extend_from_slice(data);
        return;
    }
    let mut h = 0;
    for b in data {
        h = mix(h ^ u64::from(*b));
    }
    put_num(out, h);
}

fn put_result<T, E: Debug + Display>(out: &mut Vec<u8>, r: Result<T, E>) -> Option<T> {
    match r {
        Ok(v) => {
            out.push(1);
            Some(v)
        }
        Err(e) => {
            out.push(0);
            put(out, format!("{:?}: {}", e, e).as_bytes());
            None
        }
    }
}

pub fn run(code: &[u8]) -> Vec<u8> {
    let mut r = Reader { b: code };
    let mut out = Vec::new();
    let mut sha = SHA256::new();
    let mut hmac = HMac::new(b"");
    let mut aes = AES::new();
    let mut cipher = Cipher::new([0; 16]);
    let mut decipher = Decipher::new([0; 16]);
    let mut made: Vec<u8> = Vec::new();
    while !r.b.is_empty() {
        match r.byte() {
            0 => sha = SHA256::new(),
            1 => {
                let d = r.data();
                sha.update(&d);
            }
            2 => put(&mut out, &sha.digest()),
            3 => {
                // The same piece many times over.
                let (d, n) = (r.data(), r.num());
                for _ in 0..n {
                    sha.update(&d);
                }
            }
            4 => {
                let k = r.data();
                hmac = HMac::new(&k);
            }
            5 => {
                let d = r.data();
                hmac.update(&d);
            }
            6 => put(&mut out, &hmac.digest()),
            7 => aes = AES::new(),
            8 => {
                let k = r.data();
                put_result(&mut out, aes.init(&k));
            }
            9 => {
                let b = r.block();
                if let Some(c) = put_result(&mut out, aes.encrypt(&b)) {
                    put(&mut out, &c);
                }
                if let Some(c) = put_result(&mut out, aes.decrypt(&b)) {
                    put(&mut out, &c);
                }
            }
            10 => {
                let iv = r.block();
                cipher = Cipher::new(iv);
                decipher = Decipher::new(iv);
                made.clear();
            }
            11 => {
                let k = r.data();
                put_result(&mut out, cipher.init(&k));
                put_result(&mut out, decipher.init(&k));
            }
            12 => {
                let d = r.data();
                if let Some(c) = put_result(&mut out, cipher.write(&d)) {
                    put(&mut out, &c);
                    made.extend_from_slice(&c);
                }
            }
            13 => {
                if let Some(c) = put_result(&mut out, cipher.flush()) {
                    put(&mut out, &c);
                    made.extend_from_slice(&c);
                }
            }
            14 => {
                let iv = r.block();
                decipher = Decipher::new(iv);
            }
            15 => {
                let k = r.data();
                put_result(&mut out, decipher.init(&k));
            }
            16 => {
                let d = r.data();
                if let Some(c) = put_result(&mut out, decipher.write(&d)) {
                    put(&mut out, &c);
                }
            }
            17 => {
                // What the cipher has made so far.
                if let Some(c) = put_result(&mut out, decipher.write(&made)) {
                    put(&mut out, &c);
                }
                made.clear();
            }
            18 => {
                if let Some(c) = put_result(&mut out, decipher.flush()) {
                    put(&mut out, &c);
                }
            }
            19 => {
                let (pw, salt, c, n) = (r.data(), r.data(), r.size(), r.size());
                let mut key = vec![0xc3; n];
                pbkdf2_sha256(&pw, &salt, c, &mut key);
                put(&mut out, &key);
            }
            20 => {
                let (br, bn, bp) = (r.size(), r.size(), r.size());
                let (pw, salt, n) = (r.data(), r.data(), r.size());
                let mut key = vec![0xc3; n];
                put_result(&mut out, Scrypt::new(br, bn, bp).derive(&pw, &salt, &mut key));
                put(&mut out, &key);
            }
            _ => {
                let (d, rounds) = (r.data(), r.size());
                let mut o = vec![0xc3; d.len()];
                salsa20(&d, rounds, &mut o);
                put(&mut out, &o);
            }
        }
    }
    out
}
