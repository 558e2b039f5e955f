//! C24: what the text of an error says is true, and depends on the reason only.

use crate::engine::*;
use crate::ensure;
use crate::props::aes::{bad_key, gen_key};
use dumb_crypto::aes::{AESError, AES};
use dumb_crypto::aes_cbc::{Cipher, Decipher, DecipherError};
use dumb_crypto::scrypt::{Scrypt, ScryptError};
use std::collections::BTreeMap;
use std::error::Error;
use std::sync::Mutex;

/// Reason (type and Debug form) and its text, for the whole process.
static TEXTS: Mutex<BTreeMap<(&'static str, String), String>> = Mutex::new(BTreeMap::new());

#[allow(deprecated)]
fn description(e: &dyn Error) -> Option<String> {
    let d = e.description();
    // What the standard library says for those that do not say anything.
    if d.is_empty() || d.contains("deprecated") {
        None
    } else {
        Some(d.to_string())
    }
}

/// The text depends on the reason alone, and tells reasons apart.
fn seen<E: Error>(kind: &'static str, e: &E) -> Result<String, Fail> {
    let (name, text) = (format!("{:?}", e), e.to_string());
    ensure!(!text.trim().is_empty(), "{} {} has no text", kind, name);
    if let Some(d) = description(e) {
        ensure!(text.contains(&d), "{} {}: the text {:?} is without the description {:?}", kind, name, text, d);
    }
    let mut all = TEXTS.lock().unwrap_or_else(|e| e.into_inner());
    let known = all.entry((kind, name.clone())).or_insert_with(|| text.clone()).clone();
    ensure!(known == text, "{} {} is {:?} and was {:?}", kind, name, text, known);
    for ((k, n), t) in all.iter() {
        ensure!(*k != kind || *n == name || *t != text, "{} {} and {} have the same text {:?}", kind, name, n, text);
    }
    Ok(text)
}

/// The error of an inner layer keeps its description.
fn inner(outer: &str, e: &dyn Error) -> Res {
    let text = e.to_string();
    let kept = outer.contains(&text)
        || description(e).map_or(false, |d| outer.contains(&d))
        || text.split_once(": ").map_or(false, |(_, t)| outer.contains(t));
    ensure!(kept, "{:?} does not say what {:?} says", outer, text);
    Ok(())
}

// ------------------------------------------------- conditions in the text

const CAP: u128 = 1 << 100;

struct Parser<'a> {
    rest: &'a str,
    of: &'a dyn Fn(char) -> u128,
}

/// Sums, products and powers of whole numbers; saturates. None if it is
/// something else.
impl Parser<'_> {
    fn look(&mut self) -> Option<char> {
        self.rest = self.rest.trim_start();
        self.rest.chars().next()
    }
    fn skip(&mut self) {
        let mut c = self.rest.chars();
        c.next();
        self.rest = c.as_str();
    }
    fn atom(&mut self) -> Option<u128> {
        match self.look()? {
            '(' => {
                self.skip();
                let v = self.sum()?;
                if self.look()? != ')' {
                    return None;
                }
                self.skip();
                Some(v)
            }
            c if c.is_ascii_digit() => {
                let n = self.rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(self.rest.len());
                let v = self.rest[..n].parse().ok()?;
                self.rest = &self.rest[n..];
                Some(v)
            }
            '`' => {
                self.skip();
                let v = self.atom()?;
                if self.look()? != '`' {
                    return None;
                }
                self.skip();
                Some(v)
            }
            c if "rnpRNP".contains(c) => {
                self.skip();
                Some((self.of)(c.to_ascii_lowercase()))
            }
            _ => None,
        }
    }
    fn power(&mut self) -> Option<u128> {
        let base = self.atom()?;
        if self.look() != Some('^') {
            return Some(base);
        }
        self.skip();
        let e = self.power()?;
        Some(if base < 2 { base } else { base.checked_pow(e.min(200) as u32).unwrap_or(CAP).min(CAP) })
    }
    fn product(&mut self) -> Option<u128> {
        let mut v = self.power()?;
        loop {
            match self.look() {
                Some('*') => {
                    self.skip();
                    v = v.saturating_mul(self.power()?).min(CAP);
                }
                Some('/') => {
                    self.skip();
                    v = v.checked_div(self.power()?)?;
                }
                _ => return Some(v),
            }
        }
    }
    fn sum(&mut self) -> Option<u128> {
        let mut v = self.product()?;
        loop {
            match self.look() {
                Some('+') => {
                    self.skip();
                    v = v.saturating_add(self.product()?).min(CAP);
                }
                Some('-') => {
                    self.skip();
                    v = v.checked_sub(self.product()?)?;
                }
                _ => return Some(v),
            }
        }
    }
}

fn number(text: &str) -> Option<u128> {
    const WORDS: [&str; 11] = ["zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten"];
    WORDS.iter().position(|w| *w == text).map(|i| i as u128).or_else(|| text.parse().ok())
}

/// Whether the parameters are as the text says they must be. None: it says
/// something that is not understood here.
fn as_stated(text: &str, r: u128, n: u128, p: u128) -> Option<bool> {
    let of = move |c: char| match c {
        'r' => r,
        'n' => n,
        _ => p,
    };
    let at = text.find('`')?;
    let mut rest = text[at + 1..].chars();
    let c = rest.next()?.to_ascii_lowercase();
    if !"rnp".contains(c) {
        return None;
    }
    let rest = rest.as_str().strip_prefix("` must ")?;
    let value = of(c);
    match rest {
        "be positive" | "be a positive number" | "be a positive integer" | "not be zero" => return Some(value > 0),
        "be even" | "be an even number" => return Some(value % 2 == 0),
        "be odd" | "be an odd number" => return Some(value % 2 == 1),
        _ => {}
    }
    if let Some(b) = rest.strip_prefix("be a power of ").and_then(number) {
        let mut v = value;
        while b > 1 && v > 1 && v % b == 0 {
            v /= b;
        }
        return Some(v == 1);
    }
    if let Some(b) = rest.strip_prefix("be a multiple of ").and_then(number) {
        return Some(b > 0 && value % b == 0);
    }
    let forms: [(&str, fn(u128, u128) -> bool); 12] = [
        ("be larger than ", |a, b| a > b),
        ("be greater than ", |a, b| a > b),
        ("be more than ", |a, b| a > b),
        ("be at least ", |a, b| a >= b),
        ("not be less than ", |a, b| a >= b),
        ("not be smaller than ", |a, b| a >= b),
        ("be less than ", |a, b| a < b),
        ("be smaller than ", |a, b| a < b),
        ("be at most ", |a, b| a <= b),
        ("not be larger than ", |a, b| a <= b),
        ("not be greater than ", |a, b| a <= b),
        ("not be more than ", |a, b| a <= b),
    ];
    for (form, holds) in forms {
        if let Some(e) = rest.strip_prefix(form) {
            let mut parser = Parser { rest: e, of: &of };
            if let Some(bound) = number(e) {
                return Some(holds(value, bound));
            }
            let bound = parser.sum()?;
            // A whole number is above the quotient when it is above its floor.
            return if parser.rest.trim().is_empty() { Some(holds(value, bound)) } else { None };
        }
    }
    None
}

/// The key sizes that the text admits, in bits.
fn sizes(text: &str) -> Option<Vec<u64>> {
    let unit = if text.ends_with("bits") {
        1
    } else if text.ends_with("bytes") {
        8
    } else {
        return None;
    };
    let v: Vec<u64> = text.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse::<u64>().ok()).map(|n| n * unit).collect();
    if v.is_empty() {
        None
    } else {
        Some(v)
    }
}

// ------------------------------------------------------------------- C24

/// Parameters rejected for each of the reasons, the least of each sort.
const PROBES: [(usize, usize, usize); 6] = [(0, 2, 1), (1, 1, 1), (1, 3, 1), (1, 1 << 16, 1), (1, 2, 0), (1, 2, 1 << 30)];

fn scrypt_error(r: usize, n: usize, p: usize) -> Result<Option<(String, ScryptError)>, Fail> {
    let mut out = [0u8; 1];
    match Scrypt::new(r, n, p).derive(b"p", b"s", &mut out) {
        Ok(()) => Ok(None),
        Err(e) => Ok(Some((seen("ScryptError", &e)?, e))),
    }
}

fn scrypt_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (r, n, p);
    if src.flag() {
        // Whatever is checked first is wrong too: nothing is started.
        r = src.usize(5);
        n = match src.draw(2) {
            0 => src.usize(1),
            1 => 3 + 2 * src.usize(1000),
            _ => (1usize << src.usize(62)) | 1,
        };
        p = src.usize(3) << (src.usize(4) * 15);
    } else {
        r = src.usize(3);
        n = match src.draw(2) {
            0 => src.usize(9),
            1 => 1usize << src.usize(7),
            _ => 1usize << (16 * r + src.usize(63 - 16 * r)),
        };
        p = match src.draw(4) {
            0..=2 => src.usize(3),
            _ => (u32::MAX as usize / 4) / r.max(1) + 1 + src.usize(3),
        };
    }
    // Only what is quick, or rejected by every reading.
    let invalid = r < 1 || p < 1 || n <= 1 || !n.is_power_of_two() || (r < 4 && (n as u64) >> (16 * r) != 0) || p > (u32::MAX as usize / 4) / r;
    if !invalid && r * n * p > 2048 {
        ctx.excluded += 1;
        return Ok(());
    }
    ctx.say(|| format!("scrypt r={} N={} p={}", r, n, p));
    ctx.class("scrypt");
    let outcome = scrypt_error(r, n, p)?;
    if let Some((text, e)) = outcome {
        ctx.nontrivial();
        ctx.observe(text.as_bytes());
        match as_stated(&text_of(&text), r as u128, n as u128, p as u128) {
            None => ctx.class("other-wording"),
            Some(met) => {
                ensure!(!met, "r={} N={} p={} is rejected ({:?}) with {:?}, and is what that asks for", r, n, p, e, text);
            }
        }
        return Ok(());
    }
    // Accepted: as every text asks for.
    ctx.nontrivial();
    ctx.class("scrypt:accepted");
    for (r1, n1, p1) in PROBES {
        if let Some((text, _)) = scrypt_error(r1, n1, p1)? {
            match as_stated(&text_of(&text), r as u128, n as u128, p as u128) {
                None => ctx.class("other-wording"),
                Some(met) => ensure!(met, "r={} N={} p={} is accepted, but {:?}", r, n, p, text),
            }
        }
    }
    Ok(())
}

/// The text without the name of the type.
fn text_of(text: &str) -> String {
    text.split_once(": ").map_or(text, |(_, t)| t).to_string()
}

fn key_case(e: &AESError, key: &[u8], ctx: &mut Ctx) -> Res {
    let text = seen("AESError", e)?;
    ctx.observe(text.as_bytes());
    match sizes(&text) {
        Some(v) => ensure!(!v.contains(&(8 * key.len() as u64)), "a key of {} bytes is rejected with {:?}", key.len(), text),
        None => ctx.class("other-wording"),
    }
    Ok(())
}

/// An accepted key is of a size that the rejection of others names.
fn accepted(key: &[u8], ctx: &mut Ctx) -> Res {
    if let Err(e) = AES::new().init(&[1, 2, 3]) {
        let text = seen("AESError", &e)?;
        match sizes(&text) {
            Some(v) => ensure!(v.contains(&(8 * key.len() as u64)), "a key of {} bytes is accepted, but {:?}", key.len(), text),
            None => ctx.class("other-wording"),
        }
    }
    Ok(())
}

fn objects(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut said = Vec::new();
    let r = history(src, ctx, &mut said);
    ctx.say(|| said.join("; "));
    r
}

fn history(src: &mut Src, ctx: &mut Ctx, said: &mut Vec<String>) -> Res {
    let mut aes = AES::new();
    let mut c = Cipher::new([0; 16]);
    let mut d = Decipher::new([0; 16]);
    // Whether it has a key; the ciphertext bytes since the last flush.
    let mut keyed = [false; 3];
    let mut held = 0usize;
    let n = 1 + src.usize(9);
    for _ in 0..n {
        let which = src.usize(2);
        ctx.steps += 1;
        match src.draw(3) {
            0 => {
                let bad = src.flag();
                let key = if bad { bad_key(src) } else { gen_key(src) };
                said.push(format!("init {} with {} bytes", which, key.len()));
                let r = match which {
                    0 => aes.init(at(KEY, &key)),
                    1 => c.init(at(KEY, &key)),
                    _ => d.init(at(KEY, &key)),
                };
                match r {
                    Ok(()) => {
                        keyed[which] = true;
                        accepted(&key, ctx)?;
                    }
                    Err(e) => {
                        ctx.nontrivial();
                        ctx.class("key-rejected");
                        key_case(&e, &key, ctx)?;
                    }
                }
            }
            1 | 2 => {
                let len = src.length(50, 16);
                let data = src.bytes(len);
                said.push(format!("use {} for {} bytes", which, len));
                let e = match which {
                    0 => {
                        let mut b = [0; 16];
                        b[..len.min(16)].copy_from_slice(&data[..len.min(16)]);
                        if len % 2 == 0 { aes.encrypt(&b).err() } else { aes.decrypt(&b).err() }
                    }
                    1 => c.write(at(DATA, &data)).err(),
                    _ => match d.write(at(DATA, &data)) {
                        Ok(_) => {
                            held += len;
                            None
                        }
                        Err(e) => {
                            decipher_error(&e, ctx)?;
                            None
                        }
                    },
                };
                if let Some(e) = e {
                    ctx.nontrivial();
                    ctx.class("no-key");
                    let text = seen("AESError", &e)?;
                    ctx.observe(text.as_bytes());
                    if !keyed[which] {
                        ensure!(sizes(&text).is_none(), "no key is there, and the text is {:?}", text);
                    }
                }
            }
            _ => {
                said.push(format!("flush {}", which));
                if which == 1 {
                    if let Err(e) = c.flush() {
                        ctx.nontrivial();
                        seen("AESError", &e)?;
                    }
                } else {
                    match d.flush() {
                        Ok(_) => held = 0,
                        Err(e) => {
                            let text = decipher_error(&e, ctx)?;
                            if let DecipherError::PKCS7(_) = e {
                                if let Some((_, of)) = text.split_once("multiple of ") {
                                    // Of the block size, if not of a number.
                                    let digits: String = of.chars().take_while(|c| c.is_ascii_digit()).collect();
                                    let unit = digits.parse().ok().filter(|n| *n > 0).unwrap_or(16);
                                    ensure!(
                                        held % unit != 0 || held == 0,
                                        "{} bytes of ciphertext are rejected with {:?}", held, text
                                    );
                                } else if text.contains("invalid padding") {
                                    ensure!(held % 16 == 0 && held > 0, "{} bytes of ciphertext are rejected with {:?}", held, text);
                                } else {
                                    ctx.class("other-wording");
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn decipher_error(e: &DecipherError, ctx: &mut Ctx) -> Result<String, Fail> {
    ctx.nontrivial();
    let text = seen("DecipherError", e)?;
    ctx.observe(text.as_bytes());
    match e {
        DecipherError::AES(i) => {
            ctx.class("no-key");
            seen("AESError", i)?;
            inner(&text, i)?;
        }
        DecipherError::PKCS7(i) => {
            ctx.class("message-rejected");
            seen("UnpadError", i)?;
            inner(&text, i)?;
        }
    }
    Ok(text)
}

fn run24(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.flag() {
        objects(src, ctx)
    } else {
        scrypt_case(src, ctx)
    }
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        rule: "scrypt parameters about every bound (r 0..=5, N small, odd or a power of two to 2^63, p small or above its limit; r, p in 0..=3 x N in 0..=9 swept) and histories of 1..10 calls on AES, Cipher and Decipher objects with valid and invalid keys; the texts of all errors are compared by reason, and the conditions they state evaluated for rejected and for accepted arguments; non-trivial: a call that failed, or a derivation that was accepted",
        run: run24,
        heavy: 0,
        sweep_len: |_| 160 + 3 * 400,
        sweep: |_, i| {
            if i < 160 {
                return vec![0, 0, i % 4, 0, i / 4 % 10, 0, i / 40];
            }
            // One key of every invalid length to 332, on each object.
            let (k, which) = ((i - 160) / 3, i % 3);
            let (class, n) = match k {
                0..=15 => (0, k),
                16..=30 => (4, k - 16),
                _ => (2, (k - 31).min(299)),
            };
            vec![1, 0, which, 0, 1, 0, class, n]
        },
        random: (600_000, 20_000_000),
        guided: (60_000, 2_000_000),
    }
}
