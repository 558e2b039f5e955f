//! C23: a call that fails leaves the object as it was. Twin objects: one gets
//! the whole history, the other one the calls that succeeded on the first.

use crate::engine::*;
use crate::ensure;
use crate::model::DecipherModel;
use crate::props::aes::{bad_key, gen_key};
use crate::reference as rf;
use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};

enum Obj {
    Aes(AES),
    Cipher(Cipher),
    Decipher(Decipher),
}

#[derive(Clone)]
enum Call {
    Init(Vec<u8>),
    Write(Vec<u8>),
    Flush,
    Encrypt([u8; 16]),
    Decrypt([u8; 16]),
}

type Out = Result<Vec<u8>, String>;

fn name(call: &Call) -> String {
    match call {
        Call::Init(k) if k.len() > 80 => format!("init([{}])", k.len()),
        Call::Init(k) => format!("init({})", hex(k)),
        Call::Write(d) => format!("write({})", hex(d)),
        Call::Flush => "flush".to_string(),
        Call::Encrypt(b) => format!("encrypt({})", hex(b)),
        Call::Decrypt(b) => format!("decrypt({})", hex(b)),
    }
}

impl Obj {
    fn new(which: u64, iv: [u8; 16]) -> Obj {
        match which {
            0 => Obj::Cipher(Cipher::new(iv)),
            1 => Obj::Decipher(Decipher::new(iv)),
            _ => Obj::Aes(AES::new()),
        }
    }

    fn apply(&mut self, call: &Call) -> Out {
        fn show<T, E: std::fmt::Debug>(r: Result<T, E>, f: impl Fn(T) -> Vec<u8>) -> Out {
            r.map(f).map_err(|e| format!("{:?}", e))
        }
        match (self, call) {
            (Obj::Aes(o), Call::Init(k)) => show(o.init(at(KEY, k)), |_| vec![]),
            (Obj::Aes(o), Call::Encrypt(b)) => show(o.encrypt(at16(b)), |v| v.to_vec()),
            (Obj::Aes(o), Call::Decrypt(b)) => show(o.decrypt(at16(b)), |v| v.to_vec()),
            (Obj::Cipher(o), Call::Init(k)) => show(o.init(at(KEY, k)), |_| vec![]),
            (Obj::Cipher(o), Call::Write(d)) => show(o.write(at(DATA, d)), |v| v),
            (Obj::Cipher(o), Call::Flush) => show(o.flush(), |v| v),
            (Obj::Decipher(o), Call::Init(k)) => show(o.init(at(KEY, k)), |_| vec![]),
            (Obj::Decipher(o), Call::Write(d)) => show(o.write(at(DATA, d)), |v| v),
            (Obj::Decipher(o), Call::Flush) => show(o.flush(), |v| v),
            _ => Ok(vec![]),
        }
    }
}

/// The two objects, and what makes meaningful continuations.
struct Twins {
    a: Obj,
    b: Obj,
    model: DecipherModel,
    failed: usize,
    /// Bytes came out of a call after one had failed.
    told: bool,
}

impl Twins {
    fn new(which: u64, iv: [u8; 16]) -> Twins {
        Twins {
            a: Obj::new(which, iv),
            b: Obj::new(which, iv),
            model: DecipherModel::new(iv),
            failed: 0,
            told: false,
        }
    }

    fn call(&mut self, ctx: &mut Ctx, call: &Call, again: usize) -> Result<bool, Fail> {
        ctx.steps += 1;
        ctx.say(|| name(call));
        match self.a.apply(call) {
            Ok(got) => {
                let want = match self.b.apply(call) {
                    Ok(v) => v,
                    Err(e) => {
                        return fail(format!(
                            "{} succeeds after {} failed calls ({}), but fails without them: {}",
                            name(call), self.failed, hex(&got), e
                        ))
                    }
                };
                ctx.observe(&got);
                ensure!(got == want, "{} after {} failed calls gives other bytes than without them: {}", name(call), self.failed, diff(&got, &want));
                if self.failed > 0 && !got.is_empty() {
                    self.told = true;
                }
                self.follow(call);
                Ok(true)
            }
            Err(e) => {
                self.failed += 1;
                ctx.observe(e.as_bytes());
                let kind = match call {
                    Call::Init(_) => "failed:init",
                    Call::Write(_) => "failed:write",
                    Call::Flush if e.contains("Unfinished") => "failed:flush-unfinished",
                    Call::Flush if e.contains("Padding") => "failed:flush-padding",
                    Call::Flush => "failed:flush",
                    _ => "failed:block",
                };
                ctx.class(kind);
                ctx.say(|| format!("-> {}", e));
                for _ in 0..again {
                    let second = self.a.apply(call);
                    ensure!(second == Err(e.clone()), "{} failed with {}, repeated at once it gives {:?}", name(call), e, second.map(|v| hex(&v)));
                }
                Ok(false)
            }
        }
    }

    fn follow(&mut self, call: &Call) {
        match call {
            Call::Init(k) if [16, 24, 32].contains(&k.len()) => self.model.key = Some(rf::RefAes::new(k)),
            Call::Write(d) => {
                let _ = self.model.write(d);
            }
            Call::Flush => {
                let _ = self.model.flush();
            }
            _ => {}
        }
    }

    /// The end of every history: use both twins so that what they hold shows.
    fn close(&mut self, src: &mut Src, ctx: &mut Ctx, which: u64) -> Res {
        let rekey = src.flag();
        for round in 0..2 {
            if round == 1 || rekey {
                let key = gen_key(src);
                self.call(ctx, &Call::Init(key), 0)?;
            }
            if which > 1 {
                let block = src.array::<16>();
                self.call(ctx, &Call::Encrypt(block), 0)?;
                self.call(ctx, &Call::Decrypt(block), 0)?;
                continue;
            }
            let n = 1 + src.usize(40);
            let data = src.bytes(n);
            self.call(ctx, &Call::Write(data), 0)?;
            self.call(ctx, &Call::Flush, 0)?;
            // The rest of the block, in the decipher's case.
            let rest = if which == 1 { 16 - self.model.pending.len() % 16 } else { src.usize(20) };
            let data = src.bytes(rest);
            self.call(ctx, &Call::Write(data), 0)?;
            if which == 1 {
                if let (Some(k), true) = (&self.model.key, self.model.pending.is_empty()) {
                    // A genuine end comes after whatever there was.
                    let text = src.array::<16>();
                    let end = rf::cbc_raw_encrypt(k, &self.model.chain, &rf::pkcs7_pad(&text[..15])).0;
                    self.call(ctx, &Call::Write(end), 0)?;
                }
            }
            self.call(ctx, &Call::Flush, 0)?;
        }
        if self.failed > 0 && self.told {
            ctx.nontrivial();
        }
        Ok(())
    }
}

/// One object with `n` bytes, with or without a key, and one failing call.
fn pointed(src: &mut Src, ctx: &mut Ctx) -> Res {
    let which = src.draw(1);
    let keyed = src.flag();
    let n = src.usize(47);
    let kind = src.draw(2);
    let len = src.usize(400);
    let again = src.usize(2);
    ctx.say(|| format!("{} with {} bytes", ["Cipher", "Decipher"][which as usize], n));
    let iv = src.array::<16>();
    let mut t = Twins::new(which, iv);
    if keyed {
        let key = gen_key(src);
        t.call(ctx, &Call::Init(key), 0)?;
    }
    let data = src.bytes(n);
    t.call(ctx, &Call::Write(data), again)?;
    let call = match kind {
        0 => Call::Flush,
        1 => Call::Write(src.bytes(len)),
        _ => Call::Init(src.bytes(len)),
    };
    t.call(ctx, &call, again)?;
    t.close(src, ctx, which)
}

fn history(src: &mut Src, ctx: &mut Ctx) -> Res {
    let which = src.draw(4).saturating_sub(2);
    // 0..=2 and 3 are the CBC objects, 4 is AES itself.
    let which = [1, 0, 2][which as usize];
    let iv = src.array::<16>();
    ctx.class(["cipher", "decipher", "aes"][which as usize]);
    ctx.say(|| format!("{} iv={}", ["Cipher", "Decipher", "AES"][which as usize], hex(&iv)));
    let mut t = Twins::new(which, iv);
    // Ciphertext still to be delivered.
    let mut queue: Vec<u8> = Vec::new();
    for _ in 0..1 + src.usize(11) {
        let again = if src.chance(1, 4) { 1 + src.usize(2) } else { 0 };
        match src.draw(11) {
            0 | 1 => {
                let key = gen_key(src);
                queue.clear();
                t.call(ctx, &Call::Init(key), 0)?;
            }
            2 | 3 => {
                let key = bad_key(src);
                t.call(ctx, &Call::Init(key), again)?;
            }
            k if which > 1 => {
                let block = src.array::<16>();
                let call = if k % 2 == 0 { Call::Encrypt(block) } else { Call::Decrypt(block) };
                t.call(ctx, &call, again)?;
            }
            4..=8 => {
                if which == 1 && queue.is_empty() && t.model.pending.is_empty() && !src.chance(1, 4) {
                    if let Some(k) = &t.model.key {
                        let n = src.length(60, 16);
                        let text = src.bytes(n);
                        queue = rf::cbc_raw_encrypt(k, &t.model.chain, &rf::pkcs7_pad(&text)).0;
                    }
                }
                let data: Vec<u8> = if queue.is_empty() {
                    let n = src.length(70, 16);
                    src.bytes(n)
                } else {
                    let n = if src.flag() { queue.len() } else { src.usize(queue.len()) };
                    queue.drain(..n).collect()
                };
                t.call(ctx, &Call::Write(data), again)?;
            }
            _ => {
                t.call(ctx, &Call::Flush, again)?;
            }
        }
    }
    if which == 1 && !queue.is_empty() {
        t.call(ctx, &Call::Write(queue), 0)?;
        t.call(ctx, &Call::Flush, 0)?;
    }
    t.close(src, ctx, which)
}

fn run23(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.special(1) {
        0 => history(src, ctx),
        _ => pointed(src, ctx),
    }
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        rule: "histories of 1..12 calls (init valid and invalid, write, flush, encrypt, decrypt; flush also in mid-message and after invalid padding) on one Cipher, Decipher or AES object, and the same without the calls that failed on a second object; every failing flush, write of 0..=64 bytes and key of 0..=400 bytes with every number 0..=47 of bytes before, with and without a key, swept; non-trivial: a failed call, and bytes from a later call",
        run: run23,
        heavy: 0,
        // cipher/decipher, keyed or not, bytes before x (flush, writes, keys)
        sweep_len: |_| 4 * 48 * (1 + 65) + 4 * 16 * 401,
        sweep: |_, i| {
            let writes = 4 * 48 * 66;
            if i < writes {
                let (o, n, k) = (i % 4, i / 4 % 48, i / 192);
                return match k {
                    0 => vec![1, o % 2, o / 2, n, 0, 0, i % 3],
                    k => vec![1, o % 2, o / 2, n, 1, k - 1, k % 3],
                };
            }
            let i = i - writes;
            let (o, n, len) = (i % 4, i / 4 % 16, i / 64);
            vec![1, o % 2, o / 2, 16 + n, 2, len, len % 3]
        },
        random: (3000000, 90000000),
        guided: (300000, 9000000),
    }
}
