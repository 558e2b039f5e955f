//! C18 what the rejection of a message's padding tells by its time.

use crate::engine::*;
use crate::ensure;
use crate::reference as rf;
use crate::step::{in_program, stepped, Path};
use dumb_crypto::aes_cbc::{Decipher, DecipherError};
use std::sync::Once;

struct Scene {
    key: Vec<u8>,
    iv: [u8; 16],
    /// Padded text of a message before, flushed; may be empty.
    earlier: Vec<u8>,
    /// Whole blocks of the message before its last.
    lead: Vec<u8>,
    cut: usize,
    /// Step the second of two flushes.
    again: bool,
}

/// A decipher that has been given everything, `last` as the final block.
fn ready(s: &Scene, aes: &rf::RefAes, last: &[u8; 16]) -> Result<Decipher, Fail> {
    let mut text = s.earlier.clone();
    text.extend_from_slice(&s.lead);
    text.extend_from_slice(last);
    let ct = rf::cbc_raw_encrypt(aes, &s.iv, &text).0;
    let mut d = Decipher::new(s.iv);
    let bad = |what: &str| Fail { sig: None, msg: format!("{} failed", what) };
    d.init(&s.key).map_err(|_| bad("init"))?;
    let (first, rest) = ct.split_at(s.earlier.len());
    if !first.is_empty() {
        d.write(first).map_err(|_| bad("write"))?;
        d.flush().map_err(|_| bad("flush of an intact message"))?;
    }
    let cut = s.cut.min(rest.len());
    d.write(&rest[..cut]).map_err(|_| bad("write"))?;
    d.write(&rest[cut..]).map_err(|_| bad("write"))?;
    Ok(d)
}

/// Every stepped flush is this one.
#[inline(never)]
fn flush(d: &mut Decipher) -> (Result<Vec<u8>, DecipherError>, Path) {
    let (r, p) = stepped(|| crate::catch(|| d.flush()));
    match r {
        Ok(r) => (r, p),
        Err(text) => std::panic::panic_any(text),
    }
}

fn reject(d: &mut Decipher, s: &Scene, last: &[u8; 16]) -> Result<Path, Fail> {
    if s.again {
        let _ = d.flush();
    }
    let (r, p) = flush(d);
    ensure!(r.is_err(), "a final block {} was accepted", hex(last));
    Ok(p)
}

static WARM: Once = Once::new();

fn run18(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 2 + src.usize(14);
    let spread = src.draw(3);
    let n_key = *src.pick(&[16usize, 24, 32]);
    let key = src.bytes(n_key);
    let iv = src.array::<16>();
    let k = src.usize(3);
    let lead = src.bytes(16 * k);
    let cut = src.usize(16 * (k + 1));
    let again = src.chance(1, 8);
    let earlier = if src.chance(1, 4) {
        let m = src.usize(40);
        rf::pkcs7_pad(&src.bytes(m))
    } else {
        vec![]
    };
    let text = src.array::<16>();
    let base = {
        let mut b = text;
        b[16 - n..].iter_mut().for_each(|x| *x = n as u8);
        b
    };
    // Blocks that announce n and are wrong in different places.
    let mut blocks = Vec::new();
    let wrong = |src: &mut Src| 1 + src.draw(254) as u8;
    match spread {
        // Each single place.
        0 => {
            let x = wrong(src);
            for i in 16 - n..15 {
                let mut b = base;
                b[i] ^= x;
                blocks.push(b);
            }
        }
        // From the front, and from the back, more and more of them.
        1 => {
            let x = wrong(src);
            for i in 16 - n..15 {
                let mut b = base;
                b[16 - n..=i].iter_mut().for_each(|y| *y ^= x);
                blocks.push(b);
                let mut b = base;
                b[i..15].iter_mut().for_each(|y| *y ^= x);
                blocks.push(b);
            }
        }
        // One place, several wrong values.
        2 => {
            let i = 16 - n + src.usize(n - 2);
            for _ in 0..8 {
                let mut b = base;
                b[i] ^= wrong(src);
                blocks.push(b);
            }
        }
        _ => {
            for _ in 0..8 {
                let mut b = base;
                for y in b[16 - n..15].iter_mut() {
                    if src.flag() {
                        *y ^= wrong(src);
                    }
                }
                b[16 - n + src.usize(n - 2)] = n as u8 ^ wrong(src);
                blocks.push(b);
            }
        }
    }
    blocks.sort_unstable();
    blocks.dedup();
    let scene = Scene { key, iv, earlier, lead, cut, again };
    ctx.say(|| format!(
        "key={} iv={} {} whole blocks before, cut {}, earlier message of {} bytes, flushed twice: {}, final blocks {}",
        hex(&scene.key), hex(&scene.iv), k, cut, scene.earlier.len(), again,
        blocks.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ")
    ));
    ctx.class_if(again, "second-flush");
    ctx.class_if(!scene.earlier.is_empty(), "after-a-message");
    let aes = rf::RefAes::new(&scene.key);
    WARM.call_once(|| {
        for b in &blocks {
            if let Ok(mut d) = ready(&scene, &aes, b) {
                let _ = flush(&mut d);
                let _ = flush(&mut d);
            }
        }
    });
    let mut objects = Vec::new();
    for b in &blocks {
        objects.push(ready(&scene, &aes, b)?);
    }
    let mut paths = Vec::new();
    for (d, b) in objects.iter_mut().zip(&blocks) {
        paths.push(reject(d, &scene, b)?);
        ctx.steps += paths[paths.len() - 1].len() as u64;
    }
    if paths.iter().any(|p| p.is_empty()) {
        ctx.class("no-stepping");
        ctx.inconclusive += 1;
        return Ok(());
    }
    if blocks.len() > 1 {
        ctx.nontrivial();
    }
    let Some(i) = (1..paths.len()).find(|i| paths[*i] != paths[0]) else {
        return Ok(());
    };
    // Only what comes again every time counts.
    const ORDER: [usize; 10] = [0, 1, 1, 0, 1, 0, 0, 0, 1, 1];
    let two = [blocks[0], blocks[i]];
    let mut objects = Vec::new();
    for k in ORDER {
        objects.push(ready(&scene, &aes, &two[k])?);
    }
    let mut seen: [Vec<Path>; 2] = [vec![], vec![]];
    for (d, k) in objects.iter_mut().zip(ORDER) {
        seen[k].push(reject(d, &scene, &two[k])?);
    }
    for whole in [true, false] {
        let [a, b] = [0, 1].map(|k| {
            let v: Vec<Path> = seen[k].iter().map(|p| if whole { p.clone() } else { in_program(p) }).collect();
            if v.iter().all(|p| *p == v[0]) {
                Some(v[0].clone())
            } else {
                None
            }
        });
        if let (Some(a), Some(b)) = (a, b) {
            let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            ensure!(
                a == b,
                "rejecting {} takes {} instructions and rejecting {} takes {}, the same each time; they part after {}",
                hex(&two[0]), a.len(), hex(&two[1]), b.len(), at
            );
            ctx.class("settled-by-repeating");
            return Ok(());
        }
    }
    ctx.class("not-repeatable");
    ctx.inconclusive += 1;
    Ok(())
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "sets of 2..28 final blocks that announce the same padding length (2..16, all swept) and are wrong in different places (each single place, growing runs from both ends, one place with different values, arbitrary sets), after generated keys, IVs, earlier blocks, cuts and messages; the instruction path of every rejecting flush is recorded; non-trivial: at least two different blocks and recorded paths",
        run: run18,
        heavy: 0,
        sweep_len: |_| 15 * 4 * 6,
        sweep: |_, i| vec![i % 15, (i / 15) % 4, i / 60 % 3],
        random: (12_000, 1_500_000),
        guided: (0, 0),
    }
}
