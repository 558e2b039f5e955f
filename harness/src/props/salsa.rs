//! C06 Salsa20 hash.

use crate::engine::*;
use crate::ensure;
use crate::props::kdf::BEYOND;
use crate::reference as rf;
use dumb_crypto::salsa20::salsa20;

fn run06(src: &mut Src, ctx: &mut Ctx) -> Res {
    let large = src.special(21) as usize;
    if large == 21 {
        // Nobody can compute these here; nor may anything else be the answer.
        let rounds = *src.pick(&BEYOND);
        let input = src.bytes(64);
        ctx.nontrivial();
        ctx.class("rounds:>=2^32");
        ctx.say(|| format!("rounds={} input={}: no answer at once", rounds, hex(&input)));
        if let Some(got) = crate::at_once("salsa", rounds, &input, &[]) {
            return fail(format!("salsa20 with {} rounds ended at once, with {}", rounds, got));
        }
        return Ok(());
    }
    let mut blocks = match src.draw(9) {
        0..=6 => 1,
        7 => 2,
        8 => src.usize(8),
        _ => 3,
    };
    let mut rounds = match src.draw(7) {
        0 => src.usize(1),
        1 | 2 => 4,
        3 => 10,
        4 | 5 => src.usize(20),
        6 => src.usize(100),
        _ => *src.pick(&[4usize, 8, 10, 12, 20]),
    };
    if large > 12 {
        blocks = [15usize, 16, 17, 33, 255, 256, 257, 1_025][large - 13];
    } else if large > 0 {
        rounds = [127usize, 128, 129, 254, 255, 256, 257, 511, 512, 65_535, 65_536, 65_537][large - 1];
    }
    let input = src.bytes(64 * blocks);
    let fill = src.draw(255) as u8;
    ctx.class_if(blocks == 0, "blocks:0");
    ctx.class_if(blocks == 1, "blocks:1");
    ctx.class_if(blocks > 1, "blocks:many");
    ctx.class_if(rounds == 0, "rounds:0");
    ctx.class_if(rounds == 4, "rounds:4");
    ctx.class_if(rounds == 10, "rounds:10");
    if blocks > 0 && rounds > 0 && input.iter().any(|b| *b != 0) {
        ctx.nontrivial();
    }
    ctx.say(|| format!("rounds={} input[{}]={}", rounds, input.len(), hex(&input)));
    let lead = usize::from(fill) % 16;
    let mut out = vec![fill; input.len() + lead];
    let got = &mut out[lead..];
    salsa20(at(DATA, &input), rounds, got);
    ctx.observe(got);
    let want = rf::salsa20(&input, rounds);
    ensure!(got == want, "salsa20 of {} bytes, {} rounds: {}", input.len(), rounds, diff(got, &want));
    Ok(())
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "inputs of 0..8 blocks (every single-bit block swept for 1, 4 and 10 rounds), 0..100 rounds (all swept), 127..65537 rounds and up to 1025 blocks at twenty points, four round counts of 2^32 and more (which must not be answered at once), output buffers with a generated previous content; non-trivial: a non-zero input of at least one block and at least one round",
        run: run06,
        // single-bit inputs x 3 round counts, rounds 0..=100, blocks 0..=8
        heavy: 0,
        sweep_len: |_| 512 * 3 + 101 * 4 + 9 * 20 + 60 + BEYOND.len() as u64,
        sweep: |_, i| {
            if i >= 512 * 3 + 101 * 4 + 9 * 20 + 60 {
                return vec![21, i - (512 * 3 + 101 * 4 + 9 * 20 + 60)];
            }
            if i < 1536 {
                let bit = i % 512;
                let rounds = [1u64, 4, 10][(i / 512) as usize];
                // blocks=1, rounds via draw(20), bytes: sparse, zero background, one byte
                return vec![0, 0, 4, rounds, 6, 0, 0, bit / 8, 1 << (bit % 8)];
            }
            let i = i - 1536;
            if i < 404 {
                return vec![0, 0, 6, i % 101];
            }
            let i = i - 404;
            if i < 180 {
                return vec![0, 8, i % 9, 4, i / 9];
            }
            vec![1 + (i - 180) % 20]
        },
        random: (20000000, 600000000),
        guided: (2000000, 60000000),
    }
}
