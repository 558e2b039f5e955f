//! C26 memory: only what a call was given or made itself is read or written,
//! and nothing is read that was not written before.

use super::platform::{compare_as, history};
use super::system::{gen_op, heavy17, perform, world, Op};
use crate::backend;
use crate::engine::*;
use crate::ensure;

/// Leaves bytes of this value where the next calls will have their locals.
#[inline(never)]
fn stack(with: u8) {
    let mut a = [0u8; 24 << 10];
    for x in a.iter_mut() {
        unsafe { std::ptr::write_volatile(x, with) };
    }
    std::hint::black_box(&a);
}

/// The trace of a run with all fresh memory filled so.
fn filled(with: u8, ctx: &mut Ctx, f: impl Fn(&mut Ctx)) -> u64 {
    let start = ctx.trace;
    exact(true);
    crate::aside::fill(Some(with));
    stack(with);
    let r = crate::catch(|| f(ctx));
    crate::aside::fill(None);
    exact(false);
    let end = ctx.trace;
    ctx.trace = start;
    // What C17 is about.
    ctx.class_if(r.is_err(), "panicked");
    end
}

fn run26(src: &mut Src, ctx: &mut Ctx) -> Res {
    if backend::platform() == "host" {
        let threads = src.flag();
        let code = history(src, ctx, if threads { 30 } else { 60 });
        ctx.class_if(threads, "miri:two-threads");
        ctx.class_if(!threads, "miri:one-thread");
        return compare_as(&code, threads);
    }
    let large = src.special(6);
    let seed = if large != 0 { src.draw(u64::MAX) } else { 0 };
    let focus = src.draw(6);
    let mut ops: Vec<Op> = vec![];
    if large == 0 {
        ops = (0..1 + src.usize(23)).map(|_| gen_op(src, focus)).collect();
        ctx.steps += ops.len() as u64;
        ctx.class(["focus:hash", "focus:hmac", "focus:aes", "focus:cipher", "focus:decipher", "focus:kdf", "focus:salsa"][focus as usize]);
        if ops.len() >= 4 {
            ctx.nontrivial();
        }
        ctx.say(|| ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join(", "));
    } else {
        ctx.nontrivial();
        ctx.class("large");
        ctx.say(|| format!("large case {} of C17", large));
    }
    let run = |ctx: &mut Ctx| {
        if large != 0 {
            heavy17(large, seed, ctx);
            return;
        }
        let mut w = world();
        for op in &ops {
            perform(&mut w, op, ctx);
        }
    };
    let first = filled(0xa6, ctx, run);
    if large == 1 {
        return Ok(());
    }
    let second = filled(0x19, ctx, run);
    ensure!(first == second, "results depend on memory that nothing was written to");
    Ok(())
}

pub fn c26() -> Prop {
    Prop {
        id: "C26",
        rule: "histories of 1..24 calls over the whole public API (misuse that an error covers included) and six large cases, every argument in an allocation of exactly its length: in a build with AddressSanitizer, in builds with and without debug assertions with fresh and freed heap and stack memory filled with one value, then with another, results compared; histories of 1..16 calls under Miri, half of them by two threads at once; non-trivial: at least four calls (three under Miri)",
        run: run26,
        heavy: 0,
        sweep_len: |_| 6,
        sweep: |_, i| vec![1 + i],
        random: (150_000, 4_500_000),
        guided: (30_000, 900_000),
    }
}
