//! C25: a call has no effect but on its object and what it returns. The calls
//! are made in a thread whose system calls with an effect are recorded.

use crate::cage;
use crate::engine::*;
use crate::ensure;
use crate::props::system::{gen_op, heavy17, perform, world, Op};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::io::Write;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Mutex, OnceLock};

enum Job {
    Calls(Vec<Op>),
    Large(u64, u64),
}

struct Done {
    /// None when this thread could not be put into the cage.
    attempts: Option<Vec<cage::Attempt>>,
    panicked: bool,
    surroundings: Option<String>,
    trace: u64,
}

type Environment = (BTreeMap<OsString, OsString>, Option<std::path::PathBuf>);

fn environment() -> Environment {
    (std::env::vars_os().collect(), std::env::current_dir().ok())
}

fn prisoner(jobs: Receiver<Job>, results: Sender<Done>) {
    let mut caged = cage::enter();
    if caged {
        // The cage must notice what a library would do.
        eprintln!("seen by the cage");
        caged = cage::attempts().iter().any(|a| a.data.starts_with(b"seen by"));
    }
    for job in jobs {
        let mut ctx = Ctx::new();
        ctx.start(false);
        let before = environment();
        let r = crate::catch(|| match job {
            Job::Calls(ops) => {
                let mut w = world();
                for op in &ops {
                    perform(&mut w, op, &mut ctx);
                }
            }
            Job::Large(which, seed) => heavy17(which, seed, &mut ctx),
        });
        let after = environment();
        let _ = std::io::stdout().flush();
        let done = Done {
            attempts: if caged { Some(cage::attempts()) } else { None },
            panicked: r.is_err(),
            surroundings: if before == after { None } else { Some(format!("{:?} became {:?}", before, after)) },
            trace: ctx.trace,
        };
        if results.send(done).is_err() {
            return;
        }
    }
}

type Line = (Sender<Job>, Receiver<Done>);

fn ask(job: Job) -> Option<Done> {
    static LINE: OnceLock<Mutex<Line>> = OnceLock::new();
    let line = LINE.get_or_init(|| {
        let (to, jobs) = channel();
        let (results, from) = channel();
        std::thread::spawn(move || prisoner(jobs, results));
        Mutex::new((to, from))
    });
    let line = match line.lock() {
        Ok(l) => l,
        Err(_) => return None,
    };
    // What is in the buffer already is not the library's.
    let _ = std::io::stdout().flush();
    line.0.send(job).ok()?;
    line.1.recv().ok()
}

fn describe(a: &cage::Attempt) -> String {
    let what = match a.number {
        1 => format!("write of {} bytes to descriptor {}", a.len, a.first),
        2 | 257 => "opening of a file to change it".to_string(),
        41 => "socket".to_string(),
        57 | 58 => "fork".to_string(),
        59 | 322 => "execution of a program".to_string(),
        n => format!("system call {} (first argument {:#x})", n, a.first),
    };
    if a.data.is_empty() {
        what
    } else {
        format!("{}: {:?}", what, String::from_utf8_lossy(&a.data))
    }
}

fn run25(src: &mut Src, ctx: &mut Ctx) -> Res {
    let large = src.special(6);
    let job = if large != 0 {
        let seed = src.draw(u64::MAX);
        ctx.nontrivial();
        ctx.class("large");
        ctx.say(|| format!("large case {} of C17", large));
        Job::Large(large, seed)
    } else {
        let focus = src.draw(6);
        let ops: Vec<Op> = (0..1 + src.usize(23)).map(|_| gen_op(src, focus)).collect();
        ctx.steps += ops.len() as u64;
        ctx.class(["focus:hash", "focus:hmac", "focus:aes", "focus:cipher", "focus:decipher", "focus:kdf", "focus:salsa"][focus as usize]);
        if ops.len() >= 4 {
            ctx.nontrivial();
        }
        ctx.say(|| ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join(", "));
        Job::Calls(ops)
    };
    let done = match ask(job) {
        Some(d) => d,
        None => {
            ctx.inconclusive += 1;
            ctx.class("no-thread");
            return Ok(());
        }
    };
    ctx.observe(&done.trace.to_le_bytes());
    ctx.class_if(done.panicked, "panicked");
    if let Some(text) = done.surroundings {
        return fail(format!("the environment or directory of the process: {}", text));
    }
    match done.attempts {
        Some(list) => ensure!(list.is_empty(), "the calls also attempted: {}", list.iter().map(describe).collect::<Vec<_>>().join("; ")),
        None => {
            ctx.inconclusive += 1;
            ctx.class("no-cage");
        }
    }
    Ok(())
}

pub fn c25() -> Prop {
    Prop {
        id: "C25",
        rule: "histories of 1..24 calls over the whole public API (misuse that an error covers included) and six large cases (2^29 bytes hashed, > 2^16 output blocks, p=5000, r=600, N=32768, 2^20 bytes in one write), made in a thread under a seccomp filter that records, and does not carry out, every write, opening of a file to change it, socket, fork, execution, removal and so on; buffered output is flushed inside; environment and directory compared; non-trivial: at least four calls",
        run: run25,
        heavy: 0,
        sweep_len: |_| 6,
        sweep: |_, i| vec![1 + i],
        random: (300000, 9000000),
        guided: (50000, 1500000),
    }
}
