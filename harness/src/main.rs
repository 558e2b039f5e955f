//! Worker of the property checks. See ../../DESIGN.md; driven by ../../check.py.

mod aside;
mod backend;
mod cage;
mod engine;
#[path = "../../narrow/interp.rs"]
mod interp;
mod model;
mod props;
mod reference;
mod step;
#[cfg(feature = "guided")]
mod cov;

use engine::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};

#[global_allocator]
static ALLOC: aside::Trap = aside::Trap;

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => match info.payload().downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => "panic".to_string(),
            },
        };
        let (file, line) = match info.location() {
            Some(l) => (l.file().to_string(), l.line()),
            None => ("?".to_string(), 0),
        };
        let text = format!("panicked at {}:{}: {}", file, line, msg);
        let quiet = QUIET.try_with(|q| q.get()).unwrap_or(false);
        if !quiet {
            eprintln!("{}", text);
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some((file, text)));
    }));
}

/// Source files of this crate; everything else that panics is the crate under
/// test (or std on its behalf).
fn ours(file: &str) -> bool {
    file.starts_with("src/") || file.contains("/harness/src/")
}

/// Run code of the crate under test; a panic there becomes an error text. A
/// panic of the harness itself ends the process: that is no verdict.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(before));
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let (file, text) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| ("?".into(), "panicked".into()));
            if ours(&file) {
                eprintln!("harness error: {}", text);
                std::process::exit(70);
            }
            Err(text)
        }
    }
}

fn eval(prop: &Prop, src: &mut Src, ctx: &mut Ctx, want_text: bool) -> Res {
    ctx.start(want_text);
    match catch(|| (prop.run)(src, ctx)) {
        Ok(r) => r,
        Err(text) => Err(Fail { sig: None, msg: text }),
    }
}

// -------------------------------------------------------------- arguments

struct Args(HashMap<String, String>);

impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    fn str(&self, k: &str) -> &str {
        self.get(k).unwrap_or_else(|| die(&format!("missing --{}", k)))
    }
    fn num(&self, k: &str) -> u64 {
        self.str(k).parse().unwrap_or_else(|_| die(&format!("bad --{}", k)))
    }
}

fn die(msg: &str) -> ! {
    eprintln!("verif: {}", msg);
    std::process::exit(64);
}

fn read_tape(path: &str) -> Vec<u64> {
    let mut s = String::new();
    if path == "-" {
        let _ = std::io::stdin().read_to_string(&mut s);
    } else {
        s = std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{}: {}", path, e)));
    }
    let mut tape = Vec::new();
    for line in s.lines() {
        if let Some(rest) = line.strip_prefix("tape:") {
            tape = rest.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        }
    }
    tape
}

// ------------------------------------------------------------------- JSON

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn tape_json(t: &[u64]) -> String {
    format!("[{}]", t.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","))
}

// -------------------------------------------------------------- shrinking

struct Shrinker<'a> {
    prop: &'a Prop,
    known: &'a HashSet<String>,
    budget: usize,
    deadline: std::time::Instant,
}

impl Shrinker<'_> {
    fn fails(&mut self, tape: &[u64]) -> Option<Vec<u64>> {
        if self.budget == 0 || std::time::Instant::now() > self.deadline {
            return None;
        }
        self.budget -= 1;
        let mut ctx = Ctx::new();
        let mut src = Src::replay(tape);
        match eval(self.prop, &mut src, &mut ctx, false) {
            Err(f) if !f.sig.as_ref().map_or(false, |s| self.known.contains(s)) => {
                let mut t = src.tape;
                while t.last() == Some(&0) {
                    t.pop();
                }
                Some(t)
            }
            _ => None,
        }
    }

    fn run(&mut self, tape: Vec<u64>) -> Vec<u64> {
        let mut best = tape;
        if let Some(t) = self.fails(&best.clone()) {
            best = t;
        }
        loop {
            let before = best.clone();
            // Cut the end.
            let mut n = best.len() / 2;
            while n > 0 {
                if best.len() >= n {
                    let t = best[..best.len() - n].to_vec();
                    if let Some(t) = self.fails(&t) {
                        best = t;
                        continue;
                    }
                }
                n /= 2;
            }
            // Remove or zero runs.
            for size in [32usize, 16, 8, 4, 2, 1] {
                let mut i = 0;
                while i + size <= best.len() {
                    let mut t = best.clone();
                    t.drain(i..i + size);
                    if let Some(t) = self.fails(&t) {
                        if t.len() < best.len() {
                            best = t;
                            continue;
                        }
                    }
                    if best[i..i + size].iter().any(|x| *x != 0) {
                        let mut t = best.clone();
                        t[i..i + size].iter_mut().for_each(|x| *x = 0);
                        if let Some(t) = self.fails(&t) {
                            if t.len() <= best.len() {
                                best = t;
                            }
                        }
                    }
                    i += size;
                }
            }
            // Lower single values.
            let mut i = 0;
            while i < best.len() {
                let mut lo = 0;
                let mut hi = best[i];
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    let mut t = best.clone();
                    t[i] = mid;
                    match self.fails(&t) {
                        Some(t) if t.len() <= best.len() && i < t.len() && t[i] == mid => {
                            best = t;
                            hi = mid;
                        }
                        Some(t) if t.len() <= best.len() => {
                            best = t;
                            break;
                        }
                        _ => lo = mid + 1,
                    }
                }
                i += 1;
            }
            if best == before || self.budget == 0 {
                return best;
            }
        }
    }
}

// ----------------------------------------------------------------- worker

struct Tally {
    evaluations: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    samples: Vec<String>,
    known_hits: BTreeMap<String, (u64, String)>,
}

impl Tally {
    fn count(&mut self, tape: &[u64]) {
        self.nontrivial += 1;
        // Beyond this the distinct count is a lower bound.
        if self.hashes.len() < 6_000_000 {
            self.hashes.insert(hash_tape(tape));
        }
    }
}

fn hash_tape(t: &[u64]) -> u64 {
    let mut h = t.len() as u64;
    for x in t {
        h = mix64(h ^ *x).wrapping_add(0x9e37_79b9_7f4a_7c15);
    }
    mix64(h)
}

struct Violation {
    msg: String,
    text: String,
    tape: Vec<u64>,
    original: Vec<u64>,
    index: u64,
}

fn settle(
    prop: &Prop,
    known: &HashSet<String>,
    f: Fail,
    tape: Vec<u64>,
    index: u64,
    tally: &mut Tally,
    steady: bool,
) -> Option<Violation> {
    if let Some(s) = &f.sig {
        if known.contains(s) {
            let e = tally.known_hits.entry(s.clone()).or_insert((0, f.msg));
            e.0 += 1;
            return None;
        }
    }
    // Shrink and describe.
    if let Ok(mut g) = FAILED.lock() {
        SINCE.fetch_max(BEGIN.get().map_or(0, |b| b.elapsed().as_secs()), Ordering::SeqCst);
        *g = Some((f.msg.clone(), tape_json(&tape)));
    }
    let mut shrinker = Shrinker {
        prop,
        known,
        budget: 3000,
        deadline: std::time::Instant::now() + std::time::Duration::from_secs(if backend::platform() == "big" { 25 } else { 60 }),
    };
    let mut small = if steady { shrinker.run(tape.clone()) } else { tape.clone() };
    let mut ctx = Ctx::new();
    let mut src = Src::replay(&small);
    let mut r = eval(prop, &mut src, &mut ctx, true);
    if r.is_ok() {
        // Does not fail again on its own (threads): keep the original.
        small = tape.clone();
        let mut src = Src::replay(&small);
        r = eval(prop, &mut src, &mut ctx, true);
    }
    let msg = match r {
        Err(f) => f.msg,
        Ok(()) => f.msg,
    };
    Some(Violation { msg, text: ctx.text, tape: small, original: tape, index })
}

/// Where the worker is, for the thread that watches it.
static AT: AtomicU64 = AtomicU64::new(0);
static SINCE: AtomicU64 = AtomicU64::new(0);
static BEGIN: OnceLock<std::time::Instant> = OnceLock::new();
static FAILED: Mutex<Option<(String, String)>> = Mutex::new(None);

/// Reports a case that does not end. The limits are far above what any case
/// takes on the unchanged tree (the heavy ones about 30 s, others below 5 s).
fn watch(begin: std::time::Instant, out: String, prop: String, heavy: u64, thorough: bool) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let k = AT.load(Ordering::SeqCst);
        let since = SINCE.load(Ordering::SeqCst);
        let now = begin.elapsed().as_secs();
        // A failure that is being shrunk, when a smaller case hangs.
        let failed = match FAILED.lock() {
            Ok(f) => f.clone(),
            Err(_) => None,
        };
        let limit = if failed.is_some() {
            100
        } else if k < heavy {
            if thorough && k == 0 { 7200 } else { 500 }
        } else {
            200
        };
        if now > since + limit && AT.load(Ordering::SeqCst) == k && SINCE.load(Ordering::SeqCst) == since {
            let (msg, tape) = match failed {
                Some((m, t)) => (m, t),
                None => (format!("a call did not return within {} s", limit), "null".to_string()),
            };
            let text = format!("case {} of the stream of {}", k, prop);
            let o = format!(
                "{{\"evaluations\":0,\"nontrivial\":0,\"steps\":0,\"excluded\":0,\"inconclusive\":0,\"classes\":{{}},\"known\":{{}},\"samples\":[],\"violation\":{{\"message\":{},\"case\":{},\"index\":{},\"tape\":{}}}}}",
                quote(&msg), quote(&text), k, tape
            );
            let _ = std::fs::write(&out, o);
            std::process::exit(0);
        }
    });
}

fn worker(a: &Args) {
    let id = a.str("prop").to_string();
    let all = props::all();
    let prop = all.iter().find(|p| p.id == id).unwrap_or_else(|| die("no such property"));
    let seed = a.num("seed");
    let thorough = a.str("tier") == "thorough";
    let (shard, shards) = (a.num("shard"), a.num("shards"));
    let (from, to) = (a.num("sweep-from"), a.num("sweep-to"));
    let count = a.num("count");
    let stream = a.str("stream").to_string();
    let guided = a.get("guided").is_some();
    let known: HashSet<String> = match a.get("known") {
        Some(p) => std::fs::read_to_string(p).unwrap_or_default().lines().map(|l| l.to_string()).collect(),
        None => HashSet::new(),
    };
    let mut trace = a.get("trace").map(|p| {
        std::io::BufWriter::new(std::fs::File::create(p).unwrap_or_else(|e| die(&e.to_string())))
    });
    let progress = a.get("progress").map(|p| std::fs::File::create(p).unwrap_or_else(|e| die(&e.to_string())));
    let only: Option<u64> = a.get("only").map(|s| s.parse().unwrap_or_else(|_| die("bad --only")));

    let mut ctx = Ctx::new();
    let mut tally = Tally {
        evaluations: 0,
        nontrivial: 0,
        hashes: HashSet::new(),
        samples: vec![],
        known_hits: BTreeMap::new(),
    };
    let mut violation = None;
    #[allow(unused_mut)]
    let mut extra = String::new();
    let begin = *BEGIN.get_or_init(std::time::Instant::now);
    watch(begin, a.str("out").to_string(), id.clone(), if guided { 0 } else { to.saturating_sub(from) }, thorough);
    let note = |i: u64| {
        AT.store(i, Ordering::SeqCst);
        SINCE.store(begin.elapsed().as_secs(), Ordering::SeqCst);
        if let Some(f) = &progress {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(&i.to_le_bytes(), 0);
        }
    };

    if !guided {
        let sweeps = to.saturating_sub(from);
        let total = sweeps + count;
        let mut k = shard;
        // Samples at fixed places of the random part.
        let first = tally_first(sweeps, shard, shards);
        while k < total {
            if only.map_or(false, |o| o != k) {
                k += shards;
                continue;
            }
            note(k);
            let rng = Rng(case_seed(seed, &id, &stream, k));
            let point;
            let mut src = if k < sweeps {
                point = (prop.sweep)(thorough, from + k);
                Src::sweep(&point, rng)
            } else {
                Src::random(rng)
            };
            let want = shard == 0 && k >= first && (k - first) / shards < 40 && tally.samples.len() < 4;
            let r = eval(prop, &mut src, &mut ctx, want);
            let tape = std::mem::take(&mut src.tape);
            tally.evaluations += 1;
            if let Some(t) = &mut trace {
                let _ = t.write_all(&ctx.trace.to_le_bytes());
            }
            if ctx.nontrivial {
                    tally.count(&tape);
                if want && ctx.text.len() < 4000 {
                    tally.samples.push(ctx.text.clone());
                }
            }
            if let Err(f) = r {
                let steady = !ctx.unsteady;
                violation = settle(prop, &known, f, tape, k, &mut tally, steady);
                if violation.is_some() {
                    break;
                }
            }
            k += shards;
        }
    } else {
        #[cfg(feature = "guided")]
        {
            let (v, e) = guided_loop(prop, &id, seed, &stream, count, &known, &mut ctx, &mut tally, &note);
            violation = v;
            extra = e;
        }
        #[cfg(not(feature = "guided"))]
        die("not a guided build");
    }
    drop(trace);

    if let Some(p) = a.get("hashes") {
        let mut v: Vec<u64> = tally.hashes.iter().copied().collect();
        v.sort_unstable();
        let mut b = Vec::with_capacity(v.len() * 8);
        for x in v {
            b.extend_from_slice(&x.to_le_bytes());
        }
        std::fs::write(p, b).unwrap_or_else(|e| die(&e.to_string()));
    }
    let mut o = String::from("{");
    o.push_str(&format!(
        "\"evaluations\":{},\"nontrivial\":{},\"steps\":{},\"excluded\":{},\"inconclusive\":{}",
        tally.evaluations, tally.nontrivial, ctx.steps, ctx.excluded, ctx.inconclusive
    ));
    o.push_str(",\"classes\":{");
    o.push_str(&ctx.classes.iter().map(|(k, v)| format!("{}:{}", quote(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"known\":{");
    o.push_str(
        &tally
            .known_hits
            .iter()
            .map(|(k, (n, m))| format!("{}:[{},{}]", quote(k), n, quote(m)))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("},\"samples\":[");
    o.push_str(&tally.samples.iter().map(|s| quote(s)).collect::<Vec<_>>().join(","));
    o.push(']');
    o.push_str(&extra);
    if let Some(v) = &violation {
        o.push_str(&format!(
            ",\"violation\":{{\"message\":{},\"case\":{},\"index\":{},\"tape\":{},\"original\":{}}}",
            quote(&v.msg),
            quote(&v.text),
            v.index,
            tape_json(&v.tape),
            tape_json(&v.original)
        ));
    }
    o.push('}');
    std::fs::write(a.str("out"), o).unwrap_or_else(|e| die(&e.to_string()));
    backend::stop();
    // Parked helper threads must not hold the exit up.
    std::process::exit(0);
}

fn tally_first(sweeps: u64, shard: u64, shards: u64) -> u64 {
    let mut k = shard;
    if k < sweeps {
        k += (sweeps - k).div_ceil(shards) * shards;
    }
    k
}

#[cfg(feature = "guided")]
#[allow(clippy::too_many_arguments)]
fn guided_loop(
    prop: &Prop,
    id: &str,
    seed: u64,
    stream: &str,
    count: u64,
    known: &HashSet<String>,
    ctx: &mut Ctx,
    tally: &mut Tally,
    note: &dyn Fn(u64),
) -> (Option<Violation>, String) {
    let mut cov = cov::Coverage::new();
    let mut corpus: Vec<(Vec<u64>, Vec<u64>)> = Vec::new();
    let mut choose = Rng(case_seed(seed, id, stream, u64::MAX));
    let mut violation = None;
    let mut mutated = 0u64;
    for k in 0..count {
        note(k);
        let rng = Rng(case_seed(seed, id, stream, k));
        let prefix = if k < 200 || corpus.is_empty() || choose.upto(9) == 0 {
            vec![]
        } else {
            mutated += 1;
            mutate(&corpus, cov.dictionary(), &mut choose)
        };
        let mut src = Src::mutated(&prefix, rng);
        cov.start();
        let r = eval(prop, &mut src, ctx, false);
        let new = cov.finish(!ctx.unsteady);
        let (tape, bounds) = (std::mem::take(&mut src.tape), std::mem::take(&mut src.bounds));
        tally.evaluations += 1;
        if ctx.nontrivial {
            tally.count(&tape);
        }
        if let Err(f) = r {
            let steady = !ctx.unsteady;
            violation = settle(prop, known, f, tape, k, tally, steady);
            if violation.is_some() {
                break;
            }
            continue;
        }
        if new && corpus.len() < 4000 {
            corpus.push((tape, bounds));
        }
    }
    let extra = format!(
        ",\"guided\":{{\"mutated\":{},\"corpus\":{},\"edges\":{},\"edges_total\":{},\"comparisons\":{},\"dictionary\":{}}}",
        mutated,
        corpus.len(),
        cov.edges,
        cov.total(),
        cov.comparisons(),
        cov.dictionary().len()
    );
    (violation, extra)
}

#[cfg(feature = "guided")]
fn mutate(corpus: &[(Vec<u64>, Vec<u64>)], dict: &[u64], r: &mut Rng) -> Vec<u64> {
    // Half of the time one of the newest entries.
    let pick = |r: &mut Rng| -> usize {
        let n = corpus.len() as u64;
        if r.upto(1) == 0 {
            (n - 1 - r.upto((n - 1).min(15))) as usize
        } else {
            r.upto(n - 1) as usize
        }
    };
    let (t, b) = &corpus[pick(r)];
    let mut t = t.clone();
    let mut b = b.clone();
    for _ in 0..=r.upto(3) {
        if t.is_empty() {
            break;
        }
        let i = r.upto(t.len() as u64 - 1) as usize;
        let max = if b[i] == SPECIAL { 0 } else { b[i] };
        match r.upto(11) {
            0 | 1 => t[i] = r.upto(max),
            2 => t[i] = if max == u64::MAX { t[i].wrapping_add(1) } else { (t[i] + 1).min(max) },
            3 => t[i] = t[i].saturating_sub(1),
            4 => t[i] = 0,
            5 => t[i] = max,
            6 | 7 => {
                if !dict.is_empty() {
                    let d = dict[r.upto(dict.len() as u64 - 1) as usize];
                    let d = if r.upto(3) == 0 { d.wrapping_add(r.upto(2)).wrapping_sub(1) } else { d };
                    // The constant, or one of its bytes, where it fits.
                    let v = if d <= max { d } else { (d >> (8 * r.upto(7))) & 0xff };
                    if v <= max {
                        t[i] = v;
                    }
                }
            }
            8 => {
                // Delete.
                let n = (1 + r.upto(7) as usize).min(t.len() - i);
                t.drain(i..i + n);
                b.drain(i..i + n);
            }
            9 => {
                // Repeat.
                let n = (1 + r.upto(15) as usize).min(t.len() - i);
                let (x, y) = (t[i..i + n].to_vec(), b[i..i + n].to_vec());
                t.splice(i..i, x);
                b.splice(i..i, y);
            }
            10 => {
                // Continue like another entry.
                let (t2, b2) = &corpus[pick(r)];
                let j = if t2.is_empty() { 0 } else { r.upto(t2.len() as u64 - 1) as usize };
                t.truncate(i);
                b.truncate(i);
                t.extend_from_slice(&t2[j..]);
                b.extend_from_slice(&b2[j..]);
            }
            _ => {
                // Copy one value of the case to another place.
                let j = r.upto(t.len() as u64 - 1) as usize;
                if t[j] <= max {
                    t[i] = t[j];
                }
            }
        }
    }
    t
}

// ---------------------------------------------------------------- the rest

fn replay(a: &Args) {
    let id = a.str("prop").to_string();
    let all = props::all();
    let prop = all.iter().find(|p| p.id == id).unwrap_or_else(|| die("no such property"));
    let tape = read_tape(a.str("tape"));
    let mut ctx = Ctx::new();
    let mut src = Src::replay(&tape);
    if let Some(path) = a.get("show") {
        // In case it does not come back.
        ctx.show = Some(path.to_string());
    }
    let r = eval(prop, &mut src, &mut ctx, true);
    backend::stop();
    println!("case: {}", ctx.text);
    println!("trace: {:016x}", ctx.trace);
    match r {
        Ok(()) => {
            println!("held");
            std::process::exit(0);
        }
        Err(f) => {
            println!("FAILED: {}", f.msg);
            std::process::exit(1);
        }
    }
}

/// Tapes on stdin, one per line; prints the trace of each (and nothing else),
/// for the comparison of builds.
fn traces(a: &Args) {
    let id = a.str("prop").to_string();
    let all = props::all();
    let prop = all.iter().find(|p| p.id == id).unwrap_or_else(|| die("no such property"));
    let mut s = String::new();
    let _ = std::io::stdin().read_to_string(&mut s);
    let mut out = String::new();
    for line in s.lines() {
        let tape: Vec<u64> = line.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let mut ctx = Ctx::new();
        let mut src = Src::replay(&tape);
        let failed = eval(prop, &mut src, &mut ctx, false).is_err();
        out.push_str(&format!("{:016x}{}\n", ctx.trace, if failed { " failed" } else { "" }));
    }
    print!("{}", out);
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}

/// The tape of one case of a random stream.
fn tape_of(a: &Args) {
    let id = a.str("prop").to_string();
    let all = props::all();
    let prop = all.iter().find(|p| p.id == id).unwrap_or_else(|| die("no such property"));
    let k = a.num("index");
    let (from, to) = (a.num("sweep-from"), a.num("sweep-to"));
    let rng = Rng(case_seed(a.num("seed"), &id, a.str("stream"), k));
    let point;
    let mut src = if k < to - from {
        point = (prop.sweep)(a.str("tier") == "thorough", from + k);
        Src::sweep(&point, rng)
    } else {
        Src::random(rng)
    };
    let mut ctx = Ctx::new();
    if let Some(path) = a.get("spill") {
        spill_to(std::fs::File::create(path).unwrap_or_else(|e| die(&e.to_string())));
    }
    let _ = eval(prop, &mut src, &mut ctx, false);
    println!("{}", src.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    std::process::exit(0);
}

fn count_distinct(files: &[String]) {
    let mut all: Vec<u64> = Vec::new();
    for f in files {
        let b = std::fs::read(f).unwrap_or_else(|e| die(&format!("{}: {}", f, e)));
        all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])));
    }
    all.sort_unstable();
    all.dedup();
    println!("{}", all.len());
}

/// One call whose work must take minutes, in a process of its own.
fn long(kind: &str, n: usize, input: &[u8], more: &[u8]) {
    let mut out = [0u8; 64];
    match kind {
        "pbkdf2" => dumb_crypto::pbkdf2::pbkdf2_sha256(input, more, n, &mut out[..32]),
        "salsa" => dumb_crypto::salsa20::salsa20(input, n, &mut out),
        _ => die("long: unknown call"),
    }
    println!("{}", hexenc(&out));
    std::process::exit(0);
}

/// What the call gives within a second and a half; None if it goes on.
pub fn at_once(kind: &str, n: usize, input: &[u8], more: &[u8]) -> Option<String> {
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().ok()?;
    let mut child = Command::new(exe)
        .args(["long", kind, &n.to_string(), &format!("x{}", hexenc(input)), &format!("x{}", hexenc(more))])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let begin = std::time::Instant::now();
    let mut status = None;
    while status.is_none() && begin.elapsed().as_millis() < 1500 {
        std::thread::sleep(std::time::Duration::from_millis(5));
        status = child.try_wait().ok()?;
    }
    if status.is_none() {
        let _ = child.kill();
    }
    let _ = child.wait();
    // Ended by a signal: not by the library.
    let code = status?.code()?;
    let mut text = String::new();
    child.stdout.take()?.read_to_string(&mut text).ok()?;
    Some(if code == 0 { text.trim().to_string() } else { "no result (it panicked)".to_string() })
}

fn hexdec(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

fn hexenc(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// The reference implementations as a filter, to be compared with OpenSSL.
fn oracle() {
    let mut s = String::new();
    let _ = std::io::stdin().read_to_string(&mut s);
    let mut out = String::new();
    for line in s.lines() {
        let f: Vec<&str> = line.split(' ').collect();
        let n = |i: usize| f[i].parse::<usize>().unwrap_or(0);
        let h = |i: usize| hexdec(f[i].trim_start_matches('x'));
        let block = |v: Vec<u8>| {
            let mut a = [0u8; 16];
            a.copy_from_slice(&v);
            a
        };
        let r = match f[0] {
            "sha" => reference::sha256(&h(1)).to_vec(),
            "hmac" => reference::hmac(&h(1), &h(2)).to_vec(),
            "pbkdf2" => reference::pbkdf2(&h(1), &h(2), n(3), n(4)),
            "scrypt" => reference::scrypt(&h(1), &h(2), n(3), n(4), n(5), n(6)),
            "aesenc" => reference::RefAes::new(&h(1)).encrypt(&block(h(2))).to_vec(),
            "aesdec" => reference::RefAes::new(&h(1)).decrypt(&block(h(2))).to_vec(),
            "cbc" => {
                reference::cbc_raw_encrypt(&reference::RefAes::new(&h(1)), &block(h(2)), &reference::pkcs7_pad(&h(3))).0
            }
            "uncbc" => {
                let t = reference::cbc_raw_decrypt(&reference::RefAes::new(&h(1)), &block(h(2)), &h(3));
                match if h(3).len() % 16 != 0 { Err(reference::Bad::Unfinished) } else { reference::pkcs7_unpad(&t) } {
                    Ok(n) => t[..n].to_vec(),
                    Err(_) => {
                        out.push_str("bad\n");
                        continue;
                    }
                }
            }
            "salsa" => reference::salsa20(&h(1), n(2)),
            _ => die("oracle: unknown request"),
        };
        out.push_str(&hexenc(&r));
        out.push('\n');
    }
    print!("{}", out);
}

fn main() {
    install_hook();
    let argv: Vec<String> = std::env::args().collect();
    let mut m = HashMap::new();
    let mut i = 2;
    while i < argv.len() {
        if let Some(k) = argv[i].strip_prefix("--") {
            let v = argv.get(i + 1).cloned().unwrap_or_default();
            m.insert(k.to_string(), v);
            i += 2;
        } else {
            i += 1;
        }
    }
    let a = Args(m);
    match argv.get(1).map(|s| s.as_str()) {
        Some("long") => {
            let f = |i: usize| hexdec(argv.get(i).map_or("", |s| s.trim_start_matches('x')));
            let n = argv.get(3).and_then(|s| s.parse().ok()).unwrap_or(0);
            long(argv.get(2).map_or("", |s| s.as_str()), n, &f(4), &f(5))
        }
        Some("list") => {
            for p in props::all() {
                println!(
                    "{{\"id\":{},\"rule\":{},\"heavy\":{},\"sweep\":[{},{}],\"random\":[{},{}],\"guided\":[{},{}]}}",
                    quote(p.id),
                    quote(p.rule),
                    p.heavy,
                    (p.sweep_len)(false),
                    (p.sweep_len)(true),
                    p.random.0,
                    p.random.1,
                    p.guided.0,
                    p.guided.1
                );
            }
        }
        Some("worker") => worker(&a),
        Some("replay") => replay(&a),
        Some("traces") => traces(&a),
        Some("tape") => tape_of(&a),
        Some("count-distinct") => count_distinct(&argv[2..]),
        Some("oracle") => oracle(),
        _ => die("usage: verif list|worker|replay|traces|tape|count-distinct|oracle"),
    }
}
