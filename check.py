#!/usr/bin/env python3
"""Check of one property: ./check.py C01 [quick|thorough]
Replay of a failure:      ./check.py replay out/C01-....replay
Build only:               ./check.py setup

See DESIGN.md. Exit 0: held. Exit 1 with a VIOLATION line: broken.
Anything else: the check itself failed.
"""

import array
import concurrent.futures
import fcntl
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
OUT = os.path.join(HERE, "out")
NARROW = os.path.join(HERE, "narrow")
KNOWN = os.path.join(HERE, "known_findings.txt")
VARIANTS = ("checked", "release", "guided")
# Also needs the crate built for other platforms.
PLATFORMS = "C19"
# Also needs a build with AddressSanitizer, and Miri for this platform.
MEMORY = "C26"
ASAN = "x86_64-unknown-linux-gnu"


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building

def tree_hash():
    """Content of everything a build reads; file times do not matter."""
    h = hashlib.sha256()
    roots = [(REPO, ("target", ".git")), (HARNESS, ("target",)), (NARROW, ("__pycache__",))]
    for root, skip in roots:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if not (d == root and x in skip))
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                try:
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
                except OSError:
                    h.update(b"?")
    return h.hexdigest()


def toolchain_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "RUSTC_WORKSPACE_WRAPPER"):
            del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    return env


def build(platforms=(), asan=False):
    """Paths of the binaries; "guided" and "asan" are missing if they cannot
    be built.

    With platforms: what runs the crate elsewhere, and what could not be
    built, under "platforms"."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = tree_hash()
        procs = {}
        paths = {}
        for v in VARIANTS + ("asan",) * asan:
            tdir = os.path.join(TARGET, v)
            sub = os.path.join(ASAN, v) if v == "asan" else v
            exe = os.path.join(tdir, sub, "verif")
            stamp = os.path.join(tdir, "stamp")
            paths[v] = exe
            try:
                with open(stamp) as f:
                    if f.read() == want and os.path.exists(exe):
                        continue
            except OSError:
                pass
            if os.path.exists(stamp):
                os.remove(stamp)
            # cargo goes by file times: make it look at the content again.
            fp = os.path.join(tdir, sub, ".fingerprint")
            if os.path.isdir(fp):
                shutil.rmtree(fp)
            env = toolchain_env()
            cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--profile", v, "--target-dir", tdir]
            if v == "guided":
                env["RUSTC_WRAPPER"] = os.path.join(HARNESS, "rustc-wrap.sh")
                cmd += ["--features", "guided"]
            if v == "asan":
                env["RUSTUP_TOOLCHAIN"] = "nightly"
                env["RUSTFLAGS"] = "-Zsanitizer=address"
                cmd += ["--target", ASAN]
            err = tempfile.TemporaryFile()
            procs[v] = (subprocess.Popen(cmd, cwd=HARNESS, env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err), err)
        if platforms:
            sys.path.insert(0, NARROW)
            import build as elsewhere
            paths["platforms"] = elsewhere.build(os.path.join(TARGET, "narrow"), toolchain_env(), want, log, platforms)
        for v, (p, err) in procs.items():
            if p.wait() == 0:
                with open(os.path.join(TARGET, v, "stamp"), "w") as f:
                    f.write(want)
                continue
            err.seek(0)
            text = err.read().decode(errors="replace")
            if v in ("guided", "asan"):
                log("note: the instrumented build failed, going on without it:\n" + text[-2000:])
                paths.pop(v)
                continue
            raise CheckError("build of the %s harness failed:\n%s" % (v, text[-6000:]))
        return paths


# ------------------------------------------------------------------- workers

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def no_core():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def backend_env(bins, platform, tmp):
    """For a worker that compares with the crate on another platform."""
    command, extra = bins["platforms"][0][platform]
    return dict(toolchain_env(), VERIF_BACKEND="\x1f".join(command), VERIF_PLATFORM=platform.split("-")[0],
                RUSTUP_TOOLCHAIN="nightly", TMPDIR=tmp, **extra)


class Worker:
    def __init__(self, tmp, name, exe, prop, args, platform=None, env=None):
        self.platform, self.env = platform, env
        # What runs on the other platform reserves more than it uses.
        self.limits = limits if platform is None and not name.startswith("asan-") else no_core
        if name.startswith("asan-"):
            self.env = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1")
        self.tmp, self.name, self.exe, self.prop, self.args = tmp, name, exe, prop, args
        self.out = os.path.join(tmp, name + ".json")
        self.hashes = os.path.join(tmp, name + ".hashes")
        self.err = os.path.join(tmp, name + ".err")
        self.proc = None

    def command(self, extra=()):
        cmd = [self.exe, "worker", "--prop", self.prop, "--out", self.out, "--hashes", self.hashes]
        for k, v in self.args.items():
            cmd += ["--" + k, str(v)]
        return cmd + list(extra)

    def start(self):
        self.proc = subprocess.Popen(self.command(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, env=self.env,
                                     stderr=open(self.err, "wb"), preexec_fn=self.limits,
                                     start_new_session=self.platform is not None)

    def stop(self):
        if self.platform is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
        self.proc.kill()
        self.proc.wait()

    def stderr(self):
        with open(self.err, "rb") as f:
            return f.read().decode(errors="replace")[-3000:]


NO_PLATFORM = 70
CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP)


def confirm_crash(w, timeout):
    """Run again with a progress mark; the case that kills it, if it does.

    Running out of memory counts when it comes again: no case needs nearly as
    much as the limit allows."""
    mark = os.path.join(w.tmp, w.name + ".progress")
    p = subprocess.run(w.command(["--progress", mark]), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                       stderr=subprocess.PIPE, preexec_fn=w.limits, env=w.env, timeout=timeout)
    if -p.returncode not in CRASHES:
        return None
    with open(mark, "rb") as f:
        k = int.from_bytes(f.read(8), "little")
    return k, -p.returncode, last_words(p.stderr)


def last_words(stderr):
    """What a process that died wrote."""
    text = stderr.decode(errors="replace").strip()
    at = text.find("ERROR: AddressSanitizer")
    return text[at:at + 900] if at >= 0 else text[-1500:]


def crashes(w, tape, timeout=60):
    """Whether the case alone ends a process; its description if so."""
    with tempfile.NamedTemporaryFile("w", dir=w.tmp, suffix=".tape") as f:
        f.write("tape: %s\n" % " ".join(map(str, tape)))
        f.flush()
        show = os.path.join(w.tmp, "case-%s" % os.path.basename(f.name))
        try:
            p = subprocess.run([w.exe, "replay", "--prop", w.prop, "--tape", f.name, "--show", show], env=w.env,
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               preexec_fn=w.limits, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None
    if -p.returncode not in CRASHES:
        return None
    try:
        with open(show) as f:
            text = f.read()
    except OSError:
        text = ""
    return text, -p.returncode, last_words(p.stderr)


def shrink_crash(v, index):
    """Puts the smallest tape found within a minute into v, if a case alone does it."""
    w = v["worker"]
    if "guided" in w.args or w.platform is not None:
        return
    spill = os.path.join(w.tmp, "spill")
    p = subprocess.run([w.exe, "tape", "--prop", w.prop, "--index", str(index), "--stream", w.args["stream"],
                        "--sweep-from", str(w.args["sweep-from"]), "--sweep-to", str(w.args["sweep-to"]),
                        "--seed", str(w.args["seed"]), "--tier", w.args["tier"], "--spill", spill],
                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       preexec_fn=w.limits, timeout=300, env=w.env)
    if -p.returncode not in CRASHES:
        return
    with open(spill) as f:
        best = [int(t) for t in f.read().split()]
    found = crashes(w, best)
    if found is None:
        return
    end = time.time() + 60
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        while time.time() < end:
            n, cands, size = len(best), [], len(best) // 2
            while size:
                cands.append(best[:n - size])
                for i in range(0, n - size + 1, size):
                    cands.append(best[:i] + best[i + size:])
                    if any(best[i:i + size]):
                        cands.append(best[:i] + [0] * size + best[i + size:])
                size //= 2
            for i in range(n):
                cands += [best[:i] + [x] + best[i + 1:] for x in {best[i] // 2, best[i] - 1} if 0 <= x < best[i]]
            better = None
            for i in range(0, len(cands), 16):
                part = cands[i:i + 16]
                good = [(len(c), sum(c), c, r) for c, r in zip(part, pool.map(lambda c: crashes(w, c), part)) if r]
                if good:
                    better = min(good, key=lambda g: g[:2])
                    break
                if time.time() > end:
                    break
            if better is None:
                break
            best, found = better[2:]
    v["tape"] = [str(t) for t in best]
    v["message"] = "the process died of signal %d: %s" % found[1:]
    if found[0]:
        v["case"] = found[0]


def run_workers(workers, timeout):
    """Run all; the parsed results, or the first violation found."""
    for w in workers:
        w.start()
    start = time.time()
    pending = list(workers)
    results = {}
    lost = []
    try:
        while pending:
            time.sleep(0.02)
            for w in list(pending):
                rc = w.proc.poll()
                if rc is None:
                    continue
                pending.remove(w)
                if os.environ.get("VERBOSE"):
                    log("  %s: %.1f s" % (w.name, time.time() - start))
                if rc == 0:
                    with open(w.out) as f:
                        r = json.load(f)
                    results[w.name] = r
                    if "violation" in r:
                        r["violation"]["worker"] = w
                        return results, r["violation"]
                elif -rc in CRASHES or rc == -signal.SIGKILL:
                    text = w.stderr()
                    c = confirm_crash(w, timeout)
                    if c is None:
                        raise CheckError("worker %s died of signal %d, not reproducibly: %s" % (w.name, -rc, text))
                    k, sig, text = c
                    v = {"message": "the process died of signal %d: %s" % (sig, text.strip()),
                         "case": "case %d of stream %s" % (k, w.args["stream"]), "index": k, "tape": None, "worker": w}
                    for other in pending:
                        other.stop()
                    shrink_crash(v, k)
                    return results, v
                elif rc == NO_PLATFORM and w.platform is not None:
                    # Says nothing about the crate.
                    log("note: %s: %s" % (w.name, w.stderr()))
                    lost.append(w.platform)
                else:
                    raise CheckError("worker %s ended with %d: %s" % (w.name, rc, w.stderr()))
            if time.time() - start > timeout:
                raise CheckError("not finished after %d s: %s" % (timeout, ", ".join(w.name for w in pending)))
        return results, None
    finally:
        for w in workers:
            # What a worker started does not outlive it either.
            if w in pending or w.platform is not None:
                w.stop()
        for platform in lost:
            results.setdefault("", {}).setdefault("lost", []).append(platform)


# ------------------------------------------------------------ known findings

def known_signatures(prop):
    """finding: property=<id> signature=<sig> :: <what fails>"""
    found = {}
    try:
        lines = open(KNOWN).read().splitlines()
    except OSError:
        return found
    for line in lines:
        if line.startswith("finding: property=%s signature=" % prop):
            rest = line.split("signature=", 1)[1]
            sig, _, what = rest.partition(" :: ")
            found[sig] = what
    return found


# ---------------------------------------------------- comparison of two builds

def traces_of(exe, prop, tapes):
    data = "".join(" ".join(map(str, t)) + "\n" for t in tapes)
    p = subprocess.run([exe, "traces", "--prop", prop], input=data, capture_output=True, text=True,
                       preexec_fn=limits, timeout=300)
    if p.returncode != 0:
        raise CheckError("traces: %d %s" % (p.returncode, p.stderr[-1000:]))
    return p.stdout.split("\n")[:-1]


def shrink_pair(bins, prop, tape):
    def differing(cands):
        a = traces_of(bins["checked"], prop, cands)
        b = traces_of(bins["release"], prop, cands)
        return [c for c, x, y in zip(cands, a, b) if x != y]

    best = tape
    for _ in range(60):
        cands = []
        n = len(best)
        size = n // 2
        while size:
            cands.append(best[:n - size])
            size //= 2
        size = max(1, n // 4)
        while size:
            for i in range(0, n - size + 1, size):
                cands.append(best[:i] + best[i + size:])
                if any(best[i:i + size]):
                    cands.append(best[:i] + [0] * size + best[i + size:])
            size //= 2
        for i in range(n):
            for v in {best[i] // 2, best[i] - 1}:
                if 0 <= v < best[i]:
                    cands.append(best[:i] + [v] + best[i + 1:])
        good = differing(cands[:4000]) if cands else []
        if not good:
            return best
        good.sort(key=lambda c: (len(c), sum(c)))
        best = good[0]
    return best


def compare_traces(bins, prop, pairs, common):
    """pairs: (checked worker, its trace file, release worker, its trace file)"""
    compared = 0
    for wa, fa, wb, fb in pairs:
        a, b = open(fa, "rb").read(), open(fb, "rb").read()
        if len(a) != len(b):
            raise CheckError("traces of different length")
        compared += len(a) // 8
        if a == b:
            continue
        x, y = array.array("Q", a), array.array("Q", b)
        n = next(i for i in range(len(x)) if x[i] != y[i])
        k = wa.args["shard"] + n * wa.args["shards"]
        p = subprocess.run([bins["release"], "tape", "--prop", prop, "--index", str(k), "--stream", wa.args["stream"],
                            "--sweep-from", str(wa.args["sweep-from"]), "--sweep-to", str(wa.args["sweep-to"]),
                            "--seed", str(wa.args["seed"]), "--tier", wa.args["tier"]],
                           capture_output=True, text=True, timeout=300)
        if p.returncode != 0:
            raise CheckError("tape: " + p.stderr)
        tape = [int(t) for t in p.stdout.split()]
        small = shrink_pair(bins, prop, tape)
        case = subprocess.run([bins["release"], "replay", "--prop", prop, "--tape", "-"],
                              input="tape: %s\n" % " ".join(map(str, small)), capture_output=True, text=True,
                              timeout=300).stdout
        return compared, {"message": "the build with overflow checks and debug assertions and the build without give different results",
                          "case": case.strip(), "index": k, "tape": [str(t) for t in small], "worker": wa, "pair": True}
    return compared, None


# --------------------------------------------------------------------- checks

def properties(exe):
    text = subprocess.run([exe, "list"], capture_output=True, text=True, check=True).stdout
    return {p["id"]: p for p in map(json.loads, text.splitlines())}


def plan(tmp, bins, p, tier, seed, known_file):
    t = 1 if tier == "thorough" else 0
    prop = p["id"]
    common = {"tier": tier, "seed": seed, "known": known_file}
    sweep, random, guided = p["sweep"][t], p["random"][t], p["guided"][t]
    workers, pairs = [], []

    def add(name, variant, platform=None, **args):
        env = backend_env(bins, platform, tmp) if platform else None
        w = Worker(tmp, name, bins[variant], prop, dict(common, **args), platform, env)
        workers.append(w)
        return w

    has_guided = "guided" in bins
    if prop == "C17":
        # The same cases in both builds, compared afterwards.
        for i in range(3):
            files = [os.path.join(tmp, "%s-%d.trace" % (v, i)) for v in ("checked", "release")]
            ws = [add("%s-%d" % (v, i), v, shard=i, shards=3, **{"sweep-from": 0, "sweep-to": sweep},
                      count=random, stream="pair", trace=f)
                  for v, f in zip(("checked", "release"), files)]
            pairs.append((ws[0], files[0], ws[1], files[1]))
    elif prop == PLATFORMS:
        found = bins["platforms"][0]
        # The last large case takes a minute: on its own, in one build.
        for variant, n, last in (("checked", 3, 0), ("release", 3, 1)):
            if "wasm-" + variant not in found:
                continue
            for i in range(n):
                add("%s-wasm-%d" % (variant, i), variant, platform="wasm-" + variant, shard=i, shards=n,
                    **{"sweep-from": 0, "sweep-to": sweep - 1}, count=random // 2, stream="wasm-" + variant)
            if last:
                add("%s-wasm-last" % variant, variant, platform="wasm-" + variant, shard=0, shards=1,
                    **{"sweep-from": sweep - 1, "sweep-to": sweep}, count=0, stream="wasm-last")
        if "big" in found:
            for i in range(3):
                add("release-big-%d" % i, "release", platform="big", shard=i, shards=3, **{"sweep-from": 0, "sweep-to": 0},
                    count=random // 110, stream="big")
        if not workers:
            add("release-0", "release", shard=0, shards=1, **{"sweep-from": 0, "sweep-to": 0}, count=100, stream="none")
    elif prop == MEMORY:
        for variant, n in (("checked", 2), ("release", 2), ("asan", 3)):
            for i in range(n if variant in bins else 0):
                add("%s-%d" % (variant, i), variant, shard=i, shards=n, **{"sweep-from": 0, "sweep-to": sweep},
                    count=random // 3, stream=variant)
        if "host" in bins["platforms"][0]:
            for i in range(3):
                add("release-host-%d" % i, "release", platform="host", shard=i, shards=3,
                    **{"sweep-from": 0, "sweep-to": 0}, count=random // 420, stream="host")
    else:
        heavy = p["heavy"]
        for i in range(4):
            add("checked-%d" % i, "checked", shard=i, shards=4, **{"sweep-from": heavy, "sweep-to": sweep},
                count=random * 2 // 3, stream="checked")
        for i in range(2):
            add("release-%d" % i, "release", shard=i, shards=2, **{"sweep-from": 0, "sweep-to": sweep},
                count=random // 3, stream="release")
    if has_guided and guided:
        for i in range(2):
            add("guided-%d" % i, "guided", shard=0, shards=1, **{"sweep-from": 0, "sweep-to": 0},
                count=guided // 2, stream="guided-%d" % i, guided=1)
    return workers, pairs


ASSUMPTIONS = [
    "x86_64 Linux, 64-bit usize, stable rustc as installed; optimised builds with and without overflow checks",
    "the reference implementations in harness/src/reference.rs (compared with OpenSSL by tools/qualify.py)",
    "search over generated inputs: absence of a counterexample in what was generated, not proof",
]


def check(prop, tier, seed):
    began = time.time()
    platforms = {PLATFORMS: ("wasm", "big"), MEMORY: ("host",)}.get(prop, ())
    bins = build(platforms, prop == MEMORY)
    p = properties(bins["checked"]).get(prop)
    if p is None:
        raise CheckError("no such property: " + prop)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        known = known_signatures(prop)
        known_file = os.path.join(tmp, "known")
        with open(known_file, "w") as f:
            f.write("".join(s + "\n" for s in known))
        workers, pairs = plan(tmp, bins, p, tier, seed, known_file)
        timeout = 780 if tier == "quick" else 6 * 3600
        results, violation = run_workers(workers, timeout)
        lost = results.pop("", {}).get("lost", [])
        compared = None
        if violation is None and pairs:
            compared, violation = compare_traces(bins, prop, pairs, p)
        hashes = [w.hashes for w in workers if w.name in results and os.path.exists(w.hashes)]
        distinct = int(subprocess.run([bins["release"], "count-distinct"] + hashes, capture_output=True, text=True,
                                      check=True).stdout) if hashes else 0
        total = {}
        for k in ("evaluations", "nontrivial", "steps", "excluded", "inconclusive"):
            total[k] = sum(r[k] for r in results.values())
        classes = {}
        for r in results.values():
            for k, n in r["classes"].items():
                classes[k] = classes.get(k, 0) + n
        by_build = {}
        for n, r in results.items():
            v = n.split("-")[0]
            by_build[v] = by_build.get(v, 0) + r["evaluations"]
        hits = {}
        for r in results.values():
            for s, (n, m) in r["known"].items():
                hits[s] = (hits.get(s, (0, m))[0] + n, m)
        samples = []
        for w in workers:
            samples += results.get(w.name, {}).get("samples", [])
        coverage = {
            "evaluations": total["evaluations"],
            "distinct_nontrivial": distinct,
            "rule": p["rule"],
            "samples": samples[:5],
            "nontrivial_evaluations": total["nontrivial"],
            "steps_within_cases": total["steps"],
            "excluded_by_construction": total["excluded"],
            "inconclusive": total["inconclusive"],
            "evaluations_by_build": by_build,
            "systematic_points": p["sweep"][1 if tier == "thorough" else 0],
            "classes": dict(sorted(classes.items())),
            "known_finding_hits": {s: n for s, (n, _) in hits.items()},
        }
        if compared is not None:
            coverage["cases_compared_between_builds"] = compared
        if "platforms" in bins:
            coverage["platforms"] = {k: " ".join(c) for k, (c, _) in bins["platforms"][0].items()}
            if prop == MEMORY and "asan" not in bins:
                coverage["address_sanitizer"] = "build not available"
            coverage["platforms_missing"] = dict(bins["platforms"][1], **{k: "ended early" for k in lost})
        g = [r["guided"] for r in results.values() if "guided" in r]
        if g:
            coverage["coverage_guided"] = g
        elif p["guided"][0] and "guided" not in bins:
            coverage["coverage_guided"] = "instrumented build not available"
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
            "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - began, 2), "violations": 1 if violation else 0,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)
        for s in sorted(hits):
            print("KNOWN-FINDING: property=%s %s" % (prop, known.get(s) or s), flush=True)
        if violation:
            if violation["tape"] is not None and not violation.get("pair") and not fails_alone(bins, prop, violation):
                # It takes what came before it in the process.
                violation["alone"] = False
            replay = write_replay(prop, tier, seed, violation)
            log("%s: %s\n  %s" % (prop, violation["message"], violation["case"]))
            print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
            return 1
        log("%s held: %d cases, %d distinct non-trivial, %.1f s" % (prop, total["evaluations"], distinct, time.time() - began))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def fails_alone(bins, prop, v):
    variant = v["worker"].name.split("-")[0]
    p = subprocess.Popen([bins[variant], "replay", "--prop", prop, "--tape", "-"], stdin=subprocess.PIPE,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, text=True, start_new_session=True,
                         preexec_fn=v["worker"].limits, env=v["worker"].env)
    try:
        p.communicate("tape: %s\n" % " ".join(v["tape"]), timeout=100)
        return p.returncode != 0
    except subprocess.TimeoutExpired:
        return True
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()


def write_replay(prop, tier, seed, v):
    os.makedirs(OUT, exist_ok=True)
    w = v["worker"]
    variant = w.name.split("-")[0]
    path = os.path.join(OUT, "%s-%s-%d.replay" % (prop, tier, seed))
    with open(path, "w") as f:
        f.write("property: %s\nbuild: %s\nfailure: %s\ncase: %s\n" % (
            prop, "pair" if v.get("pair") else variant, v["message"].replace("\n", " "), v["case"].replace("\n", " ")))
        if w.platform:
            f.write("platform: %s\n" % w.platform)
        if v["tape"] is not None and v.get("alone", True):
            f.write("tape: %s\n" % " ".join(v["tape"]))
        else:
            args = {k: x for k, x in w.args.items() if k not in ("known", "trace")}
            f.write("worker: %s\n" % json.dumps(args))
        f.write("replay with: %s replay %s\n" % (os.path.join(HERE, "check.py"), path))
    return path


def replay(path):
    fields = {}
    for line in open(path):
        k, _, v = line.rstrip("\n").partition(": ")
        fields[k] = v
    platform = fields.get("platform")
    bins = build((platform.split("-")[0],) if platform else (), fields["build"] == "asan")
    if fields["build"] not in bins and fields["build"] != "pair":
        raise CheckError("not built: " + fields["build"])
    prop, variant = fields["property"], fields["build"]
    if platform and platform not in bins["platforms"][0]:
        raise CheckError("not built: " + platform)
    env = backend_env(bins, platform, tempfile.gettempdir()) if platform else None
    if "tape" in fields:
        if variant == "pair":
            tape = [int(x) for x in fields["tape"].split()]
            a, b = traces_of(bins["checked"], prop, [tape]), traces_of(bins["release"], prop, [tape])
            print("checked %s release %s" % (a, b))
            bad = a != b
        else:
            p = subprocess.run([bins[variant], "replay", "--prop", prop, "--tape", path], capture_output=True, text=True,
                               env=env)
            print(p.stdout + p.stderr)
            if p.returncode not in (0, 1) and -p.returncode not in CRASHES:
                raise CheckError("replay ended with %d" % p.returncode)
            bad = p.returncode != 0
    else:
        tmp = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            # The whole stream of cases, in a process of its own.
            args = json.loads(fields["worker"])
            args["known"] = os.path.join(tmp, "known")
            with open(args["known"], "w") as f:
                f.write("".join(s + "\n" for s in known_signatures(prop)))
            w = Worker(tmp, variant, bins[variant], prop, args, platform, env)
            w.start()
            rc = w.proc.wait(timeout=3600)
            if rc == 0:
                v = json.load(open(w.out)).get("violation")
                print(v["message"] + "\n" + v["case"] if v else "held")
                bad = v is not None
            else:
                print("ended with %d\n%s" % (rc, w.stderr()))
                bad = -rc in CRASHES
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def main():
    if len(sys.argv) < 2:
        log(__doc__)
        return 64
    if sys.argv[1] == "setup":
        build(("wasm", "big", "host"), True)
        return 0
    if sys.argv[1] == "replay":
        return replay(os.path.abspath(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        raise CheckError("no such tier: " + tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:7], "big")
    return check(sys.argv[1], tier, seed & 0x7fffffffffffffff)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (CheckError, OSError, subprocess.SubprocessError, ValueError, KeyError) as e:
        log("check error: %s" % e)
        sys.exit(2)
