"""Builds the crate under test for other platforms, offline.

wasm32: the standard library of that target is not installed and cargo cannot
build it here (std needs a crate that is not there), so core and alloc are
compiled from rust-src, and std is the stand-in of std.rs.
s390x (big-endian) and this platform: Miri, with a sysroot it makes itself.

A platform that cannot be built is left out, with the reason.
"""

import hashlib
import os
import re
import shutil
import subprocess
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WASM = ["--target", "wasm32-unknown-unknown", "-O", "-Cpanic=abort", "--cap-lints", "allow", "-L", "."]


class Failed(Exception):
    pass


def run(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except (OSError, subprocess.TimeoutExpired) as e:
        raise Failed(str(e))
    if p.returncode != 0:
        raise Failed("%s: %s" % (" ".join(cmd[:6]), p.stdout.decode(errors="replace")[-2500:]))
    return p.stdout.decode(errors="replace")


def stamped(directory, want):
    try:
        with open(os.path.join(directory, "stamp")) as f:
            return f.read() == want
    except OSError:
        return False


def fresh(directory):
    shutil.rmtree(directory, ignore_errors=True)
    os.makedirs(directory)


def stamp(directory, want):
    with open(os.path.join(directory, "stamp"), "w") as f:
        f.write(want)


def content(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read() + b"\0")
    return h.hexdigest()


def edition():
    with open(os.path.join(REPO, "Cargo.toml")) as f:
        m = re.search(r'^\s*edition\s*=\s*"(\d+)"', f.read(), re.M)
    return m.group(1) if m else "2015"


def wasm(target, env, tree):
    """Paths of the modules "checked" and "release"."""
    base = os.path.join(target, "wasm")
    os.makedirs(base, exist_ok=True)
    version = run(["rustc", "-vV"], base, env, 60)
    sysroot = run(["rustc", "--print", "sysroot"], base, env, 60).strip()
    library = os.path.join(sysroot, "lib/rustlib/src/rust/library")
    lib = os.path.join(base, "lib")
    want = version + content(os.path.join(HERE, "std.rs"), os.path.join(HERE, "builtins.rs"))
    if not stamped(lib, want):
        fresh(lib)

        def rustc(name, ed, path, *more):
            run(["rustc", "--crate-name", name, "--edition", ed, path, "--crate-type", "rlib", "--out-dir", "."]
                + WASM + list(more), lib, env, 600)

        own = "-Zforce-unstable-if-unmarked"
        core = ["--extern", "core=libcore.rlib"]
        rustc("core", "2024", os.path.join(library, "core/src/lib.rs"), own)
        rustc("compiler_builtins", "2021", os.path.join(HERE, "builtins.rs"), *core)
        rustc("alloc", "2024", os.path.join(library, "alloc/src/lib.rs"), own, *core,
              "--extern", "compiler_builtins=libcompiler_builtins.rlib")
        rustc("std", "2021", os.path.join(HERE, "std.rs"), *core, "--extern", "alloc=liballoc.rlib")
        stamp(lib, want)
    ed = edition()
    found = {}
    for variant, flags in (("checked", ["-Coverflow-checks=on", "-Cdebug-assertions=on"]), ("release", [])):
        out = os.path.join(base, variant)
        found[variant] = os.path.join(out, "narrow.wasm")
        if stamped(out, tree + version):
            continue
        fresh(out)
        extern = flags + ["--extern", "core=libcore.rlib", "--extern", "std=libstd.rlib", "--out-dir", out, "-L", out]
        run(["rustc", "--crate-name", "dumb_crypto", "--edition", ed, os.path.join(REPO, "src/lib.rs"),
             "--crate-type", "rlib"] + WASM + extern, lib, env, 300)
        run(["rustc", "--crate-name", "narrow", "--edition", "2021", os.path.join(HERE, "wasm.rs"),
             "--crate-type", "cdylib"] + WASM + extern
            + ["--extern", "dumb_crypto=" + os.path.join(out, "libdumb_crypto.rlib"),
               "-Clink-arg=--max-memory=1073741824"], lib, env, 300)
        stamp(out, tree + version)
    return found


def miri(target, env, name, triple, flags):
    """Command and environment of the interpreter under Miri."""
    base = os.path.join(target, name)
    os.makedirs(base, exist_ok=True)
    env = dict(env, XDG_CACHE_HOME=os.path.join(base, "cache"))
    env["MIRIFLAGS"] = "-Zmiri-disable-isolation " + flags
    run(["cargo", "miri", "setup", "--target", triple], base, env, 700)
    cmd = ["cargo", "miri", "run", "-q", "--offline", "--locked", "--manifest-path", os.path.join(HERE, "big/Cargo.toml"),
           "--target", triple, "--target-dir", os.path.join(base, "target")]
    # cargo goes by file times: make it look at the content again.
    shutil.rmtree(os.path.join(base, "target"), ignore_errors=True)
    # Ends at once, having nothing to do.
    run(cmd, base, env, 300)
    return cmd, {k: env[k] for k in ("XDG_CACHE_HOME", "MIRIFLAGS")}


def build(target, env, tree, log, wanted):
    """platform -> (command, environment), and platform -> reason why not, of
    the wanted ones among "wasm", "big" and "host"."""
    env = dict(env, RUSTUP_TOOLCHAIN="nightly")
    env.pop("MIRIFLAGS", None)
    found, missing = {}, {}

    def one(name, f):
        try:
            f()
        except (Failed, OSError) as e:
            missing[name] = str(e)

    def make_wasm():
        for v, path in wasm(target, env, tree).items():
            found["wasm-" + v] = (["node", os.path.join(HERE, "run.mjs"), path], {})

    def make_big():
        found["big"] = miri(target, env, "big", "s390x-unknown-linux-gnu",
                            "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation")

    def make_host():
        # Everything that Miri looks at; the more permissive rule for borrows.
        found["host"] = miri(target, env, "host", "x86_64-unknown-linux-gnu", "-Zmiri-tree-borrows")

    jobs = {"wasm": make_wasm, "big": make_big, "host": make_host}
    threads = [threading.Thread(target=one, args=(name, jobs[name])) for name in wanted]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    for name, why in missing.items():
        log("note: not built for %s, going on without it: %s" % (name, why))
    return found, missing
