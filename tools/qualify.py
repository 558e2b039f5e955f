#!/usr/bin/env python3
"""Compare the oracle (harness/src/reference.rs) with OpenSSL.

Not part of any check: it qualifies what the checks compare against.
OpenSSL is reached through hashlib and through node's crypto module; the
Salsa20 core, which OpenSSL lacks, through the transliteration of its
specification below and, for 8 rounds, through OpenSSL's scrypt.

  ./tools/qualify.py [cases per function]
"""

import hashlib
import hmac
import json
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXE = os.path.join(HERE, "harness", "target", "release", "release", "verif")

NODE = r"""
const c = require('crypto');
const reqs = JSON.parse(require('fs').readFileSync(0, 'utf8'));
const b = s => Buffer.from(s, 'hex');
const alg = (k, m) => `aes-${k.length * 8}-${m}`;
console.log(JSON.stringify(reqs.map(([f, k, iv, d]) => {
  k = b(k); iv = b(iv); d = b(d);
  try {
    let o;
    if (f === 'aesenc') { o = c.createCipheriv(alg(k, 'ecb'), k, null); o.setAutoPadding(false); }
    else if (f === 'aesdec') { o = c.createDecipheriv(alg(k, 'ecb'), k, null); o.setAutoPadding(false); }
    else if (f === 'cbc') o = c.createCipheriv(alg(k, 'cbc'), k, iv);
    else o = c.createDecipheriv(alg(k, 'cbc'), k, iv);
    return Buffer.concat([o.update(d), o.final()]).toString('hex');
  } catch (e) { return 'bad'; }
})));
"""


def rotl(x, n):
    return ((x << n) | (x >> (32 - n))) & 0xffffffff


def salsa(data, doublerounds):
    def qr(y0, y1, y2, y3):
        z1 = y1 ^ rotl((y0 + y3) & 0xffffffff, 7)
        z2 = y2 ^ rotl((z1 + y0) & 0xffffffff, 9)
        z3 = y3 ^ rotl((z2 + z1) & 0xffffffff, 13)
        z0 = y0 ^ rotl((z3 + z2) & 0xffffffff, 18)
        return z0, z1, z2, z3

    out = b""
    for i in range(0, len(data), 64):
        x = [int.from_bytes(data[i + 4 * j:i + 4 * j + 4], "little") for j in range(16)]
        y = list(x)
        for _ in range(doublerounds):
            for idx in ((0, 4, 8, 12), (5, 9, 13, 1), (10, 14, 2, 6), (15, 3, 7, 11),
                        (0, 1, 2, 3), (5, 6, 7, 4), (10, 11, 8, 9), (15, 12, 13, 14)):
                for k, v in zip(idx, qr(*(y[k] for k in idx))):
                    y[k] = v
        out += b"".join(((p + q) & 0xffffffff).to_bytes(4, "little") for p, q in zip(x, y))
    return out


def main():
    count = int(sys.argv[1]) if len(sys.argv) > 1 else 2000
    r = random.Random(20240607)
    length = lambda m: r.choice([r.randint(0, m), r.randint(0, m), r.choice([0, 1, 55, 56, 63, 64, 65, 119, 120, 128, 16, 15, 17, 32]) % (m + 1)])
    blob = lambda n: r.choice([r.randbytes(n), r.randbytes(n), bytes(n), b"\xff" * n])
    key = lambda: blob(r.choice([16, 24, 32]))
    lines, want, node, where = [], [], [], []

    def ask(w, *f):
        lines.append(" ".join("x" + x.hex() if isinstance(x, bytes) else str(x) for x in f))
        want.append(w)

    def ask_node(f, k, iv, d):
        where.append(len(want))
        node.append([f, k.hex(), iv.hex(), d.hex()])
        ask(None, *([f, k, iv, d] if "cbc" in f else [f, k, d]))

    for _ in range(count):
        m = blob(length(1000))
        ask(hashlib.sha256(m).hexdigest(), "sha", m)
        k, m = blob(length(200)), blob(length(300))
        ask(hmac.new(k, m, "sha256").hexdigest(), "hmac", k, m)
        p, s, c, n = blob(length(150)), blob(length(150)), r.randint(1, 30), length(150)
        if n:
            ask(hashlib.pbkdf2_hmac("sha256", p, s, c, n).hex(), "pbkdf2", p, s, c, n)
        x, k = blob(64 * r.randint(0, 4)), r.randint(0, 30)
        ask(salsa(x, k).hex(), "salsa", x, k)
        ask_node("aesenc", key(), b"", blob(16))
        ask_node("aesdec", key(), b"", blob(16))
        k, iv, t = key(), blob(16), blob(length(120))
        ask_node("cbc", k, iv, t)
        ask_node("uncbc", k, iv, blob(16 * r.randint(0, 3) + r.choice([0, 0, 0, 5])))
    for _ in range(max(1, count // 10)):
        p, s, n = blob(length(100)), blob(length(100)), r.randint(1, 100)
        rr, nn, pp = r.choice([1, 2, 3, 8, 9]), 2 ** r.randint(1, 8), r.randint(1, 4)
        if nn < 2 ** (16 * rr):
            ask(hashlib.scrypt(p, salt=s, n=nn, r=rr, p=pp, dklen=n).hex(), "scrypt", p, s, nn, rr, pp, n)
    answers = json.loads(subprocess.run(["node", "-e", NODE], input=json.dumps(node), capture_output=True, text=True, check=True).stdout)
    for i, a in zip(where, answers):
        want[i] = a
    # Genuine and damaged ciphertexts, made from the first answers.
    more, at = [], []
    for (f, k, iv, d), a in zip(list(node), answers):
        if f == "cbc":
            ct = bytearray.fromhex(a)
            if r.random() < 0.6:
                ct[r.randrange(len(ct))] ^= 1 << r.randrange(8)
            more.append(["uncbc", k, iv, ct.hex()])
            at.append(len(want))
            ask(None, "uncbc", bytes.fromhex(k), bytes.fromhex(iv), bytes(ct))
    answers = json.loads(subprocess.run(["node", "-e", NODE], input=json.dumps(more), capture_output=True, text=True, check=True).stdout)
    for i, a in zip(at, answers):
        want[i] = a
    got = subprocess.run([EXE, "oracle"], input="\n".join(lines) + "\n", capture_output=True, text=True, check=True).stdout.split("\n")[:-1]
    assert len(got) == len(want), (len(got), len(want))
    tally, bad = {}, 0
    for l, g, w in zip(lines, got, want):
        f = l.split(" ")[0]
        tally[f] = tally.get(f, 0) + 1
        if g != w:
            bad += 1
            if bad <= 10:
                print("DIFFERENT: %s\n  oracle  %s\n  OpenSSL %s" % (l[:300], g[:200], w[:200]))
    print("compared:", tally, "different:", bad)
    return 1 if bad else 0


sys.exit(main())
