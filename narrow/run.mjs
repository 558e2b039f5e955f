// node run.mjs MODULE: frames on stdin and stdout, each a length of four bytes
// (little-endian) and that many bytes. A request is the code of a history; an
// answer begins with 0 and has the output, or with 1 and tells how it failed.
import fs from "node:fs";

const module = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let wasm = null;

function read(n) {
  const b = Buffer.alloc(n);
  let have = 0;
  while (have < n) {
    let got;
    try {
      got = fs.readSync(0, b, have, n - have, null);
    } catch (e) {
      if (e.code === "EAGAIN") continue;
      throw e;
    }
    if (got === 0) process.exit(0);
    have += got;
  }
  return b;
}

function write(b) {
  let done = 0;
  while (done < b.length) {
    try {
      done += fs.writeSync(1, b, done, b.length - done);
    } catch (e) {
      if (e.code !== "EAGAIN") throw e;
    }
  }
}

function answer(code) {
  if (wasm === null) wasm = new WebAssembly.Instance(module, {}).exports;
  const w = wasm;
  try {
    const at = w.enter(code.length) >>> 0;
    new Uint8Array(w.memory.buffer, at, code.length).set(code);
    w.run();
    const out = new Uint8Array(w.memory.buffer, w.output() >>> 0, w.output_len() >>> 0);
    return Buffer.concat([Buffer.from([0]), out]);
  } catch (e) {
    // Whatever state it was left in goes with it.
    wasm = null;
    let text = String(e);
    try {
      text = Buffer.from(w.memory.buffer, w.words() >>> 0, w.words_len() >>> 0).toString() || text;
    } catch (_) {}
    return Buffer.concat([Buffer.from([1]), Buffer.from(text)]);
  }
}

for (;;) {
  const code = read(read(4).readUInt32LE(0));
  const out = answer(code);
  const head = Buffer.alloc(4);
  head.writeUInt32LE(out.length, 0);
  write(Buffer.concat([head, out]));
}
