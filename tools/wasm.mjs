// Runs a WebAssembly build of mc: node wasm.mjs FILE.wasm ARGS...
// Output, exit status and arguments go through the imports below; after a trap the module says what was under way.
import { readFileSync, writeSync } from 'node:fs';

class Exit extends Error {
  constructor(code) { super('exit'); this.code = code; }
}
const [file, ...rest] = process.argv.slice(2);
const argv = Buffer.from(['mc', ...rest].join('\0'));
let ex;
const u8 = () => new Uint8Array(ex.memory.buffer);
const host = {
  write(fd, p, n) {
    const b = Buffer.from(u8().slice(p >>> 0, (p >>> 0) + n));
    for (let i = 0; i < b.length;) {
      try { i += writeSync(fd, b, i); } catch (e) { if (e.code !== 'EAGAIN') throw e; }
    }
  },
  exit(code) { throw new Exit(code); },
  args(p, cap) {
    if (argv.length > cap) throw new Exit(64);
    u8().set(argv, p >>> 0);
    return argv.length;
  },
};
const { instance } = await WebAssembly.instantiate(readFileSync(file), { host });
ex = instance.exports;
let code = 0;
try {
  ex.main(0, 0);
} catch (e) {
  if (e instanceof Exit) code = e.code;
  else {
    if (!(e instanceof WebAssembly.RuntimeError)) throw e;
    process.stderr.write(`${e.stack}\n`);
    try { ex.on_trap(); code = 70; } catch (f) { code = f instanceof Exit ? f.code : 70; }
  }
}
process.exitCode = code;
