// node run.js <wasm> <dict file> <seed> <from> <to> <out file>
// node run.js <wasm> <dict file> <seed> show <index>
const fs = require('fs');
const { Worker, isMainThread, workerData, parentPort } = require('worker_threads');
const [wasm, dictFile, seed, from, to, out] = isMainThread ? process.argv.slice(2) : workerData;
if (isMainThread) {
  // the work is done by another thread; a case takes far less than a millisecond
  const w = new Worker(__filename, { workerData: process.argv.slice(2) });
  let at = 0, last = Date.now();
  w.on('message', (i) => { at = i; last = Date.now(); });
  w.on('error', (e) => { console.error(e); process.exit(3); });
  w.on('exit', (c) => process.exit(c));
  setInterval(() => {
    if (Date.now() - last < 90000) return;
    console.log(`STUCK ${at}`);
    process.exit(7);
  }, 500);
  return;
}
const mod = new WebAssembly.Module(fs.readFileSync(wasm));
const dict = fs.readFileSync(dictFile);
const imports = {};
for (const i of WebAssembly.Module.imports(mod)) {
  (imports[i.module] ||= {})[i.name] = () => { throw new Error('import ' + i.name); };
}
function start() {
  const e = new WebAssembly.Instance(mod, imports).exports;
  const p = e.room(dict.length);
  new Uint8Array(e.memory.buffer).set(dict, p);
  e.init(BigInt(seed), p, dict.length);
  return e;
}
let e = start();
const total = [0n, 0n, 0n, 0n, 0n, 0n];
let panics = 0;
function harvest() {
  for (let i = 0; i < 6; i++) total[i] += e.count(i);
}
if (from === 'show') {
  try {
    e.case(BigInt(to), 1);
    process.stdout.write(Buffer.from(e.memory.buffer, e.text_ptr(), e.text_len()));
  } catch (x) {
    console.log('panic (' + x.message + ')');
  }
} else {
  const a = Number(from), b = Number(to);
  const res = new BigUint64Array((b - a) * 2);
  for (let i = a; i < b; i++) {
    let r;
    if ((i - a) % 16 === 0) {
      // told in steps, so that the last word names the case within a few
      parentPort.postMessage(i);
    }
    try {
      e.case(BigInt(i), 0);
      r = new BigUint64Array(e.memory.buffer, e.out(), 2);
      res[(i - a) * 2] = r[0];
      res[(i - a) * 2 + 1] = r[1];
    } catch (x) {
      if (!(x instanceof WebAssembly.RuntimeError) && !(x instanceof RangeError)) throw x;
      r = new BigUint64Array(e.memory.buffer, e.out(), 2);
      res[(i - a) * 2] = r[0];
      res[(i - a) * 2 + 1] = e.panic_hash() & 0xffffffffffffffffn;
      panics++;
      try { harvest(); } catch (_) {}
      e = start();
    }
  }
  try { harvest(); } catch (_) {}
  fs.writeFileSync(out, Buffer.from(res.buffer));
  ['cases', 'decode calls', 'packets decoded', 'encode calls', 'frames encoded', 'reader, writer and table operations'].forEach((n, i) => console.log(`${n}=${total[i]}`));
  console.log(`cases that panicked=${panics}`);
}
