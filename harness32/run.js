// run.js WASM SUITE --seed .. --n .. --tier .. --shard .. --out FILE [--in FILE]
// Runs a suite of the WebAssembly build of the harness.
const fs = require('fs');
const arg = (n, d) => { const i = process.argv.indexOf(n); return i < 0 ? d : process.argv[i + 1]; };
const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const x = new WebAssembly.Instance(module_, {}).exports;
if (x.bits() !== 32) { console.log('not a 32-bit build'); process.exit(3); }
let text = Buffer.from([process.argv[3], arg('--seed', '1'), arg('--n', '6'), arg('--tier', 'quick'),
  arg('--shard', '0/1'), ''].join('\n'));
if (arg('--in')) text = Buffer.concat([text, fs.readFileSync(arg('--in'))]);
const at = x.args(text.length) >>> 0;
new Uint8Array(x.memory.buffer, at, text.length).set(text);
let trap = null;
try { x.run(); } catch (e) { trap = e; }
const p = x.out() >>> 0, n = x.out_len() >>> 0;
const got = Buffer.from(new Uint8Array(x.memory.buffer, p, n));
const h = got.lastIndexOf('HARNESS ');
if (h >= 0) { console.log(got.subarray(h).toString()); process.exit(3); }
fs.writeFileSync(arg('--out', '/dev/null'), got);
// a trap comes after a recorded panic; anything else is an abort of its own
if (trap && !got.subarray(-4000).toString().includes('"op":"panic"')) { console.log(String(trap)); process.exit(4); }
