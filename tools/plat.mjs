// Plays a corpus of decodes on a 32-bit platform (WebAssembly): node plat.mjs WASM CORPUS SHARD SHARDS SECS [CASE]
import fs from "node:fs";
const [wasm, corpus, shard, shards, secs, one] = process.argv.slice(2);
const mod = new WebAssembly.Module(fs.readFileSync(wasm));
const file = fs.readFileSync(corpus);
const t0 = Date.now();
let inst, at = -1, items = 0, huge = 0, traps = 0, panicked = false;
const kinds = [0, 0, 0, 0, 0];
const text = (p, n) => Buffer.from(new Uint8Array(inst.exports.memory.buffer, p, n)).toString("utf8");
function fresh() {
  inst = new WebAssembly.Instance(mod, { env: { say(kind, p, n) {
    const s = text(p >>> 0, n >>> 0);
    if (kind === 2) {
      const [i, k, f] = s.split(" ").map(Number);
      at = i; items++; kinds[k]++; if (f > 0) huge++;
    } else { console.log("MISMATCH " + s); if (kind === 1) panicked = true; }
  } } });
}
fresh();
let groups = 0;
for (let off = 0, k = 0; off + 4 <= file.length; k++) {
  const n = file.readUInt32LE(off);
  const b = file.subarray(off + 4, off + 4 + n);
  off += 4 + n;
  if (k % +shards !== +shard) continue;
  if ((Date.now() - t0) / 1000 >= +secs) break;
  if (one !== undefined && b.readBigUInt64LE(0) !== BigInt(one)) continue;
  process.stderr.write(`GROUP ${b.readBigUInt64LE(0)}\n`);
  let from = 0;
  for (;;) {
    if (groups % 500 === 499) fresh();
    const p = inst.exports.c21_alloc(b.length) >>> 0;
    new Uint8Array(inst.exports.memory.buffer).set(b, p);
    at = -1; panicked = false;
    try { inst.exports.c21_play(p, b.length, from); break; } catch (e) {
      if (!panicked) console.log(`MISMATCH case ${b.readBigUInt64LE(0)} item ${at}: traps: ${e}`);
      if (at < 0 || ++traps > 20) { console.log("TROUBLE"); process.exit(3); }
      from = at + 1;
      fresh();
    }
  }
  groups++;
}
console.log(`DONE ${items} items ${groups} groups, kinds [${kinds}], huge ${huge}, bits 32, big endian false`);
