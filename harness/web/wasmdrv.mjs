// Plays scenario lines on the 32-bit wasm build of the library, writing the
// same trace lines as harness/driver. node wasmdrv.mjs WASM SCENARIO OUT
import { readFileSync, writeFileSync } from 'node:fs';
const [, , wasmFile, scen, outFile] = process.argv;
const LINES = 536, WORDS = 11, SIZE = LINES * WORDS;
const MAX = 2 ** 32 - 1, AROUND = 400000;
// as in the driver's rec.rs
const proj = v => {
    if (v <= 490000000) return v;
    if (v >= MAX - 400000000) return 2 ** 30 - (MAX - v);
    const b = Math.floor(Math.log2(v)), up = v - 2 ** b, down = 2 ** (b + 1) - v;
    const [bit, k] = up <= AROUND ? [b, up] : b + 1 < 32 && down <= AROUND ? [b + 1, -down] : [b, AROUND + 1];
    return 500000000 + bit * 1000000 + k;
};
const num = (t, at) => t === '@' ? at : t[0] === 'M' ? MAX - Number(t.slice(1)) : t[0] === 'B' ? 2 ** Number(t.slice(1).split('.')[0]) + Number(t.slice(1).split('.')[1]) : Number(t);
const mod = new WebAssembly.Module(readFileSync(wasmFile));
let ex, fb, text, cur;
function boot(keep) {
    ex = new WebAssembly.Instance(mod, {}).exports;
    const m = ex.memory.buffer;
    fb = new Uint32Array(m, ex.fb(), SIZE);
    text = new Uint8Array(m, ex.text(), 65536);
    cur = new Uint32Array(m, ex.cursor(), 3);
    if (keep) fb.set(keep);
}
boot();
function runs(w, at) {
    const out = [];
    let start = -1;
    for (let x = 0; x < WORDS * 32; x++) {
        const on = (w[at + (x >> 5)] >>> (x & 31)) & 1;
        if (on && start < 0) start = x;
        if (!on && start >= 0) { out.push([start, x - 1]); start = -1; }
    }
    if (start >= 0) out.push([start, WORDS * 32 - 1]);
    return out;
}
const before = new Uint32Array(SIZE), diff = new Uint32Array(SIZE);
function delta() {
    const v = [];
    for (let y = 0; y < LINES; y++) {
        let any = false, same = v.length > 0 && v[v.length - 1][1] === y - 1;
        for (let k = y * WORDS; k < (y + 1) * WORDS; k++) {
            diff[k] = (fb[k] ^ before[k]) >>> 0;
            if (diff[k]) any = true;
            if (same && diff[k] !== diff[k - WORDS]) same = false;
        }
        if (!any) continue;
        if (same) v[v.length - 1][1] = y;
        else v.push([y, y, runs(diff, y * WORDS)]);
    }
    return v;
}
const M64 = (1n << 64n) - 1n;
function rnd(s) {
    s.v = (s.v + 0x9E3779B97F4A7C15n) & M64;
    let z = s.v;
    z = ((z ^ (z >> 30n)) * 0xBF58476D1CE4E5B9n) & M64;
    z = ((z ^ (z >> 27n)) * 0x94D049BB133111EBn) & M64;
    return z ^ (z >> 31n);
}
const saved = new Uint32Array(SIZE);
ex.stripes(); saved.set(fb);
function background(b) {
    if (b === '=') fb.set(saved);
    else if (b === 'save') saved.set(fb);
    else if (b === 's') ex.stripes();
    else if (b[0] === 'r') { const s = { v: BigInt(b.slice(1)) }; for (let k = 0; k < SIZE; k++) fb[k] = Number(rnd(s) & 0xffffffffn); }
    else if (/^[0-9a-f]+$/.test(b)) fb.fill(parseInt(b, 16));
    else throw new Error('background ' + b);
}
let post = [0, 0, 0];
const call = f => {
    try { f(); return true; }
    catch (e) { const keep = Uint32Array.from(fb); const c = Uint32Array.from(cur); boot(keep); cur.set(c); return false; }
};
const out = [];
const enc = new TextEncoder();
for (const line of readFileSync(scen, 'utf8').split('\n')) {
    const t = line.trim().split(/\s+/);
    if (!t[0] || t[0][0] === '#') continue;
    if (t[0] === 'bg') { background(t[1]); continue; }
    if (t[0] === 'p') {
        const clip = t.slice(1, 5).map(x => num(x, 0)), st = Number(t[5]);
        const c = [num(t[6], post[0]), num(t[7], post[1]), num(t[8], post[2])];
        const cps = t[9] === '-' ? [] : t[9].split(',').map(Number);
        const bytes = enc.encode(cps.map(k => String.fromCodePoint(k)).join(''));
        if (bytes.length > 65536) throw new Error('string too long');
        text.set(bytes); cur.set(c); before.set(fb);
        const ok = call(() => ex.paint(bytes.length, ...clip, st));
        post = Array.from(cur);
        out.push({ k: 'paint', ok, clip: clip.map(proj), st, cur: c.map(proj), s: cps, post: post.map(proj), delta: delta() });
    } else if (t[0] === 'c') {
        const clip = t.slice(1, 5).map(x => num(x, 0)), tracked = t[5] === 't', pat = [];
        if (!tracked) { background(t[5]); for (let b = 0; b < 32; b++) if (fb[0] >>> b & 1) pat.push(b); }
        before.set(fb);
        const ok = call(() => ex.clear(...clip));
        out.push({ k: 'clear', ok, clip: clip.map(proj), tracked, pat, delta: delta() });
    } else if (t[0] === 'd') {
        const pads = () => Array.from({ length: LINES }, (_, y) => fb[y * WORDS + 10] >>> 16);
        const padpre = pads();
        const ok = call(() => ex.demo_screen(['sample_text', 'short_greeting', 'goose_poem'].indexOf(t[1])));
        const rows = [], m = Uint32Array.from(fb);
        for (let y = 0; y < LINES; y++) { m[y * WORDS + 10] &= 0xffff; rows.push(runs(m, y * WORDS)); }
        out.push({ k: 'demo', ok, name: t[1], padpre, padpost: pads(), rows });
    } else throw new Error('bad op ' + t[0]);
}
writeFileSync(outFile, out.map(e => JSON.stringify(e)).join('\n') + '\n');
