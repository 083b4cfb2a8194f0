// Loads the repository's web page in a stand-in browser and records what its
// canvas shows. node page.mjs CASES.json OUT
// A case: {dir, script, canvases, wasm | fake: {seed, ptr, style}, streaming}
import { readFileSync, writeFileSync } from 'node:fs';
import { pathToFileURL } from 'node:url';
import path from 'node:path';
const [, , casesFile, outFile] = process.argv;
const LINES = 536, WIDTH = 336, WORDS = 11, SIZE = LINES * WORDS;
const cases = JSON.parse(readFileSync(casesFile, 'utf8'));

class ImageDataStub {
    constructor(a, b, c) {
        if (typeof a === 'number') { this.width = a; this.height = b; this.data = new Uint8ClampedArray(a * b * 4); }
        else { this.data = a; this.width = b; this.height = c ?? a.length / 4 / b; }
    }
}
globalThis.ImageData = ImageDataStub;
class Canvas {
    constructor(junk) { this.w = 300; this.h = 150; this.reset(); this.junk = junk; this.puts = 0; }
    reset() { this.px = new Uint8ClampedArray(this.w * this.h * 4); }
    get width() { return this.w; } set width(v) { this.w = v | 0; this.reset(); }
    get height() { return this.h; } set height(v) { this.h = v | 0; this.reset(); }
    getContext() { return this.ctx ??= new Ctx(this); }
    addEventListener() { } setAttribute(k, v) { this[k] = Number(v); }
    style = {};
}
class Ctx {
    constructor(c) { this.canvas = c; this.fillStyle = '#000000'; }
    createImageData(a, b) { return typeof a === 'number' ? new ImageDataStub(a, b) : new ImageDataStub(a.width, a.height); }
    getImageData(x0, y0, w, h) {
        const c = this.canvas, im = new ImageDataStub(w, h);
        for (let y = 0; y < h; y++) for (let x = 0; x < w; x++) {
            const X = x0 + x, Y = y0 + y;
            if (X < 0 || Y < 0 || X >= c.w || Y >= c.h) continue;
            for (let k = 0; k < 4; k++) im.data[(y * w + x) * 4 + k] = c.px[(Y * c.w + X) * 4 + k];
        }
        return im;
    }
    putImageData(im, dx, dy, qx = 0, qy = 0, qw = im.width, qh = im.height) {
        const c = this.canvas;
        for (let y = Math.max(0, qy); y < Math.min(im.height, qy + qh); y++) for (let x = Math.max(0, qx); x < Math.min(im.width, qx + qw); x++) {
            const X = dx + x, Y = dy + y;
            if (X < 0 || Y < 0 || X >= c.w || Y >= c.h) continue;
            for (let k = 0; k < 4; k++) c.px[(Y * c.w + X) * 4 + k] = im.data[(y * im.width + x) * 4 + k];
        }
        c.puts++;
    }
    rect(x, y, w, h, rgba) {
        const c = this.canvas;
        for (let Y = Math.max(0, y); Y < Math.min(c.h, y + h); Y++) for (let X = Math.max(0, x); X < Math.min(c.w, x + w); X++)
            for (let k = 0; k < 4; k++) c.px[(Y * c.w + X) * 4 + k] = rgba[k];
        c.puts++;
    }
    clearRect(x, y, w, h) { this.rect(x, y, w, h, [0, 0, 0, 0]); }
    fillRect(x, y, w, h) {
        const m = /^#([0-9a-f]{3,8})$/i.exec(this.fillStyle), r = /^rgba?\(([^)]*)\)$/.exec(this.fillStyle);
        let v = [0, 0, 0, 255];
        if (m) { const s = m[1].length < 6 ? [...m[1]].map(q => q + q).join('') : m[1]; v = [0, 2, 4].map(k => parseInt(s.slice(k, k + 2), 16)).concat([s.length > 6 ? parseInt(s.slice(6), 16) : 255]); }
        else if (r) { const q = r[1].split(/[ ,\/]+/).map(Number); v = [q[0], q[1], q[2], q.length > 3 ? q[3] * 255 : 255]; }
        this.rect(x, y, w, h, v);
    }
    save() { } restore() { } scale() { } beginPath() { }
}
function runsBy(n, on) {
    const out = []; let s = -1;
    for (let x = 0; x < n; x++) { const b = on(x); if (b && s < 0) s = x; if (!b && s >= 0) { out.push([s, x - 1]); s = -1; } }
    if (s >= 0) out.push([s, n - 1]);
    return out;
}
const fbRows = (w, mask) => Array.from({ length: LINES }, (_, y) => runsBy(mask, x => (w[y * WORDS + (x >> 5)] >>> (x & 31)) & 1));
function rng(seed) { let s = seed >>> 0; return () => { s = (s + 0x6D2B79F5) >>> 0; let t = s; t = Math.imul(t ^ (t >>> 15), t | 1); t ^= t + Math.imul(t ^ (t >>> 7), t | 61); return (t ^ (t >>> 14)) >>> 0; }; }
function content(fake) {
    const r = rng(fake.seed), w = new Uint32Array(SIZE);
    for (let k = 0; k < SIZE; k++) w[k] = fake.style === 'noise' ? r() : fake.style === 'sparse' ? (1 << (r() % 32)) * (r() % 3 === 0) : fake.style === 'dense' ? ~(1 << (r() % 32)) : fake.style === 'clear' ? 0xffffffff : fake.style === 'ink' ? 0 : fake.style === 'pad' ? (k % WORDS === 10 ? 0xffff0000 * (r() & 1) : 0) : (k % WORDS) === (fake.seed % WORDS) ? r() : 0;
    return w;
}
const realInstantiate = WebAssembly.instantiate;
const out = [];
for (const c of cases) {
    const canvases = Object.fromEntries(c.canvases.map(id => [id, new Canvas()]));
    const find = sel => canvases[sel.replace(/^.*#/, '')] ?? (/^canvas$/.test(sel) ? Object.values(canvases)[0] : null);
    globalThis.document = { querySelector: find, getElementById: id => canvases[id] ?? null, addEventListener: (k, f) => { if (/load|ready/i.test(k)) setTimeout(f, 0); }, readyState: 'complete', getElementsByTagName: t => t === 'canvas' ? Object.values(canvases) : [] };
    globalThis.window = globalThis;
    globalThis.addEventListener ??= (k, f) => { if (k === 'load') setTimeout(f, 0); };
    globalThis.requestAnimationFrame = f => setTimeout(() => f(0), 0);
    let inst = null, fetched = [], asked = 0, prepad = null, failure = null, want = null;
    const pads = w => Array.from({ length: LINES }, (_, y) => w[y * WORDS + 10] >>> 16);
    globalThis.fetch = async url => { fetched.push(String(url)); const b = c.wasm ? readFileSync(c.wasm) : new Uint8Array([0, 97, 115, 109, 1, 0, 0, 0]); return { ok: true, status: 200, headers: new Map(), arrayBuffer: async () => b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength), clone() { return this; } }; };
    const make = async (bytes, imports) => {
        if (c.wasm) {
            const r = await realInstantiate.call(WebAssembly, bytes, imports);
            inst = r.instance.exports;
            prepad = pads(new Uint32Array(inst.memory.buffer, inst.frame_buf_ptr(), SIZE));
            return r;
        }
        const memory = new WebAssembly.Memory({ initial: Math.ceil((c.fake.ptr + SIZE * 4) / 65536) + 1 });
        const all = new Uint32Array(memory.buffer), r = rng(c.fake.seed + 77);
        for (let k = 0; k < all.length; k++) all[k] = r();
        want = content(c.fake);
        inst = { memory, init() { asked++; new Uint32Array(memory.buffer, c.fake.ptr, SIZE).set(want); }, frame_buf_ptr() { return c.fake.ptr; } };
        return { instance: { exports: inst }, module: {} };
    };
    WebAssembly.instantiate = make;
    if (c.streaming) WebAssembly.instantiateStreaming = async (r, i) => make(await (await r).arrayBuffer(), i);
    else delete WebAssembly.instantiateStreaming;
    const onErr = e => { failure ??= String(e); };
    process.on('unhandledRejection', onErr);
    process.on('uncaughtException', onErr);
    try {
        await import(pathToFileURL(path.join(c.dir, c.script)).href);
        for (let k = 0; k < 200; k++) {
            await new Promise(r => setTimeout(r, 5));
            if (failure || (k > 2 && Object.values(canvases).some(q => q.puts))) break;
        }
        await new Promise(r => setTimeout(r, 5));
    } catch (e) { failure ??= String(e); }
    process.off('unhandledRejection', onErr);
    process.off('uncaughtException', onErr);
    const cv = canvases[c.canvases[0]];
    const ev = { k: 'web', ok: !failure && !!inst && cv.w === WIDTH && cv.h === LINES, why: failure ?? `${cv.w}x${cv.h} fetched ${fetched}`, fake: c.fake ?? false, rows: [], dark: [], clear: [] };
    if (ev.ok) {
        const fb = c.wasm ? new Uint32Array(inst.memory.buffer, inst.frame_buf_ptr(), SIZE) : want;
        ev.rows = fbRows(fb, 352);
        const at = (x, y, k) => cv.px[(y * WIDTH + x) * 4 + k];
        for (let y = 0; y < LINES; y++) {
            ev.clear.push(runsBy(WIDTH, x => at(x, y, 3) === 0));
            ev.dark.push(runsBy(WIDTH, x => at(x, y, 3) === 255 && Math.max(at(x, y, 0), at(x, y, 1), at(x, y, 2)) < 100));
        }
        if (c.wasm) out.push({ k: 'demo', ok: true, name: 'goose_poem', padpre: prepad, padpost: pads(fb), rows: fbRows(fb, 336) });
    }
    out.push(ev);
}
writeFileSync(outFile, out.map(e => JSON.stringify(e)).join('\n') + '\n');
process.exit(0);
