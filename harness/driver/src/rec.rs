//! Scenario execution and trace recording.
//!
//! One scenario line = one public call = one trace line. Numbers may be
//! written M<k> for usize::MAX - k, B<b>.<k> for 2^b + k (k may be negative),
//! and @ for "the previous call's cursor".
use blitstr::*;
use std::fmt::Write as _;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

/// The specification's integers are small. Values near usize::MAX are shown at
/// the same distance from the specification's MaxU; values near a power of two
/// 2^b in between at the same distance from 500000000 + b * 1000000. The map is
/// monotone, and keeps differences within each neighbourhood.
pub const MAXU: i64 = 1 << 30;
pub const LOW: usize = 490_000_000;
pub const HIGH: usize = 400_000_000;
const AROUND: usize = 400_000;

/// v as 2^b + k with |k| <= AROUND, or (b, AROUND + 1) for what lies between
pub fn near_bit(v: usize) -> (u32, i64) {
    let b = usize::BITS - 1 - v.leading_zeros();
    let up = v - (1 << b);
    if up <= AROUND {
        (b, up as i64)
    } else if b + 1 < usize::BITS && (1usize << (b + 1)) - v <= AROUND {
        (b + 1, -(((1usize << (b + 1)) - v) as i64))
    } else {
        (b, AROUND as i64 + 1)
    }
}

pub fn proj(v: usize) -> i64 {
    if v <= LOW {
        v as i64
    } else if v >= usize::MAX - HIGH {
        MAXU - (usize::MAX - v) as i64
    } else {
        let (b, k) = near_bit(v);
        500_000_000 + b as i64 * 1_000_000 + k
    }
}

pub fn num(t: &str, at: usize) -> usize {
    if t == "@" {
        at
    } else if let Some(k) = t.strip_prefix('M') {
        usize::MAX - k.parse::<usize>().unwrap()
    } else if let Some(k) = t.strip_prefix('B') {
        let (b, k) = k.split_once('.').unwrap();
        (1usize << b.parse::<u32>().unwrap()).wrapping_add(k.parse::<isize>().unwrap() as usize)
    } else {
        t.parse().unwrap()
    }
}

pub fn text(t: &str) -> String {
    if t == "-" {
        String::new()
    } else {
        t.split(',').map(|c| char::from_u32(c.parse().unwrap()).unwrap()).collect()
    }
}

static NOW: AtomicU64 = AtomicU64::new(u64::MAX);
static TICK: AtomicU64 = AtomicU64::new(0);
pub fn mark(n: u64) {
    NOW.store(n, Ordering::Relaxed);
    TICK.fetch_add(1, Ordering::Relaxed);
}
/// A call that does not come back within 20 s of wall time is a hang: exit
/// with status 97 and the number of the scenario line on stderr.
pub fn watchdog() {
    std::thread::spawn(|| {
        let mut last = TICK.load(Ordering::Relaxed);
        let mut since = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let t = TICK.load(Ordering::Relaxed);
            if t != last {
                last = t;
                since = 0;
                continue;
            }
            since += 1;
            let n = NOW.load(Ordering::Relaxed);
            if n != u64::MAX && since >= 40 {
                eprintln!("HANG {}", n);
                std::process::exit(97);
            }
        }
    });
}

pub fn runs_of(bits: &[u32]) -> Option<String> {
    if bits.iter().all(|w| *w == 0) {
        return None;
    }
    let mut s = String::from("[");
    let n = bits.len() * 32;
    let get = |x: usize| bits[x >> 5] >> (x & 31) & 1 == 1;
    let mut x = 0;
    let mut first = true;
    while x < n {
        if x & 31 == 0 && bits[x >> 5] == 0 {
            x += 32;
            continue;
        }
        if get(x) {
            let a = x;
            while x < n && get(x) {
                x += 1;
            }
            if !first {
                s.push(',');
            }
            first = false;
            write!(s, "[{},{}]", a, x - 1).unwrap();
        } else {
            x += 1;
        }
    }
    s.push(']');
    Some(s)
}

/// Exactly which of the 536 x 352 bits differ: [[first row, last row, runs], ...],
/// neighbouring rows that differ in the same bits being joined.
pub fn delta(a: &FrBuf, b: &FrBuf) -> String {
    let mut v: Vec<(usize, usize, [u32; WORDS_PER_LINE])> = vec![];
    for y in 0..LINES {
        let r = y * WORDS_PER_LINE..(y + 1) * WORDS_PER_LINE;
        if a[r.clone()] == b[r.clone()] {
            continue;
        }
        let mut d = [0u32; WORDS_PER_LINE];
        for (k, i) in r.enumerate() {
            d[k] = a[i] ^ b[i];
        }
        match v.last_mut() {
            Some(l) if l.1 + 1 == y && l.2 == d => l.1 = y,
            _ => v.push((y, y, d)),
        }
    }
    let rows: Vec<String> = v.iter().map(|(p, q, d)| format!("[{},{},{}]", p, q, runs_of(d).unwrap())).collect();
    format!("[{}]", rows.join(","))
}

pub fn rnd(seed: &mut u64) -> u64 {
    *seed = seed.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *seed;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub const DEMOS: [&str; 3] = ["sample_text", "short_greeting", "goose_poem"];

struct PaintRec {
    ok: bool,
    clip: Vec<usize>,
    st: usize,
    cur: [usize; 3],
    s: String,
}
struct ClearRec {
    ok: bool,
    clip: Vec<usize>,
    tracked: bool,
    pat: String,
}

pub struct Rec {
    pub fb: Box<FrBuf>,
    pub before: Box<FrBuf>,
    pub post: (usize, usize, usize),
    lines: i64,
    /// saved background, for `bg =`
    saved: Box<FrBuf>,
}

fn list(v: &[usize]) -> String {
    v.iter().map(|n| proj(*n).to_string()).collect::<Vec<_>>().join(",")
}

/// exact: <<top 16 bits, middle 24 bits, low 24 bits>>
fn limbs(v: &[usize]) -> String {
    v.iter()
        .map(|n| {
            let n = *n as u64;
            format!("[{},{},{}]", n >> 48, n >> 24 & 0xffffff, n & 0xffffff)
        })
        .collect::<Vec<_>>()
        .join(",")
}

fn cps(s: &str) -> String {
    s.chars().map(|c| (c as u32).to_string()).collect::<Vec<_>>().join(",")
}

pub fn rowlist(fb: &FrBuf, mask_last: bool) -> String {
    let mut s = String::from("[");
    for y in 0..LINES {
        let mut r = [0u32; WORDS_PER_LINE];
        r.copy_from_slice(&fb[y * WORDS_PER_LINE..(y + 1) * WORDS_PER_LINE]);
        if mask_last {
            r[WORDS_PER_LINE - 1] &= 0xffff;
        }
        if y > 0 {
            s.push(',');
        }
        s.push_str(&runs_of(&r).unwrap_or("[]".to_string()));
    }
    s.push(']');
    s
}

impl Rec {
    pub fn new() -> Rec {
        Rec { fb: Box::new(new_fr_buf()), before: Box::new(new_fr_buf()), post: (0, 0, 0), lines: 0, saved: Box::new(new_fr_buf()) }
    }

    /// Returns the trace line, or None for lines that only set up state.
    pub fn exec(&mut self, line: &str) -> Option<String> {
        let t: Vec<&str> = line.split_whitespace().collect();
        if t.is_empty() || t[0].starts_with('#') {
            return None;
        }
        if t[0] == "bg" {
            self.background(t[1]);
            return None;
        }
        self.lines += 1;
        Some(match t[0] {
            "p" => self.paint(&t[1..]),
            "c" => self.clear(&t[1..]),
            "r" => {
                let ev: Vec<String> = t[2..].iter().map(|k| (self.lines + k.parse::<i64>().unwrap()).to_string()).collect();
                format!("{{\"k\":\"rel\",\"r\":\"{}\",\"ev\":[{}]}}", t[1], ev.join(","))
            }
            "d" => self.demo(t[1]),
            "snap" => format!("{{\"k\":\"snap\",\"rows\":{}}}", rowlist(&self.fb, false)),
            "R" => {
                let a: Vec<usize> = t[1..5].iter().map(|x| num(x, 0)).collect();
                let got = catch_unwind(|| ClipRect::new(a[0], a[1], a[2], a[3]));
                let (ok, g) = match got {
                    Ok(r) => (true, vec![r.min.x, r.min.y, r.max.x, r.max.y]),
                    Err(_) => (false, vec![]),
                };
                format!("{{\"k\":\"rect\",\"ok\":{},\"a\":[{}],\"got\":[{}]}}", ok, limbs(&a), limbs(&g))
            }
            "U" => guard("cursor", || {
                let a: Vec<usize> = t[1..4].iter().map(|x| num(x, 0)).collect();
                let c = Cursor::new(a[0], a[1], a[2]);
                let p = Pt::new(a[0], a[1]);
                format!(
                    "{{\"k\":\"cursor\",\"ok\":true,\"a\":[{}],\"got\":[{}],\"pt\":[{}]}}",
                    limbs(&a), limbs(&[c.pt.x, c.pt.y, c.line_height]), limbs(&[p.x, p.y])
                )
            }),
            "T" => guard("topleft", || {
                let a: Vec<usize> = t[1..5].iter().map(|x| num(x, 0)).collect();
                let r = ClipRect { min: Pt { x: a[0], y: a[1] }, max: Pt { x: a[2], y: a[3] } };
                let c = Cursor::from_top_left_of(r);
                format!("{{\"k\":\"topleft\",\"ok\":true,\"a\":[{}],\"got\":[{}]}}", limbs(&a), limbs(&[c.pt.x, c.pt.y, c.line_height]))
            }),
            "F" => guard("screen", || {
                let f = ClipRect::full_screen();
                let p = ClipRect::padded_screen();
                let b = new_fr_buf();
                format!(
                    "{{\"k\":\"screen\",\"ok\":true,\"full\":[{}],\"padded\":[{}],\"const\":[{},{},{},{}],\"rows\":{}}}",
                    list(&[f.min.x, f.min.y, f.max.x, f.max.y]),
                    list(&[p.min.x, p.min.y, p.max.x, p.max.y]),
                    WIDTH, LINES, WORDS_PER_LINE, FRAME_BUF_SIZE, rowlist(&b, false)
                )
            }),
            "E" => guard("eq", || {
                // equality of the value types over 4-tuples
                let a: Vec<usize> = t[1..5].iter().map(|x| num(x, 0)).collect();
                let b: Vec<usize> = t[5..9].iter().map(|x| num(x, 0)).collect();
                let ra = ClipRect { min: Pt { x: a[0], y: a[1] }, max: Pt { x: a[2], y: a[3] } };
                let rb = ClipRect { min: Pt { x: b[0], y: b[1] }, max: Pt { x: b[2], y: b[3] } };
                let ca = Cursor { pt: Pt { x: a[0], y: a[1] }, line_height: a[2] };
                let cb = Cursor { pt: Pt { x: b[0], y: b[1] }, line_height: b[2] };
                format!(
                    "{{\"k\":\"eq\",\"ok\":true,\"a\":[{}],\"b\":[{}],\"pt\":{},\"rect\":{},\"cursor\":{}}}",
                    limbs(&a), limbs(&b), ra.min == rb.min, ra == rb, ca == cb
                )
            }),
            "Y" => {
                let n = num(t[1], 0);
                let r = catch_unwind(|| {
                    let st = GlyphStyle::from(n);
                    let name = match st { GlyphStyle::Small => 0, GlyphStyle::Regular => 1, GlyphStyle::Bold => 2 };
                    let back: usize = st.into();
                    (name, back, st as usize, glyph_to_height_hint(st))
                });
                match r {
                    Ok((name, back, cast, hint)) => format!("{{\"k\":\"style\",\"ok\":true,\"n\":{},\"name\":{},\"back\":{},\"cast\":{},\"hint\":{}}}", proj(n), name, proj(back), proj(cast), hint),
                    Err(_) => format!("{{\"k\":\"style\",\"ok\":false,\"n\":{},\"name\":0,\"back\":0,\"cast\":0,\"hint\":0}}", proj(n)),
                }
            }
            x => panic!("bad scenario op {}", x),
        })
    }

    fn background(&mut self, b: &str) {
        if b == "=" {
            *self.fb = *self.saved;
        } else if b == "save" {
            *self.saved = *self.fb;
        } else if b == "s" {
            *self.fb = new_fr_buf();
        } else if let Some(seed) = b.strip_prefix('r') {
            let mut s: u64 = seed.parse().unwrap();
            for w in self.fb.iter_mut() {
                *w = rnd(&mut s) as u32;
            }
        } else if let Some(seed) = b.strip_prefix('k') {
            structured(&mut self.fb, seed.parse().unwrap());
        } else {
            let w = u32::from_str_radix(b, 16).unwrap();
            for q in self.fb.iter_mut() {
                *q = w;
            }
        }
    }

    fn do_paint(&mut self, t: &[&str]) -> PaintRec {
        let clip: Vec<usize> = t[0..4].iter().map(|x| num(x, 0)).collect();
        let st: usize = t[4].parse().unwrap();
        let cx = num(t[5], self.post.0);
        let cy = num(t[6], self.post.1);
        let lh = num(t[7], self.post.2);
        let s = text(t[8]);
        *self.before = *self.fb;
        let r = ClipRect { min: Pt { x: clip[0], y: clip[1] }, max: Pt { x: clip[2], y: clip[3] } };
        let mut c = Cursor { pt: Pt { x: cx, y: cy }, line_height: lh };
        let style = match st { 0 => GlyphStyle::Small, 1 => GlyphStyle::Regular, _ => GlyphStyle::Bold };
        let fb = &mut self.fb;
        let ok = catch_unwind(AssertUnwindSafe(|| paint_str(fb, r, &mut c, style, &s))).is_ok();
        self.post = (c.pt.x, c.pt.y, c.line_height);
        PaintRec { ok, clip, st, cur: [cx, cy, lh], s }
    }

    fn fmt_paint(&self, p: &PaintRec) -> String {
        format!(
            "{{\"k\":\"paint\",\"ok\":{},\"clip\":[{}],\"st\":{},\"cur\":[{}],\"s\":[{}],\"post\":[{}],\"delta\":{}}}",
            p.ok, list(&p.clip), p.st, list(&p.cur), cps(&p.s),
            list(&[self.post.0, self.post.1, self.post.2]), delta(&self.before, &self.fb)
        )
    }

    fn do_clear(&mut self, t: &[&str]) -> ClearRec {
        let clip: Vec<usize> = t[0..4].iter().map(|x| num(x, 0)).collect();
        let r = ClipRect { min: Pt { x: clip[0], y: clip[1] }, max: Pt { x: clip[2], y: clip[3] } };
        let tracked = t[4] == "t";
        let mut pat = String::new();
        if !tracked {
            self.background(t[4]);
            pat = (0..32).filter(|b| self.fb[0] >> b & 1 == 1).map(|b| b.to_string()).collect::<Vec<_>>().join(",");
        }
        *self.before = *self.fb;
        let fb = &mut self.fb;
        let ok = catch_unwind(AssertUnwindSafe(|| clear_region(fb, r))).is_ok();
        ClearRec { ok, clip, tracked, pat }
    }

    fn fmt_clear(&self, c: &ClearRec) -> String {
        format!(
            "{{\"k\":\"clear\",\"ok\":{},\"clip\":[{}],\"tracked\":{},\"pat\":[{}],\"delta\":{}}}",
            c.ok, list(&c.clip), c.tracked, c.pat, delta(&self.before, &self.fb)
        )
    }

    fn paint(&mut self, t: &[&str]) -> String {
        let p = self.do_paint(t);
        self.fmt_paint(&p)
    }

    fn clear(&mut self, t: &[&str]) -> String {
        let c = self.do_clear(t);
        self.fmt_clear(&c)
    }

    /// Execute a bg, p or c line without formatting it; differs(self, ok)
    /// decides whether the event is written out after all.
    pub fn exec_quiet(&mut self, line: &str, differs: &mut dyn FnMut(&Rec, bool) -> bool) -> Option<String> {
        let t: Vec<&str> = line.split_whitespace().collect();
        match t[0] {
            "bg" => {
                self.background(t[1]);
                None
            }
            "d" => {
                let k = DEMOS.iter().position(|d| *d == t[1]).unwrap();
                *self.before = *self.fb;
                let fb = &mut self.fb;
                let ok = catch_unwind(AssertUnwindSafe(|| demo_of(k, fb))).is_ok();
                differs(self, ok);
                None
            }
            "p" => {
                let p = self.do_paint(&t[1..]);
                differs(self, p.ok).then(|| self.fmt_paint(&p))
            }
            _ => {
                let c = self.do_clear(&t[1..]);
                differs(self, c.ok).then(|| self.fmt_clear(&c))
            }
        }
    }

    fn demo(&mut self, name: &str) -> String {
        *self.before = *self.fb;
        let fb = &mut self.fb;
        let k = DEMOS.iter().position(|d| *d == name).unwrap();
        let ok = catch_unwind(AssertUnwindSafe(|| demo_of(k, fb))).is_ok();
        let pads = |f: &FrBuf| (0..LINES).map(|y| (f[y * WORDS_PER_LINE + WORDS_PER_LINE - 1] >> 16).to_string()).collect::<Vec<_>>().join(",");
        format!(
            "{{\"k\":\"demo\",\"ok\":{},\"name\":\"{}\",\"padpre\":[{}],\"padpost\":[{}],\"rows\":{}}}",
            ok, name, pads(&self.before), pads(&self.fb), rowlist(&self.fb, true)
        )
    }
}

/// A background with structure: blank or full areas, stripes, boxes, sparse
/// dots, word patterns, text; what real screens look like and noise does not.
/// The event of a value-type call, or one that says that it did not return.
fn guard(k: &str, f: impl FnOnce() -> String) -> String {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| format!("{{\"k\":\"{}\",\"ok\":false}}", k))
}

/// A background may be drawn with the library; if that fails, whatever it left is the background.
fn anyhow(f: impl FnOnce()) {
    let _ = catch_unwind(AssertUnwindSafe(f));
}

fn structured(fb: &mut FrBuf, seed: u64) {
    let mut s = seed.wrapping_mul(0x1234_5678_9abc_def1);
    let mut n = move |k: usize| (rnd(&mut s) >> 11) as usize % k;
    let words = [0u32, !0, 0xffff_0000, 0x0000_ffff, 1, 1 << 31, !1, !(1 << 31), 0xaaaa_aaaa];
    let base = if n(4) > 0 { !0u32 } else { words[n(9)] };
    for w in fb.iter_mut() {
        *w = base;
    }
    if n(3) == 0 {
        let d = n(3);
        anyhow(|| demo_of(d, fb));
    }
    for _ in 0..n(5) {
        let v = words[n(9)];
        match n(8) {
            0 => {
                let c = n(WORDS_PER_LINE);
                (0..LINES).for_each(|y| fb[y * WORDS_PER_LINE + c] = v)
            }
            1 => {
                let (a, b) = (n(LINES), n(40));
                (a..(a + b + 1).min(LINES)).for_each(|y| (0..WORDS_PER_LINE).for_each(|c| fb[y * WORDS_PER_LINE + c] = v))
            }
            2 => (0..n(30) + 1).for_each(|_| fb[n(LINES * WORDS_PER_LINE)] ^= 1 << n(32)),
            3 => {
                let (x, y, w, h) = (n(352), n(LINES), n(100) + 1, n(100) + 1);
                for j in y..(y + h).min(LINES) {
                    for i in x..(x + w).min(352) {
                        fb[j * WORDS_PER_LINE + i / 32] ^= 1 << (i % 32);
                    }
                }
            }
            4 => (0..LINES).for_each(|y| fb[y * WORDS_PER_LINE + 10] = fb[y * WORDS_PER_LINE + 10] & 0xffff | v & 0xffff_0000),
            5 => {
                let mut c = Cursor::new(n(300), n(500), 0);
                let (st, k) = (n(3), n(4) + 1);
                anyhow(|| paint_str(fb, ClipRect::full_screen(), &mut c, GlyphStyle::from(st), &"What was here before, \u{1F600}!\n"[..k]));
            }
            6 => {
                let k = n(LINES * WORDS_PER_LINE);
                fb[k] = v
            }
            _ => {
                // everything but one corner or edge
                let (x, y) = (n(336), n(LINES));
                let (x0, y0) = (if n(2) == 0 { 0 } else { x }, if n(2) == 0 { 0 } else { y });
                anyhow(|| clear_region(fb, ClipRect::new(x0, y0, 336, LINES)));
            }
        }
    }
}

fn demo_of(k: usize, fb: &mut FrBuf) {
    match k {
        0 => demo::sample_text(fb),
        1 => demo::short_greeting(fb),
        _ => demo::goose_poem(fb),
    }
}

/// Run the paint lines of a scenario in n threads at once, each thread with
/// its own buffer and starting at a different line, and relate what they did.
pub fn threads(text: &str, n: usize, out: &mut dyn Write) {
    let lines: Vec<&str> = text.lines().filter(|l| l.starts_with("p ")).collect();
    let m = lines.len();
    let barrier = std::sync::Barrier::new(n);
    let res: Vec<Vec<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let (lines, barrier) = (&lines, &barrier);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut r = Rec::new();
                        r.background(&format!("r{}", k));
                        let mut ev = vec![String::new(); m];
                        barrier.wait();
                        for j in 0..m {
                            let i = (j + k * m / n) % m;
                            ev[i] = r.exec(lines[i]).unwrap();
                            TICK.fetch_add(1, Ordering::Relaxed);
                        }
                        ev
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut ln = 0;
    for i in 0..m {
        for r in &res {
            writeln!(out, "{}", r[i]).unwrap();
        }
        let ev: Vec<String> = (1..=n).map(|k| (ln + k).to_string()).collect();
        writeln!(out, "{{\"k\":\"rel\",\"r\":\"same\",\"ev\":[{}]}}", ev.join(",")).unwrap();
        ln += n + 1;
    }
}
