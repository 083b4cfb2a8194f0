//! Scenario families. A family maps an index to a chunk: a self-contained
//! list of scenario lines (see rec.rs). Grid families enumerate a finite
//! space; the others draw from a seeded generator.
use crate::font::*;
use crate::rec::{near_bit, rnd, HIGH, LOW};
use crate::reference;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, fam: &str, i: u64) -> Rng {
        let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03);
        for b in fam.bytes() {
            s = s.rotate_left(9) ^ (b as u64).wrapping_mul(0x100000001B3);
        }
        rnd(&mut s);
        Rng(s)
    }
    pub fn n(&mut self, k: usize) -> usize {
        (rnd(&mut self.0) % k as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.n(b - a + 1)
    }
    pub fn chance(&mut self, p: usize) -> bool {
        self.n(100) < p
    }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len())]
    }
}

pub fn cps(s: &[u32]) -> String {
    if s.is_empty() {
        return "-".into();
    }
    s.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
}
fn nu(v: usize) -> String {
    if v >= usize::MAX - HIGH {
        format!("M{}", usize::MAX - v)
    } else if v > LOW {
        let (b, k) = near_bit(v);
        format!("B{}.{}", b, k)
    } else {
        v.to_string()
    }
}
#[derive(Clone)]
pub struct P {
    pub r: [usize; 4],
    pub st: usize,
    pub c: [usize; 3],
    pub s: Vec<u32>,
}
impl P {
    fn line(&self) -> String {
        format!(
            "p {} {} {} {} {} {} {} {} {}",
            nu(self.r[0]), nu(self.r[1]), nu(self.r[2]), nu(self.r[3]), self.st, nu(self.c[0]), nu(self.c[1]), nu(self.c[2]), cps(&self.s)
        )
    }
    fn cont(&self) -> String {
        format!("p {} {} {} {} {} @ @ @ {}", nu(self.r[0]), nu(self.r[1]), nu(self.r[2]), nu(self.r[3]), self.st, cps(&self.s))
    }
}

pub const W: usize = 336;
pub const L: usize = 536;
const FULL: [usize; 4] = [0, 0, W, L];

pub fn bg(r: &mut Rng) -> String {
    match r.n(8) {
        6 | 7 => format!("bg k{}", r.n(1 << 30)),
        0 => "bg ffffffff".into(),
        1 => "bg 0".into(),
        2 => "bg s".into(),
        3 => "bg a5a5a5a5".into(),
        _ => format!("bg r{}", r.n(1000)),
    }
}

// ------------------------------------------------------------------ text
const ODD: [u32; 48] = [
    0, 1, 7, 8, 9, 11, 12, 13, 27, 0x1f, 0x7f, 0x80, 0x85, 0x9f, 0xad, 0x300, 0x301, 0x308, 0x30a, 0x327, 0x590, 0x7ff, 0x800, 0xe01,
    0x1100, 0x200b, 0x200d, 0x200e, 0x2028, 0x2029, 0x20e3, 0x2fff, 0x3000, 0xac00, 0xd7ff, 0xe000, 0xf8ff, 0xfe0e, 0xfe0f, 0xfeff, 0xfffd, 0xffff,
    0x10000, 0x1f1e6, 0x1f3fb, 0xe0067, 0xf0000, 0x10ffff,
];
fn any_scalar(r: &mut Rng) -> u32 {
    loop {
        let c = match r.n(4) {
            0 => r.n(0x80),
            1 => r.n(0x800),
            2 => r.n(0x10000),
            _ => r.n(0x110000),
        } as u32;
        if char::from_u32(c).is_some() && c != 10 {
            return c;
        }
    }
}
fn pick_latin(f: &Font, r: &mut Rng) -> Vec<u32> {
    if r.chance(60) {
        return vec![r.range(32, 126) as u32];
    }
    r.of(&f.sets[SMALL].clusters).0.clone()
}
fn token(f: &Font, r: &mut Rng, out: &mut Vec<u32>, nl: usize) {
    if r.chance(nl) {
        out.push(10);
        return;
    }
    match r.n(100) {
        0..=44 => out.extend(pick_latin(f, r)),
        45..=60 => out.extend(&r.of(&f.sets[EMOJI].clusters).0),
        61..=74 => out.extend(&r.of(&f.sets[HANZI].clusters).0),
        75..=79 => out.push(32),
        80..=85 => out.push(*r.of(&ODD)),
        86..=89 => out.push(any_scalar(r)),
        90..=96 => {
            // part of a sequence
            let m = r.of(&f.multi);
            let a = r.n(m.len());
            let b = r.range(a, m.len() - 1);
            out.extend(&m[a..=b]);
        }
        _ => out.push(*r.of(&f.joiners)),
    }
}
/// a string of about n tokens that meets no known hash collision
pub fn string(f: &Font, r: &mut Rng, n: usize, nl: usize) -> Vec<u32> {
    loop {
        let mut s = vec![];
        for _ in 0..n {
            token(f, r, &mut s, nl);
        }
        if !f.collides(&s) {
            return s;
        }
    }
}
/// sequences whose cluster boundaries are hard to find
fn sequence(f: &Font, r: &mut Rng) -> Vec<u32> {
    loop {
        let mut s: Vec<u32> = vec![];
        for _ in 0..r.range(1, 4) {
            match r.n(7) {
                0 => {
                    // cluster with one codepoint removed, repeated or swapped
                    let m = r.of(&f.multi);
                    let k = r.n(m.len());
                    let mut v = m.clone();
                    match r.n(3) {
                        0 => drop(v.remove(k)),
                        1 => v.insert(k, m[k]),
                        _ => v.swap(k, (k + 1) % m.len()),
                    }
                    s.extend(v);
                }
                1 => {
                    let m = r.of(&f.multi);
                    s.extend(&m[..r.range(1, m.len())]);
                    s.push(*r.of(&f.joiners));
                }
                2 => {
                    s.extend(r.of(&f.multi));
                    s.extend(r.of(&f.multi));
                }
                3 => {
                    s.extend(pick_latin(f, r));
                    s.push(*r.of(&f.joiners));
                }
                4 => {
                    s.push(*r.of(&ODD));
                    s.extend(r.of(&f.multi));
                }
                5 => {
                    s.push(any_scalar(r));
                    s.push(*r.of(&f.alphabet));
                }
                _ => {
                    s.push(*r.of(&f.alphabet));
                    s.push(*r.of(&f.alphabet));
                }
            }
        }
        s.retain(|c| *c != 10);
        if !s.is_empty() && !f.collides(&s) {
            return s;
        }
    }
}

// ------------------------------------------------------------------ rectangles and cursors
fn ordered(a: usize, b: usize) -> (usize, usize) {
    (a.min(b), a.max(b))
}
fn xedge(r: &mut Rng) -> usize {
    match r.n(4) {
        0 => r.n(12) * 32 % (W + 1),
        1 => (r.range(1, 10) * 32 + r.n(3)).saturating_sub(1).min(W),
        _ => r.n(W + 1),
    }
}
/// valid: on the screen and not empty
fn valid_rect(r: &mut Rng) -> [usize; 4] {
    loop {
        let (a, b) = match r.n(3) {
            0 => {
                let a = xedge(r);
                (a, (a + r.range(1, 70)).min(W))
            }
            1 => ordered(xedge(r), xedge(r)),
            _ => ordered(r.n(40), W - r.n(40)),
        };
        let (c, d) = match r.n(3) {
            0 => {
                let c = r.n(L);
                (c, (c + r.range(1, 60)).min(L))
            }
            1 => ordered(r.n(L + 1), r.n(L + 1)),
            _ => (r.n(20), L - r.n(20)),
        };
        if a < b && c < d {
            return [a, c, b, d];
        }
    }
}
/// A number near a power of two: what a narrowing conversion would mistake for
/// a small number. (Bits as in Arith!Used: sums stay comparable.)
fn around_bit(r: &mut Rng) -> usize {
    let b = *r.of(&[8usize, 9, 10, 15, 16, 16, 16, 16, 30, 31, 31, 32, 32, 32, 32, 33, 40, 48, 62, 63]);
    match r.n(3) {
        0 => (1 << b) + r.n(W),
        1 => (1 << b) + r.n(40),
        _ => (1 << b) - 1 - r.n(40),
    }
}
fn odd_num(r: &mut Rng) -> usize {
    match r.n(9) {
        7 | 8 => around_bit(r),
        0 => usize::MAX - r.n(70),
        1 => usize::MAX - r.n(1000),
        2 => r.n(2000),
        3 => W + r.n(3),
        4 => L + r.n(3),
        5 => 0,
        _ => r.n(400),
    }
}
fn any_rect(r: &mut Rng) -> [usize; 4] {
    let mut v = valid_rect(r);
    match r.n(10) {
        0..=4 => {}
        5 => v.swap(0, 2),
        6 => v.swap(1, 3),
        7 => {
            let k = r.n(4);
            v[k] = odd_num(r);
        }
        8 => {
            if r.chance(50) {
                v[2] = v[0];
            } else {
                v[3] = v[1];
            }
        }
        _ => {
            for k in 0..4 {
                v[k] = odd_num(r);
            }
        }
    }
    v
}
const LHS: [usize; 11] = [0, 0, 0, 1, 23, 24, 25, 30, 31, 32, 100];
fn near_cursor(r: &mut Rng, q: &[usize; 4]) -> [usize; 3] {
    let x = match r.n(5) {
        0 => q[0],
        1 => q[0].saturating_add(r.n(60)),
        2 => q[2].saturating_sub(r.n(40)),
        3 => r.n(W + 30),
        _ => q[0].saturating_sub(r.n(40)),
    };
    let y = match r.n(6) {
        0 | 1 => q[1],
        2 => q[1].saturating_sub(r.n(70)),
        3 => q[3].saturating_sub(r.n(70)),
        4 => r.n(L + 40),
        _ => q[1].saturating_add(r.n(30)),
    };
    [x, y, *r.of(&LHS)]
}
fn any_cursor(r: &mut Rng, q: &[usize; 4]) -> [usize; 3] {
    let mut c = near_cursor(r, q);
    if r.chance(35) {
        let k = r.n(3);
        c[k] = odd_num(r);
    }
    c
}

// ------------------------------------------------------------------ families
pub struct Ctx<'a> {
    pub f: &'a Font,
    /// (set, style, cluster, glyph): every cluster, Latin ones in 3 styles
    pub all: Vec<(usize, usize, Vec<u32>, usize)>,
}
impl<'a> Ctx<'a> {
    pub fn new(f: &'a Font) -> Ctx<'a> {
        let mut all = vec![];
        for (si, s) in f.sets.iter().enumerate() {
            let st = if si >= SMALL { si - SMALL } else { 1 };
            for (c, g) in &s.clusters {
                // a cluster that a higher-priority set has is drawn from there
                all.push((si, st, c.clone(), *g));
            }
        }
        Ctx { f, all }
    }
}

const RECTS: [&str; 5] = ["clear_grid", "wrap_edge", "crop_right", "crop_vert", "scalar"];

pub fn size(x: &Ctx, name: &str) -> Option<u64> {
    let _ = RECTS;
    Some(match name {
        "glyph_all" => x.all.len() as u64,
        "glyph_align" => x.all.len() as u64 * 32,
        "glyph_style" => (x.f.sets[EMOJI].clusters.len() + x.f.sets[HANZI].clusters.len() + x.f.sets[SMALL].clusters.len()) as u64,
        "crop_right" => x.f.by_width.len() as u64 * 38 * 32,
        "crop_vert" => x.f.by_height.len() as u64 * 35 * 35,
        "scalar" => 0x110000 / 32,
        "wrap_edge" => x.f.by_width.len() as u64 * 7 * 12,
        "clear_grid" => (W * (W + 1) / 2) as u64,
        "advance" => x.all.len() as u64,
        _ => return None,
    })
}

pub fn chunk(x: &Ctx, name: &str, seed: u64, i: u64) -> Vec<String> {
    let r = &mut Rng::new(seed, name, i);
    let f = x.f;
    let mut o = vec![];
    match name {
        // every cluster somewhere on the screen
        "glyph_all" => {
            let (_, st, c, _) = &x.all[i as usize];
            o.push(bg(r));
            let y = r.n(L - 40);
            o.push(P { r: FULL, st: *st, c: [r.n(W - 40), y, *r.of(&LHS)], s: c.clone() }.line());
        }
        // every cluster at every alignment to the words of the frame buffer
        "glyph_align" => {
            let (_, st, c, _) = &x.all[(i / 32) as usize];
            let a = (i % 32) as usize;
            o.push(bg(r));
            o.push(P { r: FULL, st: *st, c: [32 * r.n(9) + a, r.n(L - 40), 0], s: c.clone() }.line());
        }
        // every cluster on a fresh line: cursor and line height
        "advance" => {
            let (_, st, c, _) = &x.all[i as usize];
            o.push(bg(r));
            let q = valid_rect(r);
            let mut s = c.clone();
            if r.chance(50) {
                s.push(10);
            }
            o.push(P { r: q, st: *st, c: near_cursor(r, &q), s }.line());
        }
        // a glyph of every width, cropped by a rectangle of every width, at every alignment
        "crop_right" => {
            let a = (i % 32) as usize;
            let cw = (i / 32 % 38) as usize + 1;
            let (set, _, c, _) = &f.by_width[(i / 32 / 38) as usize];
            let st = set.saturating_sub(SMALL);
            let x0 = 32 * r.n(8) + a;
            let q = [x0, r.n(20), (x0 + cw).min(W), L - r.n(20)];
            o.push(bg(r));
            let mut s = c.clone();
            if r.chance(20) {
                s.extend(c);
            }
            o.push(P { r: q, st, c: [if r.chance(50) { x0 } else { r.n(W) }, q[1] + r.n(300), *r.of(&LHS)], s }.line());
        }
        // a glyph of every height and offset, cropped at the top and bottom
        "crop_vert" => {
            let (set, _, c, _) = &f.by_height[(i / 35 / 35) as usize];
            let (t, b) = ((i % 35) as usize, (i / 35 % 35) as usize);
            let st = set.saturating_sub(SMALL);
            let y = r.n(L - 80) + 40;
            let q = [r.n(30), y + t, W - r.n(30), (y + t + b).min(L)];
            o.push(bg(r));
            o.push(P { r: q, st, c: [r.n(W - 80), y, 0], s: c.clone() }.line());
        }
        // every Unicode scalar value in every style, 32 per chunk
        "scalar" => {
            o.push(bg(r));
            for k in 0..32 {
                let c = i as u32 * 32 + k;
                if c != 10 && char::from_u32(c).is_some() {
                    for st in 0..3 {
                        o.push(P { r: FULL, st, c: [r.n(W - 40), r.n(L - 40), 0], s: vec![c] }.line());
                    }
                }
            }
        }
        // a single cluster from an unusual place
        // demo screens over structured backgrounds
        "demo" => {
            o.push(format!("bg k{}", r.n(1 << 30)));
            for _ in 0..=r.n(2) {
                o.push(format!("d {}", crate::rec::DEMOS[r.n(3)]));
            }
        }
        // the same call, or calls of the same shape, many times in a row
        "repeat" => {
            let n = [130, 300, 600, 1100, 5000, 66000][(i % 6) as usize];
            let q = if r.chance(30) { any_rect(r) } else { valid_rect(r) };
            let c = if r.chance(70) { near_cursor(r, &q) } else { any_cursor(r, &q) };
            let len = r.n(4);
            let s = string(f, r, len, 3);
            let st = r.n(3);
            let kind = r.n(4);
            o.push(bg(r));
            for k in 0..n {
                if kind == 3 && k % 2 == 0 {
                    o.push(format!("c {} {} {} {} {}", nu(q[0]), nu(q[1]), nu(q[2]), nu(q[3]), if r.chance(50) { "0" } else { "s" }));
                    continue;
                }
                let mut t = s.clone();
                if kind == 1 && !t.is_empty() {
                    t[0] = 97 + k as u32 % 26;
                }
                o.push(P { r: q, st: if kind == 2 { r.n(3) } else { st }, c, s: t }.line());
            }
        }
        "odd_single" => {
            let (_, st, c, _) = r.of(&x.all);
            let q = valid_rect(r);
            o.push(bg(r));
            o.push(P { r: q, st: *st, c: near_cursor(r, &q), s: c.clone() }.line());
        }
        "sequence" => {
            o.push(bg(r));
            o.push(P { r: FULL, st: r.n(3), c: [r.n(200), r.n(L - 200), 0], s: sequence(f, r) }.line());
        }
        "text" => {
            let q = if r.chance(30) { FULL } else { valid_rect(r) };
            o.push(bg(r));
            let n = r.range(0, 40);
            let c = if r.chance(60) { [q[0], q[1], 0] } else { near_cursor(r, &q) };
            o.push(P { r: q, st: r.n(3), c, s: string(f, r, n, 4) }.line());
        }
        "long" => {
            o.push(bg(r));
            let n = [300, 1200, 3000][r.n(3)];
            o.push(P { r: FULL, st: r.n(3), c: [0, 0, 0], s: string(f, r, n, 1) }.line());
        }
        "huge" => {
            // longer than 65536 bytes
            o.push(bg(r));
            let base = string(f, r, 60, 1);
            let mut s = vec![];
            while s.len() < 33000 {
                s.extend(&base);
            }
            let q = valid_rect(r);
            o.push(P { r: q, st: r.n(3), c: [q[0], q[1], 0], s }.line());
        }
        // the exact wrap condition
        "wrap_edge" => {
            let v = (i % 12) as usize;
            let d = (i / 12 % 7) as usize;
            let (set, w, c, _) = &f.by_width[(i / 12 / 7) as usize];
            let st = set.saturating_sub(SMALL);
            let mut q = [[0, 0, W, L], [6, 6, 330, 530], [33, 10, 288, 400], [31, 0, 257, 536]][v % 4];
            if v >= 8 {
                q = valid_rect(r);
                q[2] = (q[0] + w + 4 + r.n(60)).min(W);
            }
            let xx = (q[2] + d).saturating_sub(w + 3 + 3);
            let mut s = vec![];
            if v >= 4 && r.chance(50) {
                s = string(f, r, 2, 0);
            }
            s.extend(c);
            if r.chance(50) {
                s.extend(string(f, r, 1, 20));
            }
            if f.collides(&s) {
                s = c.clone();
            }
            o.push(bg(r));
            o.push(P { r: q, st, c: [xx, q[1] + r.n(100), *r.of(&LHS)], s }.line());
        }
        "narrow" => {
            let mut q = valid_rect(r);
            q[2] = (q[0] + r.range(1, 45)).min(W);
            if q[2] <= q[0] {
                q[0] = q[2] - 1;
            }
            o.push(bg(r));
            let n = r.range(1, 5);
            o.push(P { r: q, st: r.n(3), c: near_cursor(r, &q), s: string(f, r, n, 5) }.line());
        }
        "newlines" => {
            let q = if r.chance(80) { valid_rect(r) } else { any_rect(r) };
            let mut s = vec![];
            for _ in 0..r.range(1, 6) {
                match r.n(5) {
                    0 | 1 => s.push(10),
                    2 => s.extend([10, 10]),
                    3 => s.push(*r.of(&[13, 9, 32, 0x2028, 0x85])),
                    _ => s.extend(string(f, r, 1, 0)),
                }
            }
            if f.collides(&s) {
                s = vec![10];
            }
            o.push(bg(r));
            o.push(P { r: q, st: r.n(3), c: any_cursor(r, &q), s }.line());
        }
        "anyrect" => {
            let q = any_rect(r);
            o.push(bg(r));
            let n = r.n(6);
            o.push(P { r: q, st: r.n(3), c: any_cursor(r, &q), s: string(f, r, n, 8) }.line());
        }
        "extreme" => {
            let q = if r.chance(50) { valid_rect(r) } else { any_rect(r) };
            o.push(bg(r));
            for _ in 0..3 {
                let n = r.n(5);
                let c = [odd_num(r), odd_num(r), odd_num(r)];
                o.push(P { r: q, st: r.n(3), c, s: string(f, r, n, 20) }.line());
            }
            // keep going from wherever the cursor is now
            let n = r.n(4);
            o.push(P { r: q, st: r.n(3), c: [0; 3], s: string(f, r, n, 20) }.cont());
        }
        // several calls sharing one cursor, other rectangles and styles in between
        "chain" => {
            let mut q = valid_rect(r);
            o.push(bg(r));
            let n = r.n(5);
            o.push(P { r: q, st: r.n(3), c: near_cursor(r, &q), s: string(f, r, n, 10) }.line());
            for _ in 0..r.range(1, 5) {
                if r.chance(30) {
                    q = valid_rect(r);
                }
                let n = r.n(6);
                o.push(P { r: q, st: r.n(3), c: [0; 3], s: string(f, r, n, 10) }.cont());
            }
        }
        "split" => {
            let q = valid_rect(r);
            let st = r.n(3);
            let s = if r.chance(40) { sequence(f, r) } else { let n = r.range(1, 14); string(f, r, n, 8) };
            let p = P { r: q, st, c: near_cursor(r, &q), s };
            let bs = reference::boundaries(f, st, &p.s);
            let b = bg(r);
            o.push(b.clone());
            o.push(p.line());
            o.push(b);
            let prob = *r.of(&[15, 50, 100]);
            let mut cuts: Vec<usize> = bs[1..bs.len() - 1].iter().copied().filter(|_| r.chance(prob)).collect();
            cuts.push(p.s.len());
            if r.chance(20) {
                cuts.push(p.s.len()); // an empty last piece
            }
            let mut a = 0;
            for (k, e) in cuts.iter().enumerate() {
                let mut t = p.clone();
                t.s = p.s[a..*e].to_vec();
                o.push(if k == 0 { t.line() } else { t.cont() });
                a = *e;
            }
            let n = cuts.len();
            o.push(format!("r split {}", (0..=n).rev().map(|k| format!("-{}", k + 1)).collect::<Vec<_>>().join(" ")));
        }
        "overlap" => {
            let q = valid_rect(r);
            let st = r.n(3);
            let n = r.range(2, 10);
            let p = P { r: q, st, c: near_cursor(r, &q), s: string(f, r, n, 12) };
            let bs = reference::boundaries(f, st, &p.s);
            o.push(bg(r));
            o.push(p.line());
            for k in 1..bs.len() {
                let mut t = p.clone();
                t.s = p.s[bs[k - 1]..bs[k]].to_vec();
                o.push(if k == 1 { t.line() } else { t.cont() });
            }
            if bs.len() > 1 {
                o.push(format!("r overlap {}", (0..bs.len()).rev().map(|k| format!("-{}", k + 1)).collect::<Vec<_>>().join(" ")));
            }
        }
        "mask" => {
            let mut q = valid_rect(r);
            q[1] = 0;
            q[3] = L;
            let n = r.range(1, 14);
            let p = P { r: q, st: r.n(3), c: near_cursor(r, &q), s: string(f, r, n, 8) };
            o.push(bg(r));
            o.push(p.line());
            let k = r.range(2, 5);
            for j in 0..k {
                let mut t = p.clone();
                let base = p.c[1];
                let (a, b) = match (j + r.n(2)) % 3 {
                    0 => {
                        let a = base.saturating_add(r.n(70)).min(L - 1);
                        (a, (a + r.range(1, 40)).min(L))
                    }
                    1 => ordered(r.n(L + 1), r.n(L + 1)),
                    _ => (base.saturating_sub(r.n(30)).min(L - 1), (base.saturating_add(r.range(1, 40))).min(L)),
                };
                t.r[1] = a;
                t.r[3] = b.max(a + 1);
                o.push(t.line());
            }
            o.push(format!("r mask {}", (0..=k).rev().map(|j| format!("-{}", j + 1)).collect::<Vec<_>>().join(" ")));
        }
        // the same paint over different backgrounds, and over its own result
        "rebg" => {
            let q = if r.chance(80) { valid_rect(r) } else { any_rect(r) };
            let n = r.range(1, 8);
            let p = P { r: q, st: r.n(3), c: any_cursor(r, &q), s: string(f, r, n, 8) }.line();
            o.push(format!("bg r{}", r.n(100000)));
            o.push(p.clone());
            o.push(p.clone());
            o.push(["bg ffffffff", "bg 0", "bg s"][r.n(3)].to_string());
            o.push(p.clone());
            o.push(p.clone());
            o.push("r same -4 -3 -2 -1".to_string());
        }
        // overlapping paints in either order
        "order" => {
            let q = valid_rect(r);
            let n = r.range(1, 4);
            let a = P { r: q, st: r.n(3), c: near_cursor(r, &q), s: string(f, r, n, 5) };
            let mut b = a.clone();
            b.c[0] = b.c[0].saturating_add(r.n(9)).saturating_sub(r.n(9));
            b.c[1] = b.c[1].saturating_add(r.n(9)).saturating_sub(r.n(9));
            if r.chance(50) {
                b.s = string(f, r, n, 5);
            }
            if r.chance(30) {
                b.r = valid_rect(r);
            }
            let g = bg(r);
            o.push(g.clone());
            o.push(a.line());
            o.push(b.line());
            o.push("bg save".into());
            o.push(g);
            o.push(b.line());
            o.push(a.line());
            o.push("r same -4 -1".into());
            o.push("r same -4 -3".into());
        }
        // an emoji or ideograph (or Latin cluster) in all styles
        "glyph_style" => {
            let ne = f.sets[EMOJI].clusters.len();
            let nh = f.sets[HANZI].clusters.len();
            let i = i as usize;
            o.push(bg(r));
            let c = [r.n(W - 40), r.n(L - 40), *r.of(&LHS)];
            let (s, rel) = if i < ne {
                (f.sets[EMOJI].clusters[i].0.clone(), true)
            } else if i < ne + nh {
                let s = f.sets[HANZI].clusters[i - ne].0.clone();
                let own = (0..3).all(|k| !f.sets[SMALL + k].by_first.contains_key(&s[0]));
                (s, own)
            } else {
                (f.sets[SMALL].clusters[i - ne - nh].0.clone(), false)
            };
            for st in 0..3 {
                o.push(P { r: FULL, st, c, s: s.clone() }.line());
            }
            if rel {
                o.push("r style -3 -2 -1".into());
            }
        }
        // text without Latin clusters is the same in every style
        "text_style" => {
            let q = valid_rect(r);
            let mut s = vec![];
            for _ in 0..r.range(1, 8) {
                match r.n(8) {
                    0 => s.push(10),
                    1..=4 => s.extend(&r.of(&f.sets[EMOJI].clusters).0),
                    _ => s.extend(&r.of(&f.sets[HANZI].clusters).0),
                }
            }
            let plain = |st: usize| {
                let b = reference::boundaries(f, st, &s);
                b[..b.len() - 1].iter().all(|k| s[*k] == 10 || reference::cluster(f, st, &s, *k).0 < SMALL)
            };
            let rel = (0..3).all(plain) && !f.collides(&s);
            if !rel {
                s = vec![0x1f639];
            }
            let c = near_cursor(r, &q);
            o.push(bg(r));
            for st in 0..3 {
                o.push(P { r: q, st, c, s: s.clone() }.line());
            }
            o.push("r style -3 -2 -1".into());
        }
        // C15: the hint is the line height Latin text really gets
        "hint" => {
            let st = r.n(3);
            let mut s: Vec<u32> = vec![];
            for _ in 0..r.range(1, 3) {
                loop {
                    let c = &r.of(&f.sets[SMALL + st].clusters).0;
                    if !f.sets[EMOJI].by_first.contains_key(&c[0]) {
                        s.extend(c);
                        break;
                    }
                }
            }
            let b = reference::boundaries(f, st, &s);
            if f.collides(&s) || b[..b.len() - 1].iter().any(|k| reference::cluster(f, st, &s, *k).0 < SMALL) {
                s = vec![65];
            }
            let q = [r.n(30), r.n(30), W - r.n(30), L - r.n(30)];
            o.push(bg(r));
            o.push(format!("Y {}", st));
            o.push(P { r: q, st, c: [q[0], q[1] + r.n(400), 0], s: s.clone() }.line());
            s.push(10);
            let c = [q[0], q[1] + r.n(400), 0];
            o.push(P { r: q, st, c, s }.line());
            o.push("r hint -3 -2 -1".into());
        }
        "style_num" => {
            let n = match r.n(4) {
                0 => r.n(4).to_string(),
                1 => r.n(70000).to_string(),
                2 => format!("M{}", r.n(70000)),
                _ => (((1u64 << r.n(64)) as usize).wrapping_add(r.n(5)).wrapping_sub(2)).to_string(),
            };
            o.push(format!("Y {}", n));
        }
        // every pair of left and right edges
        "clear_grid" => {
            let mut k = i as usize;
            let mut x0 = 0;
            while k >= W - x0 {
                k -= W - x0;
                x0 += 1;
            }
            let x1 = x0 + 1 + k;
            let (y0, y1) = match r.n(3) {
                0 => (0, 1),
                1 => {
                    let a = r.n(L);
                    (a, (a + r.range(1, 5)).min(L))
                }
                _ => (L - r.range(1, 3), L),
            };
            let b = ["0", "5a5aa5a5", "f00f0ff0", "80000001", "7ffffffe", "ffff0000", "0000ffff", "fffffffe"][r.n(8)];
            o.push(format!("c {} {} {} {} {}", x0, y0, x1, y1, b));
        }
        "clear_any" => {
            let q = any_rect(r);
            let b = ["0", "5a5aa5a5", "ffffffff", "80000001", "7ffffffe", "deadbeef", "0000ffff"][r.n(7)];
            o.push(format!("c {} {} {} {} {}", nu(q[0]), nu(q[1]), nu(q[2]), nu(q[3]), b));
        }
        // a history on one screen: paints and clears, snapshots at both ends
        "history" => {
            o.push(bg(r));
            o.push("snap".into());
            for _ in 0..r.range(4, 14) {
                if r.chance(40) {
                    let q = if r.chance(80) { valid_rect(r) } else { any_rect(r) };
                    o.push(format!("c {} {} {} {} t", nu(q[0]), nu(q[1]), nu(q[2]), nu(q[3])));
                } else {
                    let q = if r.chance(80) { valid_rect(r) } else { any_rect(r) };
                    let n = r.n(8);
                    let p = P { r: q, st: r.n(3), c: any_cursor(r, &q), s: string(f, r, n, 8) };
                    o.push(if r.chance(30) { p.cont() } else { p.line() });
                }
            }
            o.push("snap".into());
        }
        // the same call again after other calls, on other screen contents
        "again" => {
            let q = valid_rect(r);
            let n = r.range(1, 6);
            let p = P { r: q, st: r.n(3), c: near_cursor(r, &q), s: string(f, r, n, 8) }.line();
            o.push(bg(r));
            o.push(p.clone());
            let k = r.range(1, 6);
            for _ in 0..k {
                if r.chance(30) {
                    o.push(bg(r));
                }
                if r.chance(25) {
                    let q = any_rect(r);
                    o.push(format!("c {} {} {} {} 0", nu(q[0]), nu(q[1]), nu(q[2]), nu(q[3])));
                } else {
                    let q = any_rect(r);
                    let n = r.n(8);
                    o.push(P { r: q, st: r.n(3), c: any_cursor(r, &q), s: string(f, r, n, 8) }.line());
                }
            }
            o.push(p);
            o.push(format!("r same -{} -1", k + 2));
        }
        "rect" => {
            let mut v: Vec<String> = (0..4).map(|_| big(r)).collect();
            if r.chance(20) {
                v[2] = v[0].clone();
            }
            if r.chance(20) {
                v[3] = v[1].clone();
            }
            o.push(format!("R {}", v.join(" ")));
            o.push(format!("T {}", v.join(" ")));
            o.push(format!("U {}", v[..3].join(" ")));
        }
        "eq" => {
            let a: Vec<String> = (0..4).map(|_| big(r)).collect();
            let mut b = a.clone();
            let k = r.n(16);
            for j in 0..4 {
                if k >> j & 1 == 1 {
                    b[j] = big(r);
                }
            }
            o.push(format!("E {} {}", a.join(" "), b.join(" ")));
        }
        _ => panic!("no family {}", name),
    }
    o
}

fn big(r: &mut Rng) -> String {
    match r.n(6) {
        0 => r.n(600).to_string(),
        1 => r.n(3).to_string(),
        2 => format!("M{}", r.n(3)),
        3 => ((1u64 << r.n(64)) as usize).wrapping_add(r.n(3)).wrapping_sub(1).to_string(),
        _ => (rnd(&mut r.0) as usize >> r.n(64)).to_string(),
    }
}
