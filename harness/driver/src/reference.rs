//! Fast transcription of spec/Blitstr.tla, used only to find *candidate*
//! inputs in large input spaces (see scout.rs). It never decides anything:
//! candidates are recorded as traces and judged by TLC.
use crate::font::*;
use blitstr::*;

pub const UNKNOWN: u32 = 0xFFFD;

/// (set, glyph, codepoints consumed)
pub fn cluster(f: &Font, st: usize, s: &[u32], i: usize) -> (usize, usize, usize) {
    let latin = SMALL + st;
    for set in [EMOJI, latin, HANZI] {
        if let Some(v) = f.sets[set].by_first.get(&s[i]) {
            for (cps, g) in v {
                if s[i..].starts_with(cps) {
                    return (set, *g, cps.len());
                }
            }
        }
    }
    let g = f.sets[latin].by_first[&UNKNOWN].iter().find(|e| e.0.len() == 1).unwrap().1;
    (latin, g, 1)
}

pub fn boundaries(f: &Font, st: usize, s: &[u32]) -> Vec<usize> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        v.push(i);
        i += if s[i] == 10 { 1 } else { cluster(f, st, s, i).2 };
    }
    v.push(s.len());
    v
}

fn newline(x0: usize, c: &mut [usize; 3], low: usize) {
    c[0] = x0;
    c[1] = c[1].saturating_add(c[2].max(low)).saturating_add(1);
    c[2] = 0;
}

pub fn paint(f: &Font, fb: &mut FrBuf, r: &[usize; 4], c: &mut [usize; 3], st: usize, s: &[u32]) {
    let low = f.sets[SMALL].maxh;
    let mut i = 0;
    while i < s.len() {
        if s[i] == 10 {
            newline(r[0], c, low);
            i += 1;
            continue;
        }
        if r[2] > WIDTH || r[3] > LINES || r[0] >= r[2] {
            return;
        }
        let (set, g, n) = cluster(f, st, s, i);
        let gl = &f.sets[set].glyphs[g];
        c[0] = c[0].max(r[0]);
        if c[0].saturating_add(1 + gl.w + 2) >= r[2] {
            newline(r[0], c, low);
        }
        let left = c[0] + 1;
        let top = c[1].saturating_add(gl.yo);
        if top < r[3] {
            for (k, bits) in gl.rows.iter().enumerate() {
                let y = top + k;
                if y < r[1] || y >= r[3] {
                    continue;
                }
                let mut b = *bits;
                while b != 0 {
                    let x = left + b.trailing_zeros() as usize;
                    b &= b - 1;
                    if x < r[2] {
                        fb[y * WORDS_PER_LINE + (x >> 5)] ^= 1 << (x & 31);
                    }
                }
            }
        }
        c[0] = c[0].saturating_add(gl.w + 3);
        c[2] = c[2].max(f.sets[set].maxh);
        i += n;
    }
}

pub fn clear(fb: &mut FrBuf, r: &[usize; 4]) {
    if r[2] > WIDTH || r[3] > LINES || r[0] >= r[2] || r[1] >= r[3] {
        return;
    }
    for y in r[1]..r[3] {
        for x in r[0]..r[2] {
            fb[y * WORDS_PER_LINE + (x >> 5)] |= 1 << (x & 31);
        }
    }
}
