//! Font constants of the specification (font/golden.json.gz, converted to a
//! flat text file by bin/vlib.py). They come from the sprite sheets and index
//! files, never from src/fonts/*.rs.
use std::collections::{HashMap, HashSet};

pub struct Glyph {
    pub w: usize,
    pub h: usize,
    pub yo: usize,
    /// bit k of rows[j] = column k of row j is inked
    pub rows: Vec<u64>,
}

pub struct Set {
    pub maxh: usize,
    pub glyphs: Vec<Glyph>,
    /// clusters, in index order
    pub clusters: Vec<(Vec<u32>, usize)>,
    /// by first codepoint, longest first
    pub by_first: HashMap<u32, Vec<(Vec<u32>, usize)>>,
    hashes: HashSet<u32>,
    listed: HashSet<Vec<u32>>,
    maxlen: usize,
}

pub const EMOJI: usize = 0;
pub const HANZI: usize = 1;
pub const SMALL: usize = 2; // SMALL + style = Latin set of that style
pub const NAMES: [&str; 5] = ["Emoji", "Hanzi", "Small", "Regular", "Bold"];

pub struct Font {
    pub sets: Vec<Set>,
    /// every codepoint that occurs in some cluster
    pub alphabet: Vec<u32>,
    /// codepoints that occur in multi-codepoint clusters, after the first place
    pub joiners: Vec<u32>,
    /// multi-codepoint emoji clusters
    pub multi: Vec<Vec<u32>>,
    /// one representative (set, cluster, glyph) per (set, width)
    pub by_width: Vec<(usize, usize, Vec<u32>, usize)>,
    /// representatives per (set, h, yo)
    pub by_height: Vec<(usize, usize, Vec<u32>, usize)>,
}

fn mm3(cps: &[u32], seed: u32) -> u32 {
    let mut h = seed;
    let mut bytes = 0u32;
    for c in cps {
        let mut k = *c;
        k = k.wrapping_mul(0xcc9e2d51).rotate_left(15).wrapping_mul(0x1b873593);
        h ^= k;
        h = h.rotate_left(13).wrapping_mul(5).wrapping_add(0xe6546b64);
        bytes += char::from_u32(*c).map_or(4, |c| c.len_utf8()) as u32;
    }
    h ^= bytes;
    h ^= h >> 16;
    h = h.wrapping_mul(0x85ebca6b);
    h ^= h >> 13;
    h = h.wrapping_mul(0xc2b2ae35);
    h ^ (h >> 16)
}

impl Font {
    pub fn load(path: &str) -> Font {
        let text = std::fs::read_to_string(path).unwrap();
        let mut sets: Vec<Set> = Vec::new();
        for line in text.lines() {
            let t: Vec<&str> = line.split(' ').collect();
            match t[0] {
                "S" => sets.push(Set {
                    maxh: t[2].parse().unwrap(),
                    glyphs: vec![],
                    clusters: vec![],
                    by_first: HashMap::new(),
                    hashes: HashSet::new(),
                    listed: HashSet::new(),
                    maxlen: 0,
                }),
                "G" => {
                    let n: Vec<usize> = t[1..4].iter().map(|x| x.parse().unwrap()).collect();
                    let rows = t[4..].iter().map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
                    sets.last_mut().unwrap().glyphs.push(Glyph { w: n[0], h: n[1], yo: n[2], rows });
                }
                "I" => {
                    let cps: Vec<u32> = t[1].split(',').map(|x| x.parse().unwrap()).collect();
                    sets.last_mut().unwrap().clusters.push((cps, t[2].parse().unwrap()));
                }
                _ => panic!("font file"),
            }
        }
        let mut alphabet = HashSet::new();
        let mut joiners = HashSet::new();
        let mut multi = vec![];
        let mut by_width = vec![];
        let mut by_height = vec![];
        for (si, s) in sets.iter_mut().enumerate() {
            let mut ws = HashMap::new();
            let mut hs = HashMap::new();
            for (cps, g) in &s.clusters {
                s.by_first.entry(cps[0]).or_default().push((cps.clone(), *g));
                s.hashes.insert(mm3(cps, 0));
                s.listed.insert(cps.clone());
                s.maxlen = s.maxlen.max(cps.len());
                alphabet.extend(cps.iter().copied());
                joiners.extend(cps[1..].iter().copied());
                if cps.len() > 1 {
                    multi.push(cps.clone());
                }
                let gl = &s.glyphs[*g];
                // prefer the glyph with most ink
                let ink: u32 = gl.rows.iter().map(|r| r.count_ones()).sum();
                for (m, k) in [(&mut ws, (gl.w, 0)), (&mut hs, (gl.h, gl.yo))] {
                    let e = m.entry(k).or_insert((0, vec![], 0));
                    if e.1.is_empty() || ink > e.0 {
                        *e = (ink, cps.clone(), *g);
                    }
                }
            }
            for v in s.by_first.values_mut() {
                v.sort_by_key(|e| std::cmp::Reverse(e.0.len()));
            }
            let mut k: Vec<_> = ws.into_iter().collect();
            k.sort();
            by_width.extend(k.into_iter().map(|((w, _), (_, c, g))| (si, w, c, g)));
            let mut k: Vec<_> = hs.into_iter().collect();
            k.sort();
            by_height.extend(k.into_iter().map(|((h, _), (_, c, g))| (si, h, c, g)));
        }
        let mut alphabet: Vec<u32> = alphabet.into_iter().collect();
        alphabet.sort();
        let mut joiners: Vec<u32> = joiners.into_iter().collect();
        joiners.sort();
        Font { sets, alphabet, joiners, multi, by_width, by_height }
    }

    /// Does the string contain an unlisted sequence whose 32-bit hash equals
    /// that of a listed cluster? (The known finding of
    /// property C06: such sequences are drawn as the listed cluster. The
    /// generators leave them out; known_findings.txt keeps examples.)
    pub fn collides(&self, s: &[u32]) -> bool {
        for set in &self.sets {
            for i in 0..s.len() {
                for n in 1..=set.maxlen.min(s.len() - i) {
                    let c = &s[i..i + n];
                    if set.hashes.contains(&mm3(c, 0)) && !set.listed.contains(c) {
                        return true;
                    }
                }
            }
        }
        false
    }
}
