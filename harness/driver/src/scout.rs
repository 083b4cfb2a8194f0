//! Bulk search: run generated chunks on the real library and on the fast
//! transcription of the specification, and write out the chunks on which they
//! differ (as scenario lines and as the events recorded in place). TLC decides
//! whether a differing chunk violates the property at hand.
//!
//!   driver gen   FONT FAMILY SEED COUNT           print chunks
//!   driver scout FONT SEED OUT LIMIT THREADS SECONDS FAMILY:COUNT...
//!
//! COUNT 0 = the whole grid.
use crate::font::Font;
use crate::gen::{chunk, size, Ctx, Rng};
use crate::rec::{self, Rec};
use crate::reference;
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

/// index of the k-th of n samples of a family
fn pick(x: &Ctx, fam: &str, seed: u64, n: u64, k: u64) -> u64 {
    match size(x, fam) {
        None => k,
        Some(sz) if n == 0 || n >= sz => k % sz,
        // stratified: one random member of each of n equal slices
        Some(sz) => {
            let a = sz as u128 * k as u128 / n as u128;
            let b = sz as u128 * (k as u128 + 1) / n as u128;
            a as u64 + Rng::new(seed, "pick", k).0 % (b - a).max(1) as u64
        }
    }
}
fn count(x: &Ctx, fam: &str, n: u64) -> u64 {
    match size(x, fam) {
        Some(sz) if n == 0 || n >= sz => sz,
        _ => n,
    }
}

pub fn gen(a: &[String]) {
    let f = Font::load(&a[0]);
    let x = Ctx::new(&f);
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let seed: u64 = a[1].parse().unwrap();
    for spec in &a[2..] {
        let (fam, n) = spec.split_once(':').unwrap();
        let n: u64 = n.parse().unwrap();
        for k in 0..count(&x, fam, n) {
            writeln!(out, "# {} {}", fam, k).unwrap();
            for l in chunk(&x, fam, seed, pick(&x, fam, seed, n, k)) {
                writeln!(out, "{}", l).unwrap();
            }
        }
    }
}

enum Paint {
    Same,
    Ink,
    Cursor,
}

struct Shadow<'a> {
    f: &'a Font,
    fb: Box<blitstr::FrBuf>,
    /// the demo screens over an inked screen
    demos: Vec<Box<blitstr::FrBuf>>,
}
impl<'a> Shadow<'a> {
    /// compare the effect of the line just executed by r with the reference
    fn check(&mut self, r: &Rec, line: &str, prev: (usize, usize, usize)) -> Paint {
        let t: Vec<&str> = line.split_whitespace().collect();
        if t[0] == "p" {
            let q: Vec<usize> = t[1..5].iter().map(|v| rec::num(v, 0)).collect();
            let mut c = [rec::num(t[6], prev.0), rec::num(t[7], prev.1), rec::num(t[8], prev.2)];
            let s: Vec<u32> = if t[9] == "-" { vec![] } else { t[9].split(',').map(|v| v.parse().unwrap()).collect() };
            *self.fb = *r.before;
            reference::paint(self.f, &mut self.fb, &[q[0], q[1], q[2], q[3]], &mut c, t[5].parse().unwrap(), &s);
            if *self.fb != *r.fb {
                return Paint::Ink;
            }
            if c != [r.post.0, r.post.1, r.post.2] {
                return Paint::Cursor;
            }
        } else if t[0] == "d" {
            let want = &self.demos[rec::DEMOS.iter().position(|d| *d == t[1]).unwrap()];
            for i in 0..want.len() {
                let m = if i % 11 == 10 { 0xffff } else { !0 };
                if r.fb[i] != (want[i] & m | r.before[i] & !m) {
                    return Paint::Ink;
                }
            }
        } else if t[0] == "c" {
            let q: Vec<usize> = t[1..5].iter().map(|v| rec::num(v, 0)).collect();
            *self.fb = *r.before;
            reference::clear(&mut self.fb, &[q[0], q[1], q[2], q[3]]);
            if *self.fb != *r.fb {
                return Paint::Ink;
            }
        }
        Paint::Same
    }
}

pub fn main(a: &[String]) {
    let f = Font::load(&a[0]);
    let x = Ctx::new(&f);
    let seed: u64 = a[1].parse().unwrap();
    let limit: usize = a[3].parse().unwrap();
    let threads: usize = a[4].parse().unwrap();
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs_f64(a[5].parse().unwrap());
    let jobs: Vec<(String, u64)> = a[6..]
        .iter()
        .map(|s| {
            let (n, c) = s.split_once(':').unwrap();
            (n.to_string(), c.parse().unwrap())
        })
        .collect();
    let starts: Vec<u64> = jobs
        .iter()
        .scan(0, |acc, (n, c)| {
            let s = *acc;
            *acc += count(&x, n, *c);
            Some(s)
        })
        .collect();
    let total: u64 = jobs.iter().map(|(n, c)| count(&x, n, *c)).sum();
    // every family gets its share however soon the time is up
    let gcd = |mut a: u64, mut b: u64| {
        while b > 0 {
            (a, b) = (b, a % b);
        }
        a
    };
    let stride = ((total as f64 * 0.618034) as u64..).find(|k| *k > 0 && gcd(*k, total) == 1).unwrap_or(1);
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let events = AtomicU64::new(0);
    let flagged = AtomicUsize::new(0);
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap()));
    let per: Vec<AtomicUsize> = jobs.iter().map(|_| AtomicUsize::new(0)).collect();
    // what each thread is working on, for the watchdog
    let at: Vec<(AtomicU64, Mutex<String>)> = (0..threads).map(|_| (AtomicU64::new(0), Mutex::new(String::new()))).collect();
    let over = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|sc| {
        let (x, f, jobs, starts, next, done, events, flagged, out, per, at, over) =
            (&x, &f, &jobs, &starts, &next, &done, &events, &flagged, &out, &per, &at, &over);
        let hs: Vec<_> = (0..threads)
            .map(|tid| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut r = Rec::new();
                        let mut sh = Shadow { f, fb: Box::new(blitstr::new_fr_buf()), demos: vec![] };
                        for d in rec::DEMOS {
                            r.exec_quiet("bg 0", &mut |_, _| false);
                            r.exec_quiet(&format!("d {}", d), &mut |_, _| false);
                            sh.demos.push(r.fb.clone());
                        }
                        loop {
                            let g = next.fetch_add(1, Ordering::Relaxed);
                            if g >= total || std::time::Instant::now() > deadline {
                                break;
                            }
                            let g = (g as u128 * stride as u128 % total as u128) as u64;
                            let j = starts.iter().rposition(|s| *s <= g).unwrap();
                            let (fam, n) = &jobs[j];
                            let lines = chunk(x, fam, seed, pick(x, fam, seed, *n, g - starts[j]));
                            *at[tid].1.lock().unwrap() = format!("{} {}", fam, g - starts[j]);
                            let mut why: Option<&str> = None;
                            let mut pos: Vec<String> = vec![];
                            for l in lines.iter() {
                                at[tid].0.fetch_add(1, Ordering::Relaxed);
                                let prev = r.post;
                                if l.starts_with("bg") || l.starts_with('p') || l.starts_with('c') || l.starts_with('d') {
                                    let ev = r.exec_quiet(l, &mut |r, ok| {
                                        let d = if !ok {
                                            "no return"
                                        } else {
                                            match sh.check(r, l, prev) {
                                                Paint::Same => return false,
                                                Paint::Ink => "ink",
                                                Paint::Cursor => "cursor",
                                            }
                                        };
                                        why = why.or(Some(d));
                                        true
                                    });
                                    if let Some(e) = ev {
                                        pos.push(format!("X {}|{}", l, e));
                                    }
                                    events.fetch_add(!l.starts_with("bg") as u64, Ordering::Relaxed);
                                }
                                // (geometry, style and relation lines are judged by TLC only)
                            }
                            done.fetch_add(1, Ordering::Relaxed);
                            if let Some(w) = why {
                                flagged.fetch_add(1, Ordering::Relaxed);
                                let m = per[j].fetch_add(1, Ordering::Relaxed);
                                // keep the first ones, and then fewer and fewer
                                if m < limit || (m.is_power_of_two() && m < 1 << 22) {
                                    let mut o = out.lock().unwrap();
                                    writeln!(o, "# {} {} {}", fam, g - starts[j], w).unwrap();
                                    for l in &lines {
                                        writeln!(o, "{}", l).unwrap();
                                    }
                                    // the differing events as recorded in place
                                    for e in pos.iter().take(3) {
                                        writeln!(o, "{}", e).unwrap();
                                    }
                                }
                            }
                        }
                        at[tid].0.store(u64::MAX, Ordering::Relaxed);
                    })
                    .unwrap()
            })
            .collect();
        // watchdog
        sc.spawn(move || {
            let mut last: Vec<(u64, u32)> = vec![(0, 0); threads];
            while !over.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                for t in 0..threads {
                    let v = at[t].0.load(Ordering::Relaxed);
                    if v == u64::MAX || v != last[t].0 {
                        last[t] = (v, 0);
                        continue;
                    }
                    last[t].1 += 1;
                    if last[t].1 > 120 {
                        let what = at[t].1.lock().unwrap().clone();
                        if what.is_empty() {
                            println!("{{\"chunks\":0,\"events\":0,\"flagged\":0,\"hang\":true}}"); // a demo does not return
                            std::process::exit(0);
                        }
                        let mut o = out.lock().unwrap();
                        let (fam, k) = what.split_once(' ').unwrap();
                        let j = jobs.iter().position(|q| q.0 == fam).unwrap();
                        writeln!(o, "# {} hang", what).unwrap();
                        for l in chunk(x, fam, seed, pick(x, fam, seed, jobs[j].1, k.parse().unwrap())) {
                            writeln!(o, "{}", l).unwrap();
                        }
                        o.flush().unwrap();
                        println!("{{\"chunks\":{},\"events\":{},\"flagged\":{},\"hang\":true}}", done.load(Ordering::Relaxed), events.load(Ordering::Relaxed), flagged.load(Ordering::Relaxed) + 1);
                        std::process::exit(0);
                    }
                }
            }
        });
        for h in hs {
            h.join().unwrap();
        }
        over.store(true, Ordering::Relaxed);
    });
    out.lock().unwrap().flush().unwrap();
    println!(
        "{{\"chunks\":{},\"events\":{},\"flagged\":{},\"hang\":false,\"of\":{}}}",
        done.load(Ordering::Relaxed), events.load(Ordering::Relaxed), flagged.load(Ordering::Relaxed), total
    );
}
