//! Conformance driver: executes scenario lines against the real blitstr
//! library and records what it did as a trace for TLC (see spec/Trace.tla).
mod font;
mod gen;
mod rec;
mod scout;
mod reference;

use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let child = std::thread::Builder::new().stack_size(256 << 20).spawn(move || real_main(args)).unwrap();
    child.join().unwrap();
}

fn real_main(args: Vec<String>) {
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let inp = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap());
            let lines: Vec<String> = inp.lines().map(|l| l.unwrap()).collect();
            let mut out = std::io::BufWriter::new(std::fs::File::create(&args[3]).unwrap());
            let flush = args.iter().any(|a| a == "--flush");
            rec::watchdog();
            let mut r = rec::Rec::new();
            for (n, line) in lines.iter().enumerate() {
                rec::mark(n as u64);
                if let Some(ev) = r.exec(line) {
                    writeln!(out, "{}", ev).unwrap();
                    if flush {
                        out.flush().unwrap();
                    }
                }
            }
            rec::mark(u64::MAX);
            out.flush().unwrap();
        }
        Some("threads") => {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let n: usize = args[4].parse().unwrap();
            let mut out = std::io::BufWriter::new(std::fs::File::create(&args[3]).unwrap());
            rec::watchdog();
            rec::mark(0);
            rec::threads(&text, n, &mut out);
            rec::mark(u64::MAX);
            out.flush().unwrap();
        }
        Some("gen") => scout::gen(&args[2..]),
        Some("scout") => scout::main(&args[2..]),
        _ => {
            eprintln!("usage: driver run IN OUT | threads IN OUT N | scout ...");
            std::process::exit(2);
        }
    }
}
