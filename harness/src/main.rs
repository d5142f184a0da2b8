mod gen;
mod lex;
#[macro_use]
mod opts;
mod oracle;
mod props;
mod rng;
#[rustfmt::skip]
#[allow(unused)]
mod wf;
use oracle::*;
use rng::Rng;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn shrink(prop: &str, c: &Case) -> Case {
    let mut best = c.clone();
    // drop options
    let mut i = 0;
    while i < best.opts.len() {
        let mut t = best.clone();
        t.opts.remove(i);
        if check(prop, &t).is_some() {
            best = t;
        } else {
            i += 1;
        }
    }
    if prop == "C05" || prop == "C14" {
        return best;
    }
    let t0 = Instant::now();
    let mut step = best.src.chars().count() / 2;
    while step > 0 && t0.elapsed() < Duration::from_secs(4) {
        let mut i = 0;
        let mut changed = false;
        while i < best.src.chars().count() && t0.elapsed() < Duration::from_secs(4) {
            let mut t = best.clone();
            t.src = best.src.chars().enumerate().filter(|(k, _)| *k < i || *k >= i + step).map(|(_, c)| c).collect();
            if check(prop, &t).is_some() {
                best = t;
                changed = true;
            } else {
                i += step;
            }
        }
        if !changed || step > 1 {
            if step == 1 { break; }
            step = (step / 2).max(1);
        }
    }
    best
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let seed: u64 = args[2].parse().unwrap();
    let secs: f64 = args[3].parse().unwrap();
    let max: usize = args.get(4).and_then(|x| x.parse().ok()).unwrap_or(1);
    let child = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut r = Rng(seed.wrapping_mul(0x1234567) ^ 0xABCDEF);
            let t0 = Instant::now();
            let mut n = 0u64;
            let mut found = 0;
            if props::is_special(&prop) {
                let dir = std::env::temp_dir().join(format!("luafmt-witness-{}-{}", prop, std::process::id()));
                std::fs::create_dir_all(&dir).unwrap();
                while t0.elapsed() < Duration::from_secs_f64(secs) {
                    n += 1;
                    if let Some(w) = props::special(&prop, &mut r, &dir) {
                        println!(
                            "{{\"property\": {}, \"message\": {}, \"source\": {}, \"options\": {{}}, \"output\": {}}}",
                            esc(&prop),
                            esc(&w.msg),
                            esc(&w.case),
                            esc(&w.out)
                        );
                        found += 1;
                        if found >= max {
                            break;
                        }
                    }
                }
                let _ = std::fs::remove_dir_all(&dir);
                println!("cases: {}", n);
                return if found > 0 { 3 } else { 0 };
            }
            while t0.elapsed() < Duration::from_secs_f64(secs) {
                let c = gen_case(&prop, &mut r);
                n += 1;
                if let Some(_) = check(&prop, &c) {
                    let s = shrink(&prop, &c);
                    let msg = check(&prop, &s).unwrap();
                    let out = match run(&s.src, &cfg_of(&s.opts)) {
                        Run::Out(o) => o,
                        Run::Err(e) => format!("<error {}>", e),
                        Run::Panic(e) => format!("<panic {}>", e),
                    };
                    let opts: Vec<String> = s.opts.iter().map(|(k, v)| format!("{}: {}", esc(k), esc(v))).collect();
                    println!(
                        "{{\"property\": {}, \"message\": {}, \"source\": {}, \"options\": {{{}}}, \"output\": {}}}",
                        esc(&prop),
                        esc(&msg),
                        esc(&s.src),
                        opts.join(", "),
                        esc(&out)
                    );
                    found += 1;
                    if found >= max {
                        break;
                    }
                }
            }
            println!("cases: {}", n);
            if found > 0 {
                3
            } else {
                0
            }
        })
        .unwrap();
    std::process::exit(child.join().unwrap_or(4));
}
