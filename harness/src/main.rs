//! native side of the contracts: replay of an assignment, and search for a failing input
mod rt;
mod contracts;
use rt::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
include!(concat!(env!("VC_GEN"), "/registry.rs"));

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ")
}

fn reset(seed: u64, style: u32, fixed: &[(String, f64)]) {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        r.rng = seed;
        r.style = style;
        r.log.clear();
        r.seen.clear();
        r.ctx.clear();
        r.fails.clear();
        r.fixed = fixed.iter().cloned().collect();
    });
}

/// 0 = assumption not met, 1 = ok, 2 = failed
fn once(f: fn()) -> (u32, String, String) {
    let r = catch_unwind(AssertUnwindSafe(f));
    RT.with(|rt| {
        let rt = rt.borrow();
        match r {
            Err(e) => {
                if e.downcast_ref::<AssumeFail>().is_some() {
                    return (0, String::new(), String::new());
                }
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".to_string());
                (2, "panic".to_string(), m)
            }
            Ok(()) => match rt.fails.first() {
                Some(x) => (2, x.label.clone(), x.detail.clone()),
                None => (1, String::new(), String::new()),
            },
        }
    })
}

fn dump(kind: &str, name: &str, label: &str, detail: &str) {
    RT.with(|r| {
        let r = r.borrow();
        let v: Vec<String> = r.log.iter().map(|(k, v)| format!("[\"{}\", \"{:?}\"]", esc(k), v)).collect();
        println!("{{\"kind\": \"{}\", \"contract\": \"{}\", \"label\": \"{}\", \"detail\": \"{}\", \"inputs\": [{}]}}", kind, name, esc(label), esc(detail), v.join(", "));
    });
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let reg = registry();
    let find = |n: &str| reg.iter().find(|x| x.0 == n).map(|x| x.1);
    match a[1].as_str() {
        // replay <contract> <assignment file: "key value" per line>
        "replay" => {
            let f = match find(&a[2]) {
                Some(f) => f,
                None => {
                    println!("{{\"kind\": \"missing\"}}");
                    std::process::exit(3)
                }
            };
            let txt = std::fs::read_to_string(&a[3]).unwrap();
            let fixed: Vec<(String, f64)> = txt
                .lines()
                .filter_map(|l| {
                    let mut p = l.rsplitn(2, ' ');
                    let v = p.next()?.parse::<f64>().ok()?;
                    Some((p.next()?.to_string(), v))
                })
                .collect();
            reset(1, 3, &fixed);
            let (s, l, d) = once(f);
            match s {
                0 => println!("{{\"kind\": \"assume\"}}"),
                1 => println!("{{\"kind\": \"ok\"}}"),
                _ => dump("fail", &a[2], &l, &d),
            }
        }
        // search <seed> <seconds> <max iterations> <hints file> <contract>...
        "search" => {
            let seed: u64 = a[2].parse().unwrap();
            let secs: f64 = a[3].parse().unwrap();
            let iters: u64 = a[4].parse().unwrap();
            let all_hints: Vec<(String, Vec<f64>)> = std::fs::read_to_string(&a[5])
                .unwrap_or_default()
                .lines()
                .map(|l| {
                    let mut p = l.split(' ');
                    (p.next().unwrap_or("").to_string(), p.filter_map(|x| x.parse().ok()).collect())
                })
                .collect();
            for name in &a[6..] {
                let f = match find(name) {
                    Some(f) => f,
                    None => continue,
                };
                let hints = all_hints.iter().find(|x| &x.0 == name).map(|x| x.1.clone()).unwrap_or_default();
                RT.with(|r| {
                    r.borrow_mut().hints = hints;
                    r.borrow_mut().checks = 0;
                });
                let t0 = std::time::Instant::now();
                let (mut n, mut sat, mut bad) = (0u64, 0u64, 0u64);
                let mut labels: Vec<String> = Vec::new();
                while n < iters && t0.elapsed().as_secs_f64() < secs {
                    reset(seed.wrapping_mul(0x1234_5678_9ABC_DEF1) ^ (n << 20) ^ n, n as u32, &[]);
                    n += 1;
                    let (s, l, d) = once(f);
                    if s >= 1 {
                        sat += 1;
                    }
                    if s == 2 {
                        bad += 1;
                        if !labels.contains(&l) {
                            labels.push(l.clone());
                            dump("fail", name, &l, &d);
                        }
                        if bad > 200 {
                            break;
                        }
                    }
                    if n == 1 || (s == 1 && sat == 7) {
                        dump("sample", name, "", "");
                    }
                }
                let checks = RT.with(|r| r.borrow().checks);
                println!("{{\"kind\": \"done\", \"contract\": \"{}\", \"runs\": {}, \"met_precondition\": {}, \"failing\": {}, \"checks\": {}}}", name, n, sat, bad, checks);
            }
        }
        _ => std::process::exit(2),
    }
}
