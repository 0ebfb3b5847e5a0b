//! Bounded search for concrete violations and replay of one case.
//!   toonharness search PROP --seed S --secs T --replay FILE --stats FILE [--src DIR] [--base FILE] [--threads N]
//!   toonharness replay FILE        exit 1 when the case still violates its property
//!   toonharness conform [--numbers N]  try what the proof assumes about std and serde_json on the real ones
//!   toonharness literals DIR       list the literals of the sources
mod doc; mod gen; mod json; mod props; mod refs; mod rng; mod cli; mod conform;
#[cfg(feature = "async")]
mod asy;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned() }
fn on_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> { std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap() }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(String::as_str) {
        Some("literals") => { for l in gen::base_list(&a[1]) { println!("{}", l.replace('\n', "\\n")); } }
        Some("replay") => {
            let s = std::fs::read_to_string(&a[1]).expect("replay file");
            let (p, c) = props::Case::read(&s).expect("replay case");
            let r = on_stack(move || if p == "C14" { cli::check(&c) } else { props::check(&p, &c) }).join().unwrap_or_else(|_| Err("panicked".into()));
            match r { Ok(()) => println!("holds"), Err(e) => { println!("VIOLATED: {e}"); std::process::exit(1); } }
        }
        Some("search") => search(&a),
        Some("conform") => {
            let (n, bad) = conform::run(arg(&a, "--numbers").and_then(|s| s.parse().ok()).unwrap_or(200_000), arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1));
            for b in &bad { println!("ASSUMPTION-FAILS {b}"); }
            println!("CONFORM {n} cases, {} failures", bad.len());
            if !bad.is_empty() { std::process::exit(1); }
        }
        _ => { eprintln!("usage: search|replay|literals"); std::process::exit(2); }
    }
}
fn search(a: &[String]) {
    let prop = a[1].clone();
    let seed: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = arg(a, "--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let replay = arg(a, "--replay").unwrap_or("replay.json".into());
    let stats = arg(a, "--stats");
    let src = arg(a, "--src").unwrap_or("/repo/src".into());
    let base = arg(a, "--base").and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
    let nt: usize = arg(a, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let dict = Arc::new(gen::Dict::load(&src, &base));
    let stop = Arc::new(AtomicBool::new(false));
    let total = Arc::new(AtomicU64::new(0)); let distinct = Arc::new(AtomicU64::new(0));
    let found: Arc<Mutex<Option<(props::Case, String)>>> = Arc::default();
    let samples: Arc<Mutex<Vec<String>>> = Arc::default();
    // what every thread is doing, for a hang or a crash
    let now: Arc<Vec<Mutex<(Instant, Option<props::Case>)>>> = Arc::new((0..nt).map(|_| Mutex::new((Instant::now(), None))).collect());
    let journal = arg(a, "--journal");
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let hs: Vec<_> = (0..nt).map(|t| {
        let (prop, dict, stop, total, distinct, found, samples, now, journal) = (prop.clone(), dict.clone(), stop.clone(), total.clone(), distinct.clone(), found.clone(), samples.clone(), now.clone(), journal.clone());
        on_stack(move || {
            let mut g = gen::Gen { r: rng::Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t as u64)), d: &dict };
            let mut seen = std::collections::HashSet::new();
            while !stop.load(Ordering::Relaxed) && Instant::now() < end {
                let c = if prop == "C14" { cli::make(&mut g) } else { props::make(&prop, &mut g) };
                *now[t].lock().unwrap() = (Instant::now(), Some(c.clone()));
                if let Some(j) = &journal { let _ = std::fs::write(format!("{j}.{t}"), c.show(&prop, "process died")); }
                let r = if prop == "C14" { cli::check(&c) } else { props::check(&prop, &c) };
                now[t].lock().unwrap().1 = None;
                let n = total.fetch_add(1, Ordering::Relaxed);
                // distinct and non-trivial: not seen before in this thread, and more than an empty input
                let mut h = std::hash::DefaultHasher::new(); std::hash::Hash::hash(&format!("{c:?}"), &mut h);
                if (c.t.len() > 1 || !matches!(c.v, toon::JsonValue::Primitive(_)) || c.n != 0) && seen.len() < 2_000_000 && seen.insert(std::hash::Hasher::finish(&h)) { distinct.fetch_add(1, Ordering::Relaxed); }
                if n < 3 { samples.lock().unwrap().push(c.show(&prop, "sample")); }
                if let Err(e) = r { stop.store(true, Ordering::Relaxed); let mut f = found.lock().unwrap(); if f.is_none() { *f = Some((c, e)); } }
            }
        })
    }).collect();
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if hs.iter().all(|h| h.is_finished()) { break; }
        for s in now.iter() { let (at, c) = { let g = s.lock().unwrap(); (g.0, g.1.clone()) }; if let Some(c) = c { if at.elapsed() > Duration::from_secs(30) && found.lock().unwrap().is_none() {
            std::fs::write(&replay, c.show(&prop, "no answer within 30 s")).unwrap(); println!("FOUND no answer within 30 s"); finish(&stats, &total, &distinct, &samples, 1); std::process::exit(1);
        } } }
    }
    for h in hs { if h.join().is_err() { println!("HARNESS-PANIC a search thread panicked while making a case"); } }
    let f = found.lock().unwrap().clone();
    match f {
        None => { finish(&stats, &total, &distinct, &samples, 0); println!("OK {} cases", total.load(Ordering::Relaxed)); }
        Some((c, e)) => {
            let p = prop.clone(); let c0 = c.clone();
            let c = if prop == "C14" { c } else { on_stack(move || props::shrink(&p, &c0, Instant::now() + Duration::from_secs(10))).join().unwrap_or(c) };
            let p = prop.clone(); let c1 = c.clone();
            let e = if prop == "C14" { e } else { on_stack(move || props::check(&p, &c1)).join().ok().and_then(Result::err).unwrap_or(e) };
            std::fs::write(&replay, c.show(&prop, &e)).unwrap();
            finish(&stats, &total, &distinct, &samples, 1);
            println!("FOUND {}", e.replace('\n', "\\n")); std::process::exit(1);
        }
    }
}
fn finish(stats: &Option<String>, total: &AtomicU64, distinct: &AtomicU64, samples: &Mutex<Vec<String>>, v: usize) {
    if let Some(f) = stats { let s = samples.lock().unwrap(); let _ = std::fs::write(f, format!("{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"violations\": {v}, \"samples\": [{}]}}\n", total.load(Ordering::Relaxed), distinct.load(Ordering::Relaxed), s.join(","))); }
}
