//! Counterexample search and replay for the properties of bardecoder, over its public API only.
//!   vh run PROP SEED SECONDS REPLAY_FILE [THOROUGH]   search
//!   vh replay FILE                                    run one saved case again
//! A case is a deterministic function of (property, seed, index).
mod iso;
mod rng;
mod cases;

use std::cell::RefCell;
use std::io::Write;
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }

fn guarded(prop: &str, seed: u64, idx: u64) -> Result<(), String> {
    let r = panic::catch_unwind(|| cases::run(prop, seed, idx));
    match r {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST.with(|l| l.borrow().clone()))),
    }
}

fn write_replay(path: &str, prop: &str, seed: u64, idx: u64, why: &str) {
    let esc = |s: &str| s.chars().flat_map(|c| match c {
        '"' => "\\\"".chars().collect::<Vec<_>>(), '\\' => "\\\\".chars().collect(), '\n' => "\\n".chars().collect(),
        c if (c as u32) < 32 => format!("\\u{:04x}", c as u32).chars().collect(), c => vec![c] }).collect::<String>();
    let put = |detail: &str| {
        let mut f = std::fs::File::create(path).unwrap();
        writeln!(f, "{{\"property\": \"{}\", \"seed\": {}, \"index\": {},\n \"failure\": \"{}\",\n \"input\": \"{}\",\n \"replay\": \"/verif/check.py --replay <this file>\"}}", prop, seed, idx, esc(why), esc(detail)).unwrap();
    };
    // without the input first: the case, run again to note its input, may end the process
    put("");
    put(&cases::describe(prop, seed, idx, Duration::from_secs(3)));
}

fn main() {
    // log messages are wanted (by nobody): their arguments are evaluated
    log::set_max_level(log::LevelFilter::Trace);
    panic::set_hook(Box::new(|i| { let s = i.to_string(); LAST.with(|l| *l.borrow_mut() = s); }));
    let a: Vec<String> = std::env::args().collect();
    iso::self_test();
    match a.get(1).map(|s| s.as_str()) {
        Some("one") => {
            let (p, s, i) = (&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            let (p2, done) = (p.clone(), Arc::new(AtomicBool::new(false)));
            let d2 = done.clone();
            let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || { let r = guarded(&p2, s, i); d2.store(true, Ordering::SeqCst); r }).unwrap();
            let t = Instant::now();
            while !done.load(Ordering::SeqCst) {
                if t.elapsed() > Duration::from_secs(cases::HANG) { println!("FAIL no result after {} s", cases::HANG); std::process::exit(1); }
                std::thread::sleep(Duration::from_millis(5));
            }
            match h.join().unwrap() { Ok(()) => println!("OK"), Err(e) => { println!("FAIL {}", e); println!("{}", cases::describe(p, s, i, Duration::from_secs(30))); std::process::exit(1) } }
        }
        Some("serve") => {
            let mut l = String::new();
            while std::io::stdin().read_line(&mut l).unwrap_or(0) > 0 {
                let v: Vec<u64> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
                println!("{}", cases::answer18(v[0], v[1]));
                std::io::stdout().flush().unwrap();
                l.clear();
            }
        }
        Some("describe") => println!("{}", cases::describe(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), Duration::from_secs(30))),
        Some("writereplay") => write_replay(&a[5], &a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[6]),
        Some("run") => {
            let (prop, seed, secs, out) = (a[2].clone(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].clone());
            let slots_file = a[6].clone();
            let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
            let next = Arc::new(AtomicU64::new(0));
            let fail: Arc<Mutex<Option<(u64, String)>>> = Arc::new(Mutex::new(None));
            let stop = Arc::new(AtomicBool::new(false));
            let slots: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..n).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect());
            let ran = Arc::new(AtomicU64::new(0));
            let all: Arc<Mutex<Vec<u64>>> = Arc::new(Mutex::new(vec![]));
            let t0 = Instant::now();
            let fixed = cases::fixed(&prop);
            let mut hs = vec![];
            let sf = Arc::new(std::fs::File::create(&slots_file).unwrap());
            for k in 0..n {
                let (all, prop, next, fail, stop, slots, ran, sf) = (all.clone(), prop.clone(), next.clone(), fail.clone(), stop.clone(), slots.clone(), ran.clone(), sf.clone());
                hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                    use std::os::unix::fs::FileExt;
                    let mut seen: Vec<u64> = vec![];
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        // the fixed part always runs to its end, the random part for the given time
                        if stop.load(Ordering::SeqCst) || (i >= fixed && t0.elapsed().as_secs() >= secs) { break; }
                        slots[k].1.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                        slots[k].0.store(i, Ordering::SeqCst);
                        let _ = sf.write_all_at(&i.to_le_bytes(), 8 * k as u64);
                        rng::print_reset(if i < fixed { i + 1 } else { 0 });
                        let r = guarded(&prop, seed, i);
                        if seen.len() < 4_000_000 { seen.push(rng::print()); }
                        slots[k].0.store(u64::MAX, Ordering::SeqCst);
                        ran.fetch_add(1, Ordering::SeqCst);
                        if let Err(e) = r {
                            let mut f = fail.lock().unwrap();
                            if f.as_ref().map_or(true, |q| i < q.0) { *f = Some((i, e)); }
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    slots[k].0.store(u64::MAX, Ordering::SeqCst);
                    all.lock().unwrap().extend(seen);
                }).unwrap());
            }
            // watchdog
            loop {
                if hs.iter().all(|h| h.is_finished()) { break; }
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                for s in slots.iter() {
                    let i = s.0.load(Ordering::SeqCst);
                    if i != u64::MAX && now.saturating_sub(s.1.load(Ordering::SeqCst)) > cases::HANG * 1000 && s.0.load(Ordering::SeqCst) == i {
                        let why = format!("no result after {} s", cases::HANG);
                        write_replay(&out, &prop, seed, i, &why);
                        println!("FAIL index={} {}", i, why);
                        std::process::exit(1);
                    }
                }
            }
            let f = fail.lock().unwrap().take();
            if let Some((i, e)) = f {
                write_replay(&out, &prop, seed, i, &e);
                println!("FAIL index={} {}", i, e);
                std::process::exit(1);
            }
            let mut a = all.lock().unwrap();
            a.sort_unstable();
            a.dedup();
            println!("DONE cases={} fixed={} distinct={} seconds={:.1}", ran.load(Ordering::SeqCst), fixed, a.len(), t0.elapsed().as_secs_f64());
        }
        _ => { eprintln!("usage"); std::process::exit(2); }
    }
}
