//! replay bytes <harness> <hex>      run one harness on the verifier's input
//! replay search <harness> <seed> <millis>   look for a failing input
//! With OBJ_RUNS=<file> the number of the current run is kept in the file; with OBJ_AT=<n> and
//! OBJ_TRACE=<file> the draws of run n are (for runs that kill the process or never end).
//! exit 4: a run did not end within OBJ_HANG seconds
//! exit 0: held / nothing found, 1: failed (panic message on stdout), 3: input rejected
#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    use objverif::shim::native::*;
    use std::panic;
    let args: Vec<String> = std::env::args().collect();
    let all = objverif::all();
    if args.get(1).map(|s| s.as_str()) == Some("list") {
        for (m, hs) in &all {
            for (n, _) in hs.iter() {
                println!("{m}::{n}");
            }
        }
        return;
    }
    let want = &args[2];
    let f = all
        .iter()
        .flat_map(|(m, hs)| hs.iter().map(move |(n, f)| (format!("{m}::{n}"), *f)))
        .find(|(n, _)| n == want)
        .expect("no such harness")
        .1;
    panic::set_hook(Box::new(|_| {}));
    let last = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = last.clone();
    panic::set_hook(Box::new(move |i| {
        *l2.lock().unwrap() = i.to_string();
    }));
    // Ok(true) held, Ok(false) rejected, Err(msg) failed
    let run = || -> Result<bool, String> {
        match panic::catch_unwind(f) {
            Ok(()) => Ok(true),
            Err(e) if e.is::<Rejected>() => Ok(false),
            Err(_) => Err(last.lock().unwrap().clone()),
        }
    };
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    static CUR: AtomicU64 = AtomicU64::new(0);
    let hang: u64 = std::env::var("OBJ_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(30);
    std::thread::spawn(move || {
        let (mut seen, mut since) = (u64::MAX, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let n = CUR.load(Relaxed);
            if n != seen { seen = n; since = std::time::Instant::now(); }
            if since.elapsed().as_secs() >= hang {
                println!("HUNG {n}: no answer within {hang} s");
                std::process::exit(4);
            }
        }
    });
    let runs = std::env::var("OBJ_RUNS").ok().map(|p| std::fs::File::create(p).unwrap());
    let at: Option<u64> = std::env::var("OBJ_AT").ok().and_then(|s| s.parse().ok());
    if let Ok(p) = std::env::var("OBJ_TRACE") { *TRACE.lock().unwrap() = Some(p); }
    let mark = |n: u64| {
        CUR.store(n, Relaxed);
        if let Some(f) = &runs { use std::os::unix::fs::FileExt; f.write_all_at(&n.to_le_bytes(), 0).unwrap(); }
        if let Some(a) = at {
            TRACING.store(a == n, Relaxed);
            if n > a { println!("HELD traced"); std::process::exit(0); }
        }
    };
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    match args[1].as_str() {
        "bytes" => {
            let h = args.get(3).map(|s| s.as_str()).unwrap_or("");
            let b = (0..h.len() / 2)
                .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap())
                .collect();
            set_replay(b);
            match run() {
                Ok(true) => println!("HELD"),
                Ok(false) => {
                    println!("REJECTED");
                    std::process::exit(3)
                }
                Err(m) => {
                    println!("FAILED {}", m.replace('\n', " "));
                    std::process::exit(1)
                }
            }
        }
        "search" => {
            let seed: u64 = args[3].parse().unwrap();
            let ms: u64 = args[4].parse().unwrap();
            let t = std::time::Instant::now();
            let (mut n, mut ok) = (0u64, 0u64);
            while t.elapsed().as_millis() < ms as u128 {
                n += 1;
                mark(n);
                if at.is_some_and(|a| n < a) { continue; }
                set_seed(seed.wrapping_mul(1_000_003).wrapping_add(n));
                match run() {
                    Ok(true) => ok += 1,
                    Ok(false) => {}
                    Err(m) => {
                        println!("FAILED {} INPUT {}", m.replace('\n', " "), hex(&used()));
                        std::process::exit(1)
                    }
                }
            }
            println!("HELD tried={n} accepted={ok}");
        }
        "exhaust" => {
            // every combination of choices, up to a time limit
            let ms: u64 = args[4].parse().unwrap();
            let t = std::time::Instant::now();
            let (mut n, mut ok) = (0u64, 0u64);
            odo_start();
            loop {
                n += 1;
                mark(n);
                match run() {
                    Ok(true) => ok += 1,
                    Ok(false) => {}
                    Err(m) => {
                        println!("FAILED {} INPUT {}", m.replace('\n', " "), hex(&used()));
                        std::process::exit(1)
                    }
                }
                if !odo_next() {
                    println!("HELD tried={n} accepted={ok} complete");
                    break;
                }
                if t.elapsed().as_millis() > ms as u128 {
                    println!("HELD tried={n} accepted={ok} stopped at the time limit");
                    break;
                }
            }
        }
        _ => panic!("usage"),
    }
}
