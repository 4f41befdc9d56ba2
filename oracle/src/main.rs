mod gen; mod model; mod nat; mod ops; mod props; mod radix;
use ops::Case;
use std::collections::HashSet;
use std::io::Write;
use std::panic;
use std::sync::{Arc, Mutex, atomic::{AtomicBool, AtomicU64, Ordering}};
use std::time::{Duration, Instant};

/// with `form` only the form of the numbers produced and the absence of panics count (property C18)
fn run_guarded(c: &Case, form: bool) -> Result<(), String> {
    model::MALFORMED.with(|x| x.borrow_mut().clear());
    let r = run_any(c);
    if !form { return r; }
    let m = model::MALFORMED.with(|x| x.borrow().clone());
    match r { Err(e) if e.starts_with("panic: ") => Err(e), _ => if m.is_empty() || c.s.is_empty() && (c.op == "raw_parts" || c.op == "from_words") { Ok(()) } else { Err(m) } }
}
fn run_any(c: &Case) -> Result<(), String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(|| ops::run(c))) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}

fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("ORACLE_BT").is_err() { panic::set_hook(Box::new(|_| {})); }
    if let Some(f) = arg(&a, "--replay") {
        let c = Case::parse(&std::fs::read_to_string(&f).unwrap()).expect("replay file");
        match run_guarded(&c, std::fs::read_to_string(&f).unwrap().starts_with("# C18")) { Ok(()) => println!("replay: holds"), Err(e) => { println!("replay: FAILS: {}\n{}", e, c.show()); std::process::exit(1) } }
        return;
    }
    let props: Vec<String> = a[1].split(',').map(|x| x.to_string()).collect();
    let seed: u64 = arg(&a, "--seed").map_or(1, |x| x.parse().unwrap());
    let n: u64 = arg(&a, "--n").map_or(20000, |x| x.parse().unwrap());
    let secs: f64 = arg(&a, "--secs").map_or(60.0, |x| x.parse().unwrap());
    let threads: u64 = arg(&a, "--threads").map_or(8, |x| x.parse().unwrap());
    let maxfail: usize = arg(&a, "--maxfail").map_or(1, |x| x.parse().unwrap());
    let filter = arg(&a, "--op");
    let known: Vec<String> = arg(&a, "--known").map_or(vec![], |f| std::fs::read_to_string(f).map(|t| t.lines().map(|x| x.to_string()).collect()).unwrap_or_default());
    let known = Arc::new(known);
    let out = arg(&a, "--out");
    for prop in props {
        let start = Instant::now();
        let next = Arc::new(AtomicU64::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let fails: Arc<Mutex<Vec<(u64, String, Case)>>> = Arc::new(Mutex::new(vec![]));
        let seen: Arc<Mutex<HashSet<u64>>> = Arc::new(Mutex::new(HashSet::new()));
        let evals = Arc::new(AtomicU64::new(0));
        let opc: Arc<Mutex<std::collections::BTreeMap<String, u64>>> = Default::default();
        // thread watchdog: a case that does not terminate is reported by its index
        let cur: Arc<Vec<Mutex<Option<(Instant, Case)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
        let mut hs = vec![];
        for t in 0..threads as usize {
            let (prop, next, stop, fails, seen, evals, filter, opc, cur) = (prop.clone(), next.clone(), stop.clone(), fails.clone(), seen.clone(), evals.clone(), filter.clone(), opc.clone(), cur.clone());
            let _ = &known;
            hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let mut local = std::collections::BTreeMap::new();
                let mut lseen = vec![];
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n || stop.load(Ordering::Relaxed) || start.elapsed() > Duration::from_secs_f64(secs) { break; }
                    let mut r = gen::Rng(seed.wrapping_mul(0x1000003).wrapping_add(i).wrapping_mul(0x9E3779B97F4A7C15));
                    r.next();
                    let c = match panic::catch_unwind(panic::AssertUnwindSafe(|| props::gen(&prop, &mut r))) { Ok(c) => c, Err(_) => { eprintln!("generator failure at {}", i); continue } };
                    if let Some(f) = &filter { if &c.op != f { continue; } }
                    *cur[t].lock().unwrap() = Some((Instant::now(), c.clone()));
                    let res = run_guarded(&c, prop == "C18");
                    *cur[t].lock().unwrap() = None;
                    evals.fetch_add(1, Ordering::Relaxed);
                    *local.entry(c.op.clone()).or_insert(0u64) += 1;
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new(); c.show().hash(&mut h);
                    lseen.push(h.finish());
                    if let Err(e) = res {
                        let mut f = fails.lock().unwrap();
                        f.push((i, e, c));
                        if f.len() >= maxfail { stop.store(true, Ordering::Relaxed); }
                    }
                }
                let mut o = opc.lock().unwrap();
                for (k, v) in local { *o.entry(k).or_insert(0) += v; }
                seen.lock().unwrap().extend(lseen);
            }).unwrap());
        }
        // wait, watching for cases that hang (120 s)
        loop {
            if hs.iter().all(|h| h.is_finished()) { break; }
            std::thread::sleep(Duration::from_millis(20));
            for s in cur.iter() {
                let g = s.lock().unwrap();
                if let Some((t0, c)) = &*g { if t0.elapsed() > Duration::from_secs(120) { println!("FAIL 0 did not terminate within 120 s\n{}", c.show()); if let Some(o) = &out { std::fs::write(o, format!("# {} did not terminate\n{}", prop, c.show())).unwrap(); } std::process::exit(1); } }
            }
        }
        let mut f = fails.lock().unwrap();
        f.sort_by_key(|x| x.0);
        for (i, e, c) in f.iter() { println!("FAIL case {} of {}: {}\n{}", i, prop, e, c.show()); }
        println!("SUMMARY {} evaluations={} distinct={} fails={} secs={:.1} ops={:?}", prop, evals.load(Ordering::Relaxed), seen.lock().unwrap().len(), f.len(), start.elapsed().as_secs_f64(), opc.lock().unwrap());
        let mut sample = gen::Rng(seed.wrapping_mul(0x1000003).wrapping_mul(0x9E3779B97F4A7C15)); sample.next();
        println!("SAMPLE {}", props::gen(&prop, &mut sample).show().replace('\n', " "));
        std::io::stdout().flush().unwrap();
        if let (Some(o), Some((_, e, c))) = (&out, f.first()) { std::fs::write(o, format!("# {}: {}\n{}", prop, e.replace('\n', " "), c.show())).unwrap(); }
        if !f.is_empty() { std::process::exit(1) }
    }
}
