//! Worker of the compiler world: executes simulated runs of one property.

mod ctx;
mod os;
mod read;
mod scen;
mod shape;

use ctx::*;
use simcore::tape::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
static CUR_CPU: AtomicU64 = AtomicU64::new(0);

fn cpu_ms() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

struct Done {
    res: Result<(), Violation>,
    driver: Vec<u64>,
    shims: Vec<Vec<u32>>,
    trace: Vec<String>,
    digest: u64,
    nontrivial: bool,
}

/// The replay file's tape: the driver's choices, then those of each simulated machine.
fn flat(d: &[u64], s: &[Vec<u32>]) -> Vec<u64> {
    let mut v = vec![d.len() as u64];
    v.extend(d);
    v.push(s.len() as u64);
    for x in s {
        v.push(x.len() as u64);
        v.extend(x.iter().map(|c| *c as u64));
    }
    v
}
fn unflat(v: &[u64]) -> (Vec<u64>, Vec<Vec<u32>>) {
    let mut p = 0;
    let mut take = |n: usize| -> Vec<u64> {
        let a = p.min(v.len());
        let b = (p + n).min(v.len());
        p = b;
        v[a..b].to_vec()
    };
    let one = |x: Vec<u64>| x.first().copied().unwrap_or(0) as usize;
    let n = one(take(1));
    let d = take(n);
    let k = one(take(1));
    let mut s = vec![];
    for _ in 0..k.min(10_000) {
        let n = one(take(1));
        s.push(take(n).iter().map(|x| *x as u32).collect());
    }
    (d, s)
}

fn once(prop: &str, mut t: Tape, shims: Option<Vec<Vec<u32>>>, os: &os::Os, stats: &mut Stats, tracing: bool, thorough: bool) -> Done {
    let mut c = Ctx::new(&mut t, os, stats, shims, tracing, thorough);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scen::run(prop, &mut c)));
    let res = match r {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            viol("harness", format!("the harness itself panicked: {}", m))
        }
    };
    let (shims, trace, digest, nontrivial) = (std::mem::take(&mut c.logs), std::mem::take(&mut c.trace), c.digest, c.nontrivial);
    Done { res, driver: t.log, shims, trace, digest, nontrivial }
}

fn record(prop: &str, seed: u64, o: &Done, v: &Violation) -> String {
    format!(
        "{{\"property\":{},\"shard\":\"asn1csim\",\"seed\":{},\"kind\":{},\"message\":{},\"tape\":[{}],\"trace\":[{}]}}",
        jstr(prop),
        seed,
        jstr(&v.kind),
        jstr(&v.msg),
        flat(&o.driver, &o.shims).iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        o.trace.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")
    )
}

/// Every directory below with specification files.
fn load_specs(dir: &str) -> Vec<(String, Vec<(String, Vec<u8>)>)> {
    let mut v = vec![];
    let list = |d: &std::path::Path| {
        let mut x: Vec<_> = std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        x.sort();
        x as Vec<std::path::PathBuf>
    };
    for d in list(std::path::Path::new(dir)) {
        let f: Vec<(String, Vec<u8>)> = list(&d)
            .iter()
            .filter(|p| p.extension().map_or(false, |e| e == "asn" || e == "asn1"))
            .filter_map(|p| Some((p.file_name()?.to_string_lossy().into_owned(), std::fs::read(p).ok()?)))
            .collect();
        if !f.is_empty() {
            v.push((d.file_name().unwrap_or_default().to_string_lossy().into_owned(), f));
        }
    }
    v
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut a: BTreeMap<String, String> = BTreeMap::new();
    let argv: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < argv.len() {
        let k = argv[i].trim_start_matches("--").to_string();
        if i + 1 < argv.len() && !argv[i + 1].starts_with("--") {
            a.insert(k, argv[i + 1].clone());
            i += 2;
        } else {
            a.insert(k, "1".into());
            i += 1;
        }
    }
    let num = |k: &str, d: u64| a.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let prop = a.get("prop").cloned().unwrap_or_default();
    let thorough = a.contains_key("thorough");
    let out = a.get("out").cloned();
    let cpu_limit = num("cpu-ms", if prop == "C07" { 20000 } else { 120000 });
    unsafe {
        // the simulated machines have their own limits
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        // no address space randomisation below: one thing less that differs between runs
        libc::personality(0x0040000);
    }
    if a.contains_key("seed-of") {
        println!("{}", run_seed(num("seed-of", 1), &prop, num("shard-no", 0), num("start", 0)));
        return;
    }
    let (bin, shim) = match (a.get("bin"), a.get("shim")) {
        (Some(b), Some(s)) => (b.clone(), s.clone()),
        _ => {
            eprintln!("--bin and --shim are needed");
            std::process::exit(2);
        }
    };
    let mut os = os::Os::new(&bin, &shim);
    if let Some(d) = a.get("specs") {
        os.specs = load_specs(d);
        for (n, f) in &os.specs {
            let t: Vec<String> = f.iter().map(|x| String::from_utf8_lossy(&x.1).into_owned()).collect();
            match simcore::asn1::Library::new(&t.iter().map(|x| x.as_str()).collect::<Vec<_>>()) {
                Ok(l) => os.libs.push((n.clone(), l)),
                Err(e) => eprintln!("specification {} is left out: {}", n, e),
            }
        }
    }
    let os = os;

    if let Some(o) = a.get("emit") {
        // one compiler run over the files of a directory on a benign machine; bindings or an error
        let mut files = load_specs(a.get("from").map_or(".", |s| s)).into_iter().flat_map(|d| d.1).collect::<Vec<_>>();
        files.sort();
        let r = os.run(&files, &os::Scenario::benign(), 1, None);
        if r.ok() && std::fs::write(o, &r.stdout).is_ok() {
            return;
        }
        println!("{}: {}", r.how(), r.error_line());
        std::process::exit(1);
    }

    // what runs inside this process (C07) may not use more than its share of processor time
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(100));
        if CUR.load(Relaxed) != u64::MAX && cpu_ms().saturating_sub(CUR_CPU.load(Relaxed)) > cpu_limit {
            println!("HANG {}", CUR.load(Relaxed));
            unsafe { libc::_exit(97) };
        }
    });
    let start_run = |i: u64| {
        CUR_CPU.store(cpu_ms(), Relaxed);
        CUR.store(i, Relaxed);
    };

    let one = |o: Done, seed: u64| -> ! {
        let s = match &o.res {
            Ok(()) => format!(
                "{{\"kind\":\"none\",\"digest\":{},\"trace\":[{}]}}",
                o.digest,
                o.trace.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")
            ),
            Err(v) => record(&prop, seed, &o, v),
        };
        println!("{}", s);
        std::process::exit(if o.res.is_ok() { 0 } else { 1 });
    };
    if let Some(f) = a.get("tape") {
        let s = std::fs::read_to_string(f).unwrap_or_default();
        let v: Vec<u64> = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let (d, sh) = unflat(&v);
        start_run(0);
        let mut st = Stats::default();
        one(once(&prop, Tape::replay(d), Some(sh), &os, &mut st, true, thorough), 0);
    }
    if a.contains_key("one") {
        let seed = num("one", 0);
        let mut t = Tape::gen(seed);
        if let Some(f) = a.get("sink") {
            t.sink = std::fs::File::create(f).ok();
        }
        start_run(0);
        let mut st = Stats::default();
        one(once(&prop, t, None, &os, &mut st, true, thorough), seed);
    }

    let base = num("seed", 1);
    let runs = num("runs", 1000);
    let first = num("start", 0);
    let shard_no = num("shard-no", 0);
    let max = std::time::Duration::from_secs(num("max-secs", 3600));
    let keep = num("keep", 3) as usize;
    let t0 = std::time::Instant::now();
    let mut stats = Stats::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let (mut samples, mut records): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let mut kinds: HashSet<String> = HashSet::new();
    let (mut done, mut violations) = (0u64, 0u64);
    for i in first..first + runs {
        if t0.elapsed() > max {
            break;
        }
        let seed = run_seed(base, &prop, shard_no, i);
        start_run(i);
        if let Some(o) = &out {
            let _ = std::fs::write(format!("{}.cur", o), i.to_le_bytes());
        }
        let tracing = samples.len() < 2 && i % 7 == 3;
        let o = once(&prop, Tape::gen(seed), None, &os, &mut stats, tracing, thorough);
        done += 1;
        if tracing && o.nontrivial && !o.trace.is_empty() {
            samples.push(format!(
                "{{\"shard\":\"asn1csim\",\"seed\":{},\"trace\":[{}]}}",
                seed,
                o.trace.iter().take(40).map(|x| jstr(&x.chars().take(600).collect::<String>())).collect::<Vec<_>>().join(",")
            ));
        }
        if o.nontrivial && seen.len() < 4_000_000 {
            seen.insert(o.digest);
        }
        if let Err(v) = &o.res {
            violations += 1;
            if !kinds.insert(v.kind.clone()) || records.len() >= keep {
                continue;
            }
            if let Some(f) = &out {
                let _ = std::fs::write(format!("{}.rec", f), record(&prop, seed, &o, v));
            }
            let lim = std::time::Instant::now() + std::time::Duration::from_secs(num("min-secs", 25));
            let mut st = Stats::default();
            let mut fails = |d: &[u64], s: &[Vec<u32>]| {
                if std::time::Instant::now() > lim {
                    return false;
                }
                CUR_CPU.store(cpu_ms(), Relaxed);
                let r = once(&prop, Tape::replay(d.to_vec()), Some(s.to_vec()), &os, &mut st, false, thorough);
                matches!(r.res, Err(x) if x.kind == v.kind)
            };
            // first nothing but benign schedules, then the driver's choices, then each schedule
            let mut shims = o.shims.clone();
            if fails(&o.driver, &vec![vec![]; shims.len()]) {
                shims = vec![vec![]; shims.len()];
            } else {
                for k in 0..shims.len() {
                    let mut c = shims.clone();
                    c[k].clear();
                    if fails(&o.driver, &c) {
                        shims = c;
                    }
                }
            }
            let driver = minimise(o.driver.clone(), 3000, |c| fails(c, &shims));
            for k in 0..shims.len() {
                let s: Vec<u64> = shims[k].iter().map(|x| *x as u64).collect();
                let m = minimise(s, 1500, |c| {
                    let mut x = shims.clone();
                    x[k] = c.iter().map(|y| *y as u32).collect();
                    fails(&driver, &x)
                });
                shims[k] = m.iter().map(|y| *y as u32).collect();
            }
            CUR_CPU.store(cpu_ms(), Relaxed);
            let r = once(&prop, Tape::replay(driver), Some(shims), &os, &mut st, true, thorough);
            let r = match &r.res {
                Err(_) => r,
                Ok(()) => once(&prop, Tape::gen(seed), None, &os, &mut st, true, thorough),
            };
            match &r.res {
                // recorded with the choices of this last execution, so that the replay is that execution
                Err(v2) => records.push(record(&prop, seed, &r, v2)),
                Ok(()) => {
                    records.push(record(&prop, seed, &o, &Violation { kind: "harness".into(), msg: "not reproducible".into() }))
                }
            }
            if a.contains_key("stop-on-violation") {
                break;
            }
        }
    }
    CUR.store(u64::MAX, Relaxed);
    let js = format!(
        "{{\"shard\":\"asn1csim\",\"done\":{},\"violations\":{},\"sim_us\":{},\"distinct\":{},\"wall\":{:.3},\"stats\":{{{}}},\"samples\":[{}],\"records\":[{}]}}",
        done,
        violations,
        stats.sim_us,
        seen.len(),
        t0.elapsed().as_secs_f64(),
        stats.c.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
        samples.join(","),
        records.join(",")
    );
    match &out {
        Some(f) => {
            let b: Vec<u8> = seen.iter().flat_map(|d| d.to_le_bytes()).collect();
            std::fs::write(format!("{}.dig", f), b).unwrap();
            std::fs::write(format!("{}.json", f), js).unwrap();
        }
        None => println!("{}", js),
    }
}
