//! Worker process: executes simulated runs of one property over one shard of types.

use crate::engine::{index, run, Index};
use crate::node::*;
use crate::sim::*;
use simcore::tape::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
static CUR_CPU: AtomicU64 = AtomicU64::new(0);

fn cpu_ms() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

struct Fmt;
static LOGGED: AtomicU64 = AtomicU64::new(0);
impl log::Log for Fmt {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // formats the arguments as a real logger would
        let s = format!("{}", r.args());
        LOGGED.fetch_add(s.len() as u64, Relaxed);
    }
    fn flush(&self) {}
}
static FMT: Fmt = Fmt;

struct Outcome {
    res: Result<(), Violation>,
    tape: Vec<u64>,
    trace: Vec<String>,
    digest: u64,
    nontrivial: bool,
}

fn once(prop: &str, mut t: Tape, types: &Types, ix: &Index, stats: &mut Stats, tracing: bool, thorough: bool) -> Outcome {
    let logging = t.chance(1, 40);
    log::set_max_level(if logging { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    if logging {
        stats.inc("runs_with_logging_on");
    }
    let mut ctx = Ctx {
        t: &mut t,
        stats,
        tracing,
        trace: vec![],
        digest: 0xcbf29ce484222325,
        nontrivial: false,
        thorough,
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(prop, &mut ctx, types, ix)));
    let res = match r {
        Ok(r) => r,
        Err(_) => viol("harness", format!("the harness itself panicked: {}", last_panic())),
    };
    let (trace, digest, nontrivial) = (ctx.trace, ctx.digest, ctx.nontrivial);
    Outcome { res, tape: t.log, trace, digest, nontrivial }
}

fn record(prop: &str, seed: u64, o: &Outcome, v: &Violation, shard: &str) -> String {
    format!(
        "{{\"property\":{},\"shard\":{},\"seed\":{},\"kind\":{},\"message\":{},\"tape\":[{}],\"trace\":[{}]}}",
        jstr(prop),
        jstr(shard),
        seed,
        jstr(&v.kind),
        jstr(&v.msg),
        o.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        o.trace.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")
    )
}

/// Entry point of every generated worker. `prims`: also exercise the runtime's functions directly.
pub fn main(shard: &str, types: Types, prims: bool) -> ! {
    install_panic_hook();
    let _ = log::set_logger(&FMT);
    let mut a: BTreeMap<String, String> = BTreeMap::new();
    let argv: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < argv.len() {
        let k = argv[i].trim_start_matches("--").to_string();
        if i + 1 < argv.len() && !argv[i + 1].starts_with("--") {
            a.insert(k, argv[i + 1].clone());
            i += 2;
        } else {
            a.insert(k, "1".into());
            i += 1;
        }
    }
    let num = |k: &str, d: u64| a.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let prop = a.get("prop").cloned().unwrap_or_default();
    let thorough = a.contains_key("thorough");
    let cpu_limit = num("cpu-ms", 20000);
    let out = a.get("out").cloned();
    unsafe {
        let gb = 6u64 << 30;
        let l = libc::rlimit { rlim_cur: gb, rlim_max: gb };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    if a.contains_key("seed-of") {
        println!("{}", run_seed(num("seed-of", 1), &prop, num("shard-no", 0), num("start", 0)));
        std::process::exit(0);
    }
    let ix = index(&types, prims);

    // watchdog: one run may not use more than its share of processor time
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(100));
        let c = CUR.load(Relaxed);
        if c != u64::MAX && cpu_ms().saturating_sub(CUR_CPU.load(Relaxed)) > cpu_limit {
            println!("HANG {}", c);
            unsafe { libc::_exit(97) };
        }
    });

    let finish = |o: Outcome, seed: u64| -> ! {
        let s = match &o.res {
            Ok(()) => format!(
                "{{\"kind\":\"none\",\"digest\":{},\"trace\":[{}]}}",
                o.digest,
                o.trace.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")
            ),
            Err(v) => record(&prop, seed, &o, v, shard),
        };
        println!("{}", s);
        std::process::exit(if o.res.is_ok() { 0 } else { 1 });
    };
    if let Some(f) = a.get("tape") {
        let s = std::fs::read_to_string(f).unwrap_or_default();
        let v: Vec<u64> = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        CUR_CPU.store(cpu_ms(), Relaxed);
        CUR.store(0, Relaxed);
        let mut st = Stats::default();
        let o = once(&prop, Tape::replay(v), &types, &ix, &mut st, true, thorough);
        finish(o, 0);
    }
    if a.contains_key("one") {
        let seed = num("one", 0);
        let mut t = Tape::gen(seed);
        if let Some(f) = a.get("sink") {
            t.sink = std::fs::File::create(f).ok();
        }
        CUR_CPU.store(cpu_ms(), Relaxed);
        CUR.store(0, Relaxed);
        let mut st = Stats::default();
        let o = once(&prop, t, &types, &ix, &mut st, true, thorough);
        finish(o, seed);
    }

    let base = num("seed", 1);
    let runs = num("runs", 1000);
    let first = num("start", 0);
    let shard_no = num("shard-no", 0);
    let max = std::time::Duration::from_secs(num("max-secs", 3600));
    let keep = num("keep", 3) as usize;
    let t0 = std::time::Instant::now();
    let mut stats = Stats::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut records: Vec<String> = vec![];
    let mut kinds: HashSet<String> = HashSet::new();
    let mut done = 0;
    let mut violations = 0u64;
    for i in first..first + runs {
        if t0.elapsed() > max {
            break;
        }
        let seed = run_seed(base, &prop, shard_no, i);
        CUR_CPU.store(cpu_ms(), Relaxed);
        CUR.store(i, Relaxed);
        if let Some(o) = &out {
            // survives the death of this process
            if i % 1 == 0 {
                write_cur(o, i);
            }
        }
        let tracing = samples.len() < 2 && i % 7 == 3;
        let o = once(&prop, Tape::gen(seed), &types, &ix, &mut stats, tracing, thorough);
        done += 1;
        let used = cpu_ms().saturating_sub(CUR_CPU.load(Relaxed));
        let m = stats.c.entry("max.cpu_ms".into()).or_insert(0);
        *m = (*m).max(used);
        if tracing && o.nontrivial && !o.trace.is_empty() {
            samples.push(format!(
                "{{\"shard\":{},\"seed\":{},\"trace\":[{}]}}",
                jstr(shard),
                seed,
                o.trace.iter().take(25).map(|x| jstr(&x.chars().take(400).collect::<String>())).collect::<Vec<_>>().join(",")
            ));
        }
        if o.nontrivial && seen.len() < 4_000_000 {
            seen.insert(o.digest);
        }
        if let Err(v) = &o.res {
            violations += 1;
            if !kinds.insert(v.kind.clone()) || records.len() >= keep {
                continue;
            }
            // should minimisation itself hang, the record survives
            if let Some(f) = &out {
                let _ = std::fs::write(format!("{}.rec", f), record(&prop, seed, &o, v, shard));
            }
            let lim = std::time::Instant::now() + std::time::Duration::from_secs(15);
            let small = minimise(o.tape.clone(), 3000, |c| {
                if std::time::Instant::now() > lim {
                    return false;
                }
                let mut st = Stats::default();
                CUR_CPU.store(cpu_ms(), Relaxed);
                let r = once(&prop, Tape::replay(c.to_vec()), &types, &ix, &mut st, false, thorough);
                matches!(r.res, Err(x) if x.kind == v.kind)
            });
            CUR_CPU.store(cpu_ms(), Relaxed);
            let mut st = Stats::default();
            let r = once(&prop, Tape::replay(small), &types, &ix, &mut st, true, thorough);
            let r = match &r.res {
                Err(_) => r,
                Ok(()) => once(&prop, Tape::gen(seed), &types, &ix, &mut st, true, thorough),
            };
            if let Err(v2) = &r.res {
                records.push(record(&prop, seed, &r, v2, shard));
            } else {
                records.push(record(&prop, seed, &o, &Violation { kind: "harness".into(), msg: "not reproducible".into() }, shard));
            }
            if a.contains_key("stop-on-violation") {
                break;
            }
        }
    }
    CUR.store(u64::MAX, Relaxed);
    let js = format!(
        "{{\"shard\":{},\"done\":{},\"violations\":{},\"sim_us\":{},\"distinct\":{},\"wall\":{:.3},\"stats\":{{{}}},\"samples\":[{}],\"records\":[{}]}}",
        jstr(shard),
        done,
        violations,
        stats.sim_us,
        seen.len(),
        t0.elapsed().as_secs_f64(),
        stats.c.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
        samples.join(","),
        records.join(",")
    );
    match &out {
        Some(f) => {
            let mut h = std::fs::File::create(format!("{}.json", f)).unwrap();
            h.write_all(js.as_bytes()).unwrap();
            let mut b = vec![];
            for d in &seen {
                b.extend_from_slice(&d.to_le_bytes());
            }
            std::fs::write(format!("{}.dig", f), b).unwrap();
        }
        None => println!("{}", js),
    }
    std::process::exit(0)
}

/// The index of the run under way, in a shared mapping that outlives the process.
fn write_cur(out: &str, i: u64) {
    use std::sync::OnceLock;
    static MAP: OnceLock<usize> = OnceLock::new();
    let p = *MAP.get_or_init(|| {
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(format!("{}.cur", out))
            .unwrap();
        f.set_len(8).unwrap();
        use std::os::fd::AsRawFd;
        unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            ) as usize
        }
    });
    unsafe { std::ptr::write_volatile(p as *mut u64, i) };
}

/// Pairs the model's types with the generated code, by name.
pub fn align(env: simcore::model::Env, entries: Vec<Entry>) -> Types {
    let mut by: BTreeMap<&'static str, Entry> = entries.into_iter().map(|e| (e.name, e)).collect();
    let entries = env
        .types
        .iter()
        .map(|(n, _)| by.remove(simcore::model::type_ident(n).as_str()))
        .collect();
    Types { env, entries }
}
