//! Runs the real compiler binary under the simulated operating system (shim/shim.c).

use simcore::tape::Tape;
use std::ffi::CString;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::Relaxed};

pub const K_OPEN: usize = 0;
pub const K_READ: usize = 1;
pub const K_PIPE: usize = 2;
pub const K_SPAWN: usize = 3;
pub const K_THREAD: usize = 4;
pub const K_PWRITE: usize = 5;
pub const K_PREAD: usize = 6;
pub const K_STDOUT: usize = 7;
pub const K_WAIT: usize = 8;
pub const K_MALLOC: usize = 9;
pub const KINDS: [&str; 10] =
    ["open", "read", "pipe", "spawn", "thread", "pipe_write", "pipe_read", "stdout_write", "wait", "allocation"];
pub const MODES: [&str; 11] = [
    "buffered", "streaming", "lingering", "crash_while_reading", "crash_while_writing", "rejects_input", "exit_code",
    "closes_input_early", "output_not_text", "truncated_output_and_failure", "fails_at_once",
];
pub const M_BUFFERED: u64 = 0;

#[derive(Clone, Debug)]
pub struct Scenario {
    pub p_short: u64,
    pub p_eintr: u64,
    pub p_switch: u64,
    pub benign_max: u64,
    pub pipe_cap: u64,
    pub event_cap: u64,
    pub hash_mode: u64,
    pub fmt_mode: u64,
    pub fmt_at: u64,
    pub fmt_chunk: u64,
    pub aims: Vec<(u64, u64, u64)>,
}

impl Scenario {
    /// Everything goes well, and always the same way.
    pub fn benign() -> Scenario {
        Scenario {
            p_short: 0,
            p_eintr: 0,
            p_switch: 0,
            benign_max: 0,
            pipe_cap: 65536,
            event_cap: 400_000,
            hash_mode: 0x1234567,
            fmt_mode: M_BUFFERED,
            fmt_at: 0,
            fmt_chunk: 65536,
            aims: vec![],
        }
    }
    /// A legal environment: short and interrupted calls, any schedule, any pacing.
    pub fn random(t: &mut Tape) -> Scenario {
        let mut s = Scenario::benign();
        s.hash_mode = 0;
        s.p_short = [0, 30, 200, 700][t.idx(4)];
        s.p_eintr = [0, 30, 200, 500][t.idx(4)];
        s.p_switch = [0, 100, 400, 1024][t.idx(4)];
        s.benign_max = [0, 3, 60, 2000][t.idx(4)];
        s.pipe_cap = [65536, 4096, 512, 61, 1 << 20][t.idx(5)];
        s.fmt_chunk = [65536, 8192, 4096, 1000, 97][t.idx(5)];
        s.fmt_mode = t.choose(3);
        s
    }
}

#[repr(C)]
struct InHdr {
    magic: u64,
    mode: u64,
    seed: u64,
    tape_len: u64,
    nfiles: u64,
    p_short: u64,
    p_eintr: u64,
    p_switch: u64,
    benign_max: u64,
    pipe_cap: u64,
    event_cap: u64,
    hash_mode: u64,
    fmt_mode: u64,
    fmt_at: u64,
    fmt_chunk: u64,
    naim: u64,
    aim: [[u64; 3]; 4],
}

#[repr(C)]
#[derive(Clone, Debug, Default)]
pub struct OutHdr {
    pub magic: u64,
    pub verdict: u64,
    pub events: u64,
    pub nchoices: u64,
    pub ntrace: u64,
    pub stdout_len: u64,
    pub fmt_in_len: u64,
    pub fmt_out_len: u64,
    pub fmt_spawned: u64,
    pub fmt_dead: u64,
    pub fmt_status: u64,
    pub sched_hash: u64,
    pub sim_ns: u64,
    pub threads: u64,
    pub switches: u64,
    pub hits: [u64; 16],
    pub injected: [u64; 16],
    pub n_short: u64,
    pub n_eintr: u64,
    pub fmt_fault: u64,
    pub closed_early: u64,
    pub stdout_calls: u64,
    pub wr_len: u64,
    pub stderr_len: u64,
    pub hwm_kb: u64,
}

/// address space of the compiler process
pub const AS_LIMIT: u64 = 1 << 30;

const MAXCH: usize = 1 << 18;
const MAXTR: usize = 1 << 15;
const MAXOUT: usize = 24 << 20;
const MAXFMT: usize = 24 << 20;
const MAXERR: usize = 1 << 16;
const OFF_CH: usize = 4096;
const OFF_TR: usize = OFF_CH + MAXCH * 4;
const OFF_OUT: usize = OFF_TR + MAXTR * 8;
const OFF_FMT: usize = OFF_OUT + MAXOUT;
const OFF_ERR: usize = OFF_FMT + MAXFMT;
const OUT_SIZE: usize = OFF_ERR + MAXERR;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Exit(i32),
    Signal(i32),
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub end: End,
    pub hdr: OutHdr,
    pub stdout: Vec<u8>,
    pub stderr: String,
    pub choices: Vec<u32>,
    pub trace: Vec<(u32, u32)>,
    /// Processor time of the run. No verdict depends on it.
    pub cpu_ms: u64,
}

impl Outcome {
    pub fn ok(&self) -> bool {
        self.end == End::Exit(0)
    }
    /// The simulation can not say anything about this run.
    pub fn unjudged(&self) -> bool {
        self.hdr.verdict == 210 || self.end == End::Signal(libc::SIGTERM) || self.end == End::Exit(211) || self.hdr.magic != 0x51a1
    }
    /// Some() if the run did not end by itself.
    pub fn stuck(&self) -> Option<&'static str> {
        match (self.hdr.verdict, self.end) {
            (200, _) => Some("deadlock: no thread and no process can run"),
            (201, _) => Some("livelock: the run does not end"),
            (_, End::Signal(libc::SIGXCPU)) | (_, End::Signal(libc::SIGKILL)) => Some("the run does not end"),
            _ => None,
        }
    }
    /// The run asked for more memory than there is, though no allocation was made to fail.
    pub fn out_of_memory(&self) -> bool {
        self.hdr.injected[K_MALLOC] == 0 && (self.stderr.contains("memory allocation of") || self.stderr.contains("capacity overflow"))
    }
    pub fn hard_faults(&self) -> u64 {
        self.hdr.injected.iter().sum::<u64>() + self.hdr.fmt_fault
    }
    pub fn how(&self) -> String {
        match self.end {
            End::Exit(n) => format!("exit status {}", n),
            End::Signal(n) => format!("death by signal {}", n),
        }
    }
    pub fn error_line(&self) -> String {
        let l: Vec<&str> = self.stderr.lines().filter(|l| l.contains("Error") || l.contains("panicked")).collect();
        l.last().unwrap_or(&"").chars().take(200).collect()
    }
}

static CHILD: AtomicI32 = AtomicI32::new(0);
static CHILD_T: AtomicU64 = AtomicU64::new(0);

pub struct Os {
    bin: CString,
    env: Vec<CString>,
    in_fd: i32,
    out_fd: i32,
    out: *mut u8,
    pub cpu_secs: u64,
    /// specifications of the repository
    pub specs: Vec<(String, Vec<(String, Vec<u8>)>)>,
    /// the same as an independent reader understands them
    pub libs: Vec<(String, simcore::asn1::Library)>,
}

fn memfd(name: &str) -> i32 {
    let n = CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(n.as_ptr(), 0) };
    assert!(fd >= 0, "memfd_create");
    fd
}

impl Os {
    pub fn new(bin: &str, shim: &str) -> Os {
        // what the addresses are is for the shim to say (inherited by the compiler)
        unsafe { libc::personality(0x0040000) };
        let in_fd = memfd("simin");
        let out_fd = memfd("simout");
        let out = unsafe {
            assert!(libc::ftruncate(out_fd, OUT_SIZE as i64) == 0);
            let p = libc::mmap(
                std::ptr::null_mut(),
                OUT_SIZE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                out_fd,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            p as *mut u8
        };
        let env = vec![
            CString::new(format!("LD_PRELOAD={}", shim)).unwrap(),
            CString::new(format!("SIM_IN_FD={}", in_fd)).unwrap(),
            CString::new(format!("SIM_OUT_FD={}", out_fd)).unwrap(),
            CString::new("PATH=/nonexistent").unwrap(),
        ];
        // A run that blocks outside of the simulation: nothing is known about it (see unjudged()).
        std::thread::spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = CHILD.load(Relaxed);
            if c > 0 && now_ms().saturating_sub(CHILD_T.load(Relaxed)) > 60_000 {
                unsafe { libc::kill(c, libc::SIGTERM) };
            }
        });
        Os { bin: CString::new(bin).unwrap(), env, in_fd, out_fd, out, cpu_secs: 20, specs: vec![], libs: vec![] }
    }

    /// One run of the compiler over the given files, in that order.
    pub fn run(&self, files: &[(String, Vec<u8>)], sc: &Scenario, seed: u64, tape: Option<&[u32]>) -> Outcome {
        let _ = self.out_fd;
        let mut b: Vec<u8> = Vec::with_capacity(1 << 16);
        let mut aim = [[u64::MAX, 0, 0]; 4];
        for (i, a) in sc.aims.iter().take(4).enumerate() {
            aim[i] = [a.0, a.1, a.2];
        }
        let h = InHdr {
            magic: 1,
            mode: tape.is_some() as u64,
            seed,
            tape_len: tape.map_or(0, |t| t.len() as u64),
            nfiles: files.len() as u64,
            p_short: sc.p_short,
            p_eintr: sc.p_eintr,
            p_switch: sc.p_switch,
            benign_max: sc.benign_max,
            pipe_cap: sc.pipe_cap,
            event_cap: sc.event_cap,
            hash_mode: sc.hash_mode,
            fmt_mode: sc.fmt_mode,
            fmt_at: sc.fmt_at,
            fmt_chunk: sc.fmt_chunk,
            naim: sc.aims.len() as u64,
            aim,
        };
        let hb = unsafe { std::slice::from_raw_parts(&h as *const InHdr as *const u8, std::mem::size_of::<InHdr>()) };
        b.extend_from_slice(hb);
        for x in tape.unwrap_or(&[]) {
            b.extend_from_slice(&x.to_le_bytes());
        }
        while b.len() % 8 != 0 {
            b.push(0);
        }
        for (n, d) in files {
            b.extend_from_slice(&(n.len() as u64).to_le_bytes());
            b.extend_from_slice(&(d.len() as u64).to_le_bytes());
            b.extend_from_slice(n.as_bytes());
            b.push(0);
            while b.len() % 8 != 0 {
                b.push(0);
            }
            b.extend_from_slice(d);
            while b.len() % 8 != 0 {
                b.push(0);
            }
        }
        unsafe {
            assert!(libc::ftruncate(self.in_fd, 0) == 0);
            let mut done = 0;
            while done < b.len() {
                let r = libc::pwrite(self.in_fd, b[done..].as_ptr() as *const _, b.len() - done, done as i64);
                assert!(r > 0);
                done += r as usize;
            }
            std::ptr::write_bytes(self.out, 0, OFF_CH);
        }
        let args: Vec<CString> = std::iter::once(self.bin.clone())
            .chain(files.iter().map(|f| CString::new(f.0.as_str()).unwrap()))
            .collect();
        let mut argv: Vec<*mut i8> = args.iter().map(|a| a.as_ptr() as *mut i8).collect();
        argv.push(std::ptr::null_mut());
        let mut envp: Vec<*mut i8> = self.env.iter().map(|a| a.as_ptr() as *mut i8).collect();
        envp.push(std::ptr::null_mut());
        let mut status = 0;
        let mut ru: libc::rusage = unsafe { std::mem::zeroed() };
        unsafe {
            let pid = libc::vfork_like(self.bin.as_ptr(), &argv, &envp);
            CHILD_T.store(now_ms(), Relaxed);
            CHILD.store(pid, Relaxed);
            let l = libc::rlimit { rlim_cur: self.cpu_secs, rlim_max: self.cpu_secs + 1 };
            libc::prlimit(pid, libc::RLIMIT_CPU, &l, std::ptr::null_mut());
            let l = libc::rlimit { rlim_cur: AS_LIMIT, rlim_max: AS_LIMIT };
            libc::prlimit(pid, libc::RLIMIT_AS, &l, std::ptr::null_mut());
            loop {
                let r = libc::wait4(pid, &mut status, 0, &mut ru);
                if r == pid {
                    break;
                }
            }
            CHILD.store(0, Relaxed);
        }
        let end = if libc::WIFSIGNALED(status) { End::Signal(libc::WTERMSIG(status)) } else { End::Exit(libc::WEXITSTATUS(status)) };
        let at = |off: usize, n: usize| unsafe { std::slice::from_raw_parts(self.out.add(off), n) };
        let hdr = unsafe { (*(self.out as *const OutHdr)).clone() };
        let ch = at(OFF_CH, hdr.nchoices.min(MAXCH as u64) as usize * 4);
        let tr = at(OFF_TR, hdr.ntrace.min(MAXTR as u64) as usize * 8);
        let w = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        let el = hdr.stderr_len as usize;
        let stderr = if el <= MAXERR {
            at(OFF_ERR, el).to_vec()
        } else {
            let k = el % MAXERR;
            [at(OFF_ERR + k, MAXERR - k), at(OFF_ERR, k)].concat()
        };
        Outcome {
            end,
            stdout: at(OFF_OUT, hdr.stdout_len as usize).to_vec(),
            stderr: String::from_utf8_lossy(&stderr).into_owned(),
            choices: ch.chunks(4).map(w).collect(),
            trace: tr.chunks(8).map(|c| (w(c), w(&c[4..]))).collect(),
            hdr,
            cpu_ms: [ru.ru_utime, ru.ru_stime].iter().map(|t| t.tv_sec as u64 * 1000 + t.tv_usec as u64 / 1000).sum(),
        }
    }
}

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

mod libc {
    pub use ::libc::*;
    /// posix_spawn with /dev/null for the standard streams and address space randomisation left on.
    pub unsafe fn vfork_like(bin: *const i8, argv: &[*mut i8], envp: &[*mut i8]) -> i32 {
        use std::sync::OnceLock;
        static NULL: OnceLock<i32> = OnceLock::new();
        let null = *NULL.get_or_init(|| open(c"/dev/null".as_ptr(), O_RDWR | O_CLOEXEC));
        let mut fa: posix_spawn_file_actions_t = std::mem::zeroed();
        posix_spawn_file_actions_init(&mut fa);
        for i in 0..3 {
            posix_spawn_file_actions_adddup2(&mut fa, null, i);
        }
        let mut pid = 0;
        let e = posix_spawn(&mut pid, bin, &fa, std::ptr::null(), argv.as_ptr(), envp.as_ptr());
        posix_spawn_file_actions_destroy(&mut fa);
        assert!(e == 0, "posix_spawn: {}", e);
        pid
    }
}

const TNAMES: [&str; 26] = [
    "", "switch to actor", "open file", "read", "read from pipe", "write to pipe", "write to stdout", "pipe created",
    "formatter started", "thread started", "joined", "thread ended", "formatter's status", "short transfer",
    "interrupted call", "FAULT", "formatter reads", "formatter writes", "formatter closes its input after",
    "formatter closes its output after", "formatter ends with", "clock advances", "broken pipe", "waits", "close", "kill",
];

/// The schedule and fault trace in words.
pub fn show_trace(tr: &[(u32, u32)], max: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for (w, a) in tr {
        let n = TNAMES.get(*w as usize).copied().unwrap_or("?");
        let s = if *w == 15 {
            format!("FAULT: call {} fails with errno {}", KINDS.get((a >> 16) as usize).unwrap_or(&"?"), a & 0xffff)
        } else if *w == 1 && *a == 32 {
            "switch to the formatter".to_string()
        } else {
            format!("{} {}", n, a)
        };
        v.push(s);
        if v.len() >= max {
            v.push("...".into());
            break;
        }
    }
    v
}
