//! State of one simulated run.

use crate::os::*;
use simcore::tape::Tape;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Stats {
    pub c: BTreeMap<String, u64>,
    pub sim_us: u64,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        match self.c.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.c.insert(k.to_string(), n);
            }
        }
    }
    pub fn inc(&mut self, k: &str) {
        self.add(k, 1)
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
}
pub type Res = Result<(), Violation>;
pub fn viol<T>(kind: impl Into<String>, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { kind: kind.into(), msg: msg.into() })
}

pub type Files = Vec<(String, Vec<u8>)>;

pub struct Ctx<'a> {
    pub t: &'a mut Tape,
    pub os: &'a Os,
    pub stats: &'a mut Stats,
    shims: Option<Vec<Vec<u32>>>,
    pub logs: Vec<Vec<u32>>,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub digest: u64,
    pub nontrivial: bool,
    pub thorough: bool,
}

impl<'a> Ctx<'a> {
    pub fn new(
        t: &'a mut Tape,
        os: &'a Os,
        stats: &'a mut Stats,
        shims: Option<Vec<Vec<u32>>>,
        tracing: bool,
        thorough: bool,
    ) -> Ctx<'a> {
        Ctx {
            t,
            os,
            stats,
            shims,
            logs: vec![],
            tracing,
            trace: vec![],
            digest: 0xcbf29ce484222325,
            nontrivial: false,
            thorough,
        }
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            self.trace.push(s);
        }
    }
    pub fn hash(&mut self, b: &[u8]) {
        let mut h = self.digest;
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        self.digest = (h ^ 0xff51afd7ed558ccd ^ b.len() as u64).wrapping_mul(0x100000001b3);
    }
    /// Runs the compiler on a simulated machine.
    pub fn compile(&mut self, files: &[(String, Vec<u8>)], sc: &Scenario) -> Outcome {
        // the seed of the machine is a choice of the driver; a replay brings the machine's choices
        let seed = self.t.raw();
        let k = self.logs.len();
        let o = match &self.shims {
            Some(s) => {
                let none = vec![];
                let tape = s.get(k).unwrap_or(&none);
                self.os.run(files, sc, seed, Some(tape))
            }
            None => self.os.run(files, sc, seed, None),
        };
        let mut ch = o.choices.clone();
        while ch.last() == Some(&0) {
            ch.pop();
        }
        self.logs.push(ch);
        let st = &mut self.stats;
        let h = &o.hdr;
        st.inc("compiler_runs");
        let m = st.c.entry("max.cpu_ms".into()).or_insert(0);
        *m = (*m).max(o.cpu_ms);
        st.sim_us += h.sim_ns / 1000;
        st.add("scheduling_points", h.events);
        st.add("context_switches", h.switches);
        st.add("choices_of_the_machine", h.nchoices);
        st.add("fault.short_transfer", h.n_short);
        st.add("fault.interrupted_call", h.n_eintr);
        for i in 0..10 {
            if h.injected[i] > 0 {
                st.add(&format!("fault.{}_fails", KINDS[i]), h.injected[i]);
            }
        }
        if h.fmt_fault > 0 {
            st.add(&format!("fault.formatter_{}", MODES.get(sc.fmt_mode as usize).unwrap_or(&"?")), h.fmt_fault);
        }
        st.inc(match o.end {
            End::Exit(0) => "runs_that_succeeded",
            _ if o.hdr.verdict != 0 => "runs_ended_by_the_simulator",
            End::Exit(_) => "runs_that_failed",
            End::Signal(_) => "runs_that_crashed",
        });
        if o.unjudged() {
            st.inc("unjudged_runs");
        }
        let sig = [h.sched_hash.to_le_bytes(), h.stdout_len.to_le_bytes(), h.events.to_le_bytes()].concat();
        self.hash(&sig);
        let how = format!("{:?}", o.end);
        self.hash(how.as_bytes());
        if self.tracing {
            let names: Vec<String> = files.iter().map(|f| format!("{} ({} octets)", f.0, f.1.len())).collect();
            self.trace.push(format!("compile {} in {:?}", names.join(" "), sc));
            let quiet = sc.p_short == 0 && sc.p_eintr == 0 && sc.p_switch == 0 && sc.aims.is_empty() && sc.fmt_mode == 0;
            let max = if quiet { 0 } else { 120 };
            if max > 0 {
                self.trace.extend(show_trace(&o.trace, max).into_iter().map(|s| format!("    {}", s)));
            }
            self.trace.push(format!(
                "  -> {}, {} octets of bindings, {} scheduling points; {}",
                o.how(),
                o.stdout.len(),
                h.events,
                o.error_line()
            ));
        }
        o
    }
}
