//! The simulated network and its discrete-event clock.
//!
//! Datagrams are byte strings that carry several messages back to back (bit-packed, as hampi's
//! buffers do). Every delivery, loss, duplication, delay, corruption and node crash is drawn from
//! the tape.

use simcore::tape::Tape;
use std::collections::{BTreeMap, BinaryHeap};

#[derive(Default)]
pub struct Stats {
    pub c: BTreeMap<&'static str, u64>,
    pub sim_us: u64,
}
impl Stats {
    pub fn inc(&mut self, k: &'static str) {
        *self.c.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.c.entry(k).or_insert(0) += n;
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
}

pub struct Ctx<'a> {
    pub t: &'a mut Tape,
    pub stats: &'a mut Stats,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub digest: u64,
    pub nontrivial: bool,
    pub thorough: bool,
}

impl<'a> Ctx<'a> {
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            self.trace.push(s);
        }
    }
    pub fn hash(&mut self, b: &[u8]) {
        let mut h = self.digest;
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0xff51afd7ed558ccd ^ b.len() as u64).wrapping_mul(0x100000001b3);
        self.digest = h;
    }
}

pub fn viol<T>(kind: impl Into<String>, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { kind: kind.into(), msg: msg.into() })
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(200).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 200 {
        s += &format!("..({} octets)", b.len());
    }
    s
}

/// What happened to a datagram on the way.
#[derive(Debug, Clone, PartialEq)]
pub enum Fault {
    Cut(usize),
    Flip(usize),
    Insert(usize, usize),
    Delete(usize, usize),
    Splice(usize),
    Garbage(usize),
    Zero(usize, usize),
}

#[derive(Clone, Debug)]
pub struct Datagram {
    pub id: usize,
    pub from: usize,
    pub to: usize,
    pub bytes: Vec<u8>,
    pub faults: Vec<Fault>,
    pub copy: usize,
}

#[derive(PartialEq, Eq)]
pub enum Ev {
    Send(usize),
    Deliver(usize),
    Crash(usize),
    Restart(usize),
}

#[derive(PartialEq, Eq)]
struct Item(std::cmp::Reverse<(u64, u64)>, usize);
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}

#[derive(Default)]
pub struct Queue {
    heap: BinaryHeap<Item>,
    evs: Vec<Option<Ev>>,
    pub now: u64,
    seq: u64,
}

impl Queue {
    pub fn at(&mut self, time: u64, e: Ev) {
        self.seq += 1;
        self.evs.push(Some(e));
        self.heap.push(Item(std::cmp::Reverse((time, self.seq)), self.evs.len() - 1));
    }
    pub fn pop(&mut self) -> Option<Ev> {
        let i = self.heap.pop()?;
        self.now = (i.0).0 .0;
        self.evs[i.1].take()
    }
}

/// Corrupts `b` as links and memory do; `marks` are bit offsets of lengths, extension bits and
/// bitmaps, which half of the bit flips aim at.
pub fn corrupt(
    t: &mut Tape,
    b: &mut Vec<u8>,
    marks: &[(usize, &'static str)],
    other: Option<&[u8]>,
    stats: &mut Stats,
) -> Vec<Fault> {
    let mut out = vec![];
    let n = 1 + t.weighted(&[6, 3, 1, 1]);
    for _ in 0..n {
        match t.weighted(&[24, 9, 6, 6, 6, 6, 3, 1]) {
            0 => {
                if b.is_empty() {
                    continue;
                }
                let flips = 1 + t.weighted(&[6, 2, 1, 1]);
                for _ in 0..flips {
                    let bit = if !marks.is_empty() && t.coin() {
                        let m = marks[t.idx(marks.len())].0;
                        m + t.idx(10)
                    } else {
                        t.idx(b.len() * 8)
                    };
                    if bit / 8 < b.len() {
                        b[bit / 8] ^= 0x80 >> (bit % 8);
                        out.push(Fault::Flip(bit));
                        stats.inc("fault_bit_flip");
                    }
                }
            }
            1 => {
                if b.is_empty() {
                    continue;
                }
                let l = t.idx(b.len());
                b.truncate(l);
                out.push(Fault::Cut(l));
                stats.inc("fault_truncate");
            }
            2 => {
                let p = t.idx(b.len() + 1);
                let k = 1 + t.idx(4);
                for _ in 0..k {
                    let x = t.byte();
                    b.insert(p, x);
                }
                out.push(Fault::Insert(p, k));
                stats.inc("fault_insert");
            }
            3 => {
                if b.is_empty() {
                    continue;
                }
                let p = t.idx(b.len());
                let k = (1 + t.idx(4)).min(b.len() - p);
                b.drain(p..p + k);
                out.push(Fault::Delete(p, k));
                stats.inc("fault_delete");
            }
            4 => {
                if let Some(o) = other {
                    if o.is_empty() {
                        continue;
                    }
                    let p = t.idx(b.len() + 1);
                    let q = t.idx(o.len());
                    b.truncate(p);
                    b.extend_from_slice(&o[q..]);
                    out.push(Fault::Splice(p));
                    stats.inc("fault_splice");
                }
            }
            5 => {
                let k = 1 + t.idx(12);
                for _ in 0..k {
                    let x = match t.choose(4) {
                        0 => 0,
                        1 => 0xff,
                        _ => t.byte(),
                    };
                    b.push(x);
                }
                out.push(Fault::Garbage(k));
                stats.inc("fault_trailing_garbage");
            }
            7 => {
                // a rogue peer: a length replaced by fragments, valid or not
                let l: Vec<usize> = marks.iter().filter(|m| m.1 == "len").map(|m| (m.0 + 7) / 8).collect();
                if l.is_empty() || b.len() > 4000 {
                    continue;
                }
                let p = l[t.idx(l.len())];
                if p >= b.len() {
                    continue;
                }
                let k = [5, 1, 6, 0, 4, 8][t.idx(6)];
                let unit = [16384, 2048][t.idx(2)];
                let x = [0x41, 0][t.idx(2)];
                b[p] = 0xc0 | k as u8;
                let mut body = vec![x; k * unit];
                body.push(t.idx(2) as u8);
                b.splice(p + 1..p + 1, body);
                out.push(Fault::Insert(p, k * unit));
                stats.inc("fault_forged_fragment");
            }
            _ => {
                if b.is_empty() {
                    continue;
                }
                let p = t.idx(b.len());
                let k = (1 + t.idx(8)).min(b.len() - p);
                let x = if t.coin() { 0xff } else { 0 };
                for y in &mut b[p..p + k] {
                    *y = x;
                }
                out.push(Fault::Zero(p, k));
                stats.inc("fault_overwrite");
            }
        }
    }
    out
}
