//! Random ASN.1 specifications together with the model of what they mean.
//!
//! Text is kept as tokens separated by single spaces; `render` lays it out.

use crate::model::*;
use crate::tape::Tape;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Type,
    Value,
    Class,
    Object,
    Set,
    /// parameterised type
    Param,
}

#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub text: String,
    /// definitions this one refers to
    pub refs: Vec<usize>,
    pub kind: Kind,
    pub module: usize,
    /// index into the environment, for types
    pub ty: Option<usize>,
    /// value of an INTEGER value definition
    pub value: i128,
}

#[derive(Clone, Debug)]
pub struct Module {
    pub name: String,
    pub oid: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub modules: Vec<Module>,
    pub defs: Vec<Def>,
    pub env: Env,
    /// environment index -> definition index
    pub def_of: Vec<usize>,
}

/// What a specification may contain.
#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// only what the codec supports, with the meaning the model has
    pub codec: bool,
    pub modules: usize,
    pub types: usize,
}

/// Not usable as a bound.
const NO_VALUE: i128 = i128::MIN;

struct G<'a> {
    t: &'a mut Tape,
    s: Spec,
    style: Style,
    n: usize,
    cur: usize,
    refs: Vec<usize>,
    criticality: Option<usize>,
    presence: Option<usize>,
    /// names from RUST_NAMES in use
    taken: Vec<&'static str>,
    templates: Vec<(usize, Template)>,
}

/// Parameterised types, by what they stand for.
#[derive(Clone, Debug)]
enum Template {
    /// CHOICE of NULL and the parameter
    Setup { ext: bool },
    /// SEQUENCE of the parameter, optional, and a list of it
    Pair { ext: bool },
    /// list of the first parameter, up to the second
    List { lb: u64, ext: bool },
    /// INTEGER up to the parameter
    Int { lb: i128 },
    /// OCTET STRING up to the parameter
    Octets { fixed: bool, ext: bool },
    /// SEQUENCE around another template
    Wrap(usize),
    /// anything else: whether each parameter is a type, and what is made of them
    Body(Vec<Dummy>, TB),
}

#[derive(Clone, Debug)]
struct Dummy {
    name: String,
    is_type: bool,
}

/// Body of a parameterised type. Numbers are indices of parameters.
#[derive(Clone, Debug)]
enum TB {
    Type(usize),
    Int { lb: i128, ub: usize, ext: bool },
    Octets { lb: Option<u64>, ub: usize, ext: bool },
    List { elem: Box<TB>, lb: Option<u64>, ub: usize, ext: bool },
    Fixed(Ty),
    Seq(Vec<(String, TB, bool)>, bool),
    Choice(Vec<(String, TB)>, bool),
}

#[derive(Clone, Debug)]
enum Arg {
    Type(Ty),
    Value(i128),
}

fn build(b: &TB, args: &[Arg]) -> Ty {
    let n = |i: usize| match &args[i] {
        Arg::Value(v) => *v,
        Arg::Type(_) => 0,
    };
    let x = |e: bool| if e { Some(vec![]) } else { None };
    let size = |lb: &Option<u64>, ub: usize, ext: bool| {
        let u = n(ub) as u64;
        Some(Size { lb: lb.unwrap_or(u), ub: Some(u), ext })
    };
    match b {
        TB::Type(i) => match &args[*i] {
            Arg::Type(t) => t.clone(),
            Arg::Value(_) => Ty::Null,
        },
        TB::Int { lb, ub, ext } => Ty::Int { lb: Some(*lb), ub: Some(n(*ub)), ext: *ext },
        TB::Octets { lb, ub, ext } => Ty::Octets(size(lb, *ub, *ext)),
        TB::List { elem, lb, ub, ext } => Ty::SeqOf { elem: Box::new(build(elem, args)), size: size(lb, *ub, *ext) },
        TB::Fixed(t) => t.clone(),
        TB::Seq(f, ext) => Ty::Seq {
            fields: f
                .iter()
                .map(|(name, b, optional)| Field { name: name.clone(), ty: build(b, args), optional: *optional, key: false })
                .collect(),
            ext: x(*ext),
        },
        TB::Choice(a, ext) => Ty::Choice {
            alts: a.iter().map(|(name, b)| Alt { name: name.clone(), ty: build(b, args) }).collect(),
            ext: if *ext { Some(vec![]) } else { None },
        },
    }
}

const WORDS: [&str; 24] = [
    "Cell", "Bearer", "UE", "Gtp", "Id", "List", "Item", "Request", "Setup", "Cause", "Radio", "Load", "Path", "Time",
    "Info", "Area", "Mode", "Report", "Peer", "Key", "Slice", "QoS", "Link", "Flow",
];
const LOWER: [&str; 32] = [
    "cell", "bearer", "ueId", "gtp-TEID", "id", "iE-Extensions", "item", "request", "setupCause", "cause", "radio-Load",
    "type", "path2", "time", "info", "areaCode", "mode-B", "report", "peer", "qoS-flow", "transportLayerAddress", "x",
    "self", "match", "async", "final", "none", "some", "ok", "err", "vec", "box",
];
/// Names that mean something in Rust. A type of that name can appear once.
const RUST_NAMES: [&str; 20] = [
    "Result", "Self", "Error", "Vec", "Option", "String", "Some", "Ok", "BitVec", "None", "Err", "Msb0", "Debug", "Box", "Default",
    "Clone", "Copy", "Drop", "AperCodec", "Iterator",
];
/// Words of Rust that are identifiers of ASN.1.
const KEYWORDS: [&str; 50] = [
    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn", "else", "enum", "extern",
    "false", "final", "fn", "for", "gen", "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv",
    "pub", "ref", "return", "self", "static", "struct", "super", "trait", "true", "try", "typeof", "union", "unsafe", "unsized", "use",
    "virtual", "where", "yield",
];

fn tname(t: &mut Tape, n: usize) -> String {
    let k = 1 + t.choose(3);
    let mut s = String::new();
    for i in 0..k {
        if i > 0 && t.coin() {
            s.push('-');
        }
        s += WORDS[t.idx(WORDS.len())];
    }
    format!("{}{}", s, n)
}

impl<'a> G<'a> {
    fn fresh(&mut self) -> String {
        self.n += 1;
        if self.t.chance(1, 60) {
            let n = RUST_NAMES[self.t.idx(RUST_NAMES.len())];
            if !self.s.defs.iter().any(|d| d.name == n) && !self.taken.contains(&n) {
                self.taken.push(n);
                return n.to_string();
            }
        }
        tname(self.t, self.n)
    }
    fn fresh_lower(&mut self, prefix: &str) -> String {
        self.n += 1;
        format!("{}{}{}", prefix, WORDS[self.t.idx(WORDS.len())], self.n)
    }
    fn member(&mut self, used: &mut Vec<String>) -> String {
        let mut m = if self.t.chance(1, 16) { KEYWORDS[self.t.idx(50)] } else { LOWER[self.t.idx(LOWER.len())] }.to_string();
        let norm = |s: &str| s.replace('-', "").to_lowercase();
        if used.contains(&norm(&m)) || (m == "type" && !used.is_empty() && self.t.coin()) {
            m = format!("{}{}", if self.t.coin() { "m" } else { "f-" }, used.len());
        }
        while used.contains(&norm(&m)) {
            m.push('x');
        }
        used.push(norm(&m));
        m
    }
    fn push(&mut self, name: String, text: String, kind: Kind, ty: Option<Ty>, value: i128) -> usize {
        let mut refs = std::mem::take(&mut self.refs);
        refs.sort();
        refs.dedup();
        let d = self.s.defs.len();
        let ty = ty.map(|ty| {
            self.s.env.types.push((name.clone(), ty));
            self.s.def_of.push(d);
            self.s.env.types.len() - 1
        });
        self.s.defs.push(Def { name, text, refs, kind, module: self.cur, ty, value });
        d
    }
    /// Now and then an identifier is defined by way of other identifiers.
    fn alias(&mut self, idt: usize, mut d: usize, mut name: String) -> (usize, String) {
        while self.t.chance(1, 5) {
            self.refs = vec![];
            let (tn, old) = (self.refer(idt), self.refer(d));
            name = self.fresh_lower("id-");
            d = self.push(name.clone(), format!("{} {} ::= {}", name, tn, old), Kind::Value, None, NO_VALUE);
        }
        (d, name)
    }
    /// A reference to an earlier definition: text.
    fn refer(&mut self, d: usize) -> String {
        self.refs.push(d);
        self.s.defs[d].name.clone()
    }
    fn types(&self) -> Vec<usize> {
        (0..self.s.defs.len()).filter(|i| self.s.defs[*i].kind == Kind::Type).collect()
    }
    fn value_ref(&mut self, v: i128) -> Option<String> {
        let k: Vec<usize> =
            (0..self.s.defs.len()).filter(|i| self.s.defs[*i].kind == Kind::Value && self.s.defs[*i].value == v).collect();
        if k.is_empty() {
            return None;
        }
        let d = k[self.t.idx(k.len())];
        Some(self.refer(d))
    }
    fn num(&mut self, v: i128) -> String {
        if self.t.chance(1, 3) {
            if let Some(s) = self.value_ref(v) {
                return s;
            }
        }
        v.to_string()
    }
    fn values(&self, lo: i128, hi: i128) -> Vec<i128> {
        self.s.defs.iter().filter(|d| d.kind == Kind::Value && d.value >= lo && d.value <= hi).map(|d| d.value).collect()
    }
    fn pick(&mut self, lo: i128, hi: i128) -> i128 {
        let vs = self.values(lo, hi);
        if !vs.is_empty() && self.t.chance(1, 3) {
            return vs[self.t.idx(vs.len())];
        }
        let c: Vec<i128> = [
            0i128, 1, 2, 7, 8, 15, 16, 100, 127, 128, 255, 256, 257, 1000, 4095, 32767, 32768, 65535, 65536, 65537, 1 << 20,
            (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 40) - 1, (1 << 63) - 1, -1, -2, -128, -129, -32768, -32769,
            -(1 << 31), -(1 << 31) - 1, -(1 << 40), u64::MAX as i128,
        ]
        .iter()
        .copied()
        .filter(|v| *v >= lo && *v <= hi)
        .collect();
        if c.is_empty() || self.t.chance(1, 4) {
            let span = (hi - lo + 1).min(1 << 20);
            lo + self.t.choose(span as u64) as i128
        } else {
            c[self.t.idx(c.len())]
        }
    }
    fn int(&mut self) -> (String, Ty) {
        let (lo, hi) = if self.t.chance(1, 3) { (-(1i128 << 63), (1i128 << 63) - 1) } else { (0, u64::MAX as i128) };
        let named = if self.t.chance(1, 10) { " { one ( 1 ) , two ( 2 ) }" } else { "" };
        match self.t.weighted(&[3, 1, 2, 2, 2, 1, 1, 1, 1, 1]) {
            8 => {
                // constraints one after another
                let a = self.pick(lo, hi);
                let b = self.pick(a, hi);
                let c = self.pick(lo, b);
                let d = self.pick(a.max(c), hi);
                let first = if self.t.chance(1, 3) { " , ..." } else { "" };
                let ext = self.t.chance(1, 3);
                let last = if ext { " , ..." } else { "" };
                (
                    format!("INTEGER ( {} .. {}{} ) ( {} .. {}{} )", self.num(a), self.num(b), first, self.num(c), self.num(d), last),
                    Ty::Int { lb: Some(a.max(c)), ub: Some(b.min(d)), ext },
                )
            }
            9 => {
                // bounds that are not part of the range
                let a = self.pick(lo, hi - 2);
                let b = self.pick(a + 1, hi - 1);
                let (l, r) = (self.t.coin(), self.t.coin());
                let a2 = if l { a - 1 } else { a };
                let b2 = if r { b + 1 } else { b };
                (
                    format!("INTEGER ( {}{} .. {}{} )", self.num(a2), if l { " <" } else { "" }, if r { "< " } else { "" }, self.num(b2)),
                    Ty::Int { lb: Some(a), ub: Some(b), ext: false },
                )
            }
            0 | 7 => {
                let a = self.pick(lo, hi);
                let b = self.pick(a, hi);
                (format!("INTEGER{} ( {} .. {} )", named, self.num(a), self.num(b)), Ty::Int { lb: Some(a), ub: Some(b), ext: false })
            }
            1 => (format!("INTEGER{}", named), Ty::Int { lb: None, ub: None, ext: false }),
            2 => {
                let a = self.pick(lo, hi);
                let b = self.pick(a, hi);
                let more = if self.t.chance(1, 3) && b < hi - 10 { format!(" , {} .. {}", b + 1, b + 9) } else { String::new() };
                (
                    format!("INTEGER{} ( {} .. {} , ...{} )", named, self.num(a), self.num(b), more),
                    Ty::Int { lb: Some(a), ub: Some(b), ext: true },
                )
            }
            3 => {
                let a = self.pick(lo, hi);
                (format!("INTEGER ( {} )", self.num(a)), Ty::Int { lb: Some(a), ub: Some(a), ext: false })
            }
            4 => {
                // union of ranges and single values, in any order
                let k = 2 + self.t.idx(3);
                let mut parts = vec![];
                let (mut l, mut u) = (i128::MAX, i128::MIN);
                for _ in 0..k {
                    let a = self.pick(lo, hi);
                    if self.t.coin() {
                        let b = self.pick(a, hi);
                        parts.push(format!("{} .. {}", self.num(a), self.num(b)));
                        u = u.max(b);
                    } else {
                        parts.push(self.num(a));
                        u = u.max(a);
                    }
                    l = l.min(a);
                }
                // sets with holes encode as their hull; values in the holes are not in the model's reach
                let ext = self.t.chance(1, 4);
                let e = if ext { " , ..." } else { "" };
                let bar = if self.t.chance(1, 6) { " UNION " } else { " | " };
                (format!("INTEGER ( {}{} )", parts.join(bar), e), Ty::Int { lb: Some(l), ub: Some(u), ext })
            }
            5 => {
                let a = self.pick(lo, hi);
                let b = self.pick(a, hi);
                let c = self.pick(lo, b);
                let d = self.pick(a.max(c), hi);
                let cap = if self.t.chance(1, 4) { "INTERSECTION" } else { "^" };
                (
                    format!("INTEGER ( {} .. {} {} {} .. {} )", self.num(a), self.num(b), cap, self.num(c), self.num(d)),
                    Ty::Int { lb: Some(a.max(c)), ub: Some(b.min(d)), ext: false },
                )
            }
            _ => {
                let b = self.pick(0, 300);
                (format!("INTEGER ( 0 .. {} )", self.num(b)), Ty::Int { lb: Some(0), ub: Some(b), ext: false })
            }
        }
    }
    fn size(&mut self, max: i128, list: bool) -> (String, Option<Size>) {
        let small = |g: &mut Self| {
            let m = [0i128, 1, 2, 3, 4, 8, 16, 17, 20, 32, 64, 128, 150, 256, 1000, 65535, 65536, 70000, 100000, (1 << 32) + 300];
            let v: Vec<i128> = m.iter().copied().filter(|x| *x <= max).collect();
            v[g.t.idx(v.len())]
        };
        match self.t.weighted(&[2, 3, 3, 2, 1]) {
            0 => (String::new(), None),
            1 => {
                let n = small(self).min(200);
                let ext = self.t.chance(1, 4);
                (
                    format!(" ( SIZE ( {}{} ) )", self.num(n), if ext { " , ..." } else { "" }),
                    Some(Size { lb: n as u64, ub: Some(n as u64), ext }),
                )
            }
            k => {
                let mut a = small(self).min(40);
                let mut b = small(self).max(a);
                let vs = self.values(a, max);
                if !vs.is_empty() && self.t.chance(1, 3) {
                    b = vs[self.t.idx(vs.len())];
                }
                if a > b {
                    a = b;
                }
                let ext = k == 3;
                if ext && self.t.chance(1, 3) {
                    return (
                        format!(" ( SIZE ( {} .. {} ) , ... )", self.num(a), self.num(b)),
                        Some(Size { lb: a as u64, ub: Some(b as u64), ext: true }),
                    );
                }
                if k == 4 {
                    let c = a + (b - a) / 2;
                    match self.t.choose(3) {
                        0 => {
                            let e = self.t.chance(1, 3);
                            return (
                                format!(" ( SIZE ( {} ) | SIZE ( {} .. {}{} ) )", self.num(a), self.num(c), self.num(b), if e { " , ..." } else { "" }),
                                Some(Size { lb: a as u64, ub: Some(b as u64), ext: e }),
                            );
                        }
                        1 if !list => {
                            // never so long that its values cost seconds
                            let d = a.max((c / 2).min(5000));
                            return (
                                format!(" ( SIZE ( {} .. {} , ... ) ) ( SIZE ( {} .. {} ) )", self.num(a), self.num(c), self.num(d), self.num(b)),
                                Some(Size { lb: d as u64, ub: Some(c as u64), ext: false }),
                            );
                        }
                        _ => {}
                    }
                    return (
                        format!(" ( SIZE ( {} | {} .. {} ) )", self.num(a), self.num(c), self.num(b)),
                        Some(Size { lb: a as u64, ub: Some(b as u64), ext: false }),
                    );
                }
                (
                    format!(" ( SIZE ( {} .. {}{} ) )", self.num(a), self.num(b), if ext { " , ..." } else { "" }),
                    Some(Size { lb: a as u64, ub: Some(b as u64), ext }),
                )
            }
        }
    }
    fn enumerated(&mut self) -> (String, Ty) {
        let n = match self.t.choose(6) {
            0 => 1,
            1 => 2,
            5 if self.t.chance(1, 6) => 250 + self.t.idx(20),
            5 => 20 + self.t.idx(50),
            _ => 1 + self.t.idx(9),
        };
        let mut used = vec![];
        let mut root: Vec<String> = (0..n).map(|_| self.member(&mut used)).collect();
        let mut items = root.clone();
        if self.t.chance(1, 4) {
            // items with numbers: the order of the numbers counts
            let mut nums: Vec<Option<i128>> = vec![];
            for _ in 0..n {
                let mut k = None;
                if self.t.chance(2, 3) {
                    let span = if self.t.chance(1, 4) { 1000 } else { 2 * n as u64 + 2 };
                    let mut c = self.t.choose(span) as i128;
                    if self.t.chance(1, 12) {
                        c = -1 - c;
                    }
                    while nums.contains(&Some(c)) {
                        c += 1;
                    }
                    k = Some(c);
                }
                nums.push(k);
            }
            let mut next = 0;
            let mut order: Vec<(i128, String)> = vec![];
            for (i, name) in root.iter().enumerate() {
                let k = match nums[i] {
                    Some(k) => {
                        items[i] = format!("{} ( {} )", name, k);
                        k
                    }
                    None => {
                        while nums.contains(&Some(next)) {
                            next += 1;
                        }
                        next += 1;
                        next - 1
                    }
                };
                order.push((k, name.clone()));
            }
            order.sort();
            root = order.into_iter().map(|x| x.1).collect();
        }
        let ext = if self.t.chance(1, 2) {
            let m = self.t.idx(3);
            let e: Vec<String> = (0..m).map(|_| self.member(&mut used)).collect();
            items.push("...".into());
            // numbers of additions grow
            let mut k = 2000;
            for name in &e {
                k += 1 + self.t.choose(3);
                items.push(if self.t.chance(1, 4) { format!("{} ( {} )", name, k) } else { name.clone() });
            }
            Some(e)
        } else {
            None
        };
        (format!("ENUMERATED {{ {} }}", items.join(" , ")), Ty::Enum { root, ext })
    }
    /// A contents constraint before or after that of the size.
    fn contents(&mut self, size: String) -> String {
        let ts = self.types();
        if ts.is_empty() || !self.t.chance(1, 6) {
            return size;
        }
        let d = ts[self.t.idx(ts.len())];
        let n = self.refer(d);
        if self.t.coin() {
            format!("{} ( CONTAINING {} )", size, n)
        } else {
            format!(" ( CONTAINING {} ){}", n, size)
        }
    }
    fn leaf(&mut self) -> (String, Ty) {
        match self.t.weighted(&[6, 2, 1, 3, 2, 3, 2, if self.style.codec { 0 } else { 1 }]) {
            0 => self.int(),
            1 => ("BOOLEAN".into(), Ty::Bool),
            2 => ("NULL".into(), Ty::Null),
            3 => self.enumerated(),
            4 => {
                let named = if self.t.chance(1, 6) { " { first ( 0 ) , second ( 1 ) }" } else { "" };
                let (s, z) = self.size(1 << 33, false);
                let s = self.contents(s);
                (format!("BIT STRING{}{}", named, s), Ty::Bits(z))
            }
            5 => {
                let (s, z) = self.size(1 << 33, false);
                let s = self.contents(s);
                (format!("OCTET STRING{}", s), Ty::Octets(z))
            }
            6 => {
                let (n, k) = [
                    ("VisibleString", StrKind::Visible),
                    ("PrintableString", StrKind::Printable),
                    ("UTF8String", StrKind::Utf8),
                ][self.t.idx(3)];
                let (s, z) = self.size(2000, false);
                (format!("{}{}", n, s), Ty::Str(k, z))
            }
            _ => (["OBJECT IDENTIFIER", "IA5String"][self.t.idx(2)].into(), Ty::Null),
        }
    }
    /// Type of a component: a reference or something written in place.
    fn inner(&mut self, depth: usize) -> (String, Ty) {
        let ts = self.types();
        if !self.templates.is_empty() && !ts.is_empty() && self.t.chance(1, 8) {
            return self.instance();
        }
        if !ts.is_empty() && !self.t.chance(1, 3) {
            let d = if self.t.coin() { ts[self.t.idx(ts.len())] } else { ts[ts.len() - 1 - self.t.idx(ts.len().min(5))] };
            let n = self.refer(d);
            return (n, Ty::Ref(self.s.defs[d].ty.unwrap()));
        }
        if depth > 0 && self.t.chance(1, 3) {
            return self.constructed(depth - 1);
        }
        self.leaf()
    }
    fn default_of(&mut self, ty: &Ty) -> Option<String> {
        Some(match self.s.env.res(ty) {
            Ty::Int { lb, .. } => {
                let v = lb.filter(|l| *l >= 0).unwrap_or(0);
                let name = if self.t.chance(1, 3) { self.value_ref(v) } else { None };
                name.unwrap_or(v.to_string())
            }
            Ty::Enum { root, .. } => root[self.t.idx(root.len())].clone(),
            Ty::SeqOf { size, .. } if size.as_ref().map_or(true, |s| s.lb == 0) => "{}".into(),
            _ => return None,
        })
    }
    fn constructed(&mut self, depth: usize) -> (String, Ty) {
        match self.t.weighted(&[4, 3, 3]) {
            0 => {
                let n = match self.t.choose(6) {
                    0 => 0,
                    5 => 8 + self.t.idx(10),
                    _ => 1 + self.t.idx(5),
                };
                let mut used = vec![];
                let mut parts = vec![];
                let mut fields = vec![];
                let opt = self.t.choose(4);
                let ext = self.t.chance(1, 2);
                // the root goes on after a second marker
                let second = if ext && n > 0 && self.t.chance(1, 6) { self.t.idx(n + 1) } else { n + 1 };
                for i in 0..n {
                    if i == second {
                        parts.push("...".into());
                        self.additions(&mut parts, &mut used);
                        parts.push("...".into());
                    }
                    let name = self.member(&mut used);
                    let (s, ty) = self.inner(depth);
                    let mut text = format!("{} {}", name, s);
                    let mut optional = false;
                    if self.t.choose(4) < opt {
                        optional = true;
                        match if self.t.chance(1, 3) { self.default_of(&ty) } else { None } {
                            Some(d) => text += &format!(" DEFAULT {}", d),
                            None => text += " OPTIONAL",
                        }
                    }
                    parts.push(text);
                    fields.push(Field { name, ty, optional, key: false });
                }
                if ext && second >= n {
                    parts.push("...".into());
                    if self.t.chance(1, 4) {
                        self.additions(&mut parts, &mut used);
                        if second == n {
                            parts.push("...".into());
                        }
                    }
                }
                (format!("SEQUENCE {{ {} }}", parts.join(" , ")), Ty::Seq { fields, ext: if ext { Some(vec![]) } else { None } })
            }
            1 => {
                let n = match self.t.choose(8) {
                    7 => 20 + self.t.idx(40),
                    0 => 1,
                    _ => 1 + self.t.idx(6),
                };
                let mut used = vec![];
                let mut parts = vec![];
                let mut alts = vec![];
                for _ in 0..n {
                    let name = self.member(&mut used);
                    let (s, ty) = self.inner(depth);
                    parts.push(format!("{} {}", name, s));
                    alts.push(Alt { name, ty });
                }
                let ext = if self.t.coin() {
                    parts.push("...".into());
                    let mut e = vec![];
                    let mut group: Option<Vec<String>> = None;
                    for i in 0..self.t.idx(4) {
                        let name = self.member(&mut used);
                        let (s, ty) = self.inner(0);
                        let text = format!("{} {}", name, s);
                        if group.is_none() && self.t.chance(1, 4) {
                            group = Some(vec![]);
                        }
                        match group.take() {
                            Some(mut g) => {
                                g.push(text);
                                if self.t.coin() {
                                    group = Some(g);
                                } else {
                                    let v = if self.t.chance(1, 3) { format!("{} : ", i + 2) } else { String::new() };
                                    parts.push(format!("[[ {}{} ]]", v, g.join(" , ")));
                                }
                            }
                            None => parts.push(text),
                        }
                        e.push(Alt { name, ty });
                    }
                    if let Some(g) = group {
                        parts.push(format!("[[ {} ]]", g.join(" , ")));
                    }
                    Some(e)
                } else {
                    None
                };
                (format!("CHOICE {{ {} }}", parts.join(" , ")), Ty::Choice { alts, ext })
            }
            _ => {
                let keep = self.refs.len();
                let (mut s, mut ty) = self.inner(depth);
                let mut w = crate::gen::min_bits(&self.s.env, &ty);
                if w == 0 || w > 600 {
                    self.refs.truncate(keep);
                    s = "BOOLEAN".into();
                    ty = Ty::Bool;
                    w = 1;
                }
                let (mut z, mut size) = self.size(70000, true);
                if size.as_ref().map_or(0, |s| s.lb as usize) * w > 600 {
                    z = String::new();
                    size = None;
                }
                let text = if self.t.coin() && z.starts_with(" ( SIZE") {
                    // SEQUENCE SIZE (..) OF
                    let q = z.trim().trim_start_matches('(').trim_end_matches(')').trim().to_string();
                    let q = if q.ends_with(')') { q } else { format!("{} )", q) };
                    let _ = q;
                    format!("SEQUENCE{} OF {}", z, s)
                } else {
                    format!("SEQUENCE{} OF {}", z, s)
                };
                (text, Ty::SeqOf { elem: Box::new(ty), size })
            }
        }
    }
    /// Addition groups of a SEQUENCE. They are not generated, nothing is sent in them.
    fn additions(&mut self, parts: &mut Vec<String>, used: &mut Vec<String>) {
        for i in 0..1 + self.t.idx(2) {
            let mut g = vec![];
            for _ in 0..1 + self.t.idx(2) {
                let name = self.member(used);
                let (s, _) = self.inner(0);
                g.push(format!("{} {}{}", name, s, if self.t.coin() { " OPTIONAL" } else { "" }));
            }
            let v = if self.t.chance(1, 3) { format!("{} : ", i + 2) } else { String::new() };
            parts.push(format!("[[ {}{} ]]", v, g.join(" , ")));
        }
    }
    fn value(&mut self) {
        let v = match self.t.choose(4) {
            0 => self.t.choose(8) as i128,
            1 => [16, 20, 32, 256, 65535, 1 << 20, (1i128 << 32) - 1][self.t.idx(7)],
            _ => self.t.choose(300) as i128,
        };
        let ints: Vec<usize> = (0..self.s.defs.len())
            .filter(|i| {
                matches!(self.s.defs[*i].ty.map(|t| &self.s.env.types[t].1), Some(Ty::Int { lb, ub, ext: false })
                    if lb.map_or(true, |l| l <= v) && ub.map_or(true, |u| u >= v))
            })
            .collect();
        let name = self.fresh_lower("max");
        // values of other types, and of types with a name, are not bounds of anything
        let enums: Vec<usize> = (0..self.s.defs.len())
            .filter(|i| matches!(self.s.defs[*i].ty.map(|t| &self.s.env.types[t].1), Some(Ty::Enum { .. })))
            .collect();
        if !enums.is_empty() && self.t.chance(1, 8) {
            let d = enums[self.t.idx(enums.len())];
            let root = match &self.s.env.types[self.s.defs[d].ty.unwrap()].1 {
                Ty::Enum { root, .. } => root.clone(),
                _ => vec![],
            };
            let item = root[self.t.idx(root.len())].clone();
            let n = self.refer(d);
            self.push(name.clone(), format!("{} {} ::= {}", name, n, item), Kind::Value, None, NO_VALUE);
            return;
        }
        if !ints.is_empty() && self.t.chance(1, 8) {
            let d = ints[self.t.idx(ints.len())];
            let n = self.refer(d);
            self.push(name.clone(), format!("{} {} ::= {}", name, n, v), Kind::Value, None, NO_VALUE);
            return;
        }
        self.push(name.clone(), format!("{} INTEGER ::= {}", name, v), Kind::Value, None, v);
    }
    /// A parameterised type whose parameters can have the names of other definitions, and whose components can
    /// have those of the parameters.
    fn general_template(&mut self) {
        let name = self.fresh();
        let k = 1 + self.t.idx(3);
        let mut dummies: Vec<Dummy> = vec![];
        for _ in 0..k {
            let is_type = self.t.coin();
            let own: Vec<String> = if is_type {
                vec!["T".into(), "Elem".into(), "Other-Type".into()]
            } else {
                vec!["n".into(), "id".into(), "maxNo".into(), "cause".into(), "x".into(), "time".into()]
            };
            let taken: Vec<String> = self
                .s
                .defs
                .iter()
                .filter(|d| if is_type { d.kind == Kind::Type } else { d.kind == Kind::Value && d.value != NO_VALUE })
                .map(|d| d.name.clone())
                .filter(|n| !RUST_NAMES.contains(&n.as_str()))
                .collect();
            let pool = if !taken.is_empty() && self.t.coin() { taken } else { own };
            let n = pool[self.t.idx(pool.len())].clone();
            if !dummies.iter().any(|d| d.name == n) {
                dummies.push(Dummy { name: n, is_type });
            }
        }
        let (text, b) = loop {
            let (text, b) = self.body(&dummies, 2);
            // a parameter alone or something without parameters is not what this is for
            if !matches!(b, TB::Type(_) | TB::Fixed(_)) {
                break (text, b);
            }
        };
        let params: Vec<String> =
            dummies.iter().map(|d| if d.is_type { d.name.clone() } else { format!("INTEGER : {}", d.name) }).collect();
        let d = self.push(name.clone(), format!("{} {{ {} }} ::= {}", name, params.join(" , "), text), Kind::Param, None, 0);
        self.templates.push((d, Template::Body(dummies, b)));
    }
    fn body(&mut self, ds: &[Dummy], depth: usize) -> (String, TB) {
        let values: Vec<usize> = (0..ds.len()).filter(|i| !ds[*i].is_type).collect();
        let types: Vec<usize> = (0..ds.len()).filter(|i| ds[*i].is_type).collect();
        let ext = self.t.chance(1, 3);
        let e = if ext { " , ..." } else { "" };
        let lb = self.t.choose(2);
        let w = |c: bool, n: u64| if c { n } else { 0 };
        match self.t.weighted(&[
            w(!types.is_empty() && depth < 2, 6),
            w(!values.is_empty(), 3),
            w(!values.is_empty(), 2),
            w(!values.is_empty() && depth > 0, 3),
            w(depth < 2, 1),
            w(depth > 0, 4),
            w(depth > 0, 3),
        ]) {
            0 => {
                let i = types[self.t.idx(types.len())];
                (ds[i].name.clone(), TB::Type(i))
            }
            1 => {
                let i = values[self.t.idx(values.len())];
                let lb = -(self.t.choose(3) as i128);
                (format!("INTEGER ( {} .. {}{} )", lb, ds[i].name, e), TB::Int { lb, ub: i, ext })
            }
            2 => {
                let i = values[self.t.idx(values.len())];
                let (z, lb) = if self.t.coin() { (String::new(), None) } else { (format!("{} .. ", lb), Some(lb)) };
                (format!("OCTET STRING ( SIZE ( {}{}{} ) )", z, ds[i].name, e), TB::Octets { lb, ub: i, ext })
            }
            3 => {
                let i = values[self.t.idx(values.len())];
                let (z, lb) = if self.t.chance(1, 4) { (String::new(), None) } else { (format!("{} .. ", lb), Some(lb)) };
                let (inner, b) = if !types.is_empty() {
                    let i = types[self.t.idx(types.len())];
                    (ds[i].name.clone(), TB::Type(i))
                } else {
                    let i = values[self.t.idx(values.len())];
                    (format!("INTEGER ( 0 .. {} )", ds[i].name), TB::Int { lb: 0, ub: i, ext: false })
                };
                (
                    format!("SEQUENCE ( SIZE ( {}{}{} ) ) OF {}", z, ds[i].name, e, inner),
                    TB::List { elem: Box::new(b), lb, ub: i, ext },
                )
            }
            5 => {
                let n = 1 + self.t.idx(4);
                let mut used = vec![];
                let mut parts = vec![];
                let mut fs = vec![];
                for _ in 0..n {
                    let name = self.member_like(&mut used, ds);
                    let (text, b) = self.body(ds, depth - 1);
                    let opt = self.t.chance(1, 3);
                    parts.push(format!("{} {}{}", name, text, if opt { " OPTIONAL" } else { "" }));
                    fs.push((name, b, opt));
                }
                (format!("SEQUENCE {{ {}{} }}", parts.join(" , "), e), TB::Seq(fs, ext))
            }
            6 => {
                let n = 1 + self.t.idx(3);
                let mut used = vec![];
                let mut parts = vec![];
                let mut alts = vec![];
                for _ in 0..n {
                    let name = self.member_like(&mut used, ds);
                    let (text, b) = self.body(ds, depth - 1);
                    parts.push(format!("{} {}", name, text));
                    alts.push((name, b));
                }
                (format!("CHOICE {{ {}{} }}", parts.join(" , "), e), TB::Choice(alts, ext))
            }
            _ => {
                // something that has nothing to do with the parameters
                let ts: Vec<usize> =
                    self.types().into_iter().filter(|d| !ds.iter().any(|x| x.name == self.s.defs[*d].name)).collect();
                if !ts.is_empty() && self.t.coin() {
                    let d = ts[self.t.idx(ts.len())];
                    let w = crate::gen::min_bits(&self.s.env, &Ty::Ref(self.s.defs[d].ty.unwrap()));
                    if w <= 600 {
                        let n = self.refer(d);
                        return (n, TB::Fixed(Ty::Ref(self.s.defs[d].ty.unwrap())));
                    }
                }
                if let (Some(v), true) = (values.first(), self.t.coin()) {
                    // items named like a parameter
                    let item = ds[*v].name.clone();
                    let root = vec!["one".to_string(), item.clone()];
                    return (format!("ENUMERATED {{ one , {} }}", item), TB::Fixed(Ty::Enum { root, ext: None }));
                }
                let vs: Vec<usize> = (0..self.s.defs.len())
                    .filter(|i| {
                        let d = &self.s.defs[*i];
                        d.kind == Kind::Value && d.value >= 0 && !ds.iter().any(|x| x.name == d.name)
                    })
                    .collect();
                if !vs.is_empty() && self.t.coin() {
                    let d = vs[self.t.idx(vs.len())];
                    let v = self.s.defs[d].value;
                    let n = self.refer(d);
                    return (format!("INTEGER ( 0 .. {} )", n), TB::Fixed(Ty::Int { lb: Some(0), ub: Some(v), ext: false }));
                }
                ("BOOLEAN".into(), TB::Fixed(Ty::Bool))
            }
        }
    }
    /// Name of a component, often that of a parameter.
    fn member_like(&mut self, used: &mut Vec<String>, ds: &[Dummy]) -> String {
        let vs: Vec<&Dummy> = ds.iter().filter(|d| !d.is_type).collect();
        if !vs.is_empty() && self.t.coin() {
            let n = vs[self.t.idx(vs.len())].name.clone();
            let norm = n.replace('-', "").to_lowercase();
            if !used.contains(&norm) {
                used.push(norm);
                return n;
            }
        }
        self.member(used)
    }
    fn template(&mut self) {
        if self.t.coin() {
            return self.general_template();
        }
        let name = self.fresh();
        let ext = self.t.chance(1, 3);
        let e = if ext { " , ..." } else { "" };
        let (text, k) = match self.t.choose(6) {
            0 => (format!("{} {{ T }} ::= CHOICE {{ release NULL , setup T{} }}", name, e), Template::Setup { ext }),
            1 => (format!("{} {{ T }} ::= SEQUENCE {{ one T OPTIONAL , all SEQUENCE OF T{} }}", name, e), Template::Pair { ext }),
            2 => {
                let lb = self.t.choose(2);
                (
                    format!("{} {{ T , INTEGER : n }} ::= SEQUENCE ( SIZE ( {} .. n{} ) ) OF T", name, lb, e),
                    Template::List { lb, ext },
                )
            }
            3 => {
                let lb = -(self.t.choose(3) as i128);
                (format!("{} {{ INTEGER : n }} ::= INTEGER ( {} .. n )", name, lb), Template::Int { lb })
            }
            4 => {
                let fixed = self.t.coin();
                let z = if fixed { "n" } else { "1 .. n" };
                (format!("{} {{ INTEGER : n }} ::= OCTET STRING ( SIZE ( {}{} ) )", name, z, e), Template::Octets { fixed, ext })
            }
            _ => {
                let k: Vec<usize> = (0..self.templates.len())
                    .filter(|i| matches!(self.templates[*i].1, Template::Setup { .. } | Template::Pair { .. } | Template::Wrap(_)))
                    .collect();
                if k.is_empty() {
                    (format!("{} {{ T }} ::= CHOICE {{ release NULL , setup T{} }}", name, e), Template::Setup { ext })
                } else {
                    let k = k[self.t.idx(k.len())];
                    let m = self.refer(self.templates[k].0);
                    (
                        format!("{} {{ T }} ::= SEQUENCE {{ flag BOOLEAN , inner {} {{ T }} OPTIONAL }}", name, m),
                        Template::Wrap(k),
                    )
                }
            }
        };
        let d = self.push(name, text, Kind::Param, None, 0);
        self.templates.push((d, k));
    }
    fn meaning(&self, k: &Template, t: Ty, n: i128) -> Ty {
        let x = |e: bool| if e { Some(vec![]) } else { None };
        let f = |name: &str, ty: Ty, optional: bool| Field { name: name.into(), ty, optional, key: false };
        match k {
            Template::Setup { ext } => Ty::Choice {
                alts: vec![Alt { name: "release".into(), ty: Ty::Null }, Alt { name: "setup".into(), ty: t }],
                ext: if *ext { Some(vec![]) } else { None },
            },
            Template::Pair { ext } => Ty::Seq {
                fields: vec![f("one", t.clone(), true), f("all", Ty::SeqOf { elem: Box::new(t), size: None }, false)],
                ext: x(*ext),
            },
            Template::List { lb, ext } => {
                Ty::SeqOf { elem: Box::new(t), size: Some(Size { lb: *lb, ub: Some(n as u64), ext: *ext }) }
            }
            Template::Int { lb } => Ty::Int { lb: Some(*lb), ub: Some(n), ext: false },
            Template::Octets { fixed, ext } => {
                Ty::Octets(Some(Size { lb: if *fixed { n as u64 } else { 1 }, ub: Some(n as u64), ext: *ext }))
            }
            Template::Wrap(k) => Ty::Seq {
                fields: vec![f("flag", Ty::Bool, false), f("inner", self.meaning(&self.templates[*k].1, t, n), true)],
                ext: None,
            },
            Template::Body(..) => Ty::Null,
        }
    }
    /// A parameterised type with parameters.
    fn instance(&mut self) -> (String, Ty) {
        let i = self.t.idx(self.templates.len());
        let (d, k) = self.templates[i].clone();
        let name = self.refer(d);
        if let Template::Body(ds, b) = &k {
            return self.body_instance(name, ds, b);
        }
        let mut args = vec![];
        let mut t = Ty::Null;
        if !matches!(k, Template::Int { .. } | Template::Octets { .. }) {
            // lists of things without any octets would be long, lists of big things slow
            let ts: Vec<usize> = self
                .types()
                .into_iter()
                .filter(|d| (1..=200).contains(&crate::gen::min_bits(&self.s.env, &Ty::Ref(self.s.defs[*d].ty.unwrap()))))
                .collect();
            if ts.is_empty() {
                self.refs.pop();
                return self.leaf();
            }
            let d = ts[self.t.idx(ts.len())];
            args.push(self.refer(d));
            t = Ty::Ref(self.s.defs[d].ty.unwrap());
        }
        let mut n = 0;
        if matches!(k, Template::Int { .. } | Template::Octets { .. } | Template::List { .. }) {
            n = self.pick(1, 20);
            args.push(self.num(n));
        }
        (format!("{} {{ {} }}", name, args.join(" , ")), self.meaning(&k, t, n))
    }
    fn body_instance(&mut self, name: String, ds: &[Dummy], b: &TB) -> (String, Ty) {
        let keep = self.refs.len() - 1;
        let ts: Vec<usize> = self
            .types()
            .into_iter()
            .filter(|d| (1..=100).contains(&crate::gen::min_bits(&self.s.env, &Ty::Ref(self.s.defs[*d].ty.unwrap()))))
            .collect();
        let mut texts = vec![];
        let mut args = vec![];
        for d in ds {
            // definitions that have the name of a parameter, of this one or another
            let alike = |g: &Self, i: usize| ds.iter().any(|x| x.name == g.s.defs[i].name);
            if d.is_type {
                if ts.is_empty() {
                    self.refs.truncate(keep);
                    return self.leaf();
                }
                let same: Vec<usize> = ts.iter().copied().filter(|i| alike(self, *i)).collect();
                let pool = if !same.is_empty() && self.t.coin() { &same } else { &ts };
                let d = pool[self.t.idx(pool.len())];
                texts.push(self.refer(d));
                args.push(Arg::Type(Ty::Ref(self.s.defs[d].ty.unwrap())));
            } else {
                let same: Vec<usize> = (0..self.s.defs.len())
                    .filter(|i| {
                        let d = &self.s.defs[*i];
                        d.kind == Kind::Value && (1..=40).contains(&d.value) && alike(self, *i)
                    })
                    .collect();
                if !same.is_empty() && self.t.chance(2, 3) {
                    let d = same[self.t.idx(same.len())];
                    let v = self.s.defs[d].value;
                    texts.push(self.refer(d));
                    args.push(Arg::Value(v));
                } else {
                    let n = self.pick(1, 20);
                    texts.push(self.num(n));
                    args.push(Arg::Value(n));
                }
            }
        }
        let ty = build(b, &args);
        if crate::gen::min_bits(&self.s.env, &ty) > 2000 {
            self.refs.truncate(keep);
            return self.leaf();
        }
        (format!("{} {{ {} }}", name, texts.join(" , ")), ty)
    }
    fn plain_type(&mut self) {
        let name = self.fresh();
        if !self.templates.is_empty() && !self.types().is_empty() && self.t.chance(1, 8) {
            let (s, ty) = self.instance();
            self.push(name.clone(), format!("{} ::= {}", name, s), Kind::Type, Some(ty), 0);
            return;
        }
        let (s, ty) = match self.t.weighted(&[3, 5, 1]) {
            0 => self.leaf(),
            1 => self.constructed(2),
            _ => {
                let ts = self.types();
                if ts.is_empty() {
                    self.leaf()
                } else {
                    let d = ts[self.t.idx(ts.len())];
                    (self.refer(d), Ty::Ref(self.s.defs[d].ty.unwrap()))
                }
            }
        };
        // open types carry at least one octet; huge fixed types make slow tests
        self.push(name.clone(), format!("{} ::= {}", name, s), Kind::Type, Some(ty), 0);
    }
    fn criticality(&mut self) -> usize {
        if let Some(d) = self.criticality {
            return d;
        }
        let name = self.fresh();
        let root: Vec<String> = ["reject", "ignore", "notify"].iter().map(|s| s.to_string()).collect();
        let d = self.push(
            name.clone(),
            format!("{} ::= ENUMERATED {{ reject , ignore , notify }}", name),
            Kind::Type,
            Some(Ty::Enum { root, ext: None }),
            0,
        );
        self.criticality = Some(d);
        d
    }
    fn presence(&mut self) -> usize {
        if let Some(d) = self.presence {
            return d;
        }
        let keep = std::mem::take(&mut self.refs);
        let name = self.fresh();
        let root: Vec<String> = ["optional", "conditional", "mandatory"].iter().map(|s| s.to_string()).collect();
        let d = self.push(
            name.clone(),
            format!("{} ::= ENUMERATED {{ optional , conditional , mandatory }}", name),
            Kind::Type,
            Some(Ty::Enum { root, ext: None }),
            0,
        );
        self.refs = keep;
        self.presence = Some(d);
        d
    }
    /// Class, identifiers, object sets, parameterised container and messages that use them.
    fn container(&mut self) {
        let crit = self.criticality();
        let (idmax, max) = [(255i128, 256u64), (65535, 65536), (7, 8)][self.t.idx(3)];
        let idn = self.fresh();
        let idt = self.push(
            idn.clone(),
            format!("{} ::= INTEGER ( 0 .. {} )", idn, idmax),
            Kind::Type,
            Some(Ty::Int { lb: Some(0), ub: Some(idmax), ext: false }),
            0,
        );
        // &criticality and extra columns are optional decoration of the class
        let classname = {
            self.n += 1;
            format!("{}-IES{}", ["PROTO", "XNAP", "S1-PROT", "E2"][self.t.idx(4)], self.n)
        };
        let with_presence = self.t.coin();
        let a = self.refer(idt);
        let b = self.refer(crit);
        let mut fields = format!("&id {} UNIQUE , &criticality {} , &Value", a, b);
        let mut syntax = String::from("ID &id CRITICALITY &criticality TYPE &Value");
        if with_presence {
            let p = self.presence();
            let p = self.refer(p);
            fields += &format!(" , &presence {}", p);
            syntax += " PRESENCE &presence";
        }
        let class = self.push(
            classname.clone(),
            format!("{} ::= CLASS {{ {} }} WITH SYNTAX {{ {} }}", classname, fields, syntax),
            Kind::Class,
            None,
            0,
        );
        // the parameterised field and container
        let fieldn = self.fresh();
        let c = self.refer(class);
        let bound = "IEsSetParam";
        let mid = if self.t.chance(1, 4) { " , note INTEGER ( 0 .. 7 ) OPTIONAL" } else { "" };
        let field = self.push(
            fieldn.clone(),
            format!(
                "{} {{ {} : {} }} ::= SEQUENCE {{ id {}.&id ( {{ {} }} ) , criticality {}.&criticality ( {{ {} }} {{ @id }} ){} , value {}.&Value ( {{ {} }} {{ @id }} ) }}",
                fieldn, c, bound, c, bound, c, bound, mid, c, bound
            ),
            Kind::Param,
            None,
            0,
        );
        let contn = self.fresh();
        let c = self.refer(class);
        let f = self.refer(field);
        let (z, size) = [
            (" ( SIZE ( 0 .. 65535 ) )", Some(Size { lb: 0, ub: Some(65535), ext: false })),
            (" ( SIZE ( 1 .. 256 ) )", Some(Size { lb: 1, ub: Some(256), ext: false })),
            ("", None),
        ][self.t.idx(3)]
        .clone();
        let cont = self.push(
            contn.clone(),
            format!("{} {{ {} : {} }} ::= SEQUENCE{} OF {} {{ {{ {} }} }}", contn, c, bound, z, f, bound),
            Kind::Param,
            None,
            0,
        );
        let mut sets: Vec<(usize, Vec<OpenAlt>)> = vec![];
        for _ in 0..1 + self.t.idx(3) {
            // identifiers and objects
            let count = match self.t.choose(5) {
                0 => 1,
                4 => 6 + self.t.idx(6),
                _ => 1 + self.t.idx(4),
            }
            .min(max as usize);
            let empty = self.t.chance(1, 8);
            let mut keys: Vec<i128> = vec![];
            let mut objs = vec![];
            let mut alts = vec![];
            let mut used_by_ref: Vec<usize> = vec![];
            // other sets this one includes
            for (d, more) in sets.clone() {
                if self.t.chance(1, 3) && !more.iter().any(|a: &OpenAlt| keys.contains(&a.key)) {
                    keys.extend(more.iter().map(|a| a.key));
                    objs.push(self.s.defs[d].name.clone());
                    used_by_ref.push(d);
                    alts.extend(more);
                }
            }
            let count = (count + keys.len()).min(max as usize);
            while !empty && keys.len() < count {
                let mut k = if self.t.coin() { self.t.choose(8) } else { self.t.choose(max) } as i128;
                while keys.contains(&k) {
                    k = (k + 1) % max as i128;
                }
                keys.push(k);
                let keep = std::mem::take(&mut self.refs);
                let (idtext, vname) = if self.t.chance(1, 6) {
                    (k.to_string(), format!("Id-{}", k))
                } else {
                    let n = self.fresh_lower("id-");
                    let tn = self.refer(idt);
                    let d = self.push(n.clone(), format!("{} {} ::= {}", n, tn, k), Kind::Value, None, NO_VALUE);
                    let (d, n) = self.alias(idt, d, n);
                    self.refs = vec![];
                    used_by_ref.push(d);
                    (n.clone(), n)
                };
                self.refs = keep;
                let (s, ty) = self.object_type();
                let crit = ["reject", "ignore", "notify"][self.t.idx(3)];
                let p = if with_presence { [" PRESENCE optional", " PRESENCE mandatory"][self.t.idx(2)] } else { "" };
                objs.push(format!("{{ ID {} CRITICALITY {} TYPE {}{} }}", idtext, crit, s, p));
                alts.push(OpenAlt { key: k, name: vname, ty });
            }
            self.refs.extend(used_by_ref);
            let ext = self.t.coin() || objs.is_empty();
            if self.t.coin() {
                self.t.shuffle(&mut objs);
            }
            let root = if ext && self.t.chance(1, 3) { self.t.idx(objs.len() + 1) } else { objs.len() };
            let added = objs.split_off(root);
            let mut parts = vec![];
            if !objs.is_empty() {
                parts.push(objs.join(" | "));
            }
            if ext {
                parts.push("...".into());
            }
            if !added.is_empty() {
                parts.push(added.join(" | "));
            }
            let opt_set = alts.is_empty();
            let setn = self.fresh();
            let c = self.refer(class);
            let set = self.push(
                setn.clone(),
                format!("{} {} ::= {{ {} }}", setn, c, parts.join(" , ")),
                Kind::Set,
                None,
                0,
            );
            sets.push((set, alts.clone()));
            // the message
            let mut fs = vec![
                Field { name: "id".into(), ty: Ty::Ref(self.s.defs[idt].ty.unwrap()), optional: false, key: true },
                Field { name: "criticality".into(), ty: Ty::Ref(self.s.defs[crit].ty.unwrap()), optional: false, key: false },
            ];
            if !mid.is_empty() {
                fs.push(Field {
                    name: "note".into(),
                    ty: Ty::Int { lb: Some(0), ub: Some(7), ext: false },
                    optional: true,
                    key: false,
                });
            }
            fs.push(Field { name: "value".into(), ty: Ty::Open(alts), optional: false, key: false });
            let list = Ty::SeqOf { elem: Box::new(Ty::Seq { fields: fs, ext: None }), size: size.clone() };
            let msgn = self.fresh();
            let ct = self.refer(cont);
            let st = self.refer(set);
            let opt = opt_set || self.t.coin();
            let mut parts = vec![];
            let mut fields = vec![];
            let mut used = vec!["protocolies".to_string()];
            if self.t.coin() {
                let name = self.member(&mut used);
                let (s, ty) = self.inner(1);
                parts.push(format!("{} {}", name, s));
                fields.push(Field { name, ty, optional: false, key: false });
            }
            parts.push(format!("protocolIEs {} {{ {{ {} }} }}{}", ct, st, if opt { " OPTIONAL" } else { "" }));
            fields.push(Field { name: "protocolIEs".into(), ty: list, optional: opt, key: false });
            let ext = self.t.coin();
            if ext {
                parts.push("...".into());
            }
            self.push(
                msgn.clone(),
                format!("{} ::= SEQUENCE {{ {} }}", msgn, parts.join(" , ")),
                Kind::Type,
                Some(Ty::Seq { fields, ext: if ext { Some(vec![]) } else { None } }),
                0,
            );
        }
    }
    fn object_type(&mut self) -> (String, Ty) {
        let ts = self.types();
        if !ts.is_empty() && !self.t.chance(1, 6) {
            let d = ts[self.t.idx(ts.len())];
            let n = self.refer(d);
            return (n, Ty::Ref(self.s.defs[d].ty.unwrap()));
        }
        match self.t.choose(3) {
            0 => ("BOOLEAN".into(), Ty::Bool),
            1 => self.int(),
            _ => ("OCTET STRING".into(), Ty::Octets(None)),
        }
    }
    /// Procedures in the style of the top of NGAP: a class with several types, objects by name.
    fn procedures(&mut self) {
        let crit = self.criticality();
        let idn = self.fresh();
        let idt = self.push(
            idn.clone(),
            format!("{} ::= INTEGER ( 0 .. 255 )", idn),
            Kind::Type,
            Some(Ty::Int { lb: Some(0), ub: Some(255), ext: false }),
            0,
        );
        self.n += 1;
        let classn = format!("ELEMENTARY-PROC{}", self.n);
        let (a, b) = (self.refer(crit), self.refer(idt));
        let class = self.push(
            classn.clone(),
            format!(
                "{} ::= CLASS {{ &InitiatingMessage , &SuccessfulOutcome OPTIONAL , &procedureCode {} UNIQUE , &criticality {} DEFAULT ignore }} WITH SYNTAX {{ INITIATING MESSAGE &InitiatingMessage [ SUCCESSFUL OUTCOME &SuccessfulOutcome ] PROCEDURE CODE &procedureCode [ CRITICALITY &criticality ] }}",
                classn, b, a
            ),
            Kind::Class,
            None,
            0,
        );
        let n = 1 + self.t.idx(4);
        let mut codes: Vec<i128> = vec![];
        let (mut init, mut succ) = (vec![], vec![]);
        let mut names = vec![];
        let mut objs = vec![];
        while codes.len() < n {
            let mut k = self.t.choose(60) as i128;
            while codes.contains(&k) {
                k = (k + 1) % 60;
            }
            codes.push(k);
            let idname = self.fresh_lower("id-");
            let tn = self.refer(idt);
            let idd = self.push(idname.clone(), format!("{} {} ::= {}", idname, tn, k), Kind::Value, None, NO_VALUE);
            let (idd, idname) = self.alias(idt, idd, idname);
            let ts = self.types();
            let d1 = ts[self.t.idx(ts.len())];
            let n1 = self.refer(d1);
            init.push(OpenAlt { key: k, name: idname.clone(), ty: Ty::Ref(self.s.defs[d1].ty.unwrap()) });
            let mut text = format!("INITIATING MESSAGE {}", n1);
            if self.t.coin() {
                let d2 = ts[self.t.idx(ts.len())];
                let n2 = self.refer(d2);
                text += &format!(" SUCCESSFUL OUTCOME {}", n2);
                succ.push(OpenAlt { key: k, name: idname.clone(), ty: Ty::Ref(self.s.defs[d2].ty.unwrap()) });
            }
            let idr = self.refer(idd);
            text += &format!(" PROCEDURE CODE {}", idr);
            if self.t.coin() {
                text += " CRITICALITY reject";
            }
            let c = self.refer(class);
            let on = self.fresh_lower("proc");
            let o = self.push(on.clone(), format!("{} {} ::= {{ {} }}", on, c, text), Kind::Object, None, 0);
            names.push(on);
            objs.push(o);
        }
        let setn = self.fresh();
        let c = self.refer(class);
        self.refs.extend(objs);
        let ext = if self.t.coin() { " , ..." } else { "" };
        let set = self.push(
            setn.clone(),
            format!("{} {} ::= {{ {}{} }}", setn, c, names.join(" | "), ext),
            Kind::Set,
            None,
            0,
        );
        let mut pdu = vec![];
        for (label, field, alts) in [("initiating", "InitiatingMessage", init), ("successful", "SuccessfulOutcome", succ)] {
            if alts.is_empty() {
                continue;
            }
            let n = self.fresh();
            let (c, s) = (self.refer(class), self.refer(set));
            let fields = vec![
                Field { name: "procedureCode".into(), ty: Ty::Ref(self.s.defs[idt].ty.unwrap()), optional: false, key: true },
                Field { name: "criticality".into(), ty: Ty::Ref(self.s.defs[crit].ty.unwrap()), optional: false, key: false },
                Field { name: "value".into(), ty: Ty::Open(alts), optional: false, key: false },
            ];
            let d = self.push(
                n.clone(),
                format!(
                    "{} ::= SEQUENCE {{ procedureCode {}.&procedureCode ( {{ {} }} ) , criticality {}.&criticality ( {{ {} }} {{ @procedureCode }} ) , value {}.&{} ( {{ {} }} {{ @procedureCode }} ) }}",
                    n, c, s, c, s, c, field, s
                ),
                Kind::Type,
                Some(Ty::Seq { fields, ext: None }),
                0,
            );
            pdu.push((label, n, d));
        }
        let n = self.fresh();
        let mut parts = vec![];
        let mut alts = vec![];
        for (label, tn, d) in pdu {
            self.refs.push(d);
            parts.push(format!("{} {}", label, tn));
            alts.push(Alt { name: label.into(), ty: Ty::Ref(self.s.defs[d].ty.unwrap()) });
        }
        parts.push("...".into());
        self.push(
            n.clone(),
            format!("{} ::= CHOICE {{ {} }}", n, parts.join(" , ")),
            Kind::Type,
            Some(Ty::Choice { alts, ext: Some(vec![]) }),
            0,
        );
    }
}

pub fn generate(t: &mut Tape, style: Style) -> Spec {
    let nm = style.modules.max(1);
    let mut s = Spec::default();
    for i in 0..nm {
        let oid = t.chance(1, 4);
        let w = WORDS[t.idx(WORDS.len())];
        s.modules.push(Module { name: format!("{}-Module{}", w, i), oid });
    }
    let mut g = G { t, s, style, n: 0, cur: 0, refs: vec![], criticality: None, presence: None, taken: vec![], templates: vec![] };
    for i in 0..style.types {
        g.cur = i * nm / style.types.max(1);
        match g.t.weighted(&[10, 3, 2, 1, 2]) {
            4 => {
                g.template();
                g.plain_type();
            }
            0 => g.plain_type(),
            1 => {
                g.value();
                g.plain_type();
            }
            2 => g.container(),
            _ => {
                if g.types().is_empty() {
                    g.plain_type();
                }
                g.procedures();
            }
        }
    }
    let mut s = g.s;
    s.env = Env::new(std::mem::take(&mut s.env.types));
    s
}

/// The specification of a seed from which nodes are built.
pub fn sample(seed: u64) -> Spec {
    let mut t = Tape::gen(crate::tape::run_seed(seed, "sample", 0, 0));
    let modules = 1 + t.idx(4);
    let types = 18 + t.idx(14);
    generate(&mut t, Style { codec: true, modules, types })
}

// ---------------------------------------------------------------- layout

#[derive(Clone, Debug, Default)]
pub struct Layout {
    /// modules of each file, in textual order
    pub files: Vec<Vec<usize>>,
    /// definitions of each module, in textual order
    pub order: Vec<Vec<usize>>,
}

/// One module per file, definitions in the order they were made.
pub fn natural(s: &Spec) -> Layout {
    Layout {
        files: (0..s.modules.len()).map(|m| vec![m]).collect(),
        order: (0..s.modules.len())
            .map(|m| (0..s.defs.len()).filter(|d| s.defs[*d].module == m).collect())
            .collect(),
    }
}

/// Another order of everything that may be ordered.
pub fn shuffled(t: &mut Tape, s: &Spec) -> Layout {
    let mut l = natural(s);
    for o in l.order.iter_mut() {
        match t.choose(3) {
            0 => {}
            1 => o.reverse(),
            _ => t.shuffle(o),
        }
    }
    let mut ms: Vec<usize> = (0..s.modules.len()).collect();
    match t.choose(3) {
        0 => ms.reverse(),
        _ => t.shuffle(&mut ms),
    }
    let mut files: Vec<Vec<usize>> = vec![];
    for m in ms {
        if files.is_empty() || !t.chance(1, 3) {
            files.push(vec![m]);
        } else {
            files.last_mut().unwrap().push(m);
        }
    }
    l.files = files;
    l
}

/// Imports of a module: (module, symbols), sorted.
pub fn imports(s: &Spec, m: usize) -> Vec<(usize, Vec<usize>)> {
    let mut v: Vec<(usize, Vec<usize>)> = vec![];
    for d in s.defs.iter().filter(|d| d.module == m) {
        for r in &d.refs {
            let rm = s.defs[*r].module;
            if rm == m {
                continue;
            }
            match v.iter_mut().find(|x| x.0 == rm) {
                Some(x) => {
                    if !x.1.contains(r) {
                        x.1.push(*r)
                    }
                }
                None => v.push((rm, vec![*r])),
            }
        }
    }
    v.sort();
    for x in v.iter_mut() {
        x.1.sort();
    }
    v
}

fn oid_text(m: usize) -> String {
    format!(" {{ itu-t ( 0 ) identified-organization ( 4 ) module ( {} ) }}", m)
}

pub fn module_text(s: &Spec, m: usize, order: &[usize], extra_import: &str) -> String {
    let mut o = String::new();
    o += &s.modules[m].name;
    if s.modules[m].oid {
        o += &oid_text(m);
    }
    o += " DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n";
    let im = imports(s, m);
    if !im.is_empty() || !extra_import.is_empty() {
        o += "IMPORTS";
        for (rm, ds) in &im {
            let names: Vec<String> = ds
                .iter()
                .map(|d| {
                    let d = &s.defs[*d];
                    if d.kind == Kind::Param {
                        format!("{} {{ }}", d.name)
                    } else {
                        d.name.clone()
                    }
                })
                .collect();
            o += &format!(" {} FROM {}", names.join(" , "), s.modules[*rm].name);
            if s.modules[*rm].oid && (m + rm) % 2 == 1 {
                o += &oid_text(*rm);
            }
        }
        o += extra_import;
        o += " ;\n";
    }
    for d in order {
        o += &s.defs[*d].text;
        o += "\n";
    }
    o += "END\n";
    o
}

pub fn render(s: &Spec, l: &Layout) -> Vec<(String, String)> {
    l.files
        .iter()
        .enumerate()
        .map(|(i, ms)| {
            let mut o = String::new();
            for m in ms {
                o += &module_text(s, *m, &l.order[*m], "");
            }
            (format!("sim{}.asn1", i), o)
        })
        .collect()
}

/// Replaces the separators of a text by other white space and comments.
pub fn respace(t: &mut Tape, text: &str) -> String {
    let mut o = String::with_capacity(text.len() * 2);
    let mode = t.choose(4);
    let nl = ["\n", "\r\n", "\n", "\n"][t.idx(4)];
    for c in text.chars() {
        match c {
            '\n' => o += nl,
            ' ' if mode > 0 && t.chance(1, 6) => match t.choose(7) {
                0 => o += "  ",
                1 => o.push('\t'),
                2 => o += nl,
                3 => o += &format!("{}    ", nl),
                4 => o += &format!(" -- a comment {{ ;{}", nl),
                5 => o += &format!("{}-- ** ::= BEGIN ( {}", nl, nl),
                _ => o += " -- short -- ",
            },
            c => o.push(c),
        }
    }
    o
}
