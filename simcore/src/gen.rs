//! Generators: values (valid, boundary-biased, constraint-violating), types, later versions.

use crate::model::*;
use crate::tape::Tape;

pub struct VGen<'a> {
    pub env: &'a Env,
    /// remaining elements/octets this value may use
    pub budget: usize,
    /// allow lengths around 16K and 64K
    pub big: bool,
    /// generate extension values (out-of-root, additions)
    pub ext: bool,
}

const BIG: [u64; 12] =
    [16383, 16384, 16385, 32767, 32768, 49152, 65535, 65536, 65537, 81920, 81921, 131072];

pub fn fill(seed: u64, n: usize) -> Vec<u8> {
    let mut r = crate::tape::Rng::new(seed);
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(n);
    v
}

fn octets(t: &mut Tape, n: usize) -> Vec<u8> {
    if n <= 8 {
        (0..n).map(|_| t.byte()).collect()
    } else {
        let s = t.choose(1 << 20);
        if s == 0 {
            vec![0; n]
        } else {
            fill(s, n)
        }
    }
}

const PRINTABLE: &[u8] =
    b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?";

fn text(t: &mut Tape, k: StrKind, n: usize) -> String {
    let s = t.choose(1 << 16);
    let f = if s == 0 { vec![0; n] } else { fill(s, n) };
    match k {
        StrKind::Printable => {
            f.iter().map(|b| PRINTABLE[*b as usize % PRINTABLE.len()] as char).collect()
        }
        StrKind::Visible => f.iter().map(|b| (0x20 + b % 95) as char).collect(),
        StrKind::Utf8 => f
            .iter()
            .map(|b| match b % 8 {
                0 => 'é',
                1 => '中',
                2 => '😀',
                3 => '\u{0}',
                _ => (0x20 + b % 95) as char,
            })
            .collect(),
    }
}

/// An integer in lo..=hi, biased to the boundaries where encodings change shape.
pub fn pick_int(t: &mut Tape, lo: i128, hi: i128) -> i128 {
    let clamp = |v: i128| v.max(lo).min(hi);
    match t.weighted(&[2, 2, 2, 2, 4, 3, 3]) {
        0 => lo,
        1 => hi,
        2 => clamp(lo.saturating_add(t.choose(4) as i128)),
        3 => clamp(hi.saturating_sub(t.choose(4) as i128)),
        4 => {
            // around powers of two, relative to lo or absolute
            let p = t.choose(127) as u32;
            let d = t.choose(3) as i128 - 1;
            let v = (1i128 << p).saturating_add(d);
            match t.choose(3) {
                0 => clamp(lo.saturating_add(v)),
                1 => clamp(v),
                _ => clamp(-v),
            }
        }
        5 => clamp(t.choose(600) as i128 - 300),
        _ => {
            let w = hi.wrapping_sub(lo) as u128;
            let r = (t.raw() as u128) << 64 | t.raw() as u128;
            if w == u128::MAX {
                r as i128
            } else {
                lo.wrapping_add((r % (w + 1)) as i128)
            }
        }
    }
}

fn pick_len(t: &mut Tape, lo: u64, hi: Option<u64>, budget: usize, big: bool) -> u64 {
    let cap = (budget as u64).max(lo);
    let h = hi.unwrap_or(u64::MAX).min(cap);
    match t.weighted(&[3, 2, 2, 4, 2, if big { 2 } else { 0 }]) {
        0 => lo,
        1 => {
            // the upper bound itself, if it is affordable
            match hi {
                Some(u) if u <= cap || (big && u <= 70000) => u,
                _ => h.min(lo + t.choose(4)),
            }
        }
        2 => h.min(lo + 1),
        3 => h.min(lo + t.choose(20)),
        4 => {
            let c = [126, 127, 128, 129, 255, 256, 15, 16, 17, 2, 3][t.idx(11)];
            h.min(c).max(lo)
        }
        _ => {
            let c = BIG[t.idx(BIG.len())];
            c.max(lo).min(hi.unwrap_or(u64::MAX))
        }
    }
}

impl<'a> VGen<'a> {
    pub fn new(env: &'a Env) -> Self {
        VGen { env, budget: 300, big: false, ext: false }
    }
    fn len(&mut self, t: &mut Tape, s: &Option<Size>, per: usize) -> usize {
        let none = Size { lb: 0, ub: None, ext: false };
        let s = s.as_ref().unwrap_or(&none);
        let b = self.budget / per.max(1);
        let n = if s.ext && self.ext && t.chance(1, 3) {
            // outside the root
            match (s.lb > 0 && t.coin(), s.ub) {
                (true, _) => t.choose(s.lb),
                (false, Some(u)) if u > 100_000 || (u > 2000 && per > 1) => s.lb,
                (false, Some(u)) => u + 1 + t.choose(8),
                (false, None) => pick_len(t, s.lb, s.ub, b, false),
            }
        } else {
            pick_len(t, s.lb, s.ub, b, self.big)
        } as usize;
        self.budget = self.budget.saturating_sub(n * per);
        if n > 16000 {
            self.big = false;
        }
        n
    }
    pub fn val(&mut self, t: &mut Tape, ty: &Ty) -> Val {
        let env = self.env;
        match env.res(ty) {
            Ty::Bool => Val::Bool(t.coin()),
            Ty::Null | Ty::Oid => Val::Null,
            Ty::Small => Val::Int(match t.choose(3) {
                0 => 1 + t.choose(64) as i128,
                1 => 60 + t.choose(75) as i128,
                _ => pick_int(t, 1, 16383),
            }),
            Ty::Int { lb, ub, ext } => {
                // without both bounds now and then beyond 64 bits
                let wide = (lb.is_none() || ub.is_none()) && t.chance(1, 8);
                let lo = lb.unwrap_or(if wide { i128::MIN } else { -(1i128 << 63) });
                let hi = ub.unwrap_or(match (lb, wide) {
                    (Some(l), true) => l.saturating_add(i128::MAX),
                    (Some(l), false) => l.saturating_add(u64::MAX as i128),
                    (None, true) => i128::MAX,
                    (None, false) => (1i128 << 63) - 1,
                });
                if *ext && self.ext && t.chance(1, 3) {
                    let v = match (lb, ub, t.coin()) {
                        (_, Some(u), false) => {
                            pick_int(t, u.saturating_add(1), u.saturating_add(1 << 40))
                        }
                        (Some(l), _, _) => {
                            pick_int(t, l.saturating_sub(1 << 40), l.saturating_sub(1))
                        }
                        _ => lo,
                    };
                    return Val::Int(v);
                }
                Val::Int(pick_int(t, lo, hi.max(lo)))
            }
            Ty::Enum { root, ext } => {
                if let Some(e) = ext {
                    if self.ext && !e.is_empty() && t.chance(1, 3) {
                        return Val::EnumExt(t.choose(e.len() as u64));
                    }
                }
                match t.choose(3) {
                    0 => Val::Enum(0),
                    1 => Val::Enum(root.len() as u64 - 1),
                    _ => Val::Enum(t.choose(root.len() as u64)),
                }
            }
            Ty::Bits(s) => {
                let n = self.len(t, s, 1);
                let o = octets(t, (n + 7) / 8);
                Val::Bits((0..n).map(|i| o[i / 8] & (0x80 >> (i % 8)) != 0).collect())
            }
            Ty::Octets(s) => {
                let n = self.len(t, s, 1);
                Val::Octets(octets(t, n))
            }
            Ty::Str(k, s) => {
                let n = self.len(t, s, 1);
                Val::Str(text(t, *k, n))
            }
            Ty::Seq { fields, ext } => {
                let mut r = vec![];
                let mut key = None;
                for f in fields {
                    if f.optional && (!env.has_value(&f.ty) || self.budget == 0 || !(t.choose(2) == 1)) {
                        r.push(None);
                        continue;
                    }
                    if f.key {
                        // only keys that have a variant are valid
                        let keys: Vec<i128> = fields
                            .iter()
                            .find_map(|g| match env.res(&g.ty) {
                                Ty::Open(a) => {
                                    Some(a.iter().filter(|a| env.has_value(&a.ty)).map(|a| a.key).collect())
                                }
                                _ => None,
                            })
                            .unwrap_or_default();
                        if !keys.is_empty() {
                            let k = keys[t.idx(keys.len())];
                            key = Some(k);
                            r.push(Some(match env.res(&f.ty) {
                                Ty::Enum { .. } => Val::Enum(k as u64),
                                _ => Val::Int(k),
                            }));
                            continue;
                        }
                    }
                    if let (Ty::Open(alts), Some(k)) = (env.res(&f.ty), key) {
                        let a = alts.iter().find(|a| a.key == k).unwrap();
                        let v = self.val(t, &a.ty);
                        r.push(Some(Val::Open(k, Box::new(v))));
                        continue;
                    }
                    r.push(Some(self.val(t, &f.ty)));
                }
                let mut x = vec![];
                if let Some(e) = ext {
                    if self.ext && !e.is_empty() && t.chance(1, 2) {
                        let all = t.coin();
                        for f in e {
                            if (all || t.coin()) && env.has_value(&f.ty) {
                                x.push(Some(self.val(t, &f.ty)));
                            } else {
                                x.push(None);
                            }
                        }
                        if x.iter().all(|v| v.is_none()) {
                            x.clear();
                        }
                    }
                }
                Val::Seq(r, x)
            }
            Ty::SeqOf { elem, size } => {
                if !env.has_value(elem) {
                    return Val::SeqOf(vec![]);
                }
                // What a list costs is its length times what its elements cost.
                let leaf = matches!(env.res(elem), Ty::Int { .. } | Ty::Bool | Ty::Enum { .. });
                let min = min_bits(env, elem);
                let big = self.big;
                self.big = big && (leaf || (min < 64 && t.chance(1, 8)));
                let n = self.len(t, size, if leaf { 1 } else { 8 + min / 8 });
                self.big = big && n == 1;
                let distinct = n.min(40);
                let left = self.budget;
                let each = left / n.max(1);
                let mut v = Vec::with_capacity(n);
                let mut used = 0;
                for _ in 0..distinct {
                    self.budget = each;
                    v.push(self.val(t, elem));
                    used += each - self.budget;
                }
                self.budget = left.saturating_sub(used);
                // elements can turn out larger than estimated
                let mut weight = 1;
                for x in &v {
                    weight = weight.max(x.weight());
                }
                let lb = size.as_ref().map_or(0, |s| s.lb as usize);
                let n = n.min((400_000 / weight).max(lb).max(distinct));
                for i in distinct..n {
                    v.push(v[i % distinct].clone());
                }
                Val::SeqOf(v)
            }
            Ty::Choice { alts, ext } => {
                if let Some(e) = ext {
                    if self.ext && e.iter().any(|a| env.has_value(&a.ty)) && t.chance(1, 3) {
                        let mut i = t.idx(e.len());
                        while !env.has_value(&e[i].ty) {
                            i = (i + 1) % e.len();
                        }
                        return Val::ChoiceExt(i, Box::new(self.val(t, &e[i].ty)));
                    }
                }
                let mut i = match t.choose(4) {
                    0 => 0,
                    1 => alts.len() - 1,
                    _ => t.idx(alts.len()),
                };
                if self.budget == 0 && min_bits(env, &alts[i].ty) > 32 {
                    i = (0..alts.len()).min_by_key(|i| min_bits(env, &alts[*i].ty)).unwrap();
                }
                while !env.has_value(&alts[i].ty) {
                    i = (i + 1) % alts.len();
                }
                Val::Choice(i, Box::new(self.val(t, &alts[i].ty)))
            }
            Ty::Open(alts) => {
                let mut i = t.idx(alts.len());
                while !env.has_value(&alts[i].ty) {
                    i = (i + 1) % alts.len();
                }
                let a = &alts[i];
                Val::Open(a.key, Box::new(self.val(t, &a.ty)))
            }
            Ty::Ref(_) => unreachable!(),
        }
    }

    /// Number of places where a constraint can be violated.
    pub fn sites(&self, ty: &Ty, v: &Val) -> usize {
        let env = self.env;
        let sz = |s: &Option<Size>| {
            s.as_ref().map_or(0, |s| (s.lb > 0 || s.ub.map_or(false, |u| u < 70000)) as usize)
        };
        match (env.res(ty), v) {
            (Ty::Int { lb, ub, .. }, _) => (lb.is_some() || ub.is_some()) as usize,
            (Ty::Enum { .. }, _) | (Ty::Small, _) => 1,
            (Ty::Bits(s), _) | (Ty::Octets(s), _) | (Ty::Str(_, s), _) => sz(s),
            (Ty::Seq { fields, .. }, Val::Seq(r, _)) => fields
                .iter()
                .zip(r)
                .map(|(f, v)| match v {
                    Some(_) if f.key => 0,
                    Some(v) => self.sites(&f.ty, v),
                    None => 0,
                })
                .sum(),
            (Ty::SeqOf { elem, size }, Val::SeqOf(vs)) => {
                sz(size) + vs.iter().take(50).map(|v| self.sites(elem, v)).sum::<usize>()
            }
            (Ty::Choice { alts, .. }, Val::Choice(i, v)) => self.sites(&alts[*i].ty, v),
            (Ty::Open(alts), Val::Open(k, v)) => {
                self.sites(&alts.iter().find(|a| a.key == *k).unwrap().ty, v)
            }
            _ => 0,
        }
    }
    /// Violates the constraint at site `k`. Returns false if the site could not be violated.
    pub fn break_at(&self, t: &mut Tape, ty: &Ty, v: &mut Val, k: &mut usize) -> bool {
        let env = self.env;
        let bad_len = |t: &mut Tape, s: &Option<Size>, k: &mut usize| -> Option<Option<usize>> {
            let s = s.as_ref()?;
            if !(s.lb > 0 || s.ub.map_or(false, |u| u < 70000)) {
                return None;
            }
            if *k > 0 {
                *k -= 1;
                return None;
            }
            *k = usize::MAX;
            let low = s.lb > 0;
            let high = s.ub.map_or(false, |u| u < 70000);
            Some(Some(if high && !(low && t.coin()) {
                let u = s.ub.unwrap();
                (u + 1 + if t.coin() { 0 } else { t.choose(300) }) as usize
            } else {
                match t.choose(3) {
                    0 => s.lb - 1,
                    1 => 0,
                    _ => t.choose(s.lb),
                }
                .min(s.lb - 1) as usize
            }))
        };
        if *k == usize::MAX {
            return true;
        }
        match (env.res(ty), v) {
            (Ty::Int { lb, ub, .. }, Val::Int(i)) => {
                if lb.is_none() && ub.is_none() {
                    return false;
                }
                if *k > 0 {
                    *k -= 1;
                    return false;
                }
                *k = usize::MAX;
                let far = match t.choose(4) {
                    0 => 1,
                    1 => 1 + t.choose(300) as i128,
                    2 => 1i128 << t.choose(20),
                    _ => 1i128 << t.choose(63),
                };
                *i = match (lb, ub) {
                    (Some(l), Some(u)) => {
                        if t.coin() {
                            l.saturating_sub(far)
                        } else {
                            u.saturating_add(far)
                        }
                    }
                    (Some(l), None) => l.saturating_sub(far),
                    (None, Some(u)) => u.saturating_add(far),
                    _ => unreachable!(),
                };
                true
            }
            (Ty::Small, Val::Int(i)) => {
                if *k > 0 {
                    *k -= 1;
                    return false;
                }
                *k = usize::MAX;
                *i = match t.choose(3) {
                    0 => 0,
                    1 => 16384,
                    _ => 16384 + t.choose(1 << 20) as i128,
                };
                true
            }
            (Ty::Enum { root, .. }, Val::Enum(i)) => {
                if *k > 0 {
                    *k -= 1;
                    return false;
                }
                *k = usize::MAX;
                *i = root.len() as u64 + if t.coin() { 0 } else { t.choose(200) };
                true
            }
            (Ty::Bits(s), Val::Bits(b)) => {
                if let Some(Some(n)) = bad_len(t, s, k) {
                    b.resize(n, true);
                    return true;
                }
                false
            }
            (Ty::Octets(s), Val::Octets(b)) => {
                if let Some(Some(n)) = bad_len(t, s, k) {
                    b.resize(n, 0x5a);
                    return true;
                }
                false
            }
            (Ty::Str(_, s), Val::Str(b)) => {
                if let Some(Some(n)) = bad_len(t, s, k) {
                    let mut c: Vec<char> = b.chars().collect();
                    c.resize(n, 'x');
                    *b = c.into_iter().collect();
                    return true;
                }
                false
            }
            (Ty::Seq { fields, .. }, Val::Seq(r, _)) => {
                for (f, v) in fields.iter().zip(r) {
                    if f.key {
                        continue;
                    }
                    if let Some(v) = v {
                        if self.break_at(t, &f.ty, v, k) {
                            return true;
                        }
                    }
                }
                false
            }
            (Ty::SeqOf { elem, size }, Val::SeqOf(vs)) => {
                if *k == 0
                    && size.as_ref().map_or(false, |s| s.ub.map_or(false, |u| u > 600 && u < 70000))
                    && !t.chance(1, 12)
                {
                    // too expensive to do every time
                    return false;
                }
                if let Some(Some(n)) = bad_len(t, size, k) {
                    if n > 0 && vs.is_empty() {
                        if !env.has_value(elem) {
                            return false;
                        }
                        let mut g = VGen::new(env);
                        g.budget = 4;
                        vs.push(g.val(t, elem));
                    }
                    let m = vs.len();
                    vs.truncate(n);
                    for i in vs.len()..n {
                        let c = vs[i % m].clone();
                        vs.push(c);
                    }
                    return true;
                }
                for v in vs.iter_mut().take(50) {
                    if self.break_at(t, elem, v, k) {
                        return true;
                    }
                }
                false
            }
            (Ty::Choice { alts, .. }, Val::Choice(i, v)) => self.break_at(t, &alts[*i].ty, v, k),
            (Ty::Open(alts), Val::Open(key, v)) => {
                self.break_at(t, &alts.iter().find(|a| a.key == *key).unwrap().ty, v, k)
            }
            _ => false,
        }
    }
    /// A value violating exactly one constraint, or None if the type has none.
    pub fn invalid(&mut self, t: &mut Tape, ty: &Ty) -> Option<Val> {
        let mut v = self.val(t, ty);
        let n = self.sites(ty, &v);
        if n == 0 {
            return None;
        }
        let mut k = t.idx(n);
        if self.break_at(t, ty, &mut v, &mut k) {
            if valid(self.env, ty, &v, false).is_ok() {
                return None;
            }
            Some(v)
        } else {
            None
        }
    }
}

/// The part of a (possibly later-version) value a receiver of `ty` knows: None if the receiver has
/// no way to represent it.
pub fn project(env: &Env, ty: &Ty, v: &Val) -> Option<Val> {
    Some(match (env.res(ty), v) {
        (Ty::Seq { fields, .. }, Val::Seq(r, _)) => {
            let mut out = vec![];
            for (f, v) in fields.iter().zip(r) {
                out.push(match v {
                    None => None,
                    Some(v) => Some(project(env, &f.ty, v)?),
                });
            }
            Val::Seq(out, vec![])
        }
        (Ty::SeqOf { elem, .. }, Val::SeqOf(vs)) => {
            let mut out = vec![];
            for v in vs {
                out.push(project(env, elem, v)?);
            }
            Val::SeqOf(out)
        }
        (Ty::Choice { alts, .. }, Val::Choice(i, v)) => {
            Val::Choice(*i, Box::new(project(env, &alts.get(*i)?.ty, v)?))
        }
        (Ty::Choice { ext, .. }, Val::ChoiceExt(i, v)) => {
            let a = ext.as_ref()?.get(*i)?;
            Val::ChoiceExt(*i, Box::new(project(env, &a.ty, v)?))
        }
        (Ty::Enum { ext, .. }, Val::EnumExt(i)) => {
            if (*i as usize) < ext.as_ref()?.len() {
                v.clone()
            } else {
                return None;
            }
        }
        (Ty::Open(alts), Val::Open(k, v)) => {
            let a = alts.iter().find(|a| a.key == *k)?;
            Val::Open(*k, Box::new(project(env, &a.ty, v)?))
        }
        _ => v.clone(),
    })
}

/// Does the value carry anything outside the extension root of `ty`, or fields the receiver skips?
pub fn has_ext(env: &Env, ty: &Ty, v: &Val) -> bool {
    match (env.res(ty), v) {
        (Ty::Seq { fields, .. }, Val::Seq(r, x)) => {
            !x.is_empty()
                || fields
                    .iter()
                    .zip(r)
                    .any(|(f, v)| v.as_ref().map_or(false, |v| has_ext(env, &f.ty, v)))
        }
        (Ty::SeqOf { elem, .. }, Val::SeqOf(vs)) => {
            valid_shallow(env, ty, v) || vs.iter().any(|v| has_ext(env, elem, v))
        }
        (Ty::Choice { alts, .. }, Val::Choice(i, v)) => {
            alts.get(*i).map_or(true, |a| has_ext(env, &a.ty, v))
        }
        (_, Val::ChoiceExt(..)) | (_, Val::EnumExt(_)) => true,
        (Ty::Open(alts), Val::Open(k, v)) => {
            alts.iter().find(|a| a.key == *k).map_or(true, |a| has_ext(env, &a.ty, v))
        }
        (_, v) => valid(env, ty, v, false).is_err(),
    }
}

fn valid_shallow(env: &Env, ty: &Ty, v: &Val) -> bool {
    if let (Ty::SeqOf { size: Some(s), .. }, Val::SeqOf(vs)) = (env.res(ty), v) {
        let n = vs.len() as u64;
        return !(n >= s.lb && s.ub.map_or(true, |u| n <= u));
    }
    false
}

/// Smallest number of bits a value of this type occupies.
pub fn min_bits(env: &Env, ty: &Ty) -> usize {
    match env.res(ty) {
        Ty::Bool => 1,
        Ty::Null | Ty::Oid => 0,
        Ty::Small => 7,
        Ty::Int { lb: Some(l), ub: Some(u), ext } => (l != u) as usize + *ext as usize,
        Ty::Int { .. } => 16,
        Ty::Enum { root, ext } => (root.len() > 1 || ext.is_some()) as usize,
        Ty::Bits(s) | Ty::Octets(s) | Ty::Str(_, s) => match s {
            Some(s) => (s.lb as usize).max((s.ub != Some(s.lb)) as usize),
            _ => 1,
        },
        Ty::Seq { fields, ext } => {
            ext.is_some() as usize
                + fields
                    .iter()
                    .map(|f| if f.optional { 1 } else { min_bits(env, &f.ty) })
                    .sum::<usize>()
        }
        Ty::SeqOf { elem, size } => match size {
            Some(s) => 1 + s.lb as usize * min_bits(env, elem),
            _ => 1,
        },
        Ty::Choice { alts, ext } => {
            (alts.len() > 1 || ext.is_some()) as usize
                + alts.iter().map(|a| min_bits(env, &a.ty)).min().unwrap_or(0)
        }
        Ty::Open(_) => 16,
        Ty::Ref(_) => unreachable!(),
    }
}

// ---------------------------------------------------------------- types

pub fn gen_int(t: &mut Tape) -> Ty {
    let ext = t.chance(1, 5);
    match t.weighted(&[10, 2, 3, 1]) {
        3 => {
            let u = [0, 100, -1, 255, 1 << 40, -70000][t.idx(6)];
            Ty::Int { lb: None, ub: Some(u), ext }
        }
        0 => {
            let widths: [i128; 26] = [
                0, 1, 2, 3, 6, 7, 8, 15, 100, 127, 128, 253, 254, 255, 256, 257, 65534, 65535, 65536,
                65537, (1 << 24) - 1, 1 << 24, (1 << 32) - 1, 1 << 32, (1 << 40) + 5, i64::MAX as i128,
            ];
            let lbs: [i128; 9] = [0, 1, -1, -128, -200, 5, 1000, -32768, -(1 << 31)];
            let w = match t.choose(4) {
                0 => t.choose(300) as i128,
                1 => widths[t.idx(26)],
                2 => widths[t.idx(26)],
                _ => t.choose(1 << 40) as i128,
            };
            let l = lbs[t.idx(9)];
            Ty::Int { lb: Some(l), ub: Some(l + w), ext }
        }
        1 => Ty::Int { lb: None, ub: None, ext: false },
        _ => {
            let l = [0, 1, -1, 7, -129, 256, -(1i128 << 40)][t.idx(7)];
            Ty::Int { lb: Some(l), ub: None, ext }
        }
    }
}

pub fn gen_size(t: &mut Tape, max: u64) -> Option<Size> {
    let ext = t.chance(1, 5);
    let s = match t.weighted(&[4, 8, 10, 2, 1]) {
        0 => return None,
        1 => {
            let n = [1, 2, 3, 0, 4, 8, 16, 17, 20, 24, 32, 64, 128, 160, 256][t.idx(15)];
            Size { lb: n, ub: Some(n), ext }
        }
        2 => {
            let (l, u) = [
                (1, 2),
                (0, 1),
                (0, 2),
                (1, 3),
                (0, 7),
                (1, 8),
                (1, 16),
                (0, 17),
                (2, 4),
                (1, 150),
                (0, 255),
                (1, 256),
                (0, 256),
                (1, 257),
                (5, 300),
                (0, 16383),
                (0, 16384),
                (1, 65535),
                (0, 65535),
                (1, 65536),
                (0, 70000),
                (22, 32),
                (2, 2000),
                (0, 20000),
                (3, 33000),
            ][t.idx(25)];
            Size { lb: l, ub: Some(u), ext }
        }
        k => {
            // bounds of several octets, on both sides
            let wide = [0, 1, 2, 3, 4, 5, 127, 256, 300, 600];
            let lb = wide[t.idx(if max > 1 << 60 { 10 } else { 6 })];
            let ub = [70_000, 1 << 17, (1 << 24) + 3, 1 << 32, (1 << 32) + 300, 1 << 40];
            Size { lb, ub: if k == 4 { Some(ub[t.idx(6)]) } else { None }, ext }
        }
    };
    if s.lb > max || s.ub.map_or(false, |u| u > max) {
        return Some(Size { lb: 1, ub: Some(max), ext });
    }
    Some(s)
}

pub fn gen_enum(t: &mut Tape, max: u64) -> Ty {
    let n = match t.choose(4) {
        0 => 1 + t.choose(4),
        1 => 1 + t.choose(20),
        2 => [2, 3, 4, 5, 8, 9, 16, 17, 64, 65][t.idx(10)],
        _ => 1 + t.choose(max),
    }
    .min(max);
    let root = (0..n).map(|i| format!("e{}", i)).collect();
    let ext = if t.chance(2, 5) {
        let m = t.choose(4);
        Some((0..m).map(|i| format!("x{}", i)).collect())
    } else {
        None
    };
    Ty::Enum { root, ext }
}

pub fn gen_leaf(t: &mut Tape) -> Ty {
    match t.weighted(&[6, 1, 1, 3, 4, 4, 4]) {
        0 => gen_int(t),
        1 => Ty::Bool,
        2 => Ty::Null,
        3 => gen_enum(t, 200),
        4 => Ty::Bits(gen_size(t, 1 << 62)),
        5 => Ty::Octets(gen_size(t, 1 << 62)),
        _ => {
            let k = [StrKind::Printable, StrKind::Visible, StrKind::Utf8][t.idx(3)];
            let s = gen_size(t, 1 << 62);
            Ty::Str(k, s)
        }
    }
}

/// A later version of every extensible type: additions appended after the extension marker.
pub fn evolve(t: &mut Tape, ty: &Ty) -> Ty {
    fn simple(t: &mut Tape) -> Ty {
        match t.choose(6) {
            0 => Ty::Bool,
            1 => Ty::Null,
            2 => gen_int(t),
            3 => Ty::Octets(Some(Size { lb: 0, ub: Some(40), ext: false })),
            4 => Ty::Bits(None),
            _ => Ty::Seq {
                fields: vec![
                    Field { name: "a".into(), ty: gen_int(t), optional: true, key: false },
                    Field { name: "b".into(), ty: Ty::Bool, optional: false, key: false },
                ],
                ext: Some(vec![]),
            },
        }
    }
    fn count(t: &mut Tape) -> u64 {
        match t.weighted(&[3, 6, 3, 1]) {
            0 => 0,
            1 => 1 + t.choose(3),
            2 => 1 + t.choose(10),
            _ => [63, 64, 65, 66, 70, 130][t.idx(6)],
        }
    }
    match ty {
        Ty::Seq { fields, ext } => Ty::Seq {
            fields: fields
                .iter()
                .map(|f| Field { ty: evolve(t, &f.ty), ..f.clone() })
                .collect(),
            ext: ext.as_ref().map(|e| {
                let mut e = e.clone();
                for i in 0..count(t) {
                    e.push(Field { name: format!("n{}", i), ty: simple(t), optional: true, key: false });
                }
                e
            }),
        },
        Ty::SeqOf { elem, size } => {
            Ty::SeqOf { elem: Box::new(evolve(t, elem)), size: size.clone() }
        }
        Ty::Choice { alts, ext } => Ty::Choice {
            alts: alts.iter().map(|a| Alt { ty: evolve(t, &a.ty), ..a.clone() }).collect(),
            ext: ext.as_ref().map(|e| {
                let mut e = e.clone();
                for i in 0..count(t) {
                    e.push(Alt { name: format!("n{}", i), ty: simple(t) });
                }
                e
            }),
        },
        Ty::Enum { root, ext } => Ty::Enum {
            root: root.clone(),
            ext: ext.as_ref().map(|e| {
                let mut e = e.clone();
                for i in 0..count(t) {
                    e.push(format!("n{}", i));
                }
                e
            }),
        },
        Ty::Open(alts) => Ty::Open(
            alts.iter().map(|a| OpenAlt { ty: evolve(t, &a.ty), ..a.clone() }).collect(),
        ),
        t => t.clone(),
    }
}

pub fn evolve_env(t: &mut Tape, env: &Env, root: usize) -> Env {
    // only the types reachable from `root` are evolved: keeps tapes short
    let mut reach = vec![false; env.types.len()];
    fn walk(env: &Env, ty: &Ty, reach: &mut Vec<bool>) {
        match ty {
            Ty::Ref(i) => {
                if !reach[*i] {
                    reach[*i] = true;
                    walk(env, &env.types[*i].1, reach);
                }
            }
            Ty::Seq { fields, ext } => {
                for f in fields.iter().chain(ext.iter().flatten()) {
                    walk(env, &f.ty, reach)
                }
            }
            Ty::SeqOf { elem, .. } => walk(env, elem, reach),
            Ty::Choice { alts, ext } => {
                for f in alts.iter().chain(ext.iter().flatten()) {
                    walk(env, &f.ty, reach)
                }
            }
            Ty::Open(alts) => {
                for a in alts {
                    walk(env, &a.ty, reach)
                }
            }
            _ => {}
        }
    }
    walk(env, &Ty::Ref(root), &mut reach);
    Env {
        types: env
            .types
            .iter()
            .enumerate()
            .map(|(i, (n, ty))| (n.clone(), if reach[i] { evolve(t, ty) } else { ty.clone() }))
            .collect(),
        live: env.live.clone(),
    }
}
