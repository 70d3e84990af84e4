//! An independent implementation of X.691 ALIGNED PER (written from the standard, not from hampi),
//! used as the reference peer. The encoder is canonical; the decoder is lenient: it accepts every
//! encoding with an unambiguous meaning (non-minimal integers and lengths, non-zero padding).

use crate::model::*;

#[derive(Clone, Default, Debug)]
pub struct BitW {
    pub bytes: Vec<u8>,
    pub len: usize,
}

impl BitW {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn bit(&mut self, b: bool) {
        if self.len % 8 == 0 {
            self.bytes.push(0);
        }
        if b {
            *self.bytes.last_mut().unwrap() |= 0x80 >> (self.len % 8);
        }
        self.len += 1;
    }
    pub fn bits(&mut self, v: u128, n: usize) {
        for i in (0..n).rev() {
            self.bit((v >> i) & 1 == 1);
        }
    }
    pub fn align(&mut self) {
        self.len = self.bytes.len() * 8;
    }
    pub fn octets(&mut self, o: &[u8]) {
        if self.len % 8 == 0 {
            self.bytes.extend_from_slice(o);
            self.len += o.len() * 8;
        } else {
            for b in o {
                self.bits(*b as u128, 8);
            }
        }
    }
    pub fn get(&self, i: usize) -> bool {
        self.bytes[i / 8] & (0x80 >> (i % 8)) != 0
    }
}

/// Where in the encoding a value's parts landed; used to aim faults.
#[derive(Clone, Debug, Default)]
pub struct Marks {
    /// bit offsets of length determinants, extension bits, bitmaps and the like
    pub at: Vec<(usize, &'static str)>,
}

pub struct Enc<'a> {
    pub env: &'a Env,
    pub w: BitW,
    pub marks: Marks,
    /// changes to the n-th open type frame: octets appended to its content (a newer peer's longer
    /// value) or removed from its end, with the length determinant telling the changed length
    pub open_mod: Vec<(usize, OpenMod)>,
    pub open_count: usize,
}

#[derive(Clone, Debug)]
pub enum OpenMod {
    Extra(Vec<u8>),
    Drop(usize),
}

fn bits_for(range_minus_1: u128) -> usize {
    (128 - range_minus_1.leading_zeros()) as usize
}

fn min_octets_unsigned(v: u128) -> usize {
    ((bits_for(v) + 7) / 8).max(1)
}

fn min_octets_signed(v: i128) -> usize {
    for n in 1..16 {
        let sh = 128 - 8 * n as u32;
        if (v << sh) >> sh == v {
            return n;
        }
    }
    16
}

type R<T> = Result<T, String>;

impl<'a> Enc<'a> {
    pub fn new(env: &'a Env) -> Self {
        Enc { env, w: BitW::new(), marks: Marks::default(), open_mod: vec![], open_count: 0 }
    }
    fn mark(&mut self, k: &'static str) {
        let l = self.w.len;
        self.marks.at.push((l, k));
    }

    pub fn cwn(&mut self, lb: i128, ub: i128, v: i128) -> R<()> {
        if v < lb || v > ub {
            return Err(format!("{} outside {}..{}", v, lb, ub));
        }
        let r = ub.wrapping_sub(lb) as u128; // range - 1
        let d = v.wrapping_sub(lb) as u128;
        if r == 0 {
        } else if r <= 254 {
            self.w.bits(d, bits_for(r));
        } else if r == 255 {
            self.w.align();
            self.w.bits(d, 8);
        } else if r <= 65535 {
            self.w.align();
            self.w.bits(d, 16);
        } else {
            let max = min_octets_unsigned(r);
            let n = min_octets_unsigned(d);
            self.mark("intlen");
            self.cwn(1, max as i128, n as i128)?;
            self.w.align();
            self.w.octets(&d.to_be_bytes()[16 - n..]);
        }
        Ok(())
    }
    /// One general length (not fragmented).
    fn glen(&mut self, n: usize) {
        self.w.align();
        self.mark("len");
        if n < 128 {
            self.w.bits(n as u128, 8);
        } else {
            assert!(n < 16384);
            self.w.bits(n as u128 | 0x8000, 16);
        }
    }
    fn chunks(&mut self, n: usize, mut emit: impl FnMut(&mut Self, usize, usize) -> R<()>) -> R<()> {
        let mut from = 0;
        loop {
            let left = n - from;
            if left >= 16384 {
                let k = (left / 16384).min(4);
                self.w.align();
                self.mark("frag");
                self.w.bits(0xC0 | k as u128, 8);
                emit(self, from, from + k * 16384)?;
                from += k * 16384;
            } else {
                self.glen(left);
                emit(self, from, n)?;
                return Ok(());
            }
        }
    }
    pub fn semi(&mut self, lb: i128, v: i128) -> R<()> {
        if v < lb {
            return Err(format!("{} below {}", v, lb));
        }
        let d = v.wrapping_sub(lb) as u128;
        let n = min_octets_unsigned(d);
        self.glen(n);
        self.w.octets(&d.to_be_bytes()[16 - n..]);
        Ok(())
    }
    pub fn unconstrained(&mut self, v: i128) {
        let n = min_octets_signed(v);
        self.glen(n);
        self.w.octets(&v.to_be_bytes()[16 - n..]);
    }
    pub fn nsnn(&mut self, v: u64) -> R<()> {
        self.mark("nsnn");
        if v <= 63 {
            self.w.bit(false);
            self.w.bits(v as u128, 6);
            Ok(())
        } else {
            self.w.bit(true);
            self.semi(0, v as i128)
        }
    }
    /// Normally small length (n >= 1).
    pub fn nslen(&mut self, n: usize) -> R<()> {
        self.mark("nslen");
        if n >= 1 && n <= 64 {
            self.w.bit(false);
            self.w.bits(n as u128 - 1, 6);
        } else if n >= 1 && n < 16384 {
            self.w.bit(true);
            self.glen(n);
        } else {
            return Err("normally small length".into());
        }
        Ok(())
    }
    pub fn int(&mut self, lb: Option<i128>, ub: Option<i128>, ext: bool, v: i128) -> R<()> {
        let inroot = lb.map_or(true, |l| v >= l) && ub.map_or(true, |u| v <= u);
        if ext {
            self.mark("ext");
            self.w.bit(!inroot);
        }
        if !inroot {
            if !ext {
                return Err("integer out of range".into());
            }
            self.unconstrained(v);
            return Ok(());
        }
        match (lb, ub) {
            (Some(l), Some(u)) => self.cwn(l, u, v),
            (Some(l), None) => self.semi(l, v),
            _ => {
                self.unconstrained(v);
                Ok(())
            }
        }
    }
    /// Size-constrained item list: `unit_align(n, fixed)` says whether a non-empty body of a
    /// constrained size is octet-aligned.
    fn sized(
        &mut self,
        n: usize,
        s: &Option<Size>,
        aligned: impl Fn(&Size) -> bool,
        mut emit: impl FnMut(&mut Self, usize, usize) -> R<()>,
    ) -> R<()> {
        let none = Size { lb: 0, ub: None, ext: false };
        let s = s.as_ref().unwrap_or(&none);
        let inroot = n as u64 >= s.lb && s.ub.map_or(true, |u| n as u64 <= u);
        if s.ext {
            self.mark("ext");
            self.w.bit(!inroot);
        }
        if !inroot {
            if !s.ext {
                return Err(format!("size {} outside {:?}", n, s));
            }
            return self.chunks(n, emit);
        }
        match s.ub {
            Some(u) if u < 65536 => {
                if u != s.lb {
                    self.mark("clen");
                    self.cwn(s.lb as i128, u as i128, n as i128)?;
                }
                if n > 0 && aligned(s) {
                    self.w.align();
                }
                emit(self, 0, n)
            }
            _ => self.chunks(n, emit),
        }
    }
    pub fn bitstring(&mut self, s: &Option<Size>, b: &[bool]) -> R<()> {
        self.sized(
            b.len(),
            s,
            |s| !(Some(s.lb) == s.ub && s.lb <= 16),
            |e, f, t| {
                for x in &b[f..t] {
                    e.w.bit(*x);
                }
                Ok(())
            },
        )
    }
    pub fn octetstring(&mut self, s: &Option<Size>, b: &[u8]) -> R<()> {
        self.sized(
            b.len(),
            s,
            |s| !(Some(s.lb) == s.ub && s.lb <= 2),
            |e, f, t| {
                e.w.octets(&b[f..t]);
                Ok(())
            },
        )
    }
    pub fn string(&mut self, k: StrKind, s: &Option<Size>, v: &str) -> R<()> {
        let b = v.as_bytes();
        if k == StrKind::Utf8 {
            // size constraints of UTF8String are not PER-visible
            return self.chunks(b.len(), |e, f, t| {
                e.w.octets(&b[f..t]);
                Ok(())
            });
        }
        self.sized(
            b.len(),
            s,
            |s| {
                let u = s.ub.unwrap();
                if s.lb == u {
                    u * 8 > 16
                } else {
                    u * 8 >= 16
                }
            },
            |e, f, t| {
                e.w.octets(&b[f..t]);
                Ok(())
            },
        )
    }
    pub fn open(&mut self, ty: &Ty, v: &Val) -> R<()> {
        let mut inner = Enc::new(self.env);
        inner.open_mod = std::mem::take(&mut self.open_mod);
        inner.open_count = self.open_count + 1;
        let mine = self.open_count;
        inner.val(ty, v)?;
        inner.w.align();
        if inner.w.bytes.is_empty() {
            inner.w.bits(0, 8);
        }
        self.open_mod = std::mem::take(&mut inner.open_mod);
        self.open_count = inner.open_count;
        let mut body = inner.w.bytes;
        for (n, m) in &self.open_mod {
            if *n == mine {
                match m {
                    OpenMod::Extra(x) => body.extend_from_slice(x),
                    OpenMod::Drop(k) => body.truncate(body.len().saturating_sub(*k)),
                }
            }
        }
        self.chunks(body.len(), |e, f, t| {
            e.w.octets(&body[f..t]);
            Ok(())
        })
    }
    pub fn val(&mut self, ty: &Ty, v: &Val) -> R<()> {
        let env = self.env;
        match (env.res(ty), v) {
            (Ty::Bool, Val::Bool(b)) => self.w.bit(*b),
            (Ty::Null, Val::Null) => {}
            (Ty::Small, Val::Int(n)) => self.nslen(*n as usize)?,
            (Ty::Int { lb, ub, ext }, Val::Int(i)) => self.int(*lb, *ub, *ext, *i)?,
            (Ty::Enum { root, ext }, Val::Enum(i)) => {
                if ext.is_some() {
                    self.mark("ext");
                    self.w.bit(false);
                }
                self.cwn(0, root.len() as i128 - 1, *i as i128)?
            }
            (Ty::Enum { ext: Some(_), .. }, Val::EnumExt(i)) => {
                self.mark("ext");
                self.w.bit(true);
                self.nsnn(*i)?
            }
            (Ty::Bits(s), Val::Bits(b)) => self.bitstring(s, b)?,
            (Ty::Octets(s), Val::Octets(b)) => self.octetstring(s, b)?,
            (Ty::Str(k, s), Val::Str(b)) => self.string(*k, s, b)?,
            (Ty::Seq { fields, ext }, Val::Seq(r, x)) => {
                let any = x.iter().any(|v| v.is_some());
                if ext.is_some() {
                    self.mark("ext");
                    self.w.bit(any);
                }
                self.mark("bitmap");
                for (f, v) in fields.iter().zip(r) {
                    if f.optional {
                        self.w.bit(v.is_some());
                    } else if v.is_none() {
                        return Err(format!("mandatory {} absent", f.name));
                    }
                }
                for (f, v) in fields.iter().zip(r) {
                    if let Some(v) = v {
                        if let (Ty::Open(alts), Val::Open(k, v)) = (env.res(&f.ty), v) {
                            let a = alts
                                .iter()
                                .find(|a| a.key == *k)
                                .ok_or_else(|| format!("no variant for key {}", k))?;
                            self.open(&a.ty, v)?;
                        } else {
                            self.val(&f.ty, v)?;
                        }
                    }
                }
                if any {
                    let e = ext.as_ref().ok_or("not extensible")?;
                    self.nslen(x.len())?;
                    for v in x {
                        self.w.bit(v.is_some());
                    }
                    for (f, v) in e.iter().zip(x) {
                        if let Some(v) = v {
                            self.open(&f.ty, v)?;
                        }
                    }
                }
            }
            (Ty::SeqOf { elem, size }, Val::SeqOf(vs)) => {
                self.sized(vs.len(), size, |_| false, |e, f, t| {
                    for v in &vs[f..t] {
                        e.val(elem, v)?;
                    }
                    Ok(())
                })?
            }
            (Ty::Choice { alts, ext }, Val::Choice(i, v)) => {
                if ext.is_some() {
                    self.mark("ext");
                    self.w.bit(false);
                }
                let a = alts.get(*i).ok_or("no such alternative")?;
                self.cwn(0, alts.len() as i128 - 1, *i as i128)?;
                self.val(&a.ty, v)?
            }
            (Ty::Choice { ext: Some(e), .. }, Val::ChoiceExt(i, v)) => {
                self.mark("ext");
                self.w.bit(true);
                self.nsnn(*i as u64)?;
                let a = e.get(*i).ok_or("no such addition")?;
                self.open(&a.ty, v)?
            }
            (t, v) => return Err(format!("value {:?} does not fit {:?}", v, t)),
        }
        Ok(())
    }
}

pub struct Dec<'a> {
    pub env: &'a Env,
    pub b: &'a [u8],
    pub end: usize,
    pub pos: usize,
    pub budget: usize,
}

impl<'a> Dec<'a> {
    pub fn new(env: &'a Env, b: &'a [u8]) -> Self {
        Dec { env, b, end: b.len() * 8, pos: 0, budget: 400_000 }
    }
    fn bit(&mut self) -> R<bool> {
        if self.pos >= self.end {
            return Err("end of data".into());
        }
        let r = self.b[self.pos / 8] & (0x80 >> (self.pos % 8)) != 0;
        self.pos += 1;
        Ok(r)
    }
    fn bits(&mut self, n: usize) -> R<u128> {
        if self.end - self.pos < n {
            return Err("end of data".into());
        }
        let mut v = 0;
        for _ in 0..n {
            v = v << 1 | self.bit()? as u128;
        }
        Ok(v)
    }
    fn align(&mut self) -> R<()> {
        let p = (self.pos + 7) / 8 * 8;
        if p > self.end {
            return Err("end of data".into());
        }
        self.pos = p;
        Ok(())
    }
    fn octets(&mut self, n: usize) -> R<Vec<u8>> {
        if self.end - self.pos < n.checked_mul(8).ok_or("too long")? {
            return Err("end of data".into());
        }
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            v.push(self.bits(8)? as u8);
        }
        Ok(v)
    }
    pub fn cwn(&mut self, lb: i128, ub: i128) -> R<i128> {
        let r = ub.wrapping_sub(lb) as u128;
        let d = if r == 0 {
            0
        } else if r <= 254 {
            self.bits(bits_for(r))?
        } else if r == 255 {
            self.align()?;
            self.bits(8)?
        } else if r <= 65535 {
            self.align()?;
            self.bits(16)?
        } else {
            let max = min_octets_unsigned(r);
            let n = self.cwn(1, max as i128)? as usize;
            self.align()?;
            self.bits(n * 8)?
        };
        if d > r {
            return Err(format!("offset {} beyond range {}", d, r));
        }
        Ok(lb.wrapping_add(d as i128))
    }
    /// (count, more fragments follow)
    fn glen(&mut self) -> R<(usize, bool)> {
        self.align()?;
        if !self.bit()? {
            Ok((self.bits(7)? as usize, false))
        } else if !self.bit()? {
            Ok((self.bits(14)? as usize, false))
        } else {
            let k = self.bits(6)?;
            if !(1..=4).contains(&k) {
                return Err("fragment count".into());
            }
            Ok((k as usize * 16384, true))
        }
    }
    fn int_octets(&mut self, signed: bool) -> R<i128> {
        let (n, more) = self.glen()?;
        if more {
            return Err("fragmented integer".into());
        }
        let o = self.octets(n)?;
        let neg = signed && o.first().map_or(false, |b| b & 0x80 != 0);
        let mut v: i128 = if neg { -1 } else { 0 };
        let fill = if neg { 0xff } else { 0 };
        if o.len() > 16 {
            if o[..o.len() - 16].iter().any(|b| *b != fill) {
                return Err("integer too large".into());
            }
        }
        let tail = if o.len() > 16 { &o[o.len() - 16..] } else { &o[..] };
        if tail.len() == 16 && (tail[0] & 0x80 != 0) != neg {
            return Err("integer too large".into());
        }
        for b in tail {
            v = v << 8 | *b as i128;
        }
        Ok(v)
    }
    pub fn semi(&mut self, lb: i128) -> R<i128> {
        let v = self.int_octets(false)?;
        v.checked_add(lb).ok_or_else(|| "overflow".into())
    }
    pub fn nsnn(&mut self) -> R<u64> {
        if !self.bit()? {
            Ok(self.bits(6)? as u64)
        } else {
            let v = self.semi(0)?;
            u64::try_from(v).map_err(|_| "too large".into())
        }
    }
    pub fn nslen(&mut self) -> R<usize> {
        if !self.bit()? {
            Ok(self.bits(6)? as usize + 1)
        } else {
            let (n, more) = self.glen()?;
            if more {
                return Err("fragmented bitmap".into());
            }
            Ok(n)
        }
    }
    pub fn int(&mut self, lb: Option<i128>, ub: Option<i128>, ext: bool) -> R<i128> {
        if ext && self.bit()? {
            return self.int_octets(true);
        }
        match (lb, ub) {
            (Some(l), Some(u)) => self.cwn(l, u),
            (Some(l), None) => self.semi(l),
            _ => self.int_octets(true),
        }
    }
    fn sized(
        &mut self,
        s: &Option<Size>,
        aligned: impl Fn(&Size) -> bool,
        mut take: impl FnMut(&mut Self, usize) -> R<()>,
    ) -> R<()> {
        let none = Size { lb: 0, ub: None, ext: false };
        let s = s.as_ref().unwrap_or(&none);
        let e = s.ext && self.bit()?;
        match s.ub {
            Some(u) if u < 65536 && !e => {
                let n = self.cwn(s.lb as i128, u as i128)? as usize;
                if n > 0 && aligned(s) {
                    self.align()?;
                }
                take(self, n)
            }
            _ => loop {
                let (n, more) = self.glen()?;
                take(self, n)?;
                if !more {
                    return Ok(());
                }
            },
        }
    }
    fn frame(&mut self) -> R<Vec<u8>> {
        let mut out = vec![];
        loop {
            let (n, more) = self.glen()?;
            out.extend(self.octets(n)?);
            if !more {
                return Ok(out);
            }
        }
    }
    fn open(&mut self, ty: &Ty) -> R<Val> {
        let f = self.frame()?;
        let mut d = Dec { env: self.env, b: &f, end: f.len() * 8, pos: 0, budget: self.budget };
        let v = d.val(ty);
        self.budget = d.budget;
        v
    }
    pub fn val(&mut self, ty: &Ty) -> R<Val> {
        if self.budget == 0 {
            return Err("budget".into());
        }
        self.budget -= 1;
        let env = self.env;
        Ok(match env.res(ty) {
            Ty::Bool => Val::Bool(self.bit()?),
            Ty::Null => Val::Null,
            Ty::Oid => return Err("object identifier".into()),
            Ty::Small => Val::Int(self.nslen()? as i128),
            Ty::Int { lb, ub, ext } => Val::Int(self.int(*lb, *ub, *ext)?),
            Ty::Enum { root, ext } => {
                if ext.is_some() && self.bit()? {
                    let i = self.nsnn()?;
                    if (i as usize) < ext.as_ref().unwrap().len() {
                        Val::EnumExt(i)
                    } else {
                        return Err("unknown enumeration addition".into());
                    }
                } else {
                    Val::Enum(self.cwn(0, root.len() as i128 - 1)? as u64)
                }
            }
            Ty::Bits(s) => {
                let mut b = vec![];
                self.sized(
                    s,
                    |s| !(Some(s.lb) == s.ub && s.lb <= 16),
                    |d, n| {
                        if d.end - d.pos < n {
                            return Err("end of data".into());
                        }
                        for _ in 0..n {
                            b.push(d.bit()?);
                        }
                        Ok(())
                    },
                )?;
                Val::Bits(b)
            }
            Ty::Octets(s) => {
                let mut b = vec![];
                self.sized(
                    s,
                    |s| !(Some(s.lb) == s.ub && s.lb <= 2),
                    |d, n| {
                        b.extend(d.octets(n)?);
                        Ok(())
                    },
                )?;
                Val::Octets(b)
            }
            Ty::Str(k, s) => {
                let mut b = vec![];
                let s = if *k == StrKind::Utf8 { &None } else { s };
                self.sized(
                    s,
                    |s| {
                        let u = s.ub.unwrap();
                        if s.lb == u {
                            u * 8 > 16
                        } else {
                            u * 8 >= 16
                        }
                    },
                    |d, n| {
                        b.extend(d.octets(n)?);
                        Ok(())
                    },
                )?;
                Val::Str(String::from_utf8(b).map_err(|_| "not UTF-8".to_string())?)
            }
            Ty::Seq { fields, ext } => {
                let e = ext.is_some() && self.bit()?;
                let mut present = vec![];
                for f in fields {
                    present.push(if f.optional { self.bit()? } else { true });
                }
                let mut r = vec![];
                let mut key = None;
                for (f, p) in fields.iter().zip(present) {
                    if !p {
                        r.push(None);
                        continue;
                    }
                    if let Ty::Open(alts) = env.res(&f.ty) {
                        let k: i128 = key.ok_or("open type without key")?;
                        let a = alts
                            .iter()
                            .find(|a| a.key == k)
                            .ok_or_else(|| format!("no variant for key {}", k))?;
                        let v = self.open(&a.ty)?;
                        r.push(Some(Val::Open(k, Box::new(v))));
                        continue;
                    }
                    let v = self.val(&f.ty)?;
                    if f.key {
                        key = match v {
                            Val::Int(i) => Some(i),
                            Val::Enum(i) => Some(i as i128),
                            _ => None,
                        };
                    }
                    r.push(Some(v));
                }
                let mut x = vec![];
                if e {
                    let known = ext.as_ref().unwrap();
                    let n = self.nslen()?;
                    let mut pr = vec![];
                    for _ in 0..n {
                        pr.push(self.bit()?);
                    }
                    for (i, p) in pr.iter().enumerate() {
                        if !p {
                            if i < known.len() {
                                x.push(None);
                            }
                            continue;
                        }
                        if i < known.len() {
                            x.push(Some(self.open(&known[i].ty)?));
                        } else {
                            self.frame()?;
                        }
                    }
                    while x.len() < known.len() {
                        x.push(None);
                    }
                    if x.iter().all(|v| v.is_none()) {
                        x.clear();
                    }
                }
                Val::Seq(r, x)
            }
            Ty::SeqOf { elem, size } => {
                let mut out = vec![];
                self.sized(size, |_| false, |d, n| {
                    for _ in 0..n {
                        out.push(d.val(elem)?);
                    }
                    Ok(())
                })?;
                Val::SeqOf(out)
            }
            Ty::Choice { alts, ext } => {
                if ext.is_some() && self.bit()? {
                    let i = self.nsnn()? as usize;
                    let a = ext.as_ref().unwrap().get(i).ok_or("unknown addition")?;
                    Val::ChoiceExt(i, Box::new(self.open(&a.ty)?))
                } else {
                    let i = self.cwn(0, alts.len() as i128 - 1)? as usize;
                    Val::Choice(i, Box::new(self.val(&alts[i].ty)?))
                }
            }
            Ty::Open(_) => return Err("open type outside its sequence".into()),
            Ty::Ref(_) => unreachable!(),
        })
    }
}

/// Encodes `v` after `start` zero/one prefix bits already in `w`.
pub fn encode_into(env: &Env, w: BitW, ty: &Ty, v: &Val) -> R<(BitW, Marks)> {
    let mut e = Enc::new(env);
    e.w = w;
    e.val(ty, v)?;
    Ok((e.w, e.marks))
}
