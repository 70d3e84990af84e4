//! hampi nodes: the real runtime and derived code behind one uniform interface.

use asn1_codecs::aper::{decode, encode, AperCodec, AperCodecData};
use bitvec::prelude::*;
use simcore::model::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Conversion between generated Rust types and raw model values; implemented by generated glue.
pub trait SimVal: Sized {
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Option<Self>;
}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl SimVal for $t {
            fn to_val(&self) -> Val { Val::Int(*self as i128) }
            fn from_val(v: &Val) -> Option<Self> {
                match v { Val::Int(i) => <$t>::try_from(*i).ok(), _ => None }
            }
        }
    )*};
}
ints!(u8, u16, u32, u64, i8, i16, i32, i64, i128);

impl SimVal for u128 {
    fn to_val(&self) -> Val {
        Val::Int(*self as i128)
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::Int(i) => u128::try_from(*i).ok(),
            _ => None,
        }
    }
}
impl SimVal for bool {
    fn to_val(&self) -> Val {
        Val::Bool(*self)
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::Bool(b) => Some(*b),
            _ => None,
        }
    }
}
impl SimVal for String {
    fn to_val(&self) -> Val {
        Val::Str(self.clone())
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::Str(b) => Some(b.clone()),
            _ => None,
        }
    }
}
impl SimVal for BitVec<u8, Msb0> {
    fn to_val(&self) -> Val {
        Val::Bits(self.iter().map(|b| *b).collect())
    }
    fn from_val(v: &Val) -> Option<Self> {
        match v {
            Val::Bits(b) => Some(b.iter().copied().collect()),
            _ => None,
        }
    }
}
/// `Vec<u8>` of an OCTET STRING.
pub fn octets_from(v: &Val) -> Option<Vec<u8>> {
    match v {
        Val::Octets(b) => Some(b.clone()),
        _ => None,
    }
}
pub fn list_to<T: SimVal>(v: &[T]) -> Val {
    Val::SeqOf(v.iter().map(|x| x.to_val()).collect())
}
pub fn list_from<T: SimVal>(v: &Val) -> Option<Vec<T>> {
    match v {
        Val::SeqOf(l) => l.iter().map(T::from_val).collect(),
        _ => None,
    }
}
pub fn opt_to<T: SimVal>(v: &Option<T>) -> Option<Val> {
    v.as_ref().map(|x| x.to_val())
}
pub fn opt_from<T: SimVal>(v: Option<&Option<Val>>) -> Option<Option<T>> {
    match v? {
        None => Some(None),
        Some(v) => Some(Some(T::from_val(v)?)),
    }
}
pub fn fld_from<T: SimVal>(v: Option<&Option<Val>>) -> Option<T> {
    T::from_val(v?.as_ref()?)
}

#[derive(Debug, Clone, PartialEq)]
pub enum EncOut {
    Ok,
    Err(String),
    /// the Rust type cannot hold this value
    Unrep,
    Panic(String),
}

#[derive(Debug, Clone, PartialEq)]
pub enum DecOut {
    Ok(Val),
    Err(String),
    Panic(String),
}

impl DecOut {
    pub fn short(&self) -> String {
        match self {
            DecOut::Ok(v) => format!("Ok {}", show(v)),
            DecOut::Err(e) => format!("Err({})", e),
            DecOut::Panic(e) => format!("PANIC({})", e),
        }
    }
}

pub struct Entry {
    pub name: &'static str,
    pub enc: fn(&Val, &mut AperCodecData) -> EncOut,
    pub dec: fn(&mut AperCodecData) -> Result<Val, String>,
    pub rep: fn(&Val) -> bool,
}

fn enc_t<T: SimVal + AperCodec<Output = T>>(v: &Val, d: &mut AperCodecData) -> EncOut {
    match T::from_val(v) {
        None => EncOut::Unrep,
        Some(x) => match x.encode(d) {
            Ok(()) => EncOut::Ok,
            Err(e) => EncOut::Err(format!("{:?}", e)),
        },
    }
}
fn dec_t<T: SimVal + AperCodec<Output = T>>(d: &mut AperCodecData) -> Result<Val, String> {
    let (r, peak) = crate::alloc::peak_of(|| T::decode(d));
    crate::engine::LAST_PEAK.with(|p| p.set(peak));
    match r {
        Ok(x) => Ok(x.to_val()),
        Err(e) => Err(format!("{:?}", e)),
    }
}
fn rep_t<T: SimVal>(v: &Val) -> bool {
    T::from_val(v).is_some()
}
pub fn entry<T: SimVal + AperCodec<Output = T>>(name: &'static str) -> Entry {
    Entry { name, enc: enc_t::<T>, dec: dec_t::<T>, rep: rep_t::<T> }
}

/// What a message's part is encoded with.
#[derive(Debug, Clone)]
pub enum Codec {
    /// type `idx` of the environment, through derived code
    Reg(usize),
    /// a primitive, through the runtime's public functions with these parameters
    Prim(Prim, Ty),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Prim {
    Plain,
    /// choice index functions; model type ENUMERATED
    ChoiceIdx,
    /// sequence header functions; model type SEQUENCE of optional NULLs
    SeqHdr,
    /// length determinant functions; model type SEQUENCE OF NULL
    Len,
}

/// Asks the runtime to encode a value as an extension of its constraint, which it may refuse. None: not a value of that kind.
pub fn prim_enc_ext(p: Prim, t: &Ty, v: &Val, d: &mut AperCodecData) -> Option<EncOut> {
    let r = caught(|| {
        Some(match (p, t, v) {
            (Prim::ChoiceIdx, Ty::Enum { root, ext: Some(_) }, Val::EnumExt(i)) => {
                encode::encode_choice_idx(d, 0, root.len() as i128 - 1, true, *i as i128, true)
            }
            (Prim::Plain, Ty::Enum { root, ext: Some(_) }, Val::EnumExt(i)) => {
                encode::encode_enumerated(d, Some(0), Some(root.len() as i128 - 1), true, *i as i128, true)
            }
            (Prim::Plain, Ty::Int { lb, ub, ext: true }, Val::Int(i)) => encode::encode_integer(d, *lb, *ub, true, *i, true),
            (Prim::Plain, Ty::Bits(Some(s)), Val::Bits(b)) if s.ext => {
                let (lb, ub, _) = sz(&Some(s.clone()));
                let b: BitVec<u8, Msb0> = b.iter().copied().collect();
                encode::encode_bitstring(d, lb, ub, true, &b, true)
            }
            (Prim::Plain, Ty::Octets(Some(s)), Val::Octets(b)) if s.ext => {
                let (lb, ub, _) = sz(&Some(s.clone()));
                encode::encode_octetstring(d, lb, ub, true, b, true)
            }
            (Prim::Plain, Ty::Str(k, Some(s)), Val::Str(b)) if s.ext && *k != StrKind::Utf8 => {
                let (lb, ub, _) = sz(&Some(s.clone()));
                match k {
                    StrKind::Visible => encode::encode_visible_string(d, lb, ub, true, b, true),
                    _ => encode::encode_printable_string(d, lb, ub, true, b, true),
                }
            }
            _ => return None,
        })
    });
    match r {
        Ok(None) => None,
        Ok(Some(Ok(()))) => Some(EncOut::Ok),
        Ok(Some(Err(e))) => Some(EncOut::Err(format!("{:?}", e))),
        Err(e) => Some(EncOut::Panic(e)),
    }
}

pub struct Types {
    pub env: Env,
    pub entries: Vec<Option<Entry>>,
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let l = i
            .location()
            .map(|l| {
                let f = l.file().rsplit('/').next().unwrap_or("").to_string();
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
}

/// What the last panic of this thread said and where.
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

fn sz(s: &Option<Size>) -> (Option<i128>, Option<i128>, bool) {
    match s {
        None => (None, None, false),
        Some(s) => (
            if s.lb > 0 || s.ub.is_some() { Some(s.lb as i128) } else { None },
            s.ub.map(|u| u as i128),
            s.ext,
        ),
    }
}

impl Types {
    pub fn ty<'a>(&'a self, c: &'a Codec) -> &'a Ty {
        match c {
            Codec::Reg(i) => &self.env.types[*i].1,
            Codec::Prim(_, t) => t,
        }
    }
    pub fn name(&self, c: &Codec) -> String {
        match c {
            Codec::Reg(i) => format!("{}", self.env.types[*i].0),
            Codec::Prim(p, t) => {
                let s = format!("{:?}", t);
                format!("{:?} {}", p, if s.len() > 200 { &s[..200] } else { &s })
            }
        }
    }
    /// Can the receiver's Rust type hold this value at all?
    pub fn representable(&self, c: &Codec, v: &Val) -> bool {
        match c {
            Codec::Reg(i) => match raw(&self.env, &self.env.types[*i].1, v) {
                None => false,
                Some(r) => match &self.entries[*i] {
                    Some(e) => (e.rep)(&r),
                    None => false,
                },
            },
            Codec::Prim(..) => true,
        }
    }
    pub fn encode(&self, c: &Codec, v: &Val, d: &mut AperCodecData) -> EncOut {
        let r = caught(|| match c {
            Codec::Reg(i) => {
                let e = self.entries[*i].as_ref().unwrap();
                match raw(&self.env, &self.env.types[*i].1, v) {
                    None => EncOut::Unrep,
                    Some(r) => (e.enc)(&r, d),
                }
            }
            Codec::Prim(p, t) => {
                let r = prim_enc(*p, t, v, d);
                match r {
                    None => EncOut::Unrep,
                    Some(Ok(())) => EncOut::Ok,
                    Some(Err(e)) => EncOut::Err(format!("{:?}", e)),
                }
            }
        });
        match r {
            Ok(o) => o,
            Err(p) => EncOut::Panic(p),
        }
    }
    pub fn decode(&self, c: &Codec, d: &mut AperCodecData) -> DecOut {
        let r = caught(|| match c {
            Codec::Reg(i) => {
                let e = self.entries[*i].as_ref().unwrap();
                (e.dec)(d).map(|r| norm(&self.env, &self.env.types[*i].1, &r))
            }
            Codec::Prim(p, t) => {
                let (r, peak) = crate::alloc::peak_of(|| prim_dec(*p, t, d));
                crate::engine::LAST_PEAK.with(|p| p.set(peak));
                r.map(Ok).map_err(|e| format!("{:?}", e))
            }
        });
        match r {
            Ok(Ok(Ok(v))) => DecOut::Ok(v),
            Ok(Ok(Err(shape))) => DecOut::Ok(Val::Str(format!("<<{}>>", shape))),
            Ok(Err(e)) => DecOut::Err(e),
            Err(p) => DecOut::Panic(p),
        }
    }
}

type E = asn1_codecs::aper::AperCodecError;

fn prim_enc(p: Prim, t: &Ty, v: &Val, d: &mut AperCodecData) -> Option<Result<(), E>> {
    Some(match (p, t, v) {
        (Prim::ChoiceIdx, Ty::Enum { root, ext }, Val::Enum(i)) => encode::encode_choice_idx(
            d,
            0,
            root.len() as i128 - 1,
            ext.is_some(),
            *i as i128,
            false,
        ),
        (Prim::SeqHdr, Ty::Seq { ext, .. }, Val::Seq(r, x)) if x.is_empty() => {
            let bits: BitVec<u8, Msb0> = r.iter().map(|v| v.is_some()).collect();
            encode::encode_sequence_header(d, ext.is_some(), &bits, false)
        }
        (Prim::Len, Ty::SeqOf { size, .. }, Val::SeqOf(l)) => {
            let (lb, ub, _) = sz(size);
            encode::encode_length_determinent(d, lb, ub, false, l.len())
        }
        (_, Ty::Small, Val::Int(n)) => encode::encode_length_determinent(d, None, None, true, *n as usize),
        (_, Ty::Bool, Val::Bool(b)) => encode::encode_bool(d, *b),
        (_, Ty::Int { lb, ub, ext }, Val::Int(i)) => {
            encode::encode_integer(d, *lb, *ub, *ext, *i, false)
        }
        (_, Ty::Enum { root, ext }, Val::Enum(i)) => encode::encode_enumerated(
            d,
            Some(0),
            Some(root.len() as i128 - 1),
            ext.is_some(),
            *i as i128,
            false,
        ),
        (_, Ty::Bits(s), Val::Bits(b)) => {
            let (lb, ub, e) = sz(s);
            let b: BitVec<u8, Msb0> = b.iter().copied().collect();
            encode::encode_bitstring(d, lb, ub, e, &b, false)
        }
        (_, Ty::Octets(s), Val::Octets(b)) => {
            let (lb, ub, e) = sz(s);
            encode::encode_octetstring(d, lb, ub, e, b, false)
        }
        (_, Ty::Str(k, s), Val::Str(b)) => {
            let (lb, ub, e) = sz(s);
            match k {
                StrKind::Visible => encode::encode_visible_string(d, lb, ub, e, b, false),
                StrKind::Printable => encode::encode_printable_string(d, lb, ub, e, b, false),
                StrKind::Utf8 => encode::encode_utf8_string(d, lb, ub, e, b, false),
            }
        }
        _ => return None,
    })
}

fn prim_dec(p: Prim, t: &Ty, d: &mut AperCodecData) -> Result<Val, E> {
    Ok(match (p, t) {
        (Prim::ChoiceIdx, Ty::Enum { root, ext }) => {
            let (i, e) = decode::decode_choice_idx(d, 0, root.len() as i128 - 1, ext.is_some())?;
            if e {
                Val::EnumExt(i as u64)
            } else {
                Val::Enum(i as u64)
            }
        }
        (Prim::SeqHdr, Ty::Seq { fields, ext }) => {
            let (b, e) = decode::decode_sequence_header(d, ext.is_some(), fields.len())?;
            Val::Seq(
                b.iter().map(|b| if *b { Some(Val::Null) } else { None }).collect(),
                if e { vec![None] } else { vec![] },
            )
        }
        (Prim::Len, Ty::SeqOf { size, .. }) => {
            let (lb, ub, _) = sz(size);
            let n = decode::decode_length_determinent(d, lb, ub, false)?;
            Val::SeqOf(vec![Val::Null; n.min(1 << 20)])
        }
        (_, Ty::Small) => Val::Int(decode::decode_length_determinent(d, None, None, true)? as i128),
        (_, Ty::Bool) => Val::Bool(decode::decode_bool(d)?),
        (_, Ty::Int { lb, ub, ext }) => {
            let (v, _) = decode::decode_integer(d, *lb, *ub, *ext)?;
            Val::Int(v)
        }
        (_, Ty::Enum { root, ext }) => {
            let (v, e) =
                decode::decode_enumerated(d, Some(0), Some(root.len() as i128 - 1), ext.is_some())?;
            if e {
                Val::EnumExt(v as u64)
            } else {
                Val::Enum(v as u64)
            }
        }
        (_, Ty::Bits(s)) => {
            let (lb, ub, e) = sz(s);
            let b = decode::decode_bitstring(d, lb, ub, e)?;
            Val::Bits(b.iter().map(|b| *b).collect())
        }
        (_, Ty::Octets(s)) => {
            let (lb, ub, e) = sz(s);
            Val::Octets(decode::decode_octetstring(d, lb, ub, e)?)
        }
        (_, Ty::Str(k, s)) => {
            let (lb, ub, e) = sz(s);
            Val::Str(match k {
                StrKind::Visible => decode::decode_visible_string(d, lb, ub, e)?,
                StrKind::Printable => decode::decode_printable_string(d, lb, ub, e)?,
                StrKind::Utf8 => decode::decode_utf8_string(d, lb, ub, e)?,
            })
        }
        _ => unreachable!(),
    })
}

/// Puts `k` bits of prefix into a buffer.
pub fn prefix(d: &mut AperCodecData, bits: &[bool]) {
    for b in bits {
        let _ = encode::encode_bool(d, *b);
    }
}

pub fn skip_prefix(d: &mut AperCodecData, n: usize) -> Result<Vec<bool>, String> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(decode::decode_bool(d).map_err(|e| format!("{:?}", e))?);
    }
    Ok(v)
}

/// Number of bits still unread (reads them).
pub fn drain(d: &mut AperCodecData) -> Result<usize, String> {
    caught(|| {
        let mut n = 0usize;
        while decode::decode_bool(d).is_ok() {
            n += 1;
            if n > 1 << 24 {
                break;
            }
        }
        n
    })
}
