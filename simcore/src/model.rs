//! The abstract model of types and values both worlds share.

#[derive(Clone, Debug, PartialEq)]
pub struct Size {
    pub lb: u64,
    pub ub: Option<u64>,
    pub ext: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum StrKind {
    Visible,
    Printable,
    Utf8,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub optional: bool,
    /// The field whose value selects the open types of the same sequence.
    pub key: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Alt {
    pub name: String,
    pub ty: Ty,
}

#[derive(Clone, Debug, PartialEq)]
pub struct OpenAlt {
    pub key: i128,
    pub name: String,
    pub ty: Ty,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    Null,
    /// OBJECT IDENTIFIER: hampi has a place for it but no values.
    Oid,
    /// A normally small length (1..16383); only the runtime's own functions take it.
    Small,
    Int { lb: Option<i128>, ub: Option<i128>, ext: bool },
    /// `root` items; `ext`: None = not extensible, Some(n) = extensible with n known additions.
    Enum { root: Vec<String>, ext: Option<Vec<String>> },
    Bits(Option<Size>),
    Octets(Option<Size>),
    Str(StrKind, Option<Size>),
    Seq { fields: Vec<Field>, ext: Option<Vec<Field>> },
    SeqOf { elem: Box<Ty>, size: Option<Size> },
    Choice { alts: Vec<Alt>, ext: Option<Vec<Alt>> },
    Open(Vec<OpenAlt>),
    Ref(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Bool(bool),
    Null,
    Int(i128),
    Enum(u64),
    EnumExt(u64),
    Bits(Vec<bool>),
    Octets(Vec<u8>),
    Str(String),
    /// root components, extension additions (empty = extension bit clear)
    Seq(Vec<Option<Val>>, Vec<Option<Val>>),
    SeqOf(Vec<Val>),
    Choice(usize, Box<Val>),
    ChoiceExt(usize, Box<Val>),
    Open(i128, Box<Val>),
    /// Raw form of Choice/Open as generated Rust enums present it.
    Named(String, Box<Val>),
}

#[derive(Clone, Debug, Default)]
pub struct Env {
    pub types: Vec<(String, Ty)>,
    /// Which types have a value at all (an open type without alternatives has none). Empty: these and all inside them.
    pub live: Vec<bool>,
}

impl Env {
    pub fn new(types: Vec<(String, Ty)>) -> Env {
        let mut e = Env { live: vec![false; types.len()], types };
        loop {
            let l: Vec<bool> = e.types.iter().map(|t| e.has_value(&t.1)).collect();
            if l == e.live {
                break;
            }
            e.live = l;
        }
        if e.types.iter().all(|t| e.all_live(&t.1)) {
            e.live.clear();
        }
        e
    }
    /// Whether the type and everything written inside it have values.
    fn all_live(&self, ty: &Ty) -> bool {
        self.has_value(ty)
            && match ty {
                Ty::Open(a) => a.iter().all(|a| self.all_live(&a.ty)),
                Ty::Seq { fields, ext } => fields.iter().chain(ext.iter().flatten()).all(|f| self.all_live(&f.ty)),
                Ty::SeqOf { elem, .. } => self.all_live(elem),
                Ty::Choice { alts, ext } => alts.iter().chain(ext.iter().flatten()).all(|a| self.all_live(&a.ty)),
                _ => true,
            }
    }
    /// Whether the type has a value.
    pub fn has_value(&self, ty: &Ty) -> bool {
        self.live.is_empty()
            || match ty {
                Ty::Oid => false,
                Ty::Ref(i) => self.live[*i],
                Ty::Open(a) => a.iter().any(|a| self.has_value(&a.ty)),
                Ty::Seq { fields, .. } => fields.iter().all(|f| f.optional || self.has_value(&f.ty)),
                Ty::SeqOf { elem, size } => size.as_ref().map_or(true, |s| s.lb == 0) || self.has_value(elem),
                Ty::Choice { alts, .. } => alts.iter().any(|a| self.has_value(&a.ty)),
                _ => true,
            }
    }
    pub fn res<'a>(&'a self, ty: &'a Ty) -> &'a Ty {
        let mut t = ty;
        while let Ty::Ref(i) = t {
            t = &self.types[*i].1;
        }
        t
    }
}

/// hampi's documented mapping of ASN.1 identifiers to Rust type/variant identifiers.
pub fn type_ident(n: &str) -> String {
    let s = plain_ident(n);
    // Rust, or the bindings, use them for something else
    if ["Self", "Vec", "Option", "String", "Some", "None", "Ok", "Err", "BitVec", "Msb0"].contains(&s.as_str()) {
        return s + "_";
    }
    s
}
/// The same for an alternative: only one name is taken.
pub fn variant_ident(n: &str) -> String {
    let s = plain_ident(n);
    if s == "Self" {
        return s + "_";
    }
    s
}
fn plain_ident(n: &str) -> String {
    let mut c = n.chars();
    let s = match c.next() {
        Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
        None => String::new(),
    };
    s.replace('-', "_").replace(' ', "_")
}

/// Model value -> raw value as the generated Rust types hold it. None: not representable (uses an
/// extension).
pub fn raw(env: &Env, ty: &Ty, v: &Val) -> Option<Val> {
    Some(match (env.res(ty), v) {
        (Ty::Enum { .. }, Val::Enum(i)) => Val::Int(*i as i128),
        (Ty::Enum { .. }, Val::EnumExt(_)) => return None,
        (Ty::Seq { fields, .. }, Val::Seq(r, _)) => {
            let mut out = vec![];
            for (f, x) in fields.iter().zip(r) {
                out.push(match x {
                    None => None,
                    Some(x) => Some(raw(env, &f.ty, x)?),
                });
            }
            Val::Seq(out, vec![])
        }
        (Ty::SeqOf { elem, .. }, Val::SeqOf(vs)) => {
            let mut out = vec![];
            for x in vs {
                out.push(raw(env, elem, x)?);
            }
            Val::SeqOf(out)
        }
        (Ty::Choice { alts, .. }, Val::Choice(i, x)) => {
            let a = alts.get(*i)?;
            Val::Named(variant_ident(&a.name), Box::new(raw(env, &a.ty, x)?))
        }
        (Ty::Choice { ext: Some(e), .. }, Val::ChoiceExt(i, x)) => {
            let a = e.get(*i)?;
            Val::Named(variant_ident(&a.name), Box::new(raw(env, &a.ty, x)?))
        }
        (Ty::Open(alts), Val::Open(k, x)) => {
            let a = alts.iter().find(|a| a.key == *k)?;
            Val::Named(variant_ident(&a.name), Box::new(raw(env, &a.ty, x)?))
        }
        (_, x) => x.clone(),
    })
}

/// Raw value -> model value. Err: the Rust value has a shape the type cannot have.
pub fn norm(env: &Env, ty: &Ty, v: &Val) -> Result<Val, String> {
    Ok(match (env.res(ty), v) {
        (Ty::Enum { .. }, Val::Int(i)) => {
            if *i < 0 {
                return Err(format!("negative enumeration value {}", i));
            }
            Val::Enum(*i as u64)
        }
        (Ty::Seq { fields, .. }, Val::Seq(r, _)) => {
            if r.len() != fields.len() {
                return Err(format!("{} components, expected {}", r.len(), fields.len()));
            }
            let mut out = vec![];
            for (f, x) in fields.iter().zip(r) {
                out.push(match x {
                    None => None,
                    Some(x) => Some(norm(env, &f.ty, x)?),
                });
            }
            Val::Seq(out, vec![])
        }
        (Ty::SeqOf { elem, .. }, Val::SeqOf(vs)) => {
            let mut out = vec![];
            for x in vs {
                out.push(norm(env, elem, x)?);
            }
            Val::SeqOf(out)
        }
        (Ty::Choice { alts, ext }, Val::Named(n, x)) => {
            if let Some(i) = alts.iter().position(|a| variant_ident(&a.name) == *n) {
                Val::Choice(i, Box::new(norm(env, &alts[i].ty, x)?))
            } else if let Some(i) =
                ext.as_ref().and_then(|e| e.iter().position(|a| variant_ident(&a.name) == *n))
            {
                Val::ChoiceExt(i, Box::new(norm(env, &ext.as_ref().unwrap()[i].ty, x)?))
            } else {
                return Err(format!("unknown alternative {}", n));
            }
        }
        (Ty::Open(alts), Val::Named(n, x)) => {
            match alts.iter().find(|a| variant_ident(&a.name) == *n) {
                Some(a) => Val::Open(a.key, Box::new(norm(env, &a.ty, x)?)),
                None => return Err(format!("unknown open type variant {}", n)),
            }
        }
        (Ty::Bool, Val::Bool(_))
        | (Ty::Null, Val::Null)
        | (Ty::Int { .. }, Val::Int(_))
        | (Ty::Small, Val::Int(_))
        | (Ty::Bits(_), Val::Bits(_))
        | (Ty::Octets(_), Val::Octets(_))
        | (Ty::Str(..), Val::Str(_)) => v.clone(),
        (t, x) => return Err(format!("value {:?} does not fit type {:?}", x, t)),
    })
}

fn size_ok(s: &Option<Size>, n: u64, allow_ext: bool) -> bool {
    match s {
        None => true,
        Some(s) => (allow_ext && s.ext) || (n >= s.lb && s.ub.map_or(true, |u| n <= u)),
    }
}

/// Does `v` satisfy the constraints of `ty`? With `allow_ext`, extension values of extensible
/// constraints count as satisfying.
pub fn valid(env: &Env, ty: &Ty, v: &Val, allow_ext: bool) -> Result<(), String> {
    match (env.res(ty), v) {
        (Ty::Bool, Val::Bool(_)) | (Ty::Null, Val::Null) => Ok(()),
        (Ty::Small, Val::Int(1..=16383)) => Ok(()),
        (Ty::Int { lb, ub, ext }, Val::Int(i)) => {
            if (allow_ext && *ext)
                || (lb.map_or(true, |l| *i >= l) && ub.map_or(true, |u| *i <= u))
            {
                Ok(())
            } else {
                Err(format!("{} outside {:?}..{:?}", i, lb, ub))
            }
        }
        (Ty::Enum { root, .. }, Val::Enum(i)) => {
            if (*i as usize) < root.len() {
                Ok(())
            } else {
                Err(format!("enumeration index {} of {}", i, root.len()))
            }
        }
        (Ty::Enum { ext, .. }, Val::EnumExt(i)) => {
            if allow_ext && ext.as_ref().map_or(false, |e| (*i as usize) < e.len()) {
                Ok(())
            } else {
                Err(format!("extension enumeration {}", i))
            }
        }
        (Ty::Bits(s), Val::Bits(b)) => {
            if size_ok(s, b.len() as u64, allow_ext) {
                Ok(())
            } else {
                Err(format!("{} bits, size {:?}", b.len(), s))
            }
        }
        (Ty::Octets(s), Val::Octets(b)) => {
            if size_ok(s, b.len() as u64, allow_ext) {
                Ok(())
            } else {
                Err(format!("{} octets, size {:?}", b.len(), s))
            }
        }
        (Ty::Str(k, s), Val::Str(b)) => {
            // characters of the restricted kinds take one octet each
            let n = if *k == StrKind::Utf8 { b.chars().count() } else { b.len() };
            if size_ok(s, n as u64, allow_ext) {
                Ok(())
            } else {
                Err(format!("{} characters, size {:?}", n, s))
            }
        }
        (Ty::Seq { fields, ext }, Val::Seq(r, x)) => {
            if r.len() != fields.len() {
                return Err("component count".into());
            }
            let mut key = None;
            for (f, v) in fields.iter().zip(r) {
                match v {
                    None if f.optional => {}
                    None => return Err(format!("mandatory {} absent", f.name)),
                    Some(v) => {
                        valid(env, &f.ty, v, allow_ext).map_err(|e| format!("{}: {}", f.name, e))?;
                        if f.key {
                            key = match v {
                                Val::Int(i) => Some(*i),
                                Val::Enum(i) => Some(*i as i128),
                                _ => None,
                            }
                        }
                        if let Val::Open(k, _) = v {
                            if key != Some(*k) {
                                return Err(format!("open type of key {:?} carries {}", key, k));
                            }
                        }
                    }
                }
            }
            if !x.is_empty() {
                match ext {
                    Some(e) if allow_ext && x.len() == e.len() => {
                        for (f, v) in e.iter().zip(x) {
                            if let Some(v) = v {
                                valid(env, &f.ty, v, allow_ext)?;
                            }
                        }
                    }
                    _ => return Err("unexpected extension additions".into()),
                }
            }
            Ok(())
        }
        (Ty::SeqOf { elem, size }, Val::SeqOf(vs)) => {
            if !size_ok(size, vs.len() as u64, allow_ext) {
                return Err(format!("{} elements, size {:?}", vs.len(), size));
            }
            for (i, v) in vs.iter().enumerate() {
                valid(env, elem, v, allow_ext).map_err(|e| format!("[{}]: {}", i, e))?;
            }
            Ok(())
        }
        (Ty::Choice { alts, .. }, Val::Choice(i, v)) => match alts.get(*i) {
            Some(a) => valid(env, &a.ty, v, allow_ext).map_err(|e| format!("{}: {}", a.name, e)),
            None => Err("no such alternative".into()),
        },
        (Ty::Choice { ext, .. }, Val::ChoiceExt(i, v)) => {
            match ext.as_ref().and_then(|e| e.get(*i)) {
                Some(a) if allow_ext => valid(env, &a.ty, v, allow_ext),
                _ => Err("extension alternative".into()),
            }
        }
        (Ty::Open(alts), Val::Open(k, v)) => match alts.iter().find(|a| a.key == *k) {
            Some(a) => valid(env, &a.ty, v, allow_ext).map_err(|e| format!("{}: {}", a.name, e)),
            None => Err(format!("no open type variant for key {}", k)),
        },
        (t, v) => Err(format!("value {:?} does not fit {:?}", v, t)),
    }
}

/// Largest length (elements, octets, bits, characters) anywhere in the value.
pub fn max_len(v: &Val) -> usize {
    match v {
        Val::Bits(b) => b.len(),
        Val::Octets(b) => b.len(),
        Val::Str(s) => s.len(),
        Val::Seq(a, b) => a.iter().chain(b).flatten().map(max_len).max().unwrap_or(0),
        Val::SeqOf(a) => a.iter().map(max_len).max().unwrap_or(0).max(a.len()),
        Val::Choice(_, v) | Val::ChoiceExt(_, v) | Val::Open(_, v) | Val::Named(_, v) => max_len(v),
        _ => 0,
    }
}

/// Does the value use any extension (something outside an extension root)?
pub fn uses_ext(env: &Env, ty: &Ty, v: &Val) -> bool {
    if valid(env, ty, v, false).is_err() {
        return true;
    }
    false
}

/// Short rendering for reports.
pub fn show(v: &Val) -> String {
    struct Short(String);
    impl std::fmt::Write for Short {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if self.0.len() > 700 {
                return Err(std::fmt::Error);
            }
            self.0 += s;
            Ok(())
        }
    }
    let mut o = Short(String::new());
    match std::fmt::Write::write_fmt(&mut o, format_args!("{:?}", v)) {
        Ok(()) => o.0,
        Err(_) => {
            let h: String = o.0.chars().take(600).collect();
            format!("{}... (weight {})", h, v.weight())
        }
    }
}

impl Val {
    /// Roughly the number of octets the value takes.
    pub fn weight(&self) -> usize {
        match self {
            Val::Bits(b) => 1 + b.len() / 8,
            Val::Octets(o) => 1 + o.len(),
            Val::Str(s) => 1 + s.len(),
            Val::Seq(r, x) => 1 + r.iter().chain(x).flatten().map(|v| v.weight()).sum::<usize>(),
            Val::SeqOf(v) => 1 + v.iter().map(|v| v.weight()).sum::<usize>(),
            Val::Choice(_, v) | Val::ChoiceExt(_, v) | Val::Open(_, v) | Val::Named(_, v) => 1 + v.weight(),
            _ => 1,
        }
    }
}
