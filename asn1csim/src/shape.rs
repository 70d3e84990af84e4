//! What bindings say: parsed items, a form that does not depend on generated helper names, and a
//! comparison with the model of the specification they were made from.

use quote::ToTokens;
use simcore::model::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Debug, Default)]
pub struct Attrs(pub BTreeMap<String, String>);

impl Attrs {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    fn flag(&self, k: &str) -> bool {
        self.get(k) == Some("true")
    }
    fn num(&self, k: &str) -> Option<i128> {
        self.get(k).and_then(|s| s.parse().ok())
    }
}

#[derive(Clone, Debug)]
pub struct Member {
    pub name: String,
    pub attrs: Attrs,
    pub ty: String,
}

#[derive(Clone, Debug)]
pub enum Body {
    Alias(String),
    Unit,
    Tuple(String),
    Fields(Vec<Member>),
    Variants(Vec<Member>),
}

#[derive(Clone, Debug)]
pub struct Item {
    pub name: String,
    pub attrs: Attrs,
    pub body: Body,
    pub consts: Vec<(String, String, String)>,
}

fn attrs_of(attrs: &[syn::Attribute]) -> Attrs {
    let mut m = BTreeMap::new();
    for a in attrs.iter().filter(|a| a.path.is_ident("asn")) {
        if let Ok(syn::Meta::List(l)) = a.parse_meta() {
            for n in l.nested {
                if let syn::NestedMeta::Meta(syn::Meta::NameValue(nv)) = n {
                    let v = match &nv.lit {
                        syn::Lit::Str(s) => s.value(),
                        syn::Lit::Int(i) => i.base10_digits().to_string(),
                        syn::Lit::Bool(b) => b.value.to_string(),
                        o => o.to_token_stream().to_string(),
                    };
                    m.insert(nv.path.to_token_stream().to_string(), v);
                }
            }
        }
    }
    Attrs(m)
}

fn ty_str(t: &syn::Type) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

/// All named items of a text of bindings, in order; imports and attributes of the file are left out.
pub fn parse(text: &[u8]) -> Result<Vec<Item>, String> {
    let s = std::str::from_utf8(text).map_err(|e| e.to_string())?;
    let f = syn::parse_file(s).map_err(|e| format!("not Rust: {}", e))?;
    let mut v: Vec<Item> = vec![];
    let mut impls: Vec<(String, Vec<(String, String, String)>)> = vec![];
    for it in f.items {
        match it {
            syn::Item::Struct(s) => v.push(Item {
                name: s.ident.to_string(),
                attrs: attrs_of(&s.attrs),
                body: match &s.fields {
                    syn::Fields::Unit => Body::Unit,
                    syn::Fields::Unnamed(u) => {
                        Body::Tuple(u.unnamed.iter().map(|f| ty_str(&f.ty)).collect::<Vec<_>>().join(","))
                    }
                    syn::Fields::Named(n) => Body::Fields(
                        n.named
                            .iter()
                            .map(|f| Member {
                                name: f.ident.as_ref().unwrap().to_string(),
                                attrs: attrs_of(&f.attrs),
                                ty: ty_str(&f.ty),
                            })
                            .collect(),
                    ),
                },
                consts: vec![],
            }),
            syn::Item::Enum(e) => v.push(Item {
                name: e.ident.to_string(),
                attrs: attrs_of(&e.attrs),
                body: Body::Variants(
                    e.variants
                        .iter()
                        .map(|x| Member {
                            name: x.ident.to_string(),
                            attrs: attrs_of(&x.attrs),
                            ty: x.fields.iter().map(|f| ty_str(&f.ty)).collect::<Vec<_>>().join(","),
                        })
                        .collect(),
                ),
                consts: vec![],
            }),
            syn::Item::Type(t) => v.push(Item {
                name: t.ident.to_string(),
                attrs: Attrs::default(),
                body: Body::Alias(ty_str(&t.ty)),
                consts: vec![],
            }),
            syn::Item::Impl(i) if i.trait_.is_none() => {
                let mut c = vec![];
                for x in &i.items {
                    if let syn::ImplItem::Const(k) = x {
                        c.push((
                            k.ident.to_string(),
                            ty_str(&k.ty),
                            k.expr.to_token_stream().to_string().replace(' ', ""),
                        ));
                    }
                }
                impls.push((ty_str(&i.self_ty), c));
            }
            _ => {}
        }
    }
    for (n, c) in impls {
        match v.iter_mut().find(|i| i.name == n) {
            Some(i) => i.consts.extend(c),
            None => return Err(format!("constants of {} without the type", n)),
        }
    }
    Ok(v)
}

/// Names defined more than once.
pub fn twice(v: &[Item]) -> Vec<String> {
    fn again<'a>(names: impl Iterator<Item = &'a String>) -> Vec<String> {
        let mut seen = HashSet::new();
        names.filter(|n| !seen.insert(n.as_str())).cloned().collect()
    }
    let mut d = again(v.iter().map(|i| &i.name));
    for i in v {
        let mut m = match &i.body {
            Body::Fields(m) | Body::Variants(m) => again(m.iter().map(|m| &m.name)),
            _ => vec![],
        };
        m.extend(again(i.consts.iter().map(|c| &c.0)));
        d.extend(m.into_iter().map(|n| format!("{}.{}", i.name, n)));
    }
    d
}

fn strip(t: &str) -> (&str, &str, &str) {
    for p in ["Option<", "Vec<"] {
        if let Some(x) = t.strip_prefix(p).and_then(|x| x.strip_suffix('>')) {
            return (p, x, ">");
        }
    }
    ("", t, "")
}

/// A name without the running number that generated helper types carry.
pub fn bare_name(n: &str) -> &str {
    bare(n)
}
fn bare(n: &str) -> &str {
    match n.rfind('_') {
        Some(k) if k + 1 < n.len() && n[k + 1..].bytes().all(|b| b.is_ascii_digit()) => &n[..k],
        _ => n,
    }
}

/// The shape of every type, by name, with helper types written out in place; types of the
/// specification (`named`) stay names.
pub fn canonical(items: &[Item], named: &BTreeSet<String>) -> Vec<String> {
    let by: BTreeMap<&str, &Item> = items.iter().map(|i| (i.name.as_str(), i)).collect();
    let mut used: BTreeSet<String> = BTreeSet::new();
    let mut out = vec![];
    fn ty(t: &str, by: &BTreeMap<&str, &Item>, named: &BTreeSet<String>, used: &mut BTreeSet<String>, depth: usize) -> String {
        let (a, n, b) = strip(t);
        if named.contains(n) || depth > 40 {
            return t.to_string();
        }
        match by.get(n) {
            Some(i) => {
                used.insert(n.to_string());
                format!("{}{}={}{}", a, bare(n), shape(i, by, named, used, depth + 1), b)
            }
            None if !a.is_empty() => format!("{}{}{}", a, ty(n, by, named, used, depth + 1), b),
            None => t.to_string(),
        }
    }
    fn shape(i: &Item, by: &BTreeMap<&str, &Item>, named: &BTreeSet<String>, used: &mut BTreeSet<String>, depth: usize) -> String {
        let mut o = format!("{:?}", i.attrs.0);
        match &i.body {
            Body::Alias(t) => o += &format!("alias {}", ty(t, by, named, used, depth)),
            Body::Unit => o += "unit",
            Body::Tuple(t) => o += &format!("({})", ty(t, by, named, used, depth)),
            Body::Fields(m) | Body::Variants(m) => {
                for m in m {
                    o += &format!("; {} {:?} {}", m.name, m.attrs.0, ty(&m.ty, by, named, used, depth));
                }
            }
        }
        for c in &i.consts {
            o += &format!("; const {} {} {}", c.0, c.1, c.2);
        }
        format!("{{{}}}", o)
    }
    for i in items.iter().filter(|i| named.contains(&i.name)) {
        out.push(format!("{} {}", i.name, shape(i, &by, named, &mut used, 0)));
    }
    // helper types nothing refers to
    let mut rest = vec![];
    let mut extra: Vec<&Item> = items.iter().filter(|i| !named.contains(&i.name) && !used.contains(&i.name)).collect();
    extra.sort_by(|a, b| a.name.cmp(&b.name));
    let mut inner: BTreeSet<String> = BTreeSet::new();
    for i in &extra {
        let s = shape(i, &by, named, &mut inner, 0);
        rest.push((i.name.clone(), format!("~{} {}", bare(&i.name), s)));
    }
    out.extend(rest.into_iter().filter(|r| !inner.contains(&r.0)).map(|r| r.1));
    out.sort();
    out
}

// ---------------------------------------------------------------- against the model

fn squash(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>().to_lowercase()
}

/// Is `rust` the field a component of this name becomes?
fn same_member(rust: &str, asn: &str) -> bool {
    let r = rust.strip_prefix("r#").unwrap_or(rust);
    squash(r) == squash(asn) || (asn == "type" && squash(r) == "typ")
}

pub struct Judge<'a> {
    pub env: &'a Env,
    pub by: BTreeMap<&'a str, &'a Item>,
    pub checked: usize,
}

type V = Result<(), String>;

impl<'a> Judge<'a> {
    pub fn new(env: &'a Env, items: &'a [Item]) -> Judge<'a> {
        Judge { env, by: items.iter().map(|i| (i.name.as_str(), i)).collect(), checked: 0 }
    }

    /// Every type of the specification against its bindings.
    pub fn all(&mut self) -> V {
        for (n, ty) in &self.env.types {
            let id = type_ident(n);
            let i = match self.by.get(id.as_str()) {
                Some(i) => *i,
                None => return Err(format!("{}: no type of this name in the bindings", n)),
            };
            match (&i.body, ty) {
                (Body::Alias(t), _) => self.place(ty, t, n)?,
                (_, Ty::Ref(k)) => {
                    // not an alias: then it has to be a copy of what it refers to
                    let e = self.env;
                    self.item(e.res(&e.types[*k].1), i, n)?
                }
                _ => self.item(ty, i, n)?,
            }
        }
        Ok(())
    }

    /// Every component, alternative and item of the root of every type once, whatever else is said about it.
    pub fn members(&mut self) -> V {
        for (n, ty) in &self.env.types {
            let id = type_ident(n);
            self.members_of(ty, &id, n, true)?;
        }
        Ok(())
    }

    fn members_of(&mut self, ty: &Ty, rust: &str, at: &str, top: bool) -> V {
        let i = match self.by.get(rust) {
            Some(i) => *i,
            None => return Err(format!("{}: type {} is not among the bindings", at, rust)),
        };
        match (&i.body, ty) {
            (_, Ty::Ref(_)) if !top => return Ok(()),
            (Body::Alias(t), Ty::Ref(_)) => return self.members_of(ty, &t.clone(), at, false),
            (Body::Alias(t), _) => return self.members_of(ty, &t.clone(), at, top),
            _ => {}
        }
        self.checked += 1;
        let (names, tys): (Vec<&str>, Vec<&Ty>) = match ty {
            Ty::Seq { fields, .. } => fields.iter().map(|f| (f.name.as_str(), &f.ty)).unzip(),
            Ty::Choice { alts, ext } => alts.iter().chain(ext.iter().flatten()).map(|a| (a.name.as_str(), &a.ty)).unzip(),
            Ty::Open(alts) => alts.iter().map(|a| (a.name.as_str(), &a.ty)).unzip(),
            Ty::SeqOf { elem, .. } => {
                return match &i.body {
                    Body::Tuple(t) => self.members_of(elem, strip(&t.clone()).1, &format!("{}.*", at), false),
                    _ => Ok(()),
                }
            }
            Ty::Enum { root, .. } => {
                for n in root {
                    // x-1 and x1 are two items
                    let k = i.consts.iter().filter(|c| squash(&c.0) == squash(n)).count();
                    if k == 0 || k < root.iter().filter(|m| squash(m) == squash(n)).count() || k > 1 && !root.iter().any(|m| m != n && squash(m) == squash(n)) {
                        return Err(format!("{}: item {} is there {} times", at, n, k));
                    }
                }
                return Ok(());
            }
            _ => return Ok(()),
        };
        let none = vec![];
        let m = match &i.body {
            Body::Fields(m) | Body::Variants(m) => m,
            _ => &none,
        };
        for (n, t) in names.iter().zip(tys) {
            let found: Vec<&Member> = m.iter().filter(|x| same_member(&x.name, n)).collect();
            let like = names.iter().filter(|m| m.len() > 1 && squash(m) == squash(n)).count();
            match found.as_slice() {
                f if like > 1 && f.len() == like => {}
                [x] => self.members_of(t, strip(&x.ty).1, &format!("{}.{}", at, n), false)?,
                _ => return Err(format!("{}: {} is there {} times", at, n, found.len())),
            }
        }
        if m.len() != names.len() {
            return Err(format!("{}: {} members instead of {}", at, m.len(), names.len()));
        }
        Ok(())
    }

    /// A type in the place of a component or element.
    fn place(&mut self, ty: &Ty, rust: &str, at: &str) -> V {
        if let Ty::Ref(k) = ty {
            let want = type_ident(&self.env.types[*k].0);
            return if rust == want { Ok(()) } else { Err(format!("{}: {} instead of {}", at, rust, want)) };
        }
        match self.by.get(rust) {
            Some(i) => {
                let i = *i;
                match &i.body {
                    Body::Alias(t) => self.place(ty, &t.clone(), at),
                    _ => self.item(ty, i, at),
                }
            }
            None => Err(format!("{}: type {} is not among the bindings", at, rust)),
        }
    }

    fn size(&self, a: &Attrs, s: &Option<Size>, at: &str) -> V {
        let lb = a.num("sz_lb");
        let ub = a.num("sz_ub");
        let ext = a.flag("sz_extensible");
        let (wl, wu, we) = match s {
            None => (0, None, false),
            Some(s) => (s.lb as i128, s.ub.map(|u| u as i128), s.ext),
        };
        if lb.unwrap_or(0) != wl || ub != wu || ext != we {
            return Err(format!(
                "{}: size {:?}..{:?} extensible {} instead of {}..{:?} extensible {}",
                at, lb, ub, ext, wl, wu, we
            ));
        }
        Ok(())
    }

    fn item(&mut self, ty: &Ty, i: &Item, at: &str) -> V {
        self.checked += 1;
        let kind = i.attrs.get("type").unwrap_or("");
        let want = match ty {
            Ty::Bool => "BOOLEAN",
            Ty::Null => "NULL",
            Ty::Oid => "OBJECT-IDENTIFIER",
            Ty::Int { .. } => "INTEGER",
            Ty::Enum { .. } => "ENUMERATED",
            Ty::Bits(_) => "BITSTRING",
            Ty::Octets(_) => "OCTET-STRING",
            Ty::Str(StrKind::Visible, _) => "VisibleString",
            Ty::Str(StrKind::Printable, _) => "PrintableString",
            Ty::Str(StrKind::Utf8, _) => "UTF8String",
            Ty::Seq { .. } => "SEQUENCE",
            Ty::SeqOf { .. } => "SEQUENCE-OF",
            Ty::Choice { .. } => "CHOICE",
            Ty::Open(_) => "OPEN",
            Ty::Small | Ty::Ref(_) => unreachable!(),
        };
        if kind != want {
            return Err(format!("{}: {} instead of {}", at, kind, want));
        }
        let a = &i.attrs;
        match ty {
            Ty::Bool | Ty::Null | Ty::Oid | Ty::Small | Ty::Ref(_) => Ok(()),
            Ty::Int { lb, ub, ext } => {
                if a.num("lb") != *lb || a.num("ub") != *ub || a.flag("extensible") != *ext {
                    return Err(format!("{}: {:?} instead of {:?}", at, a.0, ty));
                }
                let t = match &i.body {
                    Body::Tuple(t) => t.as_str(),
                    _ => "",
                };
                let (l, u) = match t {
                    "u8" => (0, u8::MAX as i128),
                    "u16" => (0, u16::MAX as i128),
                    "u32" => (0, u32::MAX as i128),
                    "u64" => (0, u64::MAX as i128),
                    "i8" => (i8::MIN as i128, i8::MAX as i128),
                    "i16" => (i16::MIN as i128, i16::MAX as i128),
                    "i32" => (i32::MIN as i128, i32::MAX as i128),
                    "i64" => (i64::MIN as i128, i64::MAX as i128),
                    "i128" => (i128::MIN, i128::MAX),
                    _ => return Err(format!("{}: number of type {:?}", at, i.body)),
                };
                if lb.map_or(false, |x| x < l) || ub.map_or(false, |x| x > u) {
                    return Err(format!("{}: {} can not hold {:?}..{:?}", at, t, lb, ub));
                }
                Ok(())
            }
            Ty::Enum { root, ext } => {
                let ub = root.len() as i128 - 1;
                if a.num("lb").unwrap_or(0) != 0 || a.num("ub") != Some(ub) || a.flag("extensible") != ext.is_some() {
                    return Err(format!("{}: {:?} instead of {} items, extensible {}", at, a.0, root.len(), ext.is_some()));
                }
                for (k, n) in root.iter().enumerate() {
                    let num = |c: &(String, String, String)| c.2.trim_end_matches(c.1.as_str()).parse::<i128>().unwrap_or(-1);
                    let c: Vec<_> = i.consts.iter().filter(|c| squash(&c.0) == squash(n)).collect();
                    // x-1 and x1 are two items
                    let same = root.iter().filter(|m| squash(m) == squash(n)).count();
                    if c.len() != same || c.iter().filter(|c| num(c) == k as i128).count() != 1 {
                        return Err(format!("{}: item {} is {:?} instead of {}", at, n, c, k));
                    }
                }
                Ok(())
            }
            Ty::Bits(s) | Ty::Octets(s) | Ty::Str(_, s) => self.size(a, s, at),
            Ty::SeqOf { elem, size } => {
                self.size(a, size, at)?;
                let t = match &i.body {
                    Body::Tuple(t) => t.strip_prefix("Vec<").and_then(|t| t.strip_suffix('>')).unwrap_or(t).to_string(),
                    b => return Err(format!("{}: {:?} instead of a list", at, b)),
                };
                self.place(elem, &t, &format!("{}.*", at))
            }
            Ty::Seq { fields, ext } => {
                let m = match &i.body {
                    Body::Fields(m) => m,
                    Body::Unit if fields.is_empty() => return Ok(()),
                    b => return Err(format!("{}: {:?} instead of a structure", at, b)),
                };
                if a.flag("extensible") != ext.is_some() {
                    return Err(format!("{}: extensible {} instead of {}", at, a.flag("extensible"), ext.is_some()));
                }
                let nopt = fields.iter().filter(|f| f.optional).count() as i128;
                if a.num("optional_fields").unwrap_or(0) != nopt {
                    return Err(format!("{}: {:?} optional components instead of {}", at, a.get("optional_fields"), nopt));
                }
                if m.len() != fields.len() {
                    return Err(format!(
                        "{}: components {:?} instead of {:?}",
                        at,
                        m.iter().map(|x| &x.name).collect::<Vec<_>>(),
                        fields.iter().map(|x| &x.name).collect::<Vec<_>>()
                    ));
                }
                let mut o = 0;
                for (x, f) in m.iter().zip(fields) {
                    let at = format!("{}.{}", at, f.name);
                    if !same_member(&x.name, &f.name) {
                        return Err(format!("{}: {} in its place", at, x.name));
                    }
                    let (p, t, _) = strip(&x.ty);
                    let opt = p == "Option<";
                    if opt != f.optional {
                        return Err(format!("{}: optional {} instead of {}", at, opt, f.optional));
                    }
                    if opt {
                        if x.attrs.num("optional_idx") != Some(o) {
                            return Err(format!("{}: presence bit {:?} instead of {}", at, x.attrs.num("optional_idx"), o));
                        }
                        o += 1;
                    }
                    if f.key && !x.attrs.flag("key_field") {
                        return Err(format!("{}: does not select the open types", at));
                    }
                    if !f.key && x.attrs.flag("key_field") && fields.iter().any(|f| f.key) {
                        return Err(format!("{}: selects the open types", at));
                    }
                    self.place(&f.ty, if opt { t } else { &x.ty }, &at)?;
                }
                Ok(())
            }
            Ty::Choice { alts, ext } => {
                let m = match &i.body {
                    Body::Variants(m) => m,
                    b => return Err(format!("{}: {:?} instead of a choice", at, b)),
                };
                if a.num("ub") != Some(alts.len() as i128 - 1) || a.flag("extensible") != ext.is_some() {
                    return Err(format!("{}: {:?} instead of {} alternatives, extensible {}", at, a.0, alts.len(), ext.is_some()));
                }
                let n = alts.len() + ext.as_ref().map_or(0, |e| e.len());
                if m.len() != n {
                    return Err(format!("{}: {} alternatives instead of {}", at, m.len(), n));
                }
                let all = alts.iter().enumerate().map(|(k, a)| (k, false, a));
                let more = ext.iter().flatten().enumerate().map(|(k, a)| (k, true, a));
                for (x, (k, e, alt)) in m.iter().zip(all.chain(more)) {
                    let at = format!("{}.{}", at, alt.name);
                    if !same_member(&x.name, &alt.name) {
                        return Err(format!("{}: {} in its place", at, x.name));
                    }
                    if x.attrs.num("key") != Some(k as i128) || x.attrs.flag("extended") != e {
                        return Err(format!("{}: {:?} instead of number {}, extended {}", at, x.attrs.0, k, e));
                    }
                    self.place(&alt.ty, &x.ty, &at)?;
                }
                Ok(())
            }
            Ty::Open(alts) => {
                let m = match &i.body {
                    Body::Variants(m) => m,
                    b => return Err(format!("{}: {:?} instead of an open type", at, b)),
                };
                let mut have: BTreeMap<i128, &Member> = BTreeMap::new();
                for x in m {
                    let k = x.attrs.num("key").ok_or(format!("{}: {} has no key", at, x.name))?;
                    if have.insert(k, x).is_some() {
                        return Err(format!("{}: two variants of key {}", at, k));
                    }
                }
                if have.len() != alts.len() {
                    return Err(format!("{}: {} variants instead of {}", at, have.len(), alts.len()));
                }
                for alt in alts {
                    let at = format!("{}.{}", at, alt.name);
                    match have.get(&alt.key) {
                        None => return Err(format!("{}: no variant for key {}", at, alt.key)),
                        Some(x) => {
                            if !same_member(&x.name, &alt.name) {
                                return Err(format!("{}: key {} is {}", at, alt.key, x.name));
                            }
                            self.place(&alt.ty, &x.ty.clone(), &at)?;
                        }
                    }
                }
                Ok(())
            }
        }
    }
}
