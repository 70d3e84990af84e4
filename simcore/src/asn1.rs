//! An independent reader of ASN.1 specifications, as far as the repository's own specifications (and the random ones)
//! use the language: it says what types a set of modules defines. It shares nothing with the compiler under test.

use crate::model::*;
use crate::tape::Tape;
use std::collections::{BTreeSet, HashMap};

type R<T> = Result<T, String>;

/// What a set of modules means, and where the compiler's recorded findings apply.
pub struct Reading {
    pub env: Env,
    /// Extension additions written without brackets (known finding `root-additions`); they are in the root here too.
    pub root_additions: usize,
    /// Constraints on references (known finding `ref-constraint`); they are left out here too.
    pub ref_constraints: usize,
}

fn tokens(text: &str) -> R<Vec<String>> {
    let b: Vec<char> = text.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    let at = |i: usize| b.get(i).copied().unwrap_or(' ');
    let nl = |c: char| matches!(c, '\n' | '\r' | '\u{b}' | '\u{c}');
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '-' && at(i + 1) == '-' {
            i += 2;
            while i < b.len() && !nl(b[i]) {
                if b[i] == '-' && at(i + 1) == '-' {
                    i += 2;
                    break;
                }
                i += 1;
            }
        } else if c.is_ascii_alphanumeric() || c == '&' {
            let s = i;
            i += 1;
            while at(i).is_ascii_alphanumeric() || (at(i) == '-' && at(i + 1).is_ascii_alphanumeric()) {
                i += 1;
            }
            v.push(b[s..i].iter().collect());
        } else if c == '-' && at(i + 1).is_ascii_digit() {
            let s = i;
            i += 1;
            while at(i).is_ascii_digit() {
                i += 1;
            }
            v.push(b[s..i].iter().collect());
        } else if c == '"' {
            let s = i;
            i += 1;
            while i < b.len() && b[i] != '"' {
                i += 1;
            }
            i += 1;
            v.push(b[s..i.min(b.len())].iter().collect());
        } else if c == '\'' {
            let s = i;
            i += 1;
            while i < b.len() && b[i] != '\'' {
                i += 1;
            }
            i += 2;
            v.push(b[s..i.min(b.len())].iter().collect());
        } else {
            let rest: String = b[i..b.len().min(i + 3)].iter().collect();
            let t = ["::=", "...", "..", "[[", "]]"].iter().find(|t| rest.starts_with(**t));
            let n = t.map_or(1, |t| t.len());
            v.push(b[i..i + n].iter().collect());
            i += n;
        }
    }
    Ok(v)
}

fn upper(t: &str) -> bool {
    t.starts_with(|c: char| c.is_ascii_uppercase())
}
fn lower(t: &str) -> bool {
    t.starts_with(|c: char| c.is_ascii_lowercase())
}

#[derive(Clone, Debug)]
struct Def {
    params: Vec<(Option<String>, String)>,
    /// What governs a value, object or set; empty for a type or class.
    gov: Vec<String>,
    /// Where its text begins.
    at: usize,
    /// Number among the types.
    ty: Option<usize>,
}

#[derive(Default)]
struct Module {
    name: String,
    tok: Vec<String>,
    defs: HashMap<String, Def>,
    order: Vec<String>,
    imports: HashMap<String, String>,
}

#[derive(Clone, Debug)]
enum Arg {
    Value(i128),
    Type(Ty),
    /// The text of a set: module, position of its brace.
    Set(usize, usize),
    /// Whatever the governor says; the position of the argument.
    Other,
}
type Scope = HashMap<String, Arg>;

#[derive(Default)]
struct Reader {
    m: Vec<Module>,
    root_additions: usize,
    ref_constraints: usize,
    depth: usize,
}

#[derive(Clone, Debug)]
struct Field {
    name: String,
    /// Position of the type in its module, None for a type field.
    ty: Option<usize>,
}

impl Reader {
    fn t(&self, m: usize, p: usize) -> &str {
        self.m[m].tok.get(p).map_or("", |s| s.as_str())
    }
    fn want(&self, m: usize, p: usize, t: &str) -> R<usize> {
        if self.t(m, p) == t {
            Ok(p + 1)
        } else {
            let v = &self.m[m].tok;
            Err(format!("{}: {} expected in {:?}", self.m[m].name, t, &v[p.saturating_sub(6).min(v.len())..(p + 3).min(v.len())]))
        }
    }
    /// Position after the group that begins here.
    fn group(&self, m: usize, p: usize) -> R<usize> {
        let mut d = 0i32;
        let mut i = p;
        loop {
            match self.t(m, i) {
                "{" | "(" | "[" => d += 1,
                "[[" => d += 2,
                "}" | ")" | "]" => d -= 1,
                "]]" => d -= 2,
                "" => return Err(format!("{}: text ends inside brackets", self.m[m].name)),
                _ => {}
            }
            i += 1;
            if d <= 0 {
                return Ok(i);
            }
        }
    }

    /// Position after the type that begins here.
    fn skip_type(&self, m: usize, mut p: usize) -> R<usize> {
        match self.t(m, p) {
            "CLASS" => {
                p = self.group(m, p + 1)?;
                if self.t(m, p) == "WITH" {
                    p = self.group(m, self.want(m, p + 1, "SYNTAX")?)?;
                }
                return Ok(p);
            }
            "SEQUENCE" | "SET" => {
                p += 1;
                if self.t(m, p) == "{" {
                    p = self.group(m, p)?;
                } else {
                    while self.t(m, p) == "(" || self.t(m, p) == "SIZE" {
                        p = if self.t(m, p) == "(" { self.group(m, p)? } else { self.group(m, p + 1)? };
                    }
                    p = self.skip_type(m, self.want(m, p, "OF")?)?;
                }
            }
            "CHOICE" | "ENUMERATED" => p = self.group(m, p + 1)?,
            "BIT" | "OCTET" | "OBJECT" => {
                p += 2;
                if self.t(m, p) == "{" {
                    p = self.group(m, p)?;
                }
            }
            t if upper(t) => {
                p += 1;
                if self.t(m, p) == "." {
                    p += 2;
                } else if self.t(m, p) == "{" {
                    p = self.group(m, p)?;
                }
            }
            t => return Err(format!("{}: {:?} is not a type", self.m[m].name, t)),
        }
        while self.t(m, p) == "(" {
            p = self.group(m, p)?;
        }
        Ok(p)
    }

    fn module(&mut self, tok: Vec<String>, from: usize) -> R<usize> {
        let m = self.m.len();
        self.m.push(Module { name: tok[from].clone(), tok, ..Module::default() });
        let mut p = from + 1;
        if self.t(m, p) == "{" {
            p = self.group(m, p)?;
        }
        p = self.want(m, p, "DEFINITIONS")?;
        while self.t(m, p) != "::=" {
            if self.t(m, p).is_empty() {
                return Err("no ::= in a module header".into());
            }
            p += 1;
        }
        p = self.want(m, p + 1, "BEGIN")?;
        if self.t(m, p) == "IMPORTS" {
            p += 1;
            let mut names = vec![];
            while self.t(m, p) != ";" {
                match self.t(m, p) {
                    "FROM" => {
                        let from = self.t(m, p + 1).to_string();
                        for n in names.drain(..) {
                            self.m[m].imports.insert(n, from.clone());
                        }
                        p += 2;
                        if self.t(m, p) == "{" {
                            p = self.group(m, p)?;
                        }
                    }
                    "," => p += 1,
                    "" => return Err("IMPORTS without end".into()),
                    n => {
                        let n = n.to_string();
                        p += 1;
                        names.push(n);
                        if self.t(m, p) == "{" {
                            p = self.group(m, p)?;
                        }
                    }
                }
            }
            p += 1;
        }
        while self.t(m, p) != "END" {
            let name = self.t(m, p).to_string();
            if name.is_empty() {
                return Err(format!("module {} has no END", self.m[m].name));
            }
            p += 1;
            let mut d = Def { params: vec![], gov: vec![], at: 0, ty: None };
            if self.t(m, p) == "{" && upper(&name) {
                let e = self.group(m, p)?;
                p += 1;
                while p < e - 1 {
                    let mut v = vec![];
                    while !matches!(self.t(m, p), "," | "}") {
                        v.push(self.t(m, p).to_string());
                        p += 1;
                    }
                    p += 1;
                    match v.as_slice() {
                        [n] => d.params.push((None, n.clone())),
                        [g, c, n] if c == ":" => d.params.push((Some(g.clone()), n.clone())),
                        _ => return Err(format!("parameter {:?} of {}", v, name)),
                    }
                }
                p = e;
            }
            while self.t(m, p) != "::=" {
                if self.t(m, p).is_empty() {
                    return Err(format!("definition {} has no ::=", name));
                }
                d.gov.push(self.t(m, p).to_string());
                p += 1;
            }
            p += 1;
            d.at = p;
            p = if d.gov.is_empty() {
                self.skip_type(m, p)?
            } else if self.t(m, p) == "{" {
                self.group(m, p)?
            } else {
                p + 1
            };
            if self.m[m].defs.insert(name.clone(), d).is_some() {
                return Err(format!("{} is defined twice", name));
            }
            self.m[m].order.push(name);
        }
        Ok(p + 1)
    }

    /// Module and name of the definition a name means in a module.
    fn find(&self, m: usize, n: &str) -> R<(usize, String)> {
        if self.m[m].defs.contains_key(n) {
            return Ok((m, n.to_string()));
        }
        if let Some(f) = self.m[m].imports.get(n) {
            if let Some(k) = self.m.iter().position(|x| x.name == *f) {
                if self.m[k].defs.contains_key(n) {
                    return Ok((k, n.to_string()));
                }
            }
        }
        Err(format!("{}: {} is not defined", self.m[m].name, n))
    }
    fn def(&self, m: usize, n: &str) -> R<(usize, Def)> {
        let (k, n) = self.find(m, n)?;
        Ok((k, self.m[k].defs[&n].clone()))
    }

    fn number(&self, m: usize, p: usize, sc: &Scope) -> R<i128> {
        let t = self.t(m, p);
        if let Ok(n) = t.parse::<i128>() {
            return Ok(n);
        }
        if let Some(Arg::Value(n)) = sc.get(t) {
            return Ok(*n);
        }
        let (k, d) = self.def(m, t)?;
        if d.gov.is_empty() {
            return Err(format!("{} is not a value", t));
        }
        self.number(k, d.at, &Scope::new())
    }

    /// Values of a constraint between parentheses at p: lower and upper bound of the root, extensible; position after it.
    fn range(&self, m: usize, p: usize, sc: &Scope) -> R<(Option<i128>, Option<i128>, bool, usize)> {
        let end = self.group(m, p)?;
        let mut i = p + 1;
        let (mut lo, mut hi): (Option<Option<i128>>, Option<Option<i128>>) = (None, None);
        let mut ext = false;
        while i < end - 1 {
            match self.t(m, i) {
                "|" | "UNION" | "," => i += 1,
                "..." => {
                    ext = true;
                    break;
                }
                t => {
                    let a = if t == "MIN" { None } else { Some(self.number(m, i, sc)?) };
                    i += 1;
                    let mut b = a;
                    if self.t(m, i) == ".." {
                        b = if self.t(m, i + 1) == "MAX" { None } else { Some(self.number(m, i + 1, sc)?) };
                        i += 2;
                    }
                    lo = Some(match lo {
                        None => a,
                        Some(x) => x.and_then(|x| a.map(|a| a.min(x))),
                    });
                    hi = Some(match hi {
                        None => b,
                        Some(x) => x.and_then(|x| b.map(|b| b.max(x))),
                    });
                }
            }
        }
        Ok((lo.unwrap_or(None), hi.unwrap_or(None), ext, end))
    }

    /// The constraints that begin at p, as a size.
    fn size(&self, m: usize, mut p: usize, sc: &Scope) -> R<(Option<Size>, usize)> {
        let mut s = None;
        loop {
            let (open, inner) = match self.t(m, p) {
                "(" => (p, p + 1),
                "SIZE" => (p, p),
                _ => return Ok((s, p)),
            };
            let bare = open == inner;
            match self.t(m, inner) {
                "SIZE" => {
                    let (lb, ub, mut ext, e) = self.range(m, inner + 1, sc)?;
                    let end = if bare { e } else { self.group(m, p)? };
                    if !bare {
                        match self.t(m, e) {
                            ")" => {}
                            "," if self.t(m, e + 1) == "..." => ext = true,
                            t => return Err(format!("{}: {:?} after a size", self.m[m].name, t)),
                        }
                    }
                    s = Some(Size { lb: lb.unwrap_or(0) as u64, ub: ub.map(|u| u as u64), ext });
                    p = end;
                }
                "CONTAINING" => p = self.group(m, p)?,
                t => return Err(format!("{}: constraint {:?}", self.m[m].name, t)),
            }
        }
    }

    /// Items between braces at p: (root, additions if extensible).
    fn items(&self, m: usize, p: usize) -> R<(Vec<String>, Option<Vec<String>>, usize)> {
        let end = self.group(m, p)?;
        let mut i = p + 1;
        let mut root: Vec<(String, Option<i128>)> = vec![];
        let mut add: Option<Vec<String>> = None;
        while i < end - 1 {
            match self.t(m, i) {
                "," => i += 1,
                "..." => {
                    add = Some(vec![]);
                    i += 1;
                }
                n => {
                    let n = n.to_string();
                    i += 1;
                    let mut v = None;
                    if self.t(m, i) == "(" {
                        v = Some(self.number(m, i + 1, &Scope::new())?);
                        i = self.group(m, i)?;
                    }
                    match &mut add {
                        Some(a) => a.push(n),
                        None => root.push((n, v)),
                    }
                }
            }
        }
        // the items of the root count from the smallest number
        let given: BTreeSet<i128> = root.iter().filter_map(|r| r.1).collect();
        let mut next = 0;
        for r in root.iter_mut().filter(|r| r.1.is_none()) {
            while given.contains(&next) {
                next += 1;
            }
            r.1 = Some(next);
            next += 1;
        }
        root.sort_by_key(|r| r.1);
        Ok((root.into_iter().map(|r| r.0).collect(), add, end))
    }

    /// The fields of a class.
    fn class(&self, m: usize, n: &str) -> R<(usize, Vec<Field>, usize)> {
        let (k, d) = self.def(m, n)?;
        let p = d.at;
        if self.t(k, p) != "CLASS" {
            return Err(format!("{} is not a class", n));
        }
        let end = self.group(k, p + 1)?;
        let mut i = p + 2;
        let mut v = vec![];
        while i < end - 1 {
            let name = self.t(k, i).to_string();
            i += 1;
            let mut ty = None;
            if !name.trim_start_matches('&').starts_with(|c: char| c.is_uppercase()) {
                ty = Some(i);
                i = self.skip_type(k, i)?;
            }
            v.push(Field { name, ty });
            while !matches!(self.t(k, i), "," | "}") {
                i += 1;
            }
            i += 1;
        }
        Ok((k, v, end))
    }

    /// The settings of the objects of a set: for every field its position. `p` is the brace of the set, `class` its class.
    fn objects(&self, m: usize, p: usize, class: &str, out: &mut Vec<(usize, HashMap<String, usize>)>) -> R<()> {
        let end = self.group(m, p)?;
        let mut i = p + 1;
        while i < end - 1 {
            match self.t(m, i) {
                "|" | "," | "UNION" | "..." => i += 1,
                "{" => {
                    out.push((m, self.object(m, i, class)?));
                    i = self.group(m, i)?;
                }
                n => {
                    let (k, d) = self.def(m, n)?;
                    if upper(n) {
                        self.objects(k, d.at, class, out)?;
                    } else {
                        out.push((k, self.object(k, d.at, class)?));
                    }
                    i += 1;
                }
            }
        }
        Ok(())
    }

    fn object(&self, m: usize, p: usize, class: &str) -> R<HashMap<String, usize>> {
        let (ck, fields, cend) = self.class(m, class)?;
        let mut h = HashMap::new();
        let end = self.group(m, p)?;
        let mut i = p + 1;
        let mut s = self.want(ck, self.want(ck, cend, "WITH")?, "SYNTAX")?;
        let send = self.group(ck, s)?;
        s += 1;
        // an optional group is taken if its first word is next
        while s < send - 1 {
            match self.t(ck, s) {
                "[" => {
                    if self.t(m, i) == self.t(ck, s + 1) {
                        s += 1;
                    } else {
                        s = self.group(ck, s)?;
                    }
                }
                "]" => s += 1,
                f if f.starts_with('&') => {
                    let fd = fields.iter().find(|x| x.name == f).ok_or(format!("no field {} in {}", f, class))?;
                    h.insert(f.to_string(), i);
                    i = if fd.ty.is_none() {
                        self.skip_type(m, i)?
                    } else if self.t(m, i) == "{" {
                        self.group(m, i)?
                    } else {
                        i + 1
                    };
                    s += 1;
                }
                w => {
                    i = self.want(m, i, w)?;
                    s += 1;
                }
            }
        }
        if i != end - 1 {
            return Err(format!("{}: an object of {} has more than its class", self.m[m].name, class));
        }
        Ok(h)
    }

    /// The set written at p as an argument of a field reference or of a type.
    fn set(&self, m: usize, p: usize, sc: &Scope) -> R<(usize, usize)> {
        // { Name }
        if self.t(m, p) == "{" && self.t(m, p + 2) == "}" {
            let n = self.t(m, p + 1);
            if let Some(Arg::Set(k, q)) = sc.get(n) {
                return Ok((*k, *q));
            }
            if upper(n) {
                let (k, d) = self.def(m, n)?;
                return Ok((k, d.at));
            }
        }
        Ok((m, p))
    }

    fn ty(&mut self, m: usize, p: usize, sc: &Scope) -> R<(Ty, usize)> {
        self.depth += 1;
        if self.depth > 200 {
            return Err("types too deep".into());
        }
        let r = self.ty1(m, p, sc);
        self.depth -= 1;
        r
    }

    fn ty1(&mut self, m: usize, p: usize, sc: &Scope) -> R<(Ty, usize)> {
        let t = self.t(m, p).to_string();
        Ok(match t.as_str() {
            "BOOLEAN" => (Ty::Bool, p + 1),
            "NULL" => (Ty::Null, p + 1),
            "INTEGER" => {
                let mut q = p + 1;
                if self.t(m, q) == "{" {
                    q = self.group(m, q)?;
                }
                if self.t(m, q) == "(" {
                    let (lb, ub, ext, e) = self.range(m, q, sc)?;
                    (Ty::Int { lb, ub, ext }, e)
                } else {
                    (Ty::Int { lb: None, ub: None, ext: false }, q)
                }
            }
            "ENUMERATED" => {
                let (root, ext, e) = self.items(m, p + 1)?;
                (Ty::Enum { root, ext }, e)
            }
            "BIT" | "OCTET" => {
                let mut q = self.want(m, p + 1, "STRING")?;
                if self.t(m, q) == "{" {
                    q = self.group(m, q)?;
                }
                let (s, e) = self.size(m, q, sc)?;
                (if t == "BIT" { Ty::Bits(s) } else { Ty::Octets(s) }, e)
            }
            "OBJECT" => (Ty::Oid, self.want(m, p + 1, "IDENTIFIER")?),
            "VisibleString" | "PrintableString" | "UTF8String" => {
                let (s, e) = self.size(m, p + 1, sc)?;
                let k = match t.as_str() {
                    "VisibleString" => StrKind::Visible,
                    "PrintableString" => StrKind::Printable,
                    _ => StrKind::Utf8,
                };
                (Ty::Str(k, s), e)
            }
            "SEQUENCE" if self.t(m, p + 1) == "{" => self.seq(m, p + 1, sc)?,
            "SEQUENCE" => {
                let (size, q) = self.size(m, p + 1, sc)?;
                let q = self.want(m, q, "OF")?;
                let (elem, e) = self.ty(m, q, sc)?;
                (Ty::SeqOf { elem: Box::new(elem), size }, e)
            }
            "CHOICE" => {
                let end = self.group(m, p + 1)?;
                let mut i = p + 2;
                let mut alts = vec![];
                let mut ext: Option<Vec<Alt>> = None;
                while i < end - 1 {
                    match self.t(m, i) {
                        "," | "[[" | "]]" => i += 1,
                        "..." => {
                            ext = Some(vec![]);
                            i += 1;
                        }
                        n => {
                            let name = n.to_string();
                            let (ty, e) = self.ty(m, i + 1, sc)?;
                            i = e;
                            let a = Alt { name, ty };
                            match &mut ext {
                                Some(x) => x.push(a),
                                None => alts.push(a),
                            }
                        }
                    }
                }
                (Ty::Choice { alts, ext }, end)
            }
            n if upper(n) => self.reference(m, p, sc)?,
            _ => return Err(format!("{}: {:?} is not a type", self.m[m].name, t)),
        })
    }

    fn reference(&mut self, m: usize, p: usize, sc: &Scope) -> R<(Ty, usize)> {
        let n = self.t(m, p).to_string();
        let mut q = p + 1;
        let ty = if self.t(m, q) == "." {
            return self.field(m, p, sc);
        } else if let Some(a) = sc.get(&n) {
            match a {
                Arg::Type(t) => t.clone(),
                _ => return Err(format!("parameter {} is not a type", n)),
            }
        } else {
            let (k, d) = self.def(m, &n)?;
            if self.t(m, q) == "{" {
                let end = self.group(m, q)?;
                q += 1;
                let mut inner = Scope::new();
                for (g, name) in &d.params {
                    let g = g.as_deref();
                    let a = match g {
                        None => {
                            let (t, e) = self.ty(m, q, sc)?;
                            q = e;
                            Arg::Type(t)
                        }
                        Some("INTEGER") => {
                            let v = self.number(m, q, sc)?;
                            q += 1;
                            Arg::Value(v)
                        }
                        Some(g) => {
                            let e = if self.t(m, q) == "{" { self.group(m, q)? } else { q + 1 };
                            // a set of objects if the governor is a class
                            let (gk, gd) = self.def(k, g)?;
                            let a = if self.t(gk, gd.at) == "CLASS" {
                                let (a, b) = self.set(m, q, sc)?;
                                Arg::Set(a, b)
                            } else {
                                match self.number(m, q, sc) {
                                    Ok(v) => Arg::Value(v),
                                    Err(_) => Arg::Other,
                                }
                            };
                            q = e;
                            a
                        }
                    };
                    inner.insert(name.clone(), a);
                    if self.t(m, q) == "," {
                        q += 1;
                    }
                }
                if q != end - 1 {
                    return Err(format!("{}: arguments of {}", self.m[m].name, n));
                }
                q = end;
                self.ty(k, d.at, &inner)?.0
            } else {
                match d.ty {
                    Some(i) => Ty::Ref(i),
                    None => return Err(format!("{}: {} is not a type without parameters", self.m[m].name, n)),
                }
            }
        };
        while self.t(m, q) == "(" {
            self.ref_constraints += 1;
            q = self.group(m, q)?;
        }
        Ok((ty, q))
    }

    /// CLASS.&field ({Set}{@key})
    fn field(&mut self, m: usize, p: usize, sc: &Scope) -> R<(Ty, usize)> {
        let class = self.t(m, p).to_string();
        let f = self.t(m, p + 2).to_string();
        let (ck, fields, _) = self.class(m, &class)?;
        let fd = fields.iter().find(|x| x.name == f).ok_or(format!("no field {} in {}", f, class))?.clone();
        let mut q = p + 3;
        let c = q;
        while self.t(m, q) == "(" {
            q = self.group(m, q)?;
        }
        if let Some(at) = fd.ty {
            return Ok((self.ty(ck, at, &Scope::new())?.0, q));
        }
        if self.t(m, c) != "(" {
            return Err(format!("{}: an open type without a set", self.m[m].name));
        }
        let (sk, sp) = self.set(m, c + 1, sc)?;
        let mut objs = vec![];
        self.objects(sk, sp, &class, &mut objs)?;
        // the identifier is the field that is UNIQUE, here always called &id or the one the set is keyed by
        let key = fields.iter().find(|x| self.unique(ck, x)).or(fields.first()).map(|x| x.name.clone()).unwrap_or_default();
        let mut alts = vec![];
        for (k, o) in objs {
            let at = match o.get(&f) {
                Some(a) => *a,
                None => continue,
            };
            let kp = *o.get(&key).ok_or(format!("an object of {} has no {}", class, key))?;
            let name = self.t(k, kp).to_string();
            let v = self.number(k, kp, &Scope::new())?;
            let ty = self.ty(k, at, &Scope::new())?.0;
            alts.push(OpenAlt { key: v, name, ty });
        }
        Ok((Ty::Open(alts), q))
    }

    fn unique(&self, m: usize, f: &Field) -> bool {
        match f.ty {
            Some(p) => {
                let e = self.skip_type(m, p).unwrap_or(p);
                self.t(m, e) == "UNIQUE"
            }
            None => false,
        }
    }

    fn seq(&mut self, m: usize, p: usize, sc: &Scope) -> R<(Ty, usize)> {
        let end = self.group(m, p)?;
        let mut fields: Vec<crate::model::Field> = vec![];
        let mut ext: Option<Vec<crate::model::Field>> = None;
        let mut keys: BTreeSet<String> = BTreeSet::new();
        let mut i = p + 1;
        while i < end - 1 {
            match self.t(m, i) {
                "," => i += 1,
                "..." => {
                    ext.get_or_insert(vec![]);
                    i += 1;
                }
                "[[" => {
                    let e = self.group(m, i)?;
                    let mut g = vec![];
                    i += 1;
                    while i < e - 1 {
                        if self.t(m, i) == "," {
                            i += 1;
                            continue;
                        }
                        g.push(self.component(m, &mut i, sc, &mut keys)?);
                    }
                    i = e;
                    let n = ext.as_ref().map_or(0, |x| x.len());
                    let f = crate::model::Field { name: format!("addition {}", n), ty: Ty::Seq { fields: g, ext: None }, optional: true, key: false };
                    ext.get_or_insert(vec![]).push(f);
                }
                _ => {
                    let f = self.component(m, &mut i, sc, &mut keys)?;
                    if ext.is_some() {
                        self.root_additions += 1;
                    }
                    fields.push(f);
                }
            }
        }
        for f in fields.iter_mut() {
            f.key = keys.contains(&f.name);
        }
        Ok((Ty::Seq { fields, ext }, end))
    }

    fn component(&mut self, m: usize, i: &mut usize, sc: &Scope, keys: &mut BTreeSet<String>) -> R<crate::model::Field> {
        let name = self.t(m, *i).to_string();
        if !lower(&name) {
            return Err(format!("{}: {:?} is not the name of a component", self.m[m].name, name));
        }
        let from = *i + 1;
        let (ty, mut e) = self.ty(m, from, sc)?;
        if let Ty::Open(_) = ty {
            for k in from..e {
                if self.t(m, k) == "@" {
                    keys.insert(self.t(m, k + 1).to_string());
                }
            }
        }
        let mut optional = false;
        match self.t(m, e) {
            "OPTIONAL" => {
                optional = true;
                e += 1;
            }
            "DEFAULT" => {
                optional = true;
                e = if self.t(m, e + 1) == "{" { self.group(m, e + 1)? } else { e + 2 };
            }
            _ => {}
        }
        *i = e;
        if !matches!(self.t(m, e), "," | "}" | "]]") {
            return Err(format!("{}: {:?} after component {}", self.m[m].name, self.t(m, e), name));
        }
        Ok(crate::model::Field { name, ty, optional, key: false })
    }
}

/// What the modules of these texts define.
pub fn read(texts: &[&str]) -> R<Reading> {
    let mut r = Reader::default();
    for t in texts {
        let tok = tokens(t)?;
        let mut p = 0;
        while p < tok.len() {
            p = r.module(tok.clone(), p)?;
        }
    }
    let mut list = vec![];
    for m in 0..r.m.len() {
        for n in r.m[m].order.clone() {
            let d = r.m[m].defs[&n].clone();
            if upper(&n) && d.gov.is_empty() && d.params.is_empty() && r.t(m, d.at) != "CLASS" {
                r.m[m].defs.get_mut(&n).unwrap().ty = Some(list.len());
                list.push((m, n, d.at));
            }
        }
    }
    let mut types = vec![];
    for (m, n, at) in list {
        let t = r.ty(m, at, &Scope::new()).map_err(|e| format!("{}: {}", n, e))?.0;
        types.push((n, t));
    }
    Ok(Reading { env: Env::new(types), root_additions: r.root_additions, ref_constraints: r.ref_constraints })
}

/// Specifications from which smaller ones can be cut out.
pub struct Library {
    r: Reader,
    /// End of the text of every definition.
    ends: HashMap<(usize, String), usize>,
    uses: HashMap<(usize, String), Vec<(usize, String)>>,
}

pub type Name = (usize, String);

impl Library {
    pub fn new(texts: &[&str]) -> R<Library> {
        let mut r = Reader::default();
        for t in texts {
            let tok = tokens(t)?;
            let mut p = 0;
            while p < tok.len() {
                p = r.module(tok.clone(), p)?;
            }
        }
        let mut l = Library { r, ends: HashMap::new(), uses: HashMap::new() };
        for m in 0..l.r.m.len() {
            for n in l.r.m[m].order.clone() {
                let d = l.r.m[m].defs[&n].clone();
                let e = if d.gov.is_empty() {
                    l.r.skip_type(m, d.at)?
                } else if l.r.t(m, d.at) == "{" {
                    l.r.group(m, d.at)?
                } else {
                    d.at + 1
                };
                let mut u = BTreeSet::new();
                let own: BTreeSet<&str> = d.params.iter().map(|p| p.1.as_str()).collect();
                let body = l.r.m[m].tok[d.at..e].iter().chain(d.gov.iter()).chain(d.params.iter().filter_map(|p| p.0.as_ref()));
                for t in body {
                    if t.starts_with(|c: char| c.is_ascii_alphabetic()) && !own.contains(t.as_str()) {
                        if let Ok(f) = l.r.find(m, t) {
                            u.insert(f);
                        }
                    }
                }
                l.ends.insert((m, n.clone()), e);
                l.uses.insert((m, n), u.into_iter().collect());
            }
        }
        Ok(l)
    }
    /// All definitions of types without parameters, in order.
    pub fn types(&self) -> Vec<Name> {
        let mut v = vec![];
        for (m, x) in self.r.m.iter().enumerate() {
            for n in &x.order {
                let d = &x.defs[n];
                if upper(n) && d.gov.is_empty() && d.params.is_empty() && x.tok[d.at] != "CLASS" {
                    v.push((m, n.clone()));
                }
            }
        }
        v
    }
    /// A definition and all it needs (perhaps more: components may be named like values).
    pub fn close(&self, of: &Name, into: &mut BTreeSet<Name>) {
        let mut todo = vec![of.clone()];
        while let Some(n) = todo.pop() {
            if into.insert(n.clone()) {
                todo.extend(self.uses[&n].iter().cloned());
            }
        }
    }
    /// Is the name of this type, or value, written at a place where the compiler has to look it up: not inside
    /// CONTAINING (known finding) or, for a value, inside an extension addition or a parameterised type?
    pub fn needed(&self, keep: &BTreeSet<Name>, what: &Name) -> bool {
        for k in keep {
            if !self.uses[k].contains(what) {
                continue;
            }
            let x = &self.r.m[k.0];
            let d = &x.defs[&k.1];
            if !d.params.is_empty() || !d.gov.is_empty() {
                continue;
            }
            let tok = &x.tok[d.at..self.ends[k]];
            let mut i = 0;
            let mut adds = false;
            while i < tok.len() {
                match tok[i].as_str() {
                    "CONTAINING" | "DEFAULT" => i += 1,
                    "..." => adds = true,
                    // arguments may be ignored
                    t if i + 1 < tok.len() && upper(t) && tok[i + 1] == "{" && !matches!(t, "SEQUENCE" | "CHOICE" | "ENUMERATED" | "INTEGER" | "STRING") => {
                        if t == what.1 {
                            return true;
                        }
                        let mut n = 0;
                        i += 1;
                        while i < tok.len() {
                            n += (tok[i] == "{") as i32 - (tok[i] == "}") as i32;
                            if n == 0 {
                                break;
                            }
                            i += 1;
                        }
                    }
                    // an ENUMERATED has names that mean nothing else
                    "ENUMERATED" => {
                        while i < tok.len() && tok[i] != "}" {
                            i += 1;
                        }
                    }
                    t if t == what.1 => {
                        if upper(t) {
                            return true;
                        }
                        // a number at a place of a number
                        let p = if i == 0 { "" } else { tok[i - 1].as_str() };
                        if !adds && matches!(p, "(" | ".." | "|") {
                            return true;
                        }
                    }
                    _ => {}
                }
                i += 1;
            }
        }
        false
    }
    /// Chooses definitions, with all they need, until there are about `n`.
    pub fn choose(&self, t: &mut Tape, n: usize, most: usize) -> BTreeSet<Name> {
        let all = self.types();
        let mut s = BTreeSet::new();
        for _ in 0..200 {
            if s.len() >= n {
                break;
            }
            let mut more = s.clone();
            self.close(&all[t.idx(all.len())], &mut more);
            if more.len() <= most {
                s = more;
            }
        }
        s
    }
    /// The chosen definitions as modules: (name, text). With a tape, definitions and modules change their order.
    pub fn text(&self, keep: &BTreeSet<Name>, mut t: Option<&mut Tape>) -> Vec<(String, String)> {
        let mut out = vec![];
        for (m, x) in self.r.m.iter().enumerate() {
            let mut mine: Vec<&String> = x.order.iter().filter(|n| keep.contains(&(m, (*n).clone()))).collect();
            if let Some(t) = &mut t {
                t.shuffle(&mut mine);
            }
            if mine.is_empty() {
                continue;
            }
            let mut o = format!("{} DEFINITIONS AUTOMATIC TAGS ::=\nBEGIN\n", x.name);
            let mut imp: Vec<(String, Vec<String>)> = vec![];
            let mut need: BTreeSet<(usize, String)> = BTreeSet::new();
            for n in &mine {
                need.extend(self.uses[&(m, (*n).clone())].iter().filter(|u| u.0 != m && keep.contains(u)).cloned());
            }
            for (k, n) in need {
                let from = self.r.m[k].name.clone();
                match imp.last_mut() {
                    Some((f, v)) if *f == from => v.push(n),
                    _ => imp.push((from, vec![n])),
                }
            }
            if !imp.is_empty() {
                o += "IMPORTS\n";
                for (f, v) in &imp {
                    o += &format!("  {} FROM {}\n", v.join(", "), f);
                }
                o += ";\n";
            }
            for n in mine {
                let d = &x.defs[n];
                o += n;
                if !d.params.is_empty() {
                    let p: Vec<String> = d.params.iter().map(|p| p.0.as_ref().map_or(p.1.clone(), |g| format!("{} : {}", g, p.1))).collect();
                    o += &format!(" {{ {} }}", p.join(", "));
                }
                for g in &d.gov {
                    o += " ";
                    o += g;
                }
                o += " ::=";
                let mut glue = false;
                for t in &x.tok[d.at..self.ends[&(m, n.clone())]] {
                    if t == "." {
                        glue = true;
                    } else if !glue {
                        o += " ";
                    } else {
                        glue = false;
                    }
                    o += t;
                    if t == "@" {
                        glue = true;
                    }
                    if t == "," || t == "{" {
                        o += "\n   ";
                    }
                }
                o += "\n";
            }
            o += "END\n";
            out.push((x.name.clone(), o));
        }
        if let Some(t) = &mut t {
            t.shuffle(&mut out);
        }
        out
    }
}
