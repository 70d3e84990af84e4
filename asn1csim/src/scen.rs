//! The scenarios, one per property.

use crate::ctx::*;
use crate::os::*;
use crate::shape;
use simcore::asn1;
use simcore::model::type_ident;
use simcore::spec::*;
use simcore::tape::Tape;
use std::collections::BTreeSet;

pub fn run(prop: &str, c: &mut Ctx) -> Res {
    match prop {
        "C01" => c01(c),
        "C02" => c02(c),
        "C03" => c03(c),
        "C04" => c04(c),
        "C05" => c05(c),
        "C06" => c06(c),
        "C07" => crate::read::c07(c),
        "C18" => c18(c),
        "C20" => c20(c),
        _ => viol("harness", format!("unknown property {}", prop)),
    }
}

// ---------------------------------------------------------------- workloads

fn small_style(c: &mut Ctx, codec: bool) -> Style {
    let modules = [1, 2, 2, 3, 4][c.t.idx(5)];
    let types = if c.thorough && c.t.chance(1, 6) { 20 + c.t.idx(40) } else { 2 + c.t.idx(12) };
    Style { codec, modules, types }
}

fn spec(c: &mut Ctx) -> Spec {
    let codec = c.t.coin();
    let st = small_style(c, codec);
    let s = generate(c.t, st);
    c.log(|| format!("specification: {} modules, {} definitions", s.modules.len(), s.defs.len()));
    s
}

fn bytes(v: Vec<(String, String)>) -> Files {
    v.into_iter().map(|(n, t)| (n, t.into_bytes())).collect()
}

/// Text of a layout, sometimes with other white space and comments.
fn texts(c: &mut Ctx, s: &Spec, l: &Layout) -> Files {
    let v = render(s, l);
    if c.t.chance(1, 3) {
        v.into_iter().map(|(n, x)| (n, respace(c.t, &x).into_bytes())).collect()
    } else {
        bytes(v)
    }
}

fn dump(c: &mut Ctx, f: &Files) {
    if c.tracing {
        for (n, d) in f {
            let t = String::from_utf8_lossy(d);
            let short: String = t.chars().take(6000).collect();
            c.trace.push(format!("file {}:\n{}", n, short));
        }
    }
}

/// One of the repository's own specifications (S1AP, NGAP, ...).
fn real(c: &mut Ctx) -> Option<Files> {
    let n = c.os.specs.len();
    if n == 0 {
        return None;
    }
    let k = c.t.idx(n);
    let (name, f) = &c.os.specs[k];
    c.stats.inc("runs_with_specifications_of_the_repository");
    if c.tracing {
        c.trace.push(format!("specification {}", name));
    }
    Some(f.clone())
}

/// A part of one of the repository's own specifications that needs nothing else: chosen definitions and their text.
fn cut(c: &mut Ctx) -> Option<(usize, BTreeSet<asn1::Name>)> {
    if c.os.libs.is_empty() {
        return None;
    }
    let k = c.t.idx(c.os.libs.len());
    let (n, most) = if c.t.chance(1, 20) { (150, 1500) } else { ([1, 5, 15, 40, 80][c.t.idx(5)], 250) };
    let keep = c.os.libs[k].1.choose(c.t, n, most);
    if keep.is_empty() {
        return None;
    }
    c.stats.inc("runs_with_parts_of_specifications_of_the_repository");
    c.log(|| format!("{} definitions of specification {}", keep.len(), k));
    Some((k, keep))
}

/// Text of a part: in the order of the original or another one, one file for each module or fewer.
fn cut_text(c: &mut Ctx, k: usize, keep: &BTreeSet<asn1::Name>, order: bool) -> Files {
    let v = c.os.libs[k].1.text(keep, if order { Some(&mut *c.t) } else { None });
    let re = order && c.t.chance(1, 3);
    let mut f: Files = vec![];
    for (n, x) in v {
        let x = if re { respace(c.t, &x) } else { x };
        match f.last_mut() {
            Some(l) if order && c.t.chance(1, 4) => l.1.extend(x.into_bytes()),
            _ => f.push((n + ".asn", x.into_bytes())),
        }
    }
    f
}

/// What an independent reader makes of files.
fn reading(files: &Files) -> Result<asn1::Reading, Violation> {
    let t: Vec<String> = files.iter().map(|x| String::from_utf8_lossy(&x.1).into_owned()).collect();
    match asn1::read(&t.iter().map(|x| x.as_str()).collect::<Vec<_>>()) {
        Ok(r) => Ok(r),
        Err(e) => Err(Violation { kind: "harness".into(), msg: format!("the reader of specifications: {}", e) }),
    }
}

/// A specification of the repository, or mostly a part of one.
fn real_or_part(c: &mut Ctx) -> Option<Files> {
    if c.t.chance(1, 8) {
        return real(c);
    }
    let (k, keep) = cut(c)?;
    Some(cut_text(c, k, &keep, true))
}

fn head(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(300)]).into_owned()
}

/// Where two texts part, with some context.
fn diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let from = k.saturating_sub(60);
    let cut = |v: &[u8]| String::from_utf8_lossy(&v[from.min(v.len())..(k + 60).min(v.len())]).into_owned();
    format!("lengths {} and {}, first difference at {}: ...{:?} and ...{:?}", a.len(), b.len(), k, cut(a), cut(b))
}

/// rustfmt sorts the imports at the top; the simulated formatter does not.
fn formatted(out: &[u8]) -> Vec<u8> {
    let s = String::from_utf8_lossy(out).into_owned();
    let mut lines: Vec<String> = s.split('\n').map(|l| l.to_string()).collect();
    for l in lines.iter_mut() {
        if l.contains("use ") && l.contains(';') {
            let mut parts: Vec<&str> = l.split(';').collect();
            let all = parts.iter().all(|p| {
                let q = p.trim();
                q.is_empty() || q.starts_with("use ") || q.starts_with("# !") || q.starts_with("#!")
            });
            if all {
                // an inner attribute stays in front
                let first = parts[0].to_string();
                let (attr, u0) = match first.rfind(']') {
                    Some(k) => (first[..=k].to_string(), first[k + 1..].to_string()),
                    None => (String::new(), first.clone()),
                };
                parts[0] = &u0;
                let mut us: Vec<String> = parts.iter().map(|p| p.trim().to_string()).filter(|p| !p.is_empty()).collect();
                us.sort();
                *l = format!("{} {};", attr, us.join(";"));
            }
        }
    }
    lines.join("\n").into_bytes()
}

// ---------------------------------------------------------------- specifications with something wrong

pub struct Broken {
    pub files: Files,
    pub why: String,
    /// must be refused; otherwise the bindings may also have found a way to keep everything apart
    pub strict: bool,
}

fn tokens(text: &str) -> Vec<String> {
    text.split(' ').map(|s| s.to_string()).collect()
}
/// Positions where a definition is referred to in a way that has to be resolved. Known findings (tools/comp.py has a
/// probe for each): contents constraints, values in additions between brackets and in parameterised types. A default
/// is not used by anything: what is sent says whether a component is there.
fn uses(text: &str, name: &str) -> Vec<usize> {
    let t = tokens(text);
    let value = name.starts_with(|c: char| c.is_ascii_lowercase());
    if value && t[1] == "{" {
        return vec![];
    }
    let mut addition = 0;
    (1..t.len())
        .filter(|i| {
            match t[*i].as_str() {
                "[[" => addition += 1,
                "]]" => addition -= 1,
                _ => {}
            }
            t[*i] == name && t[*i - 1] != "CONTAINING" && t[*i - 1] != "DEFAULT" && !(value && addition > 0)
        })
        .collect()
}

/// The parameterised type and the position of the argument when the token is an argument of one.
fn argument_of(s: &Spec, t: &[String], at: usize) -> Option<(usize, usize)> {
    let (mut depth, mut n) = (0, 0);
    for i in (0..at).rev() {
        match t[i].as_str() {
            "}" | ")" => depth += 1,
            "{" | "(" if depth > 0 => depth -= 1,
            "{" => {
                let d = s.defs.iter().position(|d| i > 0 && d.name == t[i - 1])?;
                return if i > 1 && tokens(&s.defs[d].text)[1] == "{" { Some((d, n)) } else { None };
            }
            "(" => return None,
            "," if depth == 0 => n += 1,
            _ => {}
        }
    }
    None
}
/// A value that is given to a parameterised type is used if the type uses its parameter, outside of additions
/// (known finding). Only uses that can not be mistaken for a name count.
fn value_used(s: &Spec, t: &[String], at: usize, deep: usize) -> bool {
    let (d, n) = match argument_of(s, t, at) {
        Some(a) => a,
        None => return true,
    };
    if deep == 0 {
        return false;
    }
    let t = tokens(&s.defs[d].text);
    let end = t.iter().position(|x| x == "::=").unwrap();
    let dummies: Vec<&String> = (2..end).filter(|i| matches!(t[*i + 1].as_str(), "," | "}")).map(|i| &t[i]).collect();
    let dummy = match dummies.get(n) {
        Some(x) => x.to_string(),
        None => return false,
    };
    uses(&t[end..].join(" "), &dummy)
        .into_iter()
        .map(|i| i + end)
        .any(|i| matches!(t[i - 1].as_str(), "(" | ".." | "|" | "^") || argument_of(s, &t, i).is_some() && value_used(s, &t, i, deep - 1))
}
/// Positions where one definition refers to another in a way that has to be resolved.
fn used_at(s: &Spec, by: usize, r: usize) -> Vec<usize> {
    let t = tokens(&s.defs[by].text);
    let value = s.defs[r].name.starts_with(|c: char| c.is_ascii_lowercase());
    uses(&s.defs[by].text, &s.defs[r].name).into_iter().filter(|i| !value || value_used(s, &t, *i, 6)).collect()
}

fn files_of(mods: Vec<String>) -> Files {
    mods.into_iter().enumerate().map(|(i, m)| (format!("sim{}.asn1", i), m.into_bytes())).collect()
}

pub fn break_spec(c: &mut Ctx, s: &Spec) -> Option<Broken> {
    let l = if c.t.coin() { natural(s) } else { shuffled(c.t, s) };
    let order = l.order.clone();
    let nm = s.modules.len();
    let mut mods: Vec<String> = (0..nm).map(|m| module_text(s, m, &order[m], "")).collect();
    let used: Vec<(usize, usize)> = (0..s.defs.len())
        .flat_map(|d| s.defs[d].refs.iter().map(move |r| (d, *r)).collect::<Vec<_>>())
        .filter(|(d, r)| !used_at(s, *d, *r).is_empty())
        .collect();
    let mut strict = true;
    let kind = c.t.choose(16);
    let why = match kind {
        0 => {
            let im: Vec<usize> = (0..nm).filter(|m| (0..nm).any(|o| o != *m && imports(s, o).iter().any(|i| i.0 == *m))).collect();
            if im.is_empty() {
                return None;
            }
            let m = im[c.t.idx(im.len())];
            mods.remove(m);
            format!("module {} was lost, others import from it", s.modules[m].name)
        }
        1 | 2 => {
            if used.is_empty() {
                return None;
            }
            let (by, r) = used[c.t.idx(used.len())];
            let m = s.defs[r].module;
            let o: Vec<usize> = order[m].iter().copied().filter(|d| *d != r).collect();
            mods[m] = module_text(s, m, &o, "");
            format!("definition {} was lost, {} refers to it", s.defs[r].name, s.defs[by].name)
        }
        3 => {
            let m = c.t.idx(nm);
            let o = (m + 1 + c.t.idx(nm.max(2) - 1)) % nm;
            if o == m {
                return None;
            }
            if imports(s, o).iter().any(|i| i.0 == m) {
                return None;
            }
            let g = ["Ghost-Type99", "ghostValue99", "GHOST-CLASS99"][c.t.idx(3)];
            mods[m] = module_text(s, m, &order[m], &format!(" {} FROM {}", g, s.modules[o].name));
            format!("{} imports {} which {} does not have", s.modules[m].name, g, s.modules[o].name)
        }
        4 => {
            let m = c.t.idx(nm);
            mods[m] = module_text(s, m, &order[m], " Ghost-Type99 FROM Ghost-Module99");
            format!("{} imports from a module that is not there", s.modules[m].name)
        }
        5 => {
            // a -> b -> a
            let pairs: Vec<(usize, usize)> =
                (0..nm).flat_map(|m| imports(s, m).into_iter().map(move |i| (m, i.0)).collect::<Vec<_>>()).collect();
            if pairs.is_empty() {
                return None;
            }
            let (m, o) = pairs[c.t.idx(pairs.len())];
            let sym: Vec<usize> = order[m].iter().copied().filter(|d| s.defs[*d].kind == Kind::Type).collect();
            if sym.is_empty() {
                return None;
            }
            let d = sym[c.t.idx(sym.len())];
            mods[o] = module_text(s, o, &order[o], &format!(" {} FROM {}", s.defs[d].name, s.modules[m].name));
            format!("{} and {} import from each other", s.modules[m].name, s.modules[o].name)
        }
        6 => {
            let m = c.t.idx(nm);
            let n = 1 + c.t.idx(4);
            let mut txt = vec![];
            for i in 0..n {
                let next = format!("Circle{}", (i + 1) % n);
                txt.push(match c.t.choose(4) {
                    0 => format!("Circle{} ::= {}", i, next),
                    1 => format!("Circle{} ::= SEQUENCE {{ a BOOLEAN , b {} OPTIONAL }}", i, next),
                    2 => format!("Circle{} ::= SEQUENCE OF {}", i, next),
                    _ => format!("Circle{} ::= CHOICE {{ a BOOLEAN , b {} }}", i, next),
                });
            }
            insert(c.t, &mut mods[m], &txt);
            format!("{} definitions in a circle: {}", n, txt.join(" / "))
        }
        7 => {
            // an older copy of a module is among the files
            let m = c.t.idx(nm);
            let o: Vec<usize> = order[m].clone();
            let leaf: Vec<usize> = o.iter().copied().filter(|d| !s.defs.iter().any(|e| e.refs.contains(d))).collect();
            if leaf.is_empty() {
                return None;
            }
            let gone = leaf[c.t.idx(leaf.len())];
            let o: Vec<usize> = o.into_iter().filter(|d| *d != gone).collect();
            let old = module_text(s, m, &o, "");
            let name = s.modules[m].name.clone();
            let at = c.t.idx(mods.len() + 1);
            if c.t.coin() {
                mods.insert(at, old);
            } else {
                let k = c.t.idx(mods.len());
                mods[k] += &old;
            }
            format!("an older copy of {} without {} is also there", name, s.defs[gone].name)
        }
        8 | 9 => {
            // the same name again
            let ds: Vec<usize> = (0..s.defs.len()).filter(|d| s.defs[*d].kind == Kind::Type).collect();
            if ds.is_empty() {
                return None;
            }
            let d = ds[c.t.idx(ds.len())];
            let n = &s.defs[d].name;
            let text = format!("{} ::= SEQUENCE {{ other INTEGER ( 0 .. {} ) }}", n, 77 + c.t.choose(3));
            let m = c.t.idx(nm);
            insert(c.t, &mut mods[m], &[text]);
            format!("{} is defined again, differently, in {}", n, s.modules[m].name)
        }
        10 => {
            // two names that become one
            strict = false;
            let m = c.t.idx(nm);
            let txt: Vec<String> = match c.t.choose(7) {
                0 => vec!["Coll-One ::= SEQUENCE { bar SEQUENCE { a NULL } }", "Coll-OneBar ::= SEQUENCE { b BOOLEAN }"],
                1 => vec!["CollTwo ::= SEQUENCE { bar CHOICE { a NULL } }", "CollTwoBar ::= INTEGER ( 0 .. 9 )"],
                2 => vec!["CollX ::= SEQUENCE { yZ SEQUENCE { a NULL } }", "CollXY ::= SEQUENCE { z SEQUENCE { b BOOLEAN } }"],
                3 => vec!["Coll3 ::= SEQUENCE OF SEQUENCE { a NULL }", "Coll3-Entry ::= BOOLEAN"],
                4 => vec!["Coll4 ::= CHOICE { bar SEQUENCE { a NULL } }", "Coll4bar ::= BOOLEAN"],
                5 => {
                    let a = ["aB", "a-b", "self", "x2"][c.t.idx(4)];
                    let b = ["ab", "aB", "a-B", a][c.t.idx(4)];
                    strict = a == b;
                    vec![["Coll6 ::= SEQUENCE { @ NULL , c NULL OPTIONAL , % BOOLEAN }", "Coll6 ::= CHOICE { @ NULL , ... , % BOOLEAN }", "Coll6 ::= ENUMERATED { @ , c , % }", "Coll6 ::= SEQUENCE OF CHOICE { % NULL , @ NULL }"][c.t.idx(4)]]
                        .into_iter()
                        .map(|x| x.replace('@', a).replace('%', b).leak() as &str)
                        .collect()
                }
                _ => vec!["Coll5 ::= SEQUENCE { a INTEGER ( 0 .. 3 ) , b INTEGER ( 0 .. 4 ) }", "INTEGER-2 ::= BOOLEAN", "INTEGER-1 ::= NULL", "INTEGER-3 ::= ENUMERATED { z }"],
            }
            .into_iter()
            .map(|x| x.to_string())
            .collect();
            insert(c.t, &mut mods[m], &txt);
            format!("names that can become one: {}", txt.join(" / "))
        }
        11 | 12 => {
            // a reference to nothing
            if used.is_empty() {
                return None;
            }
            let (by, r) = used[c.t.idx(used.len())];
            let text = s.defs[by].text.clone();
            let us = used_at(s, by, r);
            let at = us[c.t.idx(us.len())];
            let mut t = tokens(&text);
            let lower = s.defs[r].name.starts_with(|x: char| x.is_lowercase());
            t[at] = if lower { "ghostRef98" } else { "Ghost-Ref98" }.to_string();
            let m = s.defs[by].module;
            let mut copy = s.clone();
            copy.defs[by].text = t.join(" ");
            mods[m] = module_text(&copy, m, &order[m], "");
            format!("{} refers to something that is nowhere: {}", s.defs[by].name, copy.defs[by].text)
        }
        13 | 14 => {
            // an imported symbol is also imported from a module that does not have it
            let pairs: Vec<(usize, usize, usize)> = (0..nm)
                .flat_map(|m| {
                    imports(s, m).into_iter().flat_map(move |i| i.1.into_iter().map(move |d| (m, i.0, d)).collect::<Vec<_>>()).collect::<Vec<_>>()
                })
                .collect();
            if pairs.is_empty() {
                return None;
            }
            let (m, o, d) = pairs[c.t.idx(pairs.len())];
            let others: Vec<usize> = (0..nm)
                .filter(|x| *x != m && *x != o && s.defs[d].module != *x && !imports(s, *x).iter().any(|i| i.0 == m || i.1.contains(&d)))
                .collect();
            let from = if others.is_empty() || c.t.coin() {
                let at = c.t.idx(mods.len() + 1);
                mods.insert(at, "Spare-Module97 DEFINITIONS AUTOMATIC TAGS ::= BEGIN Spare-Type97 ::= NULL END\n".into());
                "Spare-Module97".to_string()
            } else {
                s.modules[others[c.t.idx(others.len())]].name.clone()
            };
            let head = format!("{} ", s.modules[m].name);
            let k = mods.iter().position(|t| t.trim_start().starts_with(&head)).unwrap();
            let again = format!(" {} FROM {}", s.defs[d].name, from);
            mods[k] = if c.t.coin() {
                module_text(s, m, &order[m], &again)
            } else {
                mods[k].replacen("IMPORTS", &format!("IMPORTS{}", again), 1)
            };
            format!("{} imports {} from {} and from {}, which does not have it", s.modules[m].name, s.defs[d].name, s.modules[o].name, from)
        }
        _ => {
            // a field its class does not have
            let ps: Vec<(usize, String)> = (0..s.defs.len())
                .flat_map(|d| {
                    let k = s.defs[d].kind == Kind::Param || s.defs[d].kind == Kind::Type;
                    tokens(&s.defs[d].text).into_iter().filter(move |t| k && t.contains(".&")).map(move |t| (d, t)).collect::<Vec<_>>()
                })
                .collect();
            if ps.is_empty() {
                return None;
            }
            let (d, t) = ps[c.t.idx(ps.len())].clone();
            let m = s.defs[d].module;
            let mut copy = s.clone();
            let k = t.find(".&").unwrap();
            let f = if t[k + 2..].starts_with(|x: char| x.is_lowercase()) { "ghostField" } else { "GhostField" };
            copy.defs[d].text = copy.defs[d].text.replacen(&t, &format!("{}.&{}", &t[..k], f), 1);
            mods[m] = module_text(&copy, m, &order[m], "");
            format!("{} uses a field that its class does not have: {}", s.defs[d].name, copy.defs[d].text)
        }
    };
    let mut files = files_of(mods);
    if c.t.coin() {
        c.t.shuffle(&mut files);
    }
    c.log(|| format!("broken: {}", why));
    c.stats.inc(match kind {
        0 => "fault.module_lost",
        1 | 2 => "fault.definition_lost",
        3 | 4 => "fault.import_of_nothing",
        5 => "fault.circular_imports",
        6 => "fault.circular_definitions",
        7 => "fault.stale_copy_of_module",
        8 | 9 => "fault.definition_twice",
        10 => "fault.names_that_collide",
        11 | 12 => "fault.reference_to_nothing",
        13 | 14 => "fault.imported_twice",
        _ => "fault.field_of_nothing",
    });
    Some(Broken { files, why, strict })
}

/// Puts definitions somewhere into the body of a module.
fn insert(t: &mut Tape, text: &mut String, defs: &[String]) {
    for d in defs {
        let lines: Vec<&str> = text.lines().collect();
        // after the header (and the imports), before END
        let first = if lines.get(1).map_or(false, |l| l.starts_with("IMPORTS")) { 2 } else { 1 };
        let last = lines.len() - 1;
        let at = first + t.idx(last - first + 1);
        let mut v: Vec<String> = lines.iter().map(|l| l.to_string()).collect();
        v.insert(at, d.clone());
        *text = v.join("\n") + "\n";
    }
}

// ---------------------------------------------------------------- C01

fn c01(c: &mut Ctx) -> Res {
    let files = if c.t.chance(1, if c.thorough { 20 } else { 40 }) {
        match real_or_part(c) {
            Some(f) => f,
            None => return Ok(()),
        }
    } else {
        let s = spec(c);
        let broken = if c.t.chance(1, 6) { break_spec(c, &s) } else { None };
        match broken {
            Some(b) => b.files,
            None => {
                let l = if c.t.coin() { natural(&s) } else { shuffled(c.t, &s) };
                texts(c, &s, &l)
            }
        }
    };
    dump(c, &files);
    let r = c.compile(&files, &Scenario::benign());
    if r.unjudged() {
        return Ok(());
    }
    c.stats.inc(if r.ok() { "specifications_accepted" } else { "specifications_refused" });
    let n = 2 + c.t.idx(4);
    for k in 0..n {
        let sc = Scenario::random(c.t);
        let o = c.compile(&files, &sc);
        if o.unjudged() {
            continue;
        }
        c.nontrivial = true;
        c.stats.inc("comparisons");
        if let Some(w) = o.stuck() {
            return viol("stuck", format!("run {}: {}", k, w));
        }
        if o.ok() != r.ok() {
            return viol(
                "status",
                format!("run {} of the same files ends with {}, the first one with {}: {} / {}", k, o.how(), r.how(), o.error_line(), r.error_line()),
            );
        }
        if r.ok() {
            let (a, b) = (formatted(&r.stdout), formatted(&o.stdout));
            if a != b {
                return viol("bindings", format!("run {} of the same files: {}", k, diff(&a, &b)));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

fn named(s: &Spec) -> BTreeSet<String> {
    s.defs.iter().filter(|d| d.kind == Kind::Type).map(|d| type_ident(&d.name)).collect()
}

fn first_diff(a: &[String], b: &[String]) -> String {
    for x in a {
        if !b.contains(x) {
            let key = x.split(' ').next().unwrap_or("");
            let other = b.iter().find(|y| y.split(' ').next() == Some(key));
            return format!("{} / {}", x.chars().take(700).collect::<String>(), other.map_or("nothing".into(), |y| y.chars().take(700).collect::<String>()));
        }
    }
    for y in b {
        if !a.contains(y) {
            return format!("nothing / {}", y.chars().take(700).collect::<String>());
        }
    }
    "different multiplicities".into()
}

fn c02(c: &mut Ctx) -> Res {
    if c.t.chance(1, if c.thorough { 20 } else { 40 }) {
        return if c.t.chance(1, 8) { c02_real(c) } else { c02_part(c) };
    }
    let s = spec(c);
    let broken = if c.t.chance(1, 8) { break_spec(c, &s) } else { None };
    let names = named(&s);
    let files = match &broken {
        Some(b) => b.files.clone(),
        None => bytes(render(&s, &natural(&s))),
    };
    dump(c, &files);
    let r = c.compile(&files, &Scenario::benign());
    if r.unjudged() {
        return Ok(());
    }
    let n = 2 + c.t.idx(3);
    let mut want: Option<Vec<String>> = None;
    for _ in 0..n {
        let other = match &broken {
            Some(b) => {
                let mut f = b.files.clone();
                if c.t.coin() {
                    f.reverse();
                } else {
                    c.t.shuffle(&mut f);
                }
                // packed into fewer files
                while f.len() > 1 && c.t.chance(1, 3) {
                    let last = f.pop().unwrap();
                    let k = f.len() - 1;
                    f[k].1.extend(last.1);
                }
                f
            }
            None => {
                let l = shuffled(c.t, &s);
                c.log(|| format!("layout {:?}", l));
                texts(c, &s, &l)
            }
        };
        let mut sc = Scenario::benign();
        if c.t.coin() {
            sc.hash_mode = 0;
        }
        let o = c.compile(&other, &sc);
        if o.unjudged() {
            continue;
        }
        c.nontrivial = true;
        c.stats.inc("layouts_compared");
        if o.ok() != r.ok() {
            dump(c, &other);
            return viol(
                "status",
                format!("one order ends with {} ({}), another one with {} ({})", r.how(), r.error_line(), o.how(), o.error_line()),
            );
        }
        if !r.ok() || broken.is_some() {
            continue;
        }
        let cb = match shape::parse(&o.stdout) {
            Ok(i) => shape::canonical(&i, &names),
            Err(e) => return viol("bindings", format!("bindings do not parse: {}", e)),
        };
        if want.is_none() {
            want = match shape::parse(&r.stdout) {
                Ok(i) => Some(shape::canonical(&i, &names)),
                Err(e) => return viol("bindings", format!("bindings do not parse: {}", e)),
            };
        }
        let ca = want.as_ref().unwrap();
        if *ca != cb {
            dump(c, &other);
            return viol("bindings", format!("another order gives other bindings: {}", first_diff(ca, &cb)));
        }
    }
    Ok(())
}

/// The repository's own specifications: files in another order, and several in one.
fn c02_real(c: &mut Ctx) -> Res {
    let files = match real(c) {
        Some(f) => f,
        None => return Ok(()),
    };
    let mut f = files.clone();
    c.t.shuffle(&mut f);
    while f.len() > 1 && c.t.coin() {
        let last = f.pop().unwrap();
        let k = f.len() - 1;
        f[k].1.push(b'\n');
        f[k].1.extend(last.1);
    }
    let r = c.compile(&files, &Scenario::benign());
    let o = c.compile(&f, &Scenario::benign());
    if r.unjudged() || o.unjudged() {
        return Ok(());
    }
    c.nontrivial = true;
    if o.ok() != r.ok() {
        return viol("status", format!("one order of files ends with {}, another one with {} ({})", r.how(), o.how(), o.error_line()));
    }
    if !r.ok() {
        return Ok(());
    }
    let (a, b) = match (shape::parse(&r.stdout), shape::parse(&o.stdout)) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return viol("bindings", format!("bindings do not parse: {:?} {:?}", a.err(), b.err())),
    };
    // names that are not numbered stay names
    let keep = |v: &[shape::Item]| -> BTreeSet<String> {
        v.iter().map(|i| i.name.clone()).filter(|n| shape::bare_name(n) == n.as_str()).collect()
    };
    let (na, nb) = (keep(&a), keep(&b));
    if na != nb {
        let d: Vec<_> = na.symmetric_difference(&nb).take(5).collect();
        return viol("bindings", format!("types in only one of two orders of the files: {:?}", d));
    }
    let (ca, cb) = (shape::canonical(&a, &na), shape::canonical(&b, &nb));
    if ca != cb {
        return viol("bindings", format!("another order of files gives other bindings: {}", first_diff(&ca, &cb)));
    }
    Ok(())
}

/// A part of a specification of the repository in several layouts.
fn c02_part(c: &mut Ctx) -> Res {
    let (k, keep) = match cut(c) {
        Some(x) => x,
        None => return Ok(()),
    };
    let files = cut_text(c, k, &keep, false);
    dump(c, &files);
    let names: BTreeSet<String> = reading(&files)?.env.types.iter().map(|t| type_ident(&t.0)).collect();
    let r = c.compile(&files, &Scenario::benign());
    if r.unjudged() {
        return Ok(());
    }
    let want = shape::parse(&r.stdout).map(|i| shape::canonical(&i, &names));
    for _ in 0..2 {
        let other = cut_text(c, k, &keep, true);
        let mut sc = Scenario::benign();
        sc.hash_mode = 0;
        let o = c.compile(&other, &sc);
        if o.unjudged() {
            continue;
        }
        c.nontrivial = true;
        c.stats.inc("layouts_compared");
        if o.ok() != r.ok() {
            dump(c, &other);
            return viol("status", format!("one order ends with {} ({}), another one with {} ({})", r.how(), r.error_line(), o.how(), o.error_line()));
        }
        if !r.ok() {
            continue;
        }
        match (&want, shape::parse(&o.stdout).map(|i| shape::canonical(&i, &names))) {
            (Ok(a), Ok(b)) if *a == b => {}
            (Ok(a), Ok(b)) => {
                dump(c, &other);
                return viol("bindings", format!("another order gives other bindings: {}", first_diff(a, &b)));
            }
            (a, b) => return viol("bindings", format!("bindings do not parse: {:?} {:?}", a.as_ref().err(), b.err())),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

/// The definitions of a specification that are in `keep`, which holds all they refer to.
fn part_of(s: &Spec, keep: &BTreeSet<usize>) -> Spec {
    let at: Vec<usize> = keep.iter().cloned().collect();
    let new = |d: usize| at.binary_search(&d).unwrap();
    let mut o = s.clone();
    o.defs = keep
        .iter()
        .map(|d| {
            let mut d = s.defs[*d].clone();
            d.refs = d.refs.iter().map(|r| new(*r)).collect();
            d
        })
        .collect();
    // modules stay what they were; those without definitions are not rendered
    o.def_of = vec![];
    o
}

/// The order of `full`, for the definitions in `keep` and the modules that have any.
fn layout_of(full: &Spec, l: &Layout, keep: &BTreeSet<usize>) -> Layout {
    let at: Vec<usize> = keep.iter().cloned().collect();
    let mut o = l.clone();
    for v in o.order.iter_mut() {
        *v = v.iter().filter_map(|d| at.binary_search(d).ok()).collect();
    }
    for f in o.files.iter_mut() {
        f.retain(|m| keep.iter().any(|d| full.defs[*d].module == *m));
    }
    o.files.retain(|f| !f.is_empty());
    o
}

/// One stage of the growth of a specification: its files and the types it has.
struct Stage {
    files: Files,
    names: BTreeSet<String>,
}

/// A specification grows: what it had keeps its bindings.
fn c20(c: &mut Ctx) -> Res {
    let stages = if c.t.chance(1, if c.thorough { 8 } else { 16 }) { c20_parts(c)? } else { c20_random(c) };
    let mut seen: Vec<(BTreeSet<String>, Vec<String>)> = vec![];
    for (k, st) in stages.iter().enumerate() {
        dump(c, &st.files);
        let mut sc = if c.t.chance(1, 4) { Scenario::random(c.t) } else { Scenario::benign() };
        if c.t.coin() {
            sc.hash_mode = 0;
        }
        let o = c.compile(&st.files, &sc);
        if o.unjudged() {
            continue;
        }
        if !o.ok() {
            if seen.is_empty() {
                continue;
            }
            return viol("status", format!("a specification that compiles ({} types) does not any more once it has {} ones: {} ({})",
                seen.last().unwrap().0.len(), st.names.len(), o.how(), o.error_line()));
        }
        let items = match shape::parse(&o.stdout) {
            Ok(i) => i,
            Err(e) => return viol("bindings", format!("bindings do not parse: {}", e)),
        };
        let mine: Vec<String> = shape::canonical(&items, &st.names).into_iter().filter(|l| !l.starts_with('~')).collect();
        for (names, want) in &seen {
            let got: Vec<String> = mine.iter().filter(|l| names.contains(l.split(' ').next().unwrap_or(""))).cloned().collect();
            c.nontrivial = true;
            c.stats.inc("stages_compared");
            c.stats.add("types_compared", names.len() as u64);
            if *want != got {
                return viol("bindings", format!("stage {}: definitions nobody refers to change the bindings of others: {}", k, first_diff(want, &got)));
            }
        }
        seen.push((st.names.clone(), mine));
    }
    Ok(())
}

fn c20_random(c: &mut Ctx) -> Vec<Stage> {
    let s = spec(c);
    let mut l = shuffled(c.t, &s);
    let n = s.defs.len();
    // copies of a definition in other modules: all modules share one name space
    let mut copies: Vec<(usize, usize)> = vec![];
    if s.modules.len() > 1 && c.t.chance(1, 3) {
        for _ in 0..1 + c.t.idx(3) {
            let d = c.t.idx(n);
            let m = c.t.idx(s.modules.len());
            let imported = imports(&s, m).iter().any(|x| x.1.contains(&d));
            if s.defs[d].refs.is_empty() && s.defs[d].module != m && !imported && !copies.contains(&(d, m)) {
                copies.push((d, m));
            }
        }
    }
    let mut keep: BTreeSet<usize> = BTreeSet::new();
    let mut out = vec![];
    for _ in 0..2 + c.t.idx(3) {
        for _ in 0..1 + c.t.idx(4) {
            let mut todo = vec![c.t.idx(n)];
            while let Some(d) = todo.pop() {
                if keep.insert(d) {
                    todo.extend(&s.defs[d].refs);
                }
            }
        }
        out.push(keep.clone());
    }
    out.push((0..n).collect());
    out.dedup();
    let last = out.len() - 1;
    let mut r = vec![];
    for (k, keep) in out.iter().enumerate() {
        // what is there may move as well
        if c.t.chance(1, 4) {
            l = shuffled(c.t, &s);
        }
        let sub = part_of(&s, keep);
        let sl = layout_of(&s, &l, keep);
        r.push(Stage { files: bytes(render(&sub, &sl)), names: named(&sub) });
        if k == last && !copies.is_empty() {
            let mut more = s.clone();
            let mut lm = l.clone();
            for (d, m) in &copies {
                let mut x = s.defs[*d].clone();
                x.module = *m;
                more.defs.push(x);
                let at = c.t.idx(lm.order[*m].len() + 1);
                lm.order[*m].insert(at, more.defs.len() - 1);
            }
            c.stats.inc("stages_with_copies_of_definitions");
            r.push(Stage { files: bytes(render(&more, &lm)), names: named(&s) });
        }
    }
    r
}

/// Parts of a specification of the repository, each a part of the next one.
fn c20_parts(c: &mut Ctx) -> Result<Vec<Stage>, Violation> {
    let (k, mut keep) = match cut(c) {
        Some(x) => x,
        None => return Ok(vec![]),
    };
    let mut r = vec![];
    for _ in 0..3 {
        let order = c.t.coin();
        let files = cut_text(c, k, &keep, order);
        let names = reading(&files)?.env.types.iter().map(|t| type_ident(&t.0)).collect();
        r.push(Stage { files, names });
        let n = [1, 3, 10, 40][c.t.idx(4)];
        let more = c.os.libs[k].1.choose(c.t, n, 250);
        keep.extend(more);
    }
    Ok(r)
}

// ---------------------------------------------------------------- C03

fn errno_for(c: &mut Ctx, kind: usize) -> u64 {
    let v: &[i32] = match kind {
        K_OPEN => &[libc::EACCES, libc::ENOENT, libc::EMFILE, libc::EIO, libc::ELOOP],
        K_READ => &[libc::EIO, libc::EISDIR, libc::ESTALE],
        K_PIPE => &[libc::EMFILE, libc::ENFILE],
        K_SPAWN => &[libc::ENOENT, libc::EACCES, libc::EAGAIN, libc::ENOMEM],
        K_THREAD => &[libc::EAGAIN],
        K_PWRITE => &[libc::EIO, libc::EPIPE],
        K_PREAD => &[libc::EIO],
        K_STDOUT => &[libc::ENOSPC, libc::EPIPE, libc::EIO],
        K_WAIT => &[libc::ECHILD, libc::EINVAL],
        _ => &[libc::ENOMEM],
    };
    v[c.t.idx(v.len())] as u64
}

fn c03(c: &mut Ctx) -> Res {
    let files = if c.t.chance(1, if c.thorough { 20 } else { 40 }) {
        match real_or_part(c) {
            Some(f) => f,
            None => return Ok(()),
        }
    } else {
        let s = spec(c);
        let l = shuffled(c.t, &s);
        texts(c, &s, &l)
    };
    dump(c, &files);
    let r = c.compile(&files, &Scenario::benign());
    if r.unjudged() || !r.ok() {
        return Ok(());
    }
    let n = 3 + c.t.idx(5);
    for _ in 0..n {
        let mut sc = if c.t.coin() { Scenario::random(c.t) } else { Scenario::benign() };
        match c.t.choose(5) {
            0 => {} // nothing but legal behaviour
            1 | 2 => {
                for _ in 0..1 + c.t.idx(2) {
                    let kinds: Vec<usize> = (0..10).filter(|k| r.hdr.hits[*k] > 0).collect();
                    let k = kinds[c.t.idx(kinds.len())];
                    let h = r.hdr.hits[k];
                    // later calls of a kind exist when transfers are short
                    let nth = match c.t.choose(3) {
                        0 => 1 + c.t.choose(h),
                        1 => h - c.t.choose(h.min(4)),
                        _ => 1 + c.t.choose(h + 3),
                    };
                    let e = errno_for(c, k);
                    sc.aims.push((k as u64, nth, e));
                }
            }
            _ => {
                sc.fmt_mode = 3 + c.t.choose(8);
                let l = r.hdr.fmt_in_len;
                sc.fmt_at = match c.t.choose(4) {
                    0 => c.t.choose(l + 1),
                    1 => l,
                    2 => l.saturating_sub(c.t.choose(4)),
                    _ => c.t.choose(3),
                };
            }
        }
        let o = c.compile(&files, &sc);
        if o.unjudged() {
            continue;
        }
        c.nontrivial = true;
        let faults = o.hard_faults();
        c.stats.inc(if faults > 0 { "runs_with_hard_faults" } else { "runs_without_hard_faults" });
        let what = || {
            let mut v: Vec<String> = (0..10)
                .filter(|k| o.hdr.injected[*k] > 0)
                .map(|k| format!("{} failed", KINDS[k]))
                .collect();
            if o.hdr.fmt_fault > 0 {
                v.push(format!("the formatter: {} at {}", MODES[sc.fmt_mode as usize], sc.fmt_at));
            }
            if v.is_empty() {
                v.push("no fault".into());
            }
            v.join(", ")
        };
        if let Some(w) = o.stuck() {
            return viol("stuck", format!("{}: {}", what(), w));
        }
        if o.ok() {
            if o.stdout != r.stdout {
                let (a, b) = (formatted(&r.stdout), formatted(&o.stdout));
                if a != b {
                    return viol("success", format!("{}: success without the complete bindings: {}", what(), diff(&a, &b)));
                }
            }
            if o.hdr.fmt_fault > 0 {
                return viol("success", format!("{}: success although the formatter failed", what()));
            }
            continue;
        }
        if faults == 0 {
            return viol("failure", format!("{} with {} although nothing failed: {}", o.how(), what(), o.error_line()));
        }
        let on_stdout = o.hdr.injected[K_STDOUT] > 0 || o.hdr.injected[K_MALLOC] > 0;
        if !on_stdout && !o.stdout.is_empty() {
            return viol("output", format!("{}: {} but {} octets on standard output: {}", what(), o.how(), o.stdout.len(), head(&o.stdout)));
        }
        if !r.stdout.starts_with(&o.stdout) && !formatted(&r.stdout).starts_with(&formatted(&o.stdout)) {
            return viol("output", format!("{}: {} and other text on standard output: {}", what(), o.how(), diff(&r.stdout, &o.stdout)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

const VOCAB: [&str; 60] = [
    "::=", "{", "}", "(", ")", "[", "]", "[[", "]]", "...", "..", ".", ",", ";", ":", "|", "^", "!", "@", "&", "<", "-", "--",
    "\"", "'", "BEGIN", "END", "DEFINITIONS", "IMPORTS", "FROM", "EXPORTS", "SEQUENCE", "CHOICE", "OF", "SIZE", "INTEGER",
    "ENUMERATED", "BIT STRING", "OCTET STRING", "CLASS", "WITH SYNTAX", "OPTIONAL", "DEFAULT", "UNIQUE", "CONTAINING",
    "SET", "NULL", "Foo", "foo", "&Foo", "&foo", "@foo", "0", "-1", "99999999999999999999999999999999999999999999", "'01'B", "'FF'H",
    "AUTOMATIC TAGS", "MIN", "MAX",
];

fn mangle(c: &mut Ctx, f: &mut Files) -> String {
    if f.is_empty() {
        return "nothing".into();
    }
    let k = c.t.idx(f.len());
    let d = &mut f[k].1;
    let n = d.len().max(1);
    match c.t.choose(14) {
        0 => {
            let p = c.t.idx(n);
            d.truncate(p);
            format!("file {} cut at {}", k, p)
        }
        1 => {
            let p = c.t.idx(n);
            if p < d.len() {
                d[p] ^= 1 << c.t.idx(8);
            }
            format!("bit flip in file {} at {}", k, p)
        }
        2 => {
            let p = c.t.idx(n);
            let l = c.t.idx(600);
            let e = (p + l).min(d.len());
            for x in &mut d[p.min(e)..e] {
                *x = 0;
            }
            format!("zeros in file {} at {}..{}", k, p, e)
        }
        3 => {
            let p = c.t.idx(n);
            let l = c.t.idx(600);
            let e = (p + l).min(d.len());
            d.drain(p.min(e)..e);
            format!("hole in file {} at {}..{}", k, p, e)
        }
        4 => {
            let (p, q) = (c.t.idx(n), c.t.idx(n));
            let l = c.t.idx(600);
            let e = (p + l).min(d.len());
            let chunk: Vec<u8> = d[p.min(e)..e].to_vec();
            let q = q.min(d.len());
            d.splice(q..q, chunk);
            format!("{} octets of file {} repeated at {}", l, k, q)
        }
        5 | 6 => {
            let s = String::from_utf8_lossy(d).into_owned();
            let mut t: Vec<&str> = s.split(' ').collect();
            for _ in 0..1 + c.t.idx(4) {
                let p = c.t.idx(t.len().max(1)).min(t.len().saturating_sub(1));
                let w = VOCAB[c.t.idx(VOCAB.len())];
                match c.t.choose(3) {
                    0 => t.insert(p, w),
                    1 if !t.is_empty() => t[p] = w,
                    _ if t.len() > 1 => {
                        t.remove(p);
                    }
                    _ => {}
                }
            }
            *d = t.join(" ").into_bytes();
            format!("tokens of file {} changed", k)
        }
        7 => {
            let s = String::from_utf8_lossy(d).into_owned();
            let mut t: Vec<&str> = s.split(' ').collect();
            let (p, q) = (c.t.idx(t.len()), c.t.idx(t.len()));
            t.swap(p, q);
            *d = t.join(" ").into_bytes();
            format!("two tokens of file {} swapped", k)
        }
        8 => {
            // soup
            let n = 1 + c.t.idx(200);
            let mut s = String::from("M DEFINITIONS ::= BEGIN\n");
            for _ in 0..n {
                s += VOCAB[c.t.idx(VOCAB.len())];
                s.push([' ', '\n', ' ', ' '][c.t.idx(4)]);
            }
            s += "END\n";
            *d = s.into_bytes();
            format!("{} random tokens", n)
        }
        9 => {
            // depth
            let n = [10, 100, 400, 2000][c.t.idx(4)];
            let (o, e) = [
                ("SEQUENCE { a ", " }"),
                ("SEQUENCE OF ", ""),
                ("CHOICE { a ", " }"),
                ("SEQUENCE ( SIZE ( 1 .. 2 ) ) OF ", ""),
                ("( ", " )"),
                ("{ ", " }"),
                ("[ ", " ]"),
            ][c.t.idx(7)];
            let s = format!("M DEFINITIONS ::= BEGIN\nA ::= {}INTEGER{}\nEND\n", o.repeat(n), e.repeat(n));
            *d = s.into_bytes();
            format!("{} times {:?}", n, o)
        }
        10 => {
            // long
            let n = [1000, 20000, 200000][c.t.idx(3)];
            let w = ["A", "9", "-", "'0", "\"x", "--", "/*", "\r", "é", "&a", "@a.", "...", "\u{0}"][c.t.idx(13)];
            let p = c.t.idx(n).min(d.len());
            let long: Vec<u8> = w.repeat(n / w.len()).into_bytes();
            d.splice(p..p, long);
            format!("{} octets of {:?} in file {}", n, w, k)
        }
        11 => {
            let m = c.t.idx(400);
            let s = c.t.choose(1 << 20) + 1;
            *d = simcore::gen::fill(s, m);
            format!("file {} is {} random octets", k, m)
        }
        12 => {
            let t = ["", "\u{feff}", "END", "--", "\"", "'", "M DEFINITIONS ::= BEGIN", "M DEFINITIONS ::= BEGIN END END", "\n\n\r\r"][c.t.idx(9)];
            *d = t.as_bytes().to_vec();
            format!("file {} is {:?}", k, t)
        }
        _ => {
            // lines in another order
            let s = String::from_utf8_lossy(d).into_owned();
            let mut l: Vec<&str> = s.split('\n').collect();
            let (p, q) = (c.t.idx(l.len()), c.t.idx(l.len()));
            l.swap(p, q);
            *d = l.join("\n").into_bytes();
            format!("two lines of file {} swapped", k)
        }
    }
}

fn c04(c: &mut Ctx) -> Res {
    let mut files = if c.t.chance(1, if c.thorough { 20 } else { 40 }) {
        match real_or_part(c) {
            Some(f) => f,
            None => return Ok(()),
        }
    } else {
        let s = spec(c);
        let broken = if c.t.chance(1, 6) { break_spec(c, &s) } else { None };
        match broken {
            Some(b) => b.files,
            None => {
                let l = shuffled(c.t, &s);
                texts(c, &s, &l)
            }
        }
    };
    let n = c.t.idx(4);
    for _ in 0..n {
        let what = mangle(c, &mut files);
        c.stats.inc("fault.stored_file_corrupted");
        c.log(|| format!("storage: {}", what));
    }
    dump(c, &files);
    let size: usize = files.iter().map(|f| f.1.len()).sum();
    let runs = if n == 0 { 3 } else { 1 + c.t.idx(2) };
    for _ in 0..runs {
        let mut sc = Scenario::random(c.t);
        sc.pipe_cap = [1, 7, 61, 512, 4096, 65536, 1 << 20][c.t.idx(7)];
        if size > 100_000 {
            sc.pipe_cap = sc.pipe_cap.max(4096);
        }
        sc.fmt_chunk = [1, 13, 1000, 65536][c.t.idx(4)].max(if size > 100_000 { 1000 } else { 1 });
        if c.t.chance(1, 4) {
            sc.fmt_mode = 3 + c.t.choose(8);
            sc.fmt_at = c.t.choose(60000);
        }
        let o = c.compile(&files, &sc);
        if o.unjudged() {
            continue;
        }
        c.nontrivial = true;
        if let Some(w) = o.stuck() {
            return viol("stuck", format!("{} ({} octets of specification): {}", w, size, o.error_line()));
        }
        // what a run may need: a fixed part and a part for each octet
        let limit = 64 * 1024 + (size as u64 * 24) + o.hdr.fmt_in_len * 8 / 1024;
        if o.hdr.hwm_kb > limit || o.out_of_memory() {
            return viol("memory", format!("{} KB for {} octets of specification: {}", o.hdr.hwm_kb, size, o.error_line()));
        }
        let m = c.stats.c.entry("max.memory_kb".into()).or_insert(0);
        *m = (*m).max(o.hdr.hwm_kb);
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

fn complete(s: &Spec, out: &[u8]) -> Result<usize, String> {
    let items = shape::parse(out).map_err(|e| format!("the bindings do not parse: {}", e))?;
    let tw = shape::twice(&items);
    if !tw.is_empty() {
        return Err(format!("{:?} defined more than once", tw));
    }
    let mut n = 0;
    for d in s.defs.iter().filter(|d| d.kind == Kind::Type) {
        let id = type_ident(&d.name);
        let k = items.iter().filter(|i| i.name == id).count();
        if k != 1 {
            return Err(format!("type {} ({}) is there {} times", d.name, id, k));
        }
        n += 1;
    }
    shape::Judge::new(&s.env, &items).members()?;
    Ok(n)
}

fn c05(c: &mut Ctx) -> Res {
    if c.t.chance(1, if c.thorough { 10 } else { 20 }) {
        return if c.t.chance(1, 15) { c05_real(c) } else { c05_part(c) };
    }
    let s = spec(c);
    if c.t.chance(2, 3) {
        if let Some(b) = break_spec(c, &s) {
            dump(c, &b.files);
            let mut sc = Scenario::benign();
            sc.hash_mode = 0;
            let o = c.compile(&b.files, &sc);
            if o.unjudged() {
                return Ok(());
            }
            c.nontrivial = true;
            c.stats.inc("broken_specifications");
            if o.ok() {
                if b.strict {
                    return viol("accepted", format!("success although {}", b.why));
                }
                if let Err(e) = complete(&s, &o.stdout) {
                    return viol("bindings", format!("{}: {}", b.why, e));
                }
                // every added type has to be there as well
                let items = shape::parse(&o.stdout).unwrap_or_default();
                for t in b.why.split(": ").nth(1).unwrap_or("").split(" / ") {
                    let n = t.split(' ').next().unwrap_or("");
                    if items.iter().filter(|i| i.name == type_ident(n)).count() != 1 {
                        return viol("bindings", format!("{}: {} is not there exactly once", b.why, n));
                    }
                }
            } else if !o.stdout.is_empty() {
                return viol("output", format!("{}: {} but there are bindings: {}", b.why, o.how(), head(&o.stdout)));
            }
            return Ok(());
        }
    }
    let l = shuffled(c.t, &s);
    let files = texts(c, &s, &l);
    dump(c, &files);
    let mut sc = Scenario::benign();
    sc.hash_mode = 0;
    let o = c.compile(&files, &sc);
    if o.unjudged() {
        return Ok(());
    }
    c.nontrivial = true;
    if !o.ok() {
        return viol("refused", format!("a sound specification is refused: {}", o.error_line()));
    }
    c.stats.inc("sound_specifications");
    match complete(&s, &o.stdout) {
        Ok(n) => {
            c.stats.add("types_found", n as u64);
            Ok(())
        }
        Err(e) => viol("bindings", e),
    }
}

/// The repository's own specifications, whole or without one of their files.
fn c05_real(c: &mut Ctx) -> Res {
    let files = match real(c) {
        Some(f) => f,
        None => return Ok(()),
    };
    // one file lost: the others need it, or it stood alone
    let mut f = files.clone();
    let lost = if c.t.coin() && f.len() > 1 { Some(f.remove(c.t.idx(files.len()))) } else { None };
    let o = c.compile(&f, &Scenario::benign());
    if o.unjudged() {
        return Ok(());
    }
    c.nontrivial = true;
    let lost_name = lost.as_ref().map(|l| String::from_utf8_lossy(&l.1).lines().map(|l| l.trim().to_string()).find(|l| !l.is_empty() && !l.starts_with("--")).unwrap_or_default());
    if let Some(n) = &lost_name {
        let n = n.split_whitespace().next().unwrap_or("");
        let needed = f.iter().any(|x| {
            let t = String::from_utf8_lossy(&x.1).into_owned();
            t.contains(&format!("FROM {}", n))
        });
        if o.ok() && needed {
            return viol("accepted", format!("success although module {} was lost", n));
        }
        return Ok(());
    }
    if !o.ok() {
        return viol("refused", format!("{}: {}", o.how(), o.error_line()));
    }
    let items = match shape::parse(&o.stdout) {
        Ok(i) => i,
        Err(e) => return viol("bindings", format!("the bindings do not parse: {}", e)),
    };
    let tw = shape::twice(&items);
    if !tw.is_empty() {
        return viol("bindings", format!("{:?} defined more than once", tw));
    }
    let rd = reading(&f)?;
    if let Err(e) = shape::Judge::new(&rd.env, &items).members() {
        return viol("bindings", e);
    }
    c.stats.add("types_found", rd.env.types.len() as u64);
    Ok(())
}

/// A part of a specification of the repository, sometimes without a definition it needs.
fn c05_part(c: &mut Ctx) -> Res {
    let (k, keep) = match cut(c) {
        Some(x) => x,
        None => return Ok(()),
    };
    let all: Vec<&asn1::Name> = keep.iter().collect();
    let gone = if c.t.coin() { Some(all[c.t.idx(all.len())].clone()) } else { None };
    let mut kept = keep.clone();
    if let Some(g) = &gone {
        kept.remove(g);
        if !c.os.libs[k].1.needed(&kept, g) {
            return Ok(());
        }
    }
    let files = cut_text(c, k, &kept, true);
    dump(c, &files);
    let mut sc = Scenario::benign();
    sc.hash_mode = 0;
    let o = c.compile(&files, &sc);
    if o.unjudged() {
        return Ok(());
    }
    c.nontrivial = true;
    if let Some(g) = &gone {
        c.stats.inc("fault.definition_of_the_repository_lost");
        if o.ok() {
            return viol("accepted", format!("success although {} was lost", g.1));
        }
        if !o.stdout.is_empty() {
            return viol("output", format!("{} was lost: {} but there are bindings: {}", g.1, o.how(), head(&o.stdout)));
        }
        return Ok(());
    }
    if !o.ok() {
        return viol("refused", format!("{}: {}", o.how(), o.error_line()));
    }
    let items = match shape::parse(&o.stdout) {
        Ok(i) => i,
        Err(e) => return viol("bindings", format!("the bindings do not parse: {}", e)),
    };
    let tw = shape::twice(&items);
    if !tw.is_empty() {
        return viol("bindings", format!("{:?} defined more than once", tw));
    }
    let rd = reading(&files)?;
    if let Err(e) = shape::Judge::new(&rd.env, &items).members() {
        return viol("bindings", e);
    }
    c.stats.add("types_found", rd.env.types.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------- C06

fn c06(c: &mut Ctx) -> Res {
    let (mut files, spans): (Files, Vec<(usize, usize, usize)>) = if c.t.chance(1, if c.thorough { 20 } else { 40 }) {
        let f = match real_or_part(c) {
            Some(f) => f,
            None => return Ok(()),
        };
        // files that hold one module: from its first token to the last END
        let mut v = vec![];
        for (i, x) in f.iter().enumerate() {
            let t = String::from_utf8_lossy(&x.1).into_owned();
            let a = t.find("DEFINITIONS").unwrap_or(0);
            if let Some(e) = t.rfind("END") {
                if t.is_ascii() && t.matches("DEFINITIONS").count() == 1 {
                    v.push((i, a, e + 3));
                }
            }
        }
        (f, v)
    } else {
        let s = spec(c);
        let l = shuffled(c.t, &s);
        let mut files: Files = vec![];
        let mut spans = vec![];
        for (i, ms) in l.files.iter().enumerate() {
            let mut o: Vec<u8> = vec![];
            for m in ms {
                let t = module_text(&s, *m, &l.order[*m], "");
                let t = if c.t.chance(1, 3) { respace(c.t, &t) } else { t };
                let body = t.trim_end().as_bytes();
                spans.push((i, o.len(), o.len() + body.len()));
                o.extend_from_slice(t.as_bytes());
                if c.t.chance(1, 4) {
                    o.extend_from_slice(b"-- between modules: END\n");
                }
            }
            files.push((format!("sim{}.asn1", i), o));
        }
        (files, spans)
    };
    if spans.is_empty() {
        return Ok(());
    }
    // that it compiles whole makes the torn one interesting
    let r = c.compile(&files, &Scenario::benign());
    if r.unjudged() || !r.ok() {
        c.stats.inc("whole_specification_refused");
        return Ok(());
    }
    let whole = files.clone();
    let n = 4 + c.t.idx(8);
    for _ in 0..n {
        files = whole.clone();
        // the last module of a file more often
        let (k, from, to) = spans[c.t.idx(spans.len())];
        if to - from < 2 {
            continue;
        }
        let at = match c.t.choose(6) {
            0 => from + 1 + c.t.idx(to - from - 1),
            1 => to - 1 - c.t.idx((to - from - 1).min(6)),
            2 => from + 1 + c.t.idx((to - from - 1).min(60)),
            3 | 4 => {
                // at a token boundary: what is left can look complete
                let d = &files[k].1;
                let b: Vec<usize> = (from + 1..to).filter(|i| (d[*i] == b' ' || d[*i] == b'\n') && d[*i - 1] != b' ').collect();
                if b.is_empty() {
                    continue;
                }
                b[c.t.idx(b.len())]
            }
            _ => {
                // at the end of a line: only whole definitions are left
                let d = &files[k].1;
                let b: Vec<usize> = (from + 1..to).filter(|i| d[*i - 1] == b'\n').collect();
                if b.is_empty() {
                    continue;
                }
                b[c.t.idx(b.len())]
            }
        };
        let len = files[k].1.len();
        files[k].1.truncate(at);
        c.stats.inc("fault.torn_file");
        let mut how = format!("file {} of {} octets torn at {}", k, len, at);
        if c.t.chance(1, 5) {
            // the length survived, the data did not
            files[k].1.resize(len, 0);
            how += ", the rest reads as zeros";
            c.stats.inc("fault.tail_reads_as_zeros");
        }
        let mut sc = Scenario::benign();
        sc.hash_mode = 0;
        if c.t.chance(1, 4) {
            sc = Scenario::random(c.t);
        }
        let o = c.compile(&files, &sc);
        if o.unjudged() {
            continue;
        }
        c.nontrivial = true;
        if o.ok() {
            let d = &files[k].1;
            let tail = String::from_utf8_lossy(&d[at.saturating_sub(120)..at]).into_owned();
            dump(c, &whole);
            return viol("accepted", format!("{}: success; it ends with {:?}", how, tail));
        }
        if !o.stdout.is_empty() {
            return viol("output", format!("{}: {} but there are bindings: {}", how, o.how(), head(&o.stdout)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

/// A specification of the repository, or a part of one, against an independent reading of the same text.
fn c18_real(c: &mut Ctx) -> Res {
    let files = match real_or_part(c) {
        Some(f) => f,
        None => return Ok(()),
    };
    dump(c, &files);
    let mut sc = Scenario::benign();
    sc.hash_mode = 0;
    let o = c.compile(&files, &sc);
    if o.unjudged() {
        return Ok(());
    }
    c.nontrivial = true;
    if !o.ok() {
        return viol("refused", format!("{}: {}", o.how(), o.error_line()));
    }
    let items = match shape::parse(&o.stdout) {
        Ok(i) => i,
        Err(e) => return viol("bindings", format!("the bindings do not parse: {}", e)),
    };
    let rd = reading(&files)?;
    let mut j = shape::Judge::new(&rd.env, &items);
    if let Err(e) = j.all() {
        return viol("meaning", e);
    }
    let n = j.checked as u64;
    c.stats.add("types_of_the_repository_compared", n);
    Ok(())
}

fn c18(c: &mut Ctx) -> Res {
    if c.t.chance(1, if c.thorough { 10 } else { 20 }) {
        return c18_real(c);
    }
    let st = small_style(c, true);
    let s = generate(c.t, st);
    let l = shuffled(c.t, &s);
    let files = texts(c, &s, &l);
    dump(c, &files);
    let mut sc = Scenario::benign();
    sc.hash_mode = 0;
    let o = c.compile(&files, &sc);
    if o.unjudged() {
        return Ok(());
    }
    c.nontrivial = true;
    if !o.ok() {
        return viol("refused", format!("a sound specification is refused: {}", o.error_line()));
    }
    c.stats.inc("specifications_accepted");
    let items = match shape::parse(&o.stdout) {
        Ok(i) => i,
        Err(e) => return viol("bindings", format!("the bindings do not parse: {}", e)),
    };
    let mut j = shape::Judge::new(&s.env, &items);
    match j.all() {
        Ok(()) => {
            let n = j.checked as u64;
            c.stats.add("types_compared_with_the_model", n);
            Ok(())
        }
        Err(e) => {
            let d = e.split(|x| x == '.' || x == ':').next().unwrap_or("").to_string();
            let text = s.defs.iter().find(|x| x.name == d).map(|x| x.text.clone()).unwrap_or_default();
            viol("meaning", format!("{} -- in {}", e, text))
        }
    }
}
