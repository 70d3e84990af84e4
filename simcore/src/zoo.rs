//! The zoo: random types, written as Rust types with `#[asn(..)]` attributes the way hampi's users
//! (and its compiler) write them. Model and Rust source come from the same deterministic function.

use crate::gen::*;
use crate::model::*;
use crate::tape::Tape;

/// Builds the model of one shard. Every component is a `Ty::Ref` to an earlier type because the
/// derive macro wants a named type per component.
pub fn build(seed: u64, shard: u64) -> Env {
    let mut t = Tape::gen(seed.wrapping_mul(1000).wrapping_add(shard));
    let t = &mut t;
    let mut env = Env::default();
    let add = |env: &mut Env, ty: Ty| -> usize {
        env.types.push((format!("T{}", env.types.len()), ty));
        env.types.len() - 1
    };
    // fixed leaves every shard has
    let base: Vec<Ty> = vec![
        Ty::Bool,
        Ty::Null,
        Ty::Int { lb: Some(0), ub: Some(255), ext: false },
        Ty::Int { lb: Some(0), ub: Some(65535), ext: false },
        Ty::Enum { root: vec!["e0".into(), "e1".into(), "e2".into()], ext: None },
        Ty::Octets(None),
        Ty::Int { lb: Some(0), ub: Some(7), ext: false },
    ];
    for b in base {
        add(&mut env, b);
    }
    for _ in 0..38 {
        let l = gen_leaf(t);
        add(&mut env, l);
    }
    // non-zero-width pick, for elements of lists
    let pick = |t: &mut Tape, env: &Env| {
        let i = t.idx(env.types.len());
        if min_bits(env, &Ty::Ref(i)) > 6000 {
            5
        } else {
            i
        }
    };
    let pick_nz = |t: &mut Tape, env: &Env| loop {
        let i = t.idx(env.types.len());
        if min_bits(env, &Ty::Ref(i)) > 0 {
            return i;
        }
    };
    let fixed_large = |env: &Env, i: usize| min_bits(env, &Ty::Ref(i)) > 600;
    let mut last_container: Option<usize> = None;
    for n in 0..55 {
        let ty = match if n < 5 { n } else { t.weighted(&[8, 4, 5, 4]) } {
            0 => {
                let count = match t.choose(5) {
                    0 => t.choose(3),
                    4 => 8 + t.choose(12),
                    _ => 1 + t.choose(6),
                };
                let opt = t.choose(4);
                let fields = (0..count)
                    .map(|i| Field {
                        name: format!("f{}", i),
                        ty: Ty::Ref(pick(t, &env)),
                        optional: t.choose(4) < opt,
                        key: false,
                    })
                    .collect();
                Ty::Seq { fields, ext: if t.chance(1, 2) { Some(vec![]) } else { None } }
            }
            1 => {
                let mut i = pick_nz(t, &env);
                while fixed_large(&env, i) {
                    i = pick_nz(t, &env);
                }
                let weight = min_bits(&env, &Ty::Ref(i));
                let small = matches!(env.types[i].1, Ty::Int { .. } | Ty::Bool | Ty::Enum { .. });
                let size = loop {
                    let s = gen_size(t, 1 << 41);
                    let fixed = s.as_ref().map_or(0, |s| s.lb);
                    if small || (fixed <= 8 && fixed as usize * weight <= 600) {
                        break s;
                    }
                };
                Ty::SeqOf { elem: Box::new(Ty::Ref(i)), size }
            }
            2 => {
                let count = match t.choose(8) {
                    7 => 40 + t.choose(30),
                    0 => 1,
                    _ => 1 + t.choose(9),
                };
                let alts = (0..count)
                    .map(|i| Alt { name: format!("a{}", i), ty: Ty::Ref(pick(t, &env)) })
                    .collect();
                let ext = if t.chance(1, 2) {
                    let m = t.choose(3);
                    Some(
                        (0..m)
                            .map(|i| Alt { name: format!("b{}", i), ty: Ty::Ref(pick(t, &env)) })
                            .collect(),
                    )
                } else {
                    None
                };
                Ty::Choice { alts, ext }
            }
            _ => {
                // information-object style container: id, criticality, value
                let (idty, max) = [(2usize, 256u64), (3, 65536), (6, 8)][t.idx(3)];
                let count = 1 + t.choose(8);
                let mut keys: Vec<i128> = vec![];
                while (keys.len() as u64) < count.min(max) {
                    let k = if t.coin() { t.choose(8) } else { t.choose(max) } as i128;
                    if !keys.contains(&k) {
                        keys.push(k);
                    }
                }
                let alts = keys
                    .iter()
                    .map(|k| OpenAlt { key: *k, name: format!("v{}", k), ty: Ty::Ref(pick(t, &env)) })
                    .collect();
                env.types.push((format!("T{}", env.types.len()), Ty::Open(alts)));
                let o = env.types.len() - 1;
                // sometimes another container stands between the key and the value it selects
                let inner = last_container.filter(|_| t.chance(1, 3));
                let mid = match inner {
                    Some(i) => Field { name: "mid".into(), ty: Ty::Ref(i), optional: t.coin(), key: false },
                    None => Field { name: "mid".into(), ty: Ty::Ref(6), optional: t.coin(), key: false },
                };
                let mut fields = vec![
                    Field { name: "id".into(), ty: Ty::Ref(idty), optional: false, key: true },
                    Field { name: "crit".into(), ty: Ty::Ref(4), optional: false, key: false },
                    mid,
                    Field { name: "value".into(), ty: Ty::Ref(o), optional: false, key: false },
                ];
                if t.chance(1, 3) {
                    // pair of open types selected by one key, as in NGAP's field pairs
                    let alts = keys
                        .iter()
                        .map(|k| OpenAlt {
                            key: *k,
                            name: format!("w{}", k),
                            ty: Ty::Ref(pick(t, &env)),
                        })
                        .collect();
                    env.types.push((format!("T{}", env.types.len()), Ty::Open(alts)));
                    let o2 = env.types.len() - 1;
                    fields.push(Field {
                        name: "second".into(),
                        ty: Ty::Ref(o2),
                        optional: false,
                        key: false,
                    });
                }
                if t.chance(1, 4) {
                    fields.push(Field {
                        name: "tail".into(),
                        ty: Ty::Ref(2),
                        optional: t.coin(),
                        key: false,
                    });
                }
                let s = add(&mut env, Ty::Seq { fields, ext: if t.coin() { Some(vec![]) } else { None } });
                last_container = Some(s);
                // and the usual list of them
                let size = [
                    Some(Size { lb: 0, ub: Some(65535), ext: false }),
                    Some(Size { lb: 1, ub: Some(256), ext: false }),
                    Some(Size { lb: 1, ub: Some(8), ext: true }),
                    None,
                ][t.idx(4)]
                .clone();
                Ty::SeqOf { elem: Box::new(Ty::Ref(s)), size }
            }
        };
        // `Ty::Open` types are not usable as ordinary components
        fn uses_open(env: &Env, ty: &Ty) -> bool {
            match ty {
                Ty::Ref(i) => matches!(env.types[*i].1, Ty::Open(_)),
                Ty::Seq { fields, .. } => {
                    fields.iter().any(|f| !fields.iter().any(|g| g.key) && uses_open(env, &f.ty))
                }
                Ty::SeqOf { elem, .. } => uses_open(env, elem),
                Ty::Choice { alts, ext } => {
                    alts.iter().chain(ext.iter().flatten()).any(|a| uses_open(env, &a.ty))
                }
                _ => false,
            }
        }
        let ty = replace_open(&env, ty, &uses_open);
        add(&mut env, ty);
    }
    // open type variants must not be open types themselves
    let opens: Vec<bool> = env.types.iter().map(|(_, t)| matches!(t, Ty::Open(_))).collect();
    for (_, ty) in env.types.iter_mut() {
        if let Ty::Open(alts) = ty {
            for a in alts {
                if let Ty::Ref(i) = a.ty {
                    if opens[i] {
                        a.ty = Ty::Ref(5);
                    }
                }
            }
        }
    }
    env
}

fn replace_open(env: &Env, ty: Ty, uses_open: &dyn Fn(&Env, &Ty) -> bool) -> Ty {
    if !uses_open(env, &ty) {
        return ty;
    }
    let fix = |t: &Ty| if uses_open(env, t) { Ty::Ref(5) } else { t.clone() };
    match ty {
        Ty::Seq { fields, ext } => Ty::Seq {
            fields: fields.into_iter().map(|f| Field { ty: fix(&f.ty), ..f }).collect(),
            ext,
        },
        Ty::SeqOf { elem, size } => Ty::SeqOf { elem: Box::new(fix(&elem)), size },
        Ty::Choice { alts, ext } => Ty::Choice {
            alts: alts.into_iter().map(|a| Alt { ty: fix(&a.ty), ..a }).collect(),
            ext: ext.map(|e| e.into_iter().map(|a| Alt { ty: fix(&a.ty), ..a }).collect()),
        },
        t => t,
    }
}

fn size_attr(s: &Option<Size>) -> String {
    match s {
        None => String::new(),
        Some(s) => {
            let mut o = String::new();
            if s.lb > 0 || s.ub.is_some() {
                o += &format!(", sz_lb = \"{}\"", s.lb);
            }
            if let Some(u) = s.ub {
                o += &format!(", sz_ub = \"{}\"", u);
            }
            if s.ext {
                o += ", sz_extensible = true";
            }
            o
        }
    }
}

fn int_rust(lb: Option<i128>, ub: Option<i128>, salt: usize) -> &'static str {
    match (lb, ub) {
        (Some(l), Some(u)) if l >= 0 => {
            if u <= 255 {
                "u8"
            } else if u <= 65535 {
                "u16"
            } else if u <= u32::MAX as i128 {
                "u32"
            } else {
                "u64"
            }
        }
        (Some(l), Some(u)) => {
            if l >= -128 && u <= 127 {
                "i8"
            } else if l >= -32768 && u <= 32767 {
                "i16"
            } else if l >= i32::MIN as i128 && u <= i32::MAX as i128 {
                "i32"
            } else {
                "i64"
            }
        }
        (Some(l), None) if l >= 0 => ["u64", "u8", "i128", "u32"][salt % 4],
        _ => ["i64", "i128", "i16", "i64"][salt % 4],
    }
}

pub fn emit(env: &Env) -> String {
    let mut o = String::new();
    o += "#![allow(dead_code, unreachable_patterns, unused_imports, non_camel_case_types, unused_mut, unused_variables)]\n";
    o += "use bitvec::vec::BitVec;\nuse bitvec::order::Msb0;\nuse asn1_codecs_derive::AperCodec;\n";
    let tn = |t: &Ty| match t {
        Ty::Ref(i) => env.types[*i].0.clone(),
        _ => unreachable!(),
    };
    for (n, (name, ty)) in env.types.iter().enumerate() {
        o += "#[derive(Debug, AperCodec)]\n";
        match ty {
            Ty::Bool => o += &format!("#[asn(type = \"BOOLEAN\")]\npub struct {}(pub bool);\n", name),
            Ty::Small | Ty::Oid => unreachable!(),
            Ty::Null => o += &format!("#[asn(type = \"NULL\")]\npub struct {};\n", name),
            Ty::Int { lb, ub, ext } => {
                let mut a = String::new();
                if let Some(l) = lb {
                    a += &format!(", lb = \"{}\"", l);
                }
                if let Some(u) = ub {
                    a += &format!(", ub = \"{}\"", u);
                }
                if *ext {
                    a += ", extensible = true";
                }
                o += &format!(
                    "#[asn(type = \"INTEGER\"{})]\npub struct {}(pub {});\n",
                    a,
                    name,
                    int_rust(*lb, *ub, n)
                );
            }
            Ty::Enum { root, ext } => {
                let e = if ext.is_some() { ", extensible = true" } else { "" };
                let r = ["u8", "u8", "u16", "i16"][n % 4];
                o += &format!(
                    "#[asn(type = \"ENUMERATED\"{}, lb = \"0\", ub = \"{}\")]\npub struct {}(pub {});\n",
                    e,
                    root.len() - 1,
                    name,
                    r
                );
            }
            Ty::Bits(s) => {
                o += &format!(
                    "#[asn(type = \"BITSTRING\"{})]\npub struct {}(pub BitVec<u8, Msb0>);\n",
                    size_attr(s),
                    name
                )
            }
            Ty::Octets(s) => {
                o += &format!(
                    "#[asn(type = \"OCTET-STRING\"{})]\npub struct {}(pub Vec<u8>);\n",
                    size_attr(s),
                    name
                )
            }
            Ty::Str(k, s) => {
                let k = match k {
                    StrKind::Visible => "VisibleString",
                    StrKind::Printable => "PrintableString",
                    StrKind::Utf8 => "UTF8String",
                };
                o += &format!(
                    "#[asn(type = \"{}\"{})]\npub struct {}(pub String);\n",
                    k,
                    size_attr(s),
                    name
                )
            }
            Ty::Seq { fields, ext } => {
                let nopt = fields.iter().filter(|f| f.optional).count();
                o += &format!("#[asn(type = \"SEQUENCE\", extensible = {}", ext.is_some());
                if nopt > 0 {
                    o += &format!(", optional_fields = {}", nopt);
                }
                o += &format!(")]\npub struct {} {{\n", name);
                let mut oi = 0;
                for f in fields {
                    if f.optional {
                        o += &format!(
                            "  #[asn(optional_idx = {})] pub {}: Option<{}>,\n",
                            oi,
                            f.name,
                            tn(&f.ty)
                        );
                        oi += 1;
                    } else if f.key {
                        o += &format!("  #[asn(key_field = true)] pub {}: {},\n", f.name, tn(&f.ty));
                    } else {
                        o += &format!("  pub {}: {},\n", f.name, tn(&f.ty));
                    }
                }
                o += "}\n";
            }
            Ty::SeqOf { elem, size } => {
                o += &format!(
                    "#[asn(type = \"SEQUENCE-OF\"{})]\npub struct {}(pub Vec<{}>);\n",
                    size_attr(size),
                    name,
                    tn(elem)
                )
            }
            Ty::Choice { alts, ext } => {
                o += &format!(
                    "#[asn(type = \"CHOICE\", lb = \"0\", ub = \"{}\", extensible = {})]\npub enum {} {{\n",
                    alts.len() - 1,
                    ext.is_some(),
                    name
                );
                for (i, a) in alts.iter().enumerate() {
                    o += &format!(
                        "  #[asn(key = {}, extended = false)] {}({}),\n",
                        i,
                        variant_ident(&a.name),
                        tn(&a.ty)
                    );
                }
                for (i, a) in ext.iter().flatten().enumerate() {
                    o += &format!(
                        "  #[asn(key = {}, extended = true)] {}({}),\n",
                        i,
                        variant_ident(&a.name),
                        tn(&a.ty)
                    );
                }
                o += "}\n";
            }
            Ty::Open(alts) => {
                o += &format!("#[asn(type = \"OPEN\")]\npub enum {} {{\n", name);
                for a in alts {
                    o += &format!("  #[asn(key = {})] {}({}),\n", a.key, variant_ident(&a.name), tn(&a.ty));
                }
                o += "}\n";
            }
            Ty::Ref(_) => unreachable!(),
        }
    }
    o
}
