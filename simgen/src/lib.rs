//! Generates the crates that turn types into simulated nodes.

use quote::ToTokens;
use std::fmt::Write;

fn derives_codec(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path.is_ident("derive") && a.tokens.to_string().contains("AperCodec")
    })
}

fn ty_str(t: &syn::Type) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn inner_of_option(t: &syn::Type) -> Option<String> {
    let s = ty_str(t);
    s.strip_prefix("Option<").and_then(|x| x.strip_suffix('>')).map(|x| x.to_string())
}

fn to_expr(t: &syn::Type, e: &str, octets: bool) -> String {
    let s = ty_str(t);
    if s == "Vec<u8>" && octets {
        format!("Val::Octets({}.clone())", e)
    } else if s.starts_with("Vec<") {
        format!("list_to(&{})", e)
    } else {
        format!("{}.to_val()", e)
    }
}

fn from_expr(t: &syn::Type, e: &str, octets: bool) -> String {
    let s = ty_str(t);
    if s == "Vec<u8>" && octets {
        format!("octets_from({})?", e)
    } else if s.starts_with("Vec<") {
        format!("list_from({})?", e)
    } else {
        format!("SimVal::from_val({})?", e)
    }
}

/// Conversion glue for every type in `src` that derives the codec. Returns (glue, names).
pub fn glue(src: &str, path: &str) -> Result<(String, Vec<String>), String> {
    let file = syn::parse_file(src).map_err(|e| format!("bindings do not parse: {}", e))?;
    let mut o = String::new();
    o += "#![allow(unused_imports, unused_variables, unreachable_patterns, unreachable_code, clippy::all)]\n";
    let _ = writeln!(o, "use {}::*;", path);
    o += "use wirelib::node::*;\nuse wirelib::simcore::model::Val;\n";
    let mut names = vec![];
    let mut seen = std::collections::HashSet::new();
    for it in &file.items {
        let (name, body) = match it {
            syn::Item::Struct(s) if derives_codec(&s.attrs) => {
                let n = s.ident.to_string();
                let body = match &s.fields {
                    syn::Fields::Unit => format!(
                        "fn to_val(&self) -> Val {{ Val::Null }}\n fn from_val(v: &Val) -> Option<Self> {{ if *v == Val::Null {{ Some({}) }} else {{ None }} }}\n",
                        n
                    ),
                    syn::Fields::Unnamed(u) if u.unnamed.len() == 1 => {
                        let t = &u.unnamed[0].ty;
                        format!(
                            "fn to_val(&self) -> Val {{ {} }}\n fn from_val(v: &Val) -> Option<Self> {{ Some({}({})) }}\n",
                            to_expr(t, "self.0", true),
                            n,
                            from_expr(t, "v", true)
                        )
                    }
                    syn::Fields::Unnamed(_) => continue,
                    syn::Fields::Named(f) => {
                        let mut to = String::from("Val::Seq(vec![");
                        let mut from = format!("{} {{", n);
                        for (i, x) in f.named.iter().enumerate() {
                            let id = x.ident.as_ref().unwrap();
                            match inner_of_option(&x.ty) {
                                Some(_) => {
                                    let _ = write!(to, "opt_to(&self.{}),", id);
                                    let _ = write!(from, "{}: opt_from(r.get({}))?,", id, i);
                                }
                                None => {
                                    let _ = write!(to, "Some(self.{}.to_val()),", id);
                                    let _ = write!(from, "{}: fld_from(r.get({}))?,", id, i);
                                }
                            }
                        }
                        to += "], vec![])";
                        from += "}";
                        format!(
                            "fn to_val(&self) -> Val {{ {} }}\n fn from_val(v: &Val) -> Option<Self> {{ match v {{ Val::Seq(r, _) if r.len() == {} => Some({}), _ => None }} }}\n",
                            to,
                            f.named.len(),
                            from
                        )
                    }
                };
                (n, body)
            }
            syn::Item::Enum(e) if derives_codec(&e.attrs) => {
                let n = e.ident.to_string();
                let mut to = String::new();
                let mut from = String::new();
                for v in &e.variants {
                    let id = v.ident.to_string();
                    match &v.fields {
                        syn::Fields::Unnamed(u) if u.unnamed.len() == 1 => {
                            let _ = write!(
                                to,
                                "{}::{}(x) => Val::Named({:?}.into(), Box::new(x.to_val())),",
                                n, id, id
                            );
                            let _ = write!(
                                from,
                                "{:?} => Some({}::{}(SimVal::from_val(x)?)),",
                                id, n, id
                            );
                        }
                        syn::Fields::Unit => {
                            let _ = write!(to, "{}::{} => Val::Named({:?}.into(), Box::new(Val::Null)),", n, id, id);
                            let _ = write!(from, "{:?} => Some({}::{}),", id, n, id);
                        }
                        _ => return Err(format!("unexpected variant {}::{}", n, id)),
                    }
                }
                if e.variants.is_empty() {
                    (
                        n,
                        "fn to_val(&self) -> Val { match *self {} }\n fn from_val(_: &Val) -> Option<Self> { None }\n".to_string(),
                    )
                } else {
                    (
                        n,
                        format!(
                            "fn to_val(&self) -> Val {{ match self {{ {} }} }}\n fn from_val(v: &Val) -> Option<Self> {{ match v {{ Val::Named(n, x) => match n.as_str() {{ {} _ => None }}, _ => None }} }}\n",
                            to, from
                        ),
                    )
                }
            }
            _ => continue,
        };
        if !seen.insert(name.clone()) {
            return Err(format!("type {} is defined twice", name));
        }
        let _ = writeln!(o, "impl SimVal for {} {{\n {}}}", name, body);
        names.push(name);
    }
    o += "pub fn entries() -> Vec<Entry> {\n vec![\n";
    for n in &names {
        let _ = writeln!(o, "  entry::<{}>({:?}),", n, n);
    }
    o += " ]\n}\n";
    Ok((o, names))
}
