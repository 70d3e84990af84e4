use simgen::glue;
use std::path::Path;

fn put(p: &Path, s: &str) {
    // unchanged files keep their time stamps, so that cargo does not rebuild
    if std::fs::read_to_string(p).ok().as_deref() != Some(s) {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, s).unwrap();
    }
}

/// simgen zoo SEED SHARD FILE_TYPES FILE_GLUE   |   simgen glue FILE_TYPES FILE_GLUE
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("zoo") => {
            let seed: u64 = a[2].parse().unwrap();
            let shard: u64 = a[3].parse().unwrap();
            let env = simcore::zoo::build(seed, shard);
            let src = simcore::zoo::emit(&env);
            let (g, _) = glue(&src, "crate::types").unwrap();
            put(Path::new(&a[4]), &src);
            put(Path::new(&a[5]), &g);
        }
        Some("glue") => {
            let src = std::fs::read_to_string(&a[2]).unwrap();
            match glue(&src, "crate::types") {
                Ok((g, _)) => put(Path::new(&a[3]), &g),
                Err(e) => {
                    println!("{}", e);
                    std::process::exit(1)
                }
            }
        }
        // simgen sample SEED DIR: the specification of a seed
        Some("sample") => {
            let s = simcore::spec::sample(a[2].parse().unwrap());
            for (n, text) in simcore::spec::render(&s, &simcore::spec::natural(&s)) {
                put(&Path::new(&a[3]).join(n), &text);
            }
        }
        // simgen part SPECIFICATION_DIR SEED DIR: a part of a specification
        Some("part") => {
            let mut files: Vec<_> = std::fs::read_dir(&a[2]).unwrap().flatten().map(|e| e.path()).collect();
            files.sort();
            let asn = |p: &std::path::PathBuf| p.extension().map_or(false, |e| e == "asn" || e == "asn1");
            let t: Vec<String> =
                files.iter().filter(|p| asn(p)).map(|p| String::from_utf8_lossy(&std::fs::read(p).unwrap()).into_owned()).collect();
            let l = simcore::asn1::Library::new(&t.iter().map(|x| x.as_str()).collect::<Vec<_>>()).unwrap();
            let mut t = simcore::tape::Tape::gen(simcore::tape::run_seed(a[3].parse().unwrap(), "part", 0, 0));
            let keep = l.choose(&mut t, 90, 250);
            for (i, (n, text)) in l.text(&keep, None).into_iter().enumerate() {
                put(&Path::new(&a[4]).join(format!("{}-{}.asn1", i, n)), &text);
            }
        }
        _ => std::process::exit(2),
    }
}
