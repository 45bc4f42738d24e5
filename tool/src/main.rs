mod contracts;
mod extract;
mod info;
mod inline;
mod specpp;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("extract") => {
            // cbv extract SRC VERIF OUT [threadsafe]
            let src = std::path::Path::new(&a[2]);
            let verif = std::path::Path::new(&a[3]);
            let out = std::path::Path::new(&a[4]);
            let ts = a.get(5).map(|s| s == "threadsafe").unwrap_or(false);
            match extract::run(src, verif, ts) {
                Ok(x) => {
                    std::fs::create_dir_all(out).unwrap();
                    for (n, t) in &x.files {
                        std::fs::write(out.join(n), t).unwrap();
                    }
                    for w in &x.notes {
                        eprintln!("note: {}", w);
                    }
                    let fns: Vec<_> = x
                        .fns
                        .iter()
                        .map(|f| {
                            serde_json::json!({"key": f.key, "file": f.file, "line": f.line, "contracted": f.contracted,
                              "owners": f.owners, "shape_ok": f.shape_ok, "out_start": f.out_start + 1, "out_end": f.out_end + 1,
                              "calls": f.calls, "external": f.external, "nloops": f.nloops, "case": f.case, "split": f.split})
                        })
                        .collect();
                    let v = serde_json::json!({"fns": fns, "missing": x.missing, "unsupported": x.unsupported, "notes": x.notes});
                    std::fs::write(out.join("extract.json"), v.to_string()).unwrap();
                }
                Err(e) => {
                    eprintln!("extract failed: {}", e);
                    std::process::exit(2);
                }
            }
        }
        Some("info") => {
            // cbv info SRC VERIF OUT.json
            let mut c = std::collections::BTreeMap::new();
            let mut files: Vec<_> = std::fs::read_dir(std::path::Path::new(&a[3]).join("contracts"))
                .unwrap()
                .filter_map(|e| e.ok())
                .map(|e| e.path())
                .filter(|p| p.extension().map(|x| x == "ctr").unwrap_or(false))
                .collect();
            files.sort();
            for p in files {
                contracts::parse(&std::fs::read_to_string(p).unwrap(), &mut c).unwrap();
            }
            let keys = c.keys().cloned().collect();
            let mut now = extract::texts_in(std::path::Path::new(&a[2]));
            inline::hoist(&mut now);
            for (old, new) in inline::renamed(&now, &keys, &extract::reference_texts(std::path::Path::new(&a[3]))) {
                let x: contracts::Contract = c[&old].clone();
                c.insert(new, x);
            }
            match info::info(std::path::Path::new(&a[2]), &|k| c.get(k).map(|x| x.owners.clone())) {
                Ok(v) => std::fs::write(&a[4], v.to_string()).unwrap(),
                Err(e) => {
                    eprintln!("info failed: {}", e);
                    std::process::exit(2);
                }
            }
        }
        _ => {
            eprintln!("usage: cbv extract SRC VERIF OUT [threadsafe]");
            std::process::exit(2);
        }
    }
}
