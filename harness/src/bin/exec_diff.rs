//! Diffs of files, stored and loaded.
//! case {k: "new", nb, na: paths, fb, fa: null (absent) | "dir" | "loop" | bytes, c, _ps:
//! files to apply to}: the diff of the two paths. record: v (what it is), left
//! (what is in the directory afterwards: path, bytes), doc (_doc: 1: the stored
//! form as it is), v2, same (the loaded diff stored again is the same), ap, ap2
//! (what applying both comes to).
//! case {k: "load", _doc: document as bytes}: record v or "refused".
//! case {k: "any", _doc, _p: bytes, rev}: record v and, of changes, p, what applying it
//! comes to (out), its counts (st) and whether it is already applied (aa).

use harness::*;
use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::{ApplyClumpsFuzzy, Statistics, TextClumpBasics};
use pw_diff_lib::diff::Diff;
use pw_diff_lib::sequence::Seq;
use std::path::Path;

fn path(p: &Path) -> Value {
    json!(enc(&p.to_string_lossy()))
}

/// numbers that TLC does not have are all the same
fn top(n: usize) -> usize {
    n.min(1_000_000_000)
}

fn counts(s: &Statistics) -> Value {
    json!([s.clean, s.fuzzy, s.already_applied, s.already_applied_fuzzy, s.failed])
}

fn view(d: &Diff) -> Value {
    match d {
        Diff::TextChange(x) => {
            let cl: Vec<Value> = x
                .clumps()
                .map(|x| {
                    let (c0, c1) = x.context_lengths();
                    json!({"bs": top(x.before(false).start), "b": enc_lines(x.before(false).items.iter()),
                           "as": top(x.after(false).start), "a": enc_lines(x.after(false).items.iter()),
                           "c0": c0, "c1": c1})
                })
                .collect();
            json!({"kind": "TextChange", "bp": path(x.before_path()), "ap": path(x.after_path()), "cl": cl})
        }
        Diff::ByteChange(x) => {
            let cl: Vec<Value> = x
                .clumps()
                .map(|x| {
                    json!({"bs": top(x.before(false).start), "b": x.before(false).items.to_vec(),
                           "as": top(x.after(false).start), "a": x.after(false).items.to_vec()})
                })
                .collect();
            json!({"kind": "ByteChange", "bp": path(x.before_path()), "ap": path(x.after_path()), "cl": cl})
        }
        Diff::TextAdd(x) | Diff::TextRemove(x) => {
            let mut out = vec![];
            x.write_into(&mut out).expect("writing to memory");
            let kind = if matches!(d, Diff::TextAdd(_)) { "TextAdd" } else { "TextRemove" };
            json!({"kind": kind, "path": path(x.path()), "content": out})
        }
        Diff::ByteAdd(x) | Diff::ByteRemove(x) => {
            let mut out = vec![];
            x.write_into(&mut out).expect("writing to memory");
            let kind = if matches!(d, Diff::ByteAdd(_)) { "ByteAdd" } else { "ByteRemove" };
            json!({"kind": kind, "path": path(x.path()), "content": out})
        }
    }
}

fn applied(d: &Diff, p: &[u8]) -> Value {
    let mut res = vec![];
    for rev in [false, true] {
        let mut out = vec![];
        match d {
            Diff::TextChange(x) => {
                if let Ok(s) = std::str::from_utf8(p) {
                    let p = Seq::<String>::from(s.to_string());
                    let st = x.apply_into(&p, &mut out, rev).expect("writing to memory");
                    res.push(json!([out, counts(&st), x.is_already_applied(&p, rev)]));
                }
            }
            Diff::ByteChange(x) => {
                let p = Seq::<u8>::from(p.to_vec());
                let st = x.apply_into(&p, &mut out, rev).expect("writing to memory");
                res.push(json!([out, counts(&st), x.already_applied(&p, rev)]));
            }
            _ => (),
        }
    }
    Value::Array(res)
}

fn put(p: &str, v: &Value) {
    if v == "dir" {
        std::fs::create_dir(p).unwrap();
    } else if v == "loop" {
        std::os::unix::fs::symlink(Path::new(p).file_name().unwrap(), p).unwrap();
    } else if v == "dangling" {
        std::os::unix::fs::symlink("nowhere", p).unwrap();
    } else if v != "absent" {
        std::fs::write(p, bytes(v)).unwrap();
    }
}

/// what is there; `dirs` are the directories made for the files to be in
fn list(dir: &Path, dirs: &[String], v: &mut Vec<(String, Value)>) {
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let t = e.file_type().unwrap();
        let p = e.path();
        let name = p.strip_prefix(".").unwrap().to_string_lossy().to_string();
        if t.is_dir() && dirs.contains(&name) {
            list(&p, dirs, v);
            continue;
        }
        let d = if t.is_dir() {
            json!("dir")
        } else if t.is_symlink() {
            json!(if e.path().read_link().unwrap() == Path::new("nowhere") { "dangling" } else { "loop" })
        } else {
            json!(std::fs::read(e.path()).unwrap())
        };
        v.push((enc(&name), d));
    }
}

fn left(dirs: &[String]) -> Value {
    let mut v = vec![];
    list(Path::new("."), dirs, &mut v);
    v.sort_by(|a, b| a.0.cmp(&b.0));
    Value::Array(v.into_iter().map(|(n, d)| json!({"n": n, "d": d})).collect())
}

fn main() {
    let base = std::env::current_dir().unwrap();
    execute(|case| {
        if case["k"] == "load" {
            let doc = bytes(&case["_doc"]);
            let v = match Diff::from_reader(&mut doc.as_slice()) {
                Ok(d) => view(&d),
                Err(_) => json!({"kind": "refused"}),
            };
            return vec![("v".into(), v)];
        }
        if case["k"] == "any" {
            let doc = bytes(&case["_doc"]);
            let p = bytes(&case["_p"]);
            let rev = case["rev"] == true;
            let d = match Diff::from_reader(&mut doc.as_slice()) {
                Ok(d) => d,
                Err(_) => return vec![("v".into(), json!({"kind": "refused"}))],
            };
            let mut kv = vec![("v".into(), view(&d))];
            let mut out = vec![];
            match &d {
                Diff::TextChange(x) => {
                    let p = Seq::<String>::from(String::from_utf8(p).expect("text"));
                    let st = x.apply_into(&p, &mut out, rev).expect("writing to memory");
                    kv.push(("p".into(), enc_lines(p.iter())));
                    kv.push(("out".into(), enc_out(&out)));
                    kv.push(("st".into(), counts(&st)));
                    kv.push(("aa".into(), json!(x.is_already_applied(&p, rev))));
                }
                Diff::ByteChange(x) => {
                    let s = Seq::<u8>::from(p.clone());
                    let st = x.apply_into(&s, &mut out, rev).expect("writing to memory");
                    kv.push(("p".into(), json!(p)));
                    kv.push(("out".into(), json!(out)));
                    kv.push(("st".into(), counts(&st)));
                    kv.push(("aa".into(), json!(x.already_applied(&s, rev))));
                }
                _ => (),
            }
            return kv;
        }
        // a fresh directory for every case
        let d = base.join("case");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir(&d).unwrap();
        std::env::set_current_dir(&d).unwrap();
        let dirs: Vec<String> = case["_dirs"]
            .as_array()
            .map_or(vec![], |a| a.iter().map(|d| d.as_str().unwrap().to_string()).collect());
        for d in dirs.iter() {
            std::fs::create_dir_all(d).unwrap();
        }
        let (nb, na) = (case["nb"].as_str().unwrap(), case["na"].as_str().unwrap());
        put(nb, &case["fb"]);
        if case["la"] != case["lb"] {
            put(na, &case["fa"]);
        }
        let c = case["c"].as_u64().unwrap() as u8;
        let res = guard(|| {
            let diff = match Diff::new(Path::new(nb), Path::new(na), c) {
                Ok(d) => d,
                Err(e) => {
                    return vec![(
                        "v".into(),
                        json!({"kind": "error", "notfound": e.kind() == std::io::ErrorKind::NotFound}),
                    )]
                }
            };
            let mut kv = vec![("v".into(), view(&diff))];
            let mut doc = vec![];
            diff.to_writer(&mut doc).expect("writing to memory");
            let loaded = Diff::from_reader(&mut doc.as_slice());
            match loaded {
                Ok(loaded) => {
                    let mut doc2 = vec![];
                    loaded.to_writer(&mut doc2).expect("writing to memory");
                    kv.push(("v2".into(), view(&loaded)));
                    kv.push(("same".into(), json!(doc == doc2)));
                    let ps: Vec<Vec<u8>> =
                        case["_ps"].as_array().map_or(vec![], |a| a.iter().map(bytes).collect());
                    kv.push(("ap".into(), Value::Array(ps.iter().map(|p| applied(&diff, p)).collect())));
                    kv.push(("ap2".into(), Value::Array(ps.iter().map(|p| applied(&loaded, p)).collect())));
                }
                Err(_) => kv.push(("v2".into(), json!({"kind": "refused"}))),
            }
            if case["doc"] == 1 {
                kv.push(("doc".into(), json!(doc)));
            }
            kv
        });
        let l = left(&dirs);
        std::env::set_current_dir(&base).unwrap();
        std::fs::remove_dir_all(&d).unwrap();
        match res {
            Ok(mut kv) => {
                kv.push(("left".into(), l));
                kv
            }
            Err(e) => panic!("{}", e),
        }
    });
}
