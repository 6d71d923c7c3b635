//! Asks the same questions again: repeatedly, in any order, from several threads.
//! case {nq, _qs: [question..], _plan: [[question number..] per thread]} with questions
//!   {k: "diff", fb, fa: bytes or "absent", c}: the diff of two files, stored
//!   {k: "text"|"bytes", b, a, p, c, rev}: applying
//!   {k: "uni", b, a, c}: unified output and what it parses to
//!   {k: "line", l}: a file header line
//! record: ev: [{q: question number, a: answer}..] in the order in which the answers came.

use harness::*;
use pw_cub_diff_lib::unified_diff::{
    after_path_and_time_stamp, before_path_and_time_stamp, UnifiedClumpIter, UnifiedDiffClump,
};
use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::{ApplyClumpsFuzzy, Statistics, TextClumpBasics};
use pw_diff_lib::changes::Changes;
use pw_diff_lib::diff::Diff;
use pw_diff_lib::sequence::Seq;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

fn counts(s: &Statistics) -> Value {
    json!([s.clean, s.fuzzy, s.already_applied, s.already_applied_fuzzy, s.failed])
}

fn put(p: &Path, v: &Value) {
    if v == "absent" {
        let _ = std::fs::remove_file(p);
    } else {
        std::fs::write(p, bytes(v)).unwrap();
    }
}

fn diff(dir: &Path, q: &Value) -> Result<Diff, String> {
    let (b, a) = (dir.join("b"), dir.join("a"));
    put(&b, &q["fb"]);
    put(&a, &q["fa"]);
    Diff::new(&b, &a, q["c"].as_u64().unwrap() as u8).map_err(|e| format!("{:?}", e.kind()))
}

fn answer(dir: &Path, q: &Value) -> Value {
    let rev = q["rev"].as_bool().unwrap_or(false);
    match q["k"].as_str().unwrap() {
        "diff" => match diff(dir, q) {
            Ok(d) => {
                let mut doc = vec![];
                d.to_writer(&mut doc).expect("writing to memory");
                // each thread has a directory of its own
                json!(String::from_utf8(doc).unwrap().replace(&*dir.to_string_lossy(), "DIR"))
            }
            Err(e) => json!(e),
        },
        "apply" => match diff(dir, q) {
            Ok(Diff::TextChange(d)) => {
                let p = Seq::<String>::from(String::from_utf8_lossy(&bytes(&q["p"])).to_string());
                let mut out = vec![];
                let st = d.apply_into(&p, &mut out, rev).expect("writing to memory");
                json!([counts(&st), out, d.is_already_applied(&p, rev)])
            }
            Ok(Diff::ByteChange(d)) => {
                let p = Seq::<u8>::from(bytes(&q["p"]));
                let mut out = vec![];
                let st = d.apply_into(&p, &mut out, rev).expect("writing to memory");
                json!([counts(&st), out, d.already_applied(&p, rev)])
            }
            Ok(_) => json!("other"),
            Err(e) => json!(e),
        },
        "uni" => {
            let changes = Changes::<String>::new(
                Seq::<String>::from(strs(&q["b"]).concat()),
                Seq::<String>::from(strs(&q["a"]).concat()),
            );
            let iter = UnifiedClumpIter {
                before: &changes.before,
                after: &changes.after,
                iter: changes.change_clumps(q["c"].as_u64().unwrap() as u8),
            };
            let mut all = vec![];
            for u in iter {
                let text = format!("{}\n{}", u.header, u.lines.concat());
                let seq = Seq::<String>::from(text.clone());
                let parsed = match UnifiedDiffClump::get_from_at(&seq, 0) {
                    Ok(Some(c)) => {
                        let lines = |r| c.before_lines(None, r).cloned().collect::<Vec<String>>();
                        json!([lines(false), lines(true), c.context_lengths().0, c.lines_consumed])
                    }
                    Ok(None) => json!("none"),
                    Err(_) => json!("error"),
                };
                all.push(json!([text, parsed]));
            }
            Value::Array(all)
        }
        _ => {
            let l = q["l"].as_str().unwrap();
            let show = |x: Option<pw_cub_diff_lib::text_diff::PathAndTimestamp>| {
                x.map(|p| json!([p.file_path, p.time_stamp]))
            };
            json!([show(before_path_and_time_stamp(l)), show(after_path_and_time_stamp(l))])
        }
    }
}

fn main() {
    let base = std::env::current_dir().unwrap();
    execute(|case| {
        let qs = case["_qs"].as_array().unwrap();
        let events = Mutex::new(vec![]);
        std::thread::scope(|s| {
            let mut threads = vec![];
            for (n, plan) in case["_plan"].as_array().unwrap().iter().enumerate() {
                let dir: PathBuf = base.join(format!("t{n}"));
                std::fs::create_dir_all(&dir).unwrap();
                let events = &events;
                threads.push(s.spawn(move || {
                    for i in usizes(plan) {
                        let a = answer(&dir, &qs[i]);
                        events.lock().unwrap().push(json!({"q": i, "a": enc(&a.to_string())}));
                    }
                }));
            }
            for t in threads {
                if let Err(e) = t.join() {
                    std::panic::resume_unwind(e);
                }
            }
        });
        vec![("ev".into(), Value::Array(events.into_inner().unwrap()))]
    });
}
