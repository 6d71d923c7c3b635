//! Unified diffs: parsing, writing, file header lines.
//! case {k: "parse", _text, _at} -> ls, hc, res, b, a, c0, c1, n, s, z (TraceParse.tla)
//! case {k: "emit", _b, _a, c}   -> b, a, us, ps, fout, fst, rout, rst (TraceEmit.tla)
//! case {k: "path", _line}       -> cs, before, after (TracePath.tla)

use harness::*;
use pw_cub_diff_lib::text_diff::PathAndTimestamp;
use pw_cub_diff_lib::unified_diff::{
    after_path_and_time_stamp, before_path_and_time_stamp, UnifiedClumpIter, UnifiedDiffClump,
};
use pw_diff_lib::apply_text::{ApplyClumpFuzzy, ApplyClumpsFuzzy, Statistics, TextClumpBasics};
use pw_diff_lib::changes::{ChangeBasics, Changes};
use pw_diff_lib::range::{Len, Range};
use pw_diff_lib::sequence::Seq;

struct Clump(UnifiedDiffClump);
impl ChangeBasics for Clump {
    fn before_start(&self, r: bool) -> usize {
        self.0.before_start(r)
    }
    fn before_end(&self, r: bool) -> usize {
        self.0.before_end(r)
    }
    fn before_length(&self, r: bool) -> usize {
        self.0.before_length(r)
    }
}
impl TextClumpBasics for Clump {
    fn context_lengths(&self) -> (u8, u8) {
        self.0.context_lengths()
    }
    fn before_lines(&self, range: Option<Range>, reverse: bool) -> impl Iterator<Item = &String> {
        self.0.before_lines(range, reverse)
    }
}
impl ApplyClumpFuzzy for Clump {}

struct Clumps(Vec<Clump>);
impl ApplyClumpsFuzzy<Clump> for Clumps {
    fn clumps<'b>(&'b self) -> impl Iterator<Item = &'b Clump>
    where
        Clump: 'b,
    {
        self.0.iter()
    }
}

fn counts(s: &Statistics) -> Value {
    json!([s.clean, s.fuzzy, s.already_applied, s.already_applied_fuzzy, s.failed])
}

fn codes(s: &str) -> Value {
    json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}

fn digits(n: usize) -> Value {
    json!(n.to_string().bytes().map(|b| b - b'0').collect::<Vec<_>>())
}

fn place(n: usize) -> Value {
    json!(n.min(i32::MAX as usize))
}

fn lines_of(text: &str) -> Vec<String> {
    text.split_inclusive('\n').map(|l| l.to_string()).collect()
}

/// What parsing says; places are only asked for if they can be represented
fn parsed(r: &Result<Option<UnifiedDiffClump>, String>) -> Map<String, Value> {
    let mut m = Map::new();
    match r {
        Err(_) => {
            m.insert("res".into(), json!("error"));
        }
        Ok(None) => {
            m.insert("res".into(), json!("none"));
        }
        Ok(Some(u)) => {
            let h = &u.starts_and_lengths;
            let side = |start: usize, reverse: bool| {
                if start < 1 << 40 {
                    (place(u.before_start(reverse)), place(u.before_end(reverse)))
                } else {
                    (json!(0), json!(0))
                }
            };
            let (old, new) = (side(h.before.start, false), side(h.after.start, true));
            let z = json!([old.0, old.1, new.0, new.1]);
            assert_eq!(u.before_length(false), h.before.length, "length is not the header's");
            assert_eq!(u.before_length(true), h.after.length, "length is not the header's");
            m.insert("res".into(), json!("clump"));
            m.insert("b".into(), enc_lines(u.before_lines(None, false)));
            m.insert("a".into(), enc_lines(u.before_lines(None, true)));
            m.insert("c0".into(), json!(u.context_lengths().0));
            m.insert("c1".into(), json!(u.context_lengths().1));
            m.insert("n".into(), json!(u.lines_consumed));
            m.insert(
                "s".into(),
                json!([digits(h.before.start), digits(h.before.length), digits(h.after.start), digits(h.after.length)]),
            );
            m.insert("z".into(), z);
        }
    }
    m
}

fn parse_at(seq: &Seq<String>, at: usize) -> Result<Option<UnifiedDiffClump>, String> {
    UnifiedDiffClump::get_from_at(seq, at).map_err(|_| String::new())
}

fn path(x: Option<PathAndTimestamp>) -> Value {
    match x {
        None => json!([]),
        Some(p) => json!([codes(&p.file_path), p.time_stamp.map_or(json!([]), |t| codes(&t))]),
    }
}

fn main() {
    execute(|case| match case["k"].as_str().unwrap() {
        "parse" => {
            let text = case["_text"].as_str().unwrap();
            let at = case["_at"].as_u64().unwrap() as usize;
            let lines = lines_of(text);
            let rest = &lines[at.min(lines.len())..];
            let seq = Seq::<String>::from(text.to_string());
            let mut m = parsed(&parse_at(&seq, at));
            m.insert("ls".into(), enc_lines(rest));
            m.insert("hc".into(), codes(rest.first().map_or("", |l| l)));
            m.into_iter().collect()
        }
        "emit" => {
            let (bl, al) = (strs(&case["_b"]), strs(&case["_a"]));
            let c = case["c"].as_u64().unwrap() as u8;
            let changes = Changes::<String>::new(Seq::<String>::from(bl.concat()), Seq::<String>::from(al.concat()));
            let iter = UnifiedClumpIter { before: &changes.before, after: &changes.after, iter: changes.change_clumps(c) };
            let mut doc = String::from("--- b\n+++ a\n");
            let (mut us, mut starts) = (vec![], vec![]);
            for u in iter {
                starts.push(lines_of(&doc).len());
                let body = u.lines.concat();
                us.push(json!({"hc": codes(&u.header), "ls": enc_lines(&lines_of(&body))}));
                doc.push_str(&u.header);
                doc.push('\n');
                doc.push_str(&body);
            }
            let seq = Seq::<String>::from(doc);
            let (mut ps, mut clumps) = (vec![], vec![]);
            for at in starts {
                let r = parse_at(&seq, at);
                ps.push(Value::Object(parsed(&r)));
                if let Ok(Some(u)) = r {
                    clumps.push(Clump(u));
                }
            }
            let clumps = Clumps(clumps);
            let apply = |p: &Vec<String>, rev: bool| {
                let p = Seq::<String>::from(p.concat());
                let mut out = vec![];
                let st = clumps.apply_into(&p, &mut out, rev).expect("writing to memory");
                (enc_out(&out), counts(&st))
            };
            let (fout, fst) = apply(&bl, false);
            let (rout, rst) = apply(&al, true);
            vec![
                ("b".into(), enc_lines(&bl)),
                ("a".into(), enc_lines(&al)),
                ("us".into(), Value::Array(us)),
                ("ps".into(), Value::Array(ps)),
                ("fout".into(), fout),
                ("fst".into(), fst),
                ("rout".into(), rout),
                ("rst".into(), rst),
            ]
        }
        _ => {
            let line = case["_line"].as_str().unwrap();
            vec![
                ("cs".into(), codes(line)),
                ("before".into(), path(before_path_and_time_stamp(line))),
                ("after".into(), path(after_path_and_time_stamp(line))),
            ]
        }
    });
}
