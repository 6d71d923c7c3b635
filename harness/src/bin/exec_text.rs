//! Applies text diffs.
//! case {k:"ap", _b, _a: lines, c, p: lines, rev}: the clumps of the diff of
//! _b and _a with context c are applied to p, once for every prefix of the
//! clump list (`_full`: only the whole list).
//! record adds cl: [clump..], runs: [{n, out, st}..], aa.
//! case {k:"rt", b, a: lines, c}: the diff of the two files (made from real
//! files) is applied to the first, and in reverse to the second.
//! record adds cl, fout, fst, rout, rst, faa, raa.

use harness::*;
use pw_diff_lib::apply_text::{ApplyClumpsFuzzy, Statistics, TextClumpBasics};
use pw_diff_lib::changes::{ChangeBasics, Changes};
use pw_diff_lib::sequence::Seq;
use pw_diff_lib::text_diff::{TextChangeClump, TextChangeDiff};
use std::fs::File;
use std::path::Path;

struct Clumps<'a>(&'a [TextChangeClump]);

impl<'a> ApplyClumpsFuzzy<TextChangeClump> for Clumps<'a> {
    fn clumps<'b>(&'b self) -> impl Iterator<Item = &'b TextChangeClump>
    where
        TextChangeClump: 'b,
    {
        self.0.iter()
    }
}

fn clump(x: &TextChangeClump) -> Value {
    let (c0, c1) = x.context_lengths();
    json!({"bs": x.before_start(false), "b": enc_lines(x.before_lines(None, false)),
           "as": x.before_start(true), "a": enc_lines(x.before_lines(None, true)),
           "c0": c0, "c1": c1})
}

fn counts(s: &Statistics) -> Value {
    json!([s.clean, s.fuzzy, s.already_applied, s.already_applied_fuzzy, s.failed])
}

fn apply<D: ApplyClumpsFuzzy<TextChangeClump>>(d: &D, p: &Seq<String>, rev: bool) -> (Value, Value) {
    let mut out = Vec::<u8>::new();
    let st = d.apply_into(p, &mut out, rev).expect("writing to memory");
    (enc_out(&out), counts(&st))
}

fn main() {
    execute(|case| {
        if case["k"] == "ap" {
            let changes = Changes::<String>::new(
                Seq::<String>::from(strs(&case["_b"]).concat()),
                Seq::<String>::from(strs(&case["_a"]).concat()),
            );
            let c = case["c"].as_u64().unwrap() as u8;
            let rev = case["rev"].as_bool().unwrap();
            let clumps: Vec<TextChangeClump> =
                changes.change_clumps(c).map(TextChangeClump::from).collect();
            let p = Seq::<String>::from(strs(&case["p"]).concat());
            let from = if case["_full"].as_bool().unwrap_or(false) || clumps.len() > 8 {
                clumps.len()
            } else {
                0
            };
            let mut runs = vec![];
            for n in from..=clumps.len() {
                let (out, st) = apply(&Clumps(&clumps[..n]), &p, rev);
                runs.push(json!({"n": n, "out": out, "st": st}));
            }
            let aa = Clumps(&clumps).is_already_applied(&p, rev);
            vec![
                ("cl".into(), Value::Array(clumps.iter().map(clump).collect())),
                ("runs".into(), Value::Array(runs)),
                ("aa".into(), json!(aa)),
            ]
        } else {
            std::fs::write("b", strs(&case["b"]).concat()).unwrap();
            std::fs::write("a", strs(&case["a"]).concat()).unwrap();
            let c = case["c"].as_u64().unwrap() as u8;
            let diff = TextChangeDiff::new(Path::new("b"), Path::new("a"), c).expect("diff");
            let b = Seq::<String>::read(File::open("b").unwrap()).expect("read");
            let a = Seq::<String>::read(File::open("a").unwrap()).expect("read");
            let (fout, fst) = apply(&diff, &b, false);
            let (rout, rst) = apply(&diff, &a, true);
            vec![
                ("cl".into(), Value::Array(diff.clumps().map(clump).collect())),
                ("fout".into(), fout),
                ("fst".into(), fst),
                ("rout".into(), rout),
                ("rst".into(), rst),
                ("faa".into(), json!(diff.is_already_applied(&a, false))),
                ("raa".into(), json!(diff.is_already_applied(&b, true))),
            ]
        }
    });
}
