//! Applies byte diffs. Cases and records as in exec_text, items are bytes.

use harness::*;
use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::Statistics;
use pw_diff_lib::byte_diff::{ByteChangeClump, ByteChangeDiff};
use pw_diff_lib::changes::Changes;
use pw_diff_lib::sequence::Seq;
use std::fs::File;
use std::path::Path;

struct Clumps<'a>(&'a [ByteChangeClump]);

impl<'a> ApplyClumpsClean<'_, ByteChangeClump> for Clumps<'a> {
    fn clumps<'b>(&'b self) -> impl Iterator<Item = &'b ByteChangeClump>
    where
        ByteChangeClump: 'b,
    {
        self.0.iter()
    }
}

fn clump(x: &ByteChangeClump) -> Value {
    json!({"bs": x.before(false).start, "b": x.before(false).items.to_vec(),
           "as": x.after(false).start, "a": x.after(false).items.to_vec()})
}

fn counts(s: &Statistics) -> Value {
    json!([s.clean, s.fuzzy, s.already_applied, s.already_applied_fuzzy, s.failed])
}

fn main() {
    execute(|case| {
        let c = case["c"].as_u64().unwrap() as u8;
        if case["k"] == "ap" {
            let changes = Changes::<u8>::new(
                Seq::<u8>::from(bytes(&case["_b"])),
                Seq::<u8>::from(bytes(&case["_a"])),
            );
            let rev = case["rev"].as_bool().unwrap();
            let clumps: Vec<ByteChangeClump> =
                changes.change_clumps(c).map(ByteChangeClump::from).collect();
            let p = Seq::<u8>::from(bytes(&case["p"]));
            let from = if clumps.len() > 8 { clumps.len() } else { 0 };
            let mut runs = vec![];
            for n in from..=clumps.len() {
                let mut out = Vec::<u8>::new();
                let st = Clumps(&clumps[..n]).apply_into(&p, &mut out, rev).expect("writing to memory");
                runs.push(json!({"n": n, "out": out, "st": counts(&st)}));
            }
            let aa = Clumps(&clumps).already_applied(&p, rev);
            vec![
                ("cl".into(), Value::Array(clumps.iter().map(clump).collect())),
                ("runs".into(), Value::Array(runs)),
                ("aa".into(), json!(aa)),
            ]
        } else {
            std::fs::write("b", bytes(&case["b"])).unwrap();
            std::fs::write("a", bytes(&case["a"])).unwrap();
            let diff = ByteChangeDiff::new(Path::new("b"), Path::new("a"), c).expect("diff");
            let b = Seq::<u8>::read(File::open("b").unwrap()).expect("read");
            let a = Seq::<u8>::read(File::open("a").unwrap()).expect("read");
            let mut fout = Vec::<u8>::new();
            let fst = diff.apply_into(&b, &mut fout, false).expect("writing to memory");
            let mut rout = Vec::<u8>::new();
            let rst = diff.apply_into(&a, &mut rout, true).expect("writing to memory");
            vec![
                ("cl".into(), Value::Array(diff.clumps().map(clump).collect())),
                ("fout".into(), json!(fout)),
                ("fst".into(), counts(&fst)),
                ("rout".into(), json!(rout)),
                ("rst".into(), counts(&rst)),
                ("faa".into(), json!(diff.already_applied(&a, false))),
                ("raa".into(), json!(diff.already_applied(&b, true))),
            ]
        }
    });
}
