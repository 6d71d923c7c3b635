//! Runs histories of operations on a consumable sequence.
//! case {k: "t"|"y", d: items, ops: [{o, ..}..]} with o one of
//!   "w" write up to n, "s" skip n, "r" write the remainder,
//!   "h" is x a sub sequence at n, "p" the part from n to m (written, read
//!   and extracted; m = length may be left to the sequence).
//! record: ops with c (consumed afterwards), w (items written), y (answers).

use harness::*;
use pw_diff_lib::range::Range;
use pw_diff_lib::sequence::{ConsumableSeq, ConsumableSeqIfce, Seq, WriteDataInto};
use std::fmt::Debug;

fn run<T: PartialEq + Clone + Debug>(
    seq: &Seq<T>,
    ops: &Value,
    item: impl Fn(&Value) -> T,
    item_shown: impl Fn(&T) -> Value,
    show: impl Fn(&[u8]) -> Value,
) -> Value
where
    Seq<T>: WriteDataInto,
{
    let mut pd = ConsumableSeq::<T>::new(seq);
    let mut res = vec![];
    for op in ops.as_array().unwrap() {
        let n = op["n"].as_u64().unwrap_or(0) as usize;
        let mut out = Vec::<u8>::new();
        let mut r = Map::new();
        r.insert("o".into(), op["o"].clone());
        r.insert("n".into(), json!(n));
        match op["o"].as_str().unwrap() {
            "w" => pd.write_into_upto(&mut out, n).expect("writing to memory"),
            "s" => pd.advance_consumed_by(n),
            "r" => pd.write_remainder(&mut out).expect("writing to memory"),
            "h" => {
                let x: Vec<T> = op["x"].as_array().unwrap().iter().map(&item).collect();
                r.insert("x".into(), op["_x"].clone());
                r.insert("y".into(), json!(pd.has_subsequence_at(&x, n)));
                r.insert("y2".into(), json!(seq.has_subsequence_at(&x, n)));
            }
            "p" => {
                let m = op["m"].as_u64().unwrap() as usize;
                r.insert("m".into(), json!(m));
                if m == seq.len() && op["all"] == true {
                    seq.write_into_all_from(&mut out, n).expect("writing to memory");
                } else {
                    seq.write_into(&mut out, Range(n, m)).expect("writing to memory");
                }
                let part = |v: Vec<&T>| Value::Array(v.into_iter().map(&item_shown).collect());
                let from = if m == seq.len() { seq.range_from(n) } else { Range(n, m) };
                r.insert("sub".into(), part(seq.subsequence(from).collect()));
                let back: Vec<&T> = seq.subsequence(Range(n, m)).rev().collect();
                r.insert("back".into(), part(back.into_iter().rev().collect()));
                let x = seq.extract_snippet(Range(n, m));
                r.insert("cut".into(), json!({"start": x.start, "items": part(x.items.iter().collect())}));
            }
            _ => unreachable!(),
        }
        r.insert("w".into(), show(&out));
        r.insert("c".into(), json!(pd.consumed()));
        r.insert("len".into(), json!(pd.data().len()));
        let left = pd.range_from(pd.consumed());
        r.insert("left".into(), json!([left.start(), left.end()]));
        res.push(Value::Object(r));
    }
    Value::Array(res)
}

fn main() {
    execute(|case| {
        // sub sequences are shown encoded in the record
        let mut ops = case["ops"].clone();
        for op in ops.as_array_mut().unwrap() {
            if !op["x"].is_null() {
                let enc_x: Vec<Value> = op["x"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|v| match v.as_str() {
                        Some(s) => json!(enc(s)),
                        None => v.clone(),
                    })
                    .collect();
                op["_x"] = Value::Array(enc_x);
            }
        }
        let res = if case["k"] == "t" {
            let seq = Seq::<String>::from(strs(&case["d"]).concat());
            run(&seq, &ops, |v| v.as_str().unwrap().to_string(), |s| json!(enc(s)), enc_out)
        } else {
            let d = bytes(&case["d"]);
            let seq = if d.len() % 2 == 0 { Seq::<u8>::from(d) } else { Seq::<u8>::from(&d[..]) };
            run(&seq, &ops, |v| v.as_u64().unwrap() as u8, |b| json!(b), |o| json!(o))
        };
        vec![("ops".into(), res)]
    });
}
