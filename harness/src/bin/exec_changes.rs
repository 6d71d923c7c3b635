//! Runs change generation and clumping.
//! case: {k: "t"|"y", b, a: items, cs: [context..], q: [[b0,b1,a0,a1]..]}
//! record adds: ch: [{t,bs,be,as,ae}..], lcs: [[i,j,n]|[]..],
//! cl: [[{bs,be,as,ae,c0,c1,sb,b,sa,a,cores}..] per context]

use harness::*;
use pw_diff_lib::apply_text::TextClumpBasics;
use pw_diff_lib::byte_diff::ByteChangeClump;
use pw_diff_lib::changes::{Change, ChangeBasics, ChangeClump, Changes, ChangesGenerator};
use pw_diff_lib::range::Range;
use pw_diff_lib::sequence::{ByteItemIndices, Seq, StringItemIndices};
use pw_diff_lib::text_diff::TextChangeClump;

fn change(c: &Change) -> Value {
    match c {
        Change::NoChange(s) => json!({"t":"N","bs":s.0,"be":s.0+s.2,"as":s.1,"ae":s.1+s.2}),
        Change::Delete(r, p) => json!({"t":"D","bs":r.0,"be":r.1,"as":p,"ae":p}),
        Change::Insert(p, r) => json!({"t":"I","bs":p,"be":p,"as":r.0,"ae":r.1}),
        Change::Replace(r, s) => json!({"t":"R","bs":r.0,"be":r.1,"as":s.0,"ae":s.1}),
    }
}

fn cores<T: PartialEq + Clone>(c: &ChangeClump<T>) -> Value {
    Value::Array(
        c.changes
            .iter()
            .filter(|c| !matches!(c, Change::NoChange(_)))
            .map(change)
            .collect(),
    )
}

fn clump<T: PartialEq + Clone>(c: &ChangeClump<T>) -> Map<String, Value> {
    let (bs, a_s) = c.starts();
    let (be, ae) = c.ends();
    let (c0, c1) = c.context_lengths();
    let (br, ar) = c.ranges();
    json!({"bs":bs,"be":be,"as":a_s,"ae":ae,"c0":c0,"c1":c1,"cores":cores(c),
           "rs":[br.0,br.1,ar.0,ar.1]})
    .as_object()
    .unwrap()
    .clone()
}

fn queries(case: &Value) -> Vec<Vec<usize>> {
    case["q"].as_array().map_or(vec![], |q| q.iter().map(usizes).collect())
}

fn contexts(case: &Value) -> Vec<u8> {
    usizes(&case["cs"]).iter().map(|c| *c as u8).collect()
}

fn main() {
    execute(|case| {
        let mut lcs = vec![];
        let mut cl = vec![];
        let ch: Vec<Value>;
        let mut put = |r: Option<pw_diff_lib::common_subsequence::CommonSubsequence>| {
            lcs.push(match r {
                Some(s) => json!([s.0, s.1, s.2]),
                None => json!([]),
            })
        };
        if case["k"] == "t" {
            let b = Seq::<String>::from(strs(&case["b"]).concat());
            let a = Seq::<String>::from(strs(&case["a"]).concat());
            let g = ChangesGenerator::<String, StringItemIndices>::new(&b, &a);
            for q in queries(case) {
                put(g.longest_common_subsequence(Range(q[0], q[1]), Range(q[2], q[3])));
            }
            let changes = Changes::<String>::new(
                Seq::<String>::from(strs(&case["b"]).concat()),
                Seq::<String>::from(strs(&case["a"]).concat()),
            );
            ch = changes.changes.iter().map(change).collect();
            for c in contexts(case) {
                let mut v = vec![];
                for x in changes.change_clumps(c) {
                    let mut m = clump(&x);
                    let t = TextChangeClump::from(x);
                    m.insert("sb".into(), json!(t.before_start(false)));
                    m.insert("sa".into(), json!(t.before_start(true)));
                    m.insert("b".into(), enc_lines(t.before_lines(None, false)));
                    m.insert("a".into(), enc_lines(t.before_lines(None, true)));
                    m.insert("k0".into(), json!(t.context_lengths().0));
                    m.insert("k1".into(), json!(t.context_lengths().1));
                    v.push(Value::Object(m));
                }
                cl.push(Value::Array(v));
            }
        } else {
            let b = Seq::<u8>::from(bytes(&case["b"]));
            let a = Seq::<u8>::from(bytes(&case["a"]));
            let g = ChangesGenerator::<u8, ByteItemIndices>::new(&b, &a);
            for q in queries(case) {
                put(g.longest_common_subsequence(Range(q[0], q[1]), Range(q[2], q[3])));
            }
            let changes = Changes::<u8>::new(
                Seq::<u8>::from(bytes(&case["b"])),
                Seq::<u8>::from(bytes(&case["a"])),
            );
            ch = changes.changes.iter().map(change).collect();
            for c in contexts(case) {
                let mut v = vec![];
                for x in changes.change_clumps(c) {
                    let mut m = clump(&x);
                    let (k0, k1) = x.context_lengths();
                    let t = ByteChangeClump::from(x);
                    m.insert("sb".into(), json!(t.before(false).start));
                    m.insert("sa".into(), json!(t.after(false).start));
                    m.insert("b".into(), json!(t.before(false).items.to_vec()));
                    m.insert("a".into(), json!(t.after(false).items.to_vec()));
                    m.insert("k0".into(), json!(k0));
                    m.insert("k1".into(), json!(k1));
                    v.push(Value::Object(m));
                }
                cl.push(Value::Array(v));
            }
        }
        vec![
            ("ch".into(), Value::Array(ch)),
            ("lcs".into(), Value::Array(lcs)),
            ("cl".into(), Value::Array(cl)),
        ]
    });
}
