//! Writes through a writer that accepts only so much.
//! case {k: "t"|"y"|"tf"|"yf", _b, _a, c, _p, rev, ws: [{b: budget or -1, m:
//! most bytes per write, i: every i-th call is interrupted (0: never), z: end
//! of budget is a write of nothing, k: the kind of failure, o: it fails once}]}: the diff of _b and _a applied to _p
//! (t, y), or the content of a removed file holding _b (tf, yf), is written
//! to each writer. record: full, the output without limit, and per writer
//! ev: the calls it got: [["w", bytes accepted]|["i"]|["e"]..] and ok.

use harness::*;
use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
use pw_diff_lib::byte_diff::{ByteChangeClump, PathAndBytes};
use pw_diff_lib::changes::Changes;
use pw_diff_lib::sequence::Seq;
use pw_diff_lib::text_diff::{PathAndLines, TextChangeClump};
use std::io::{self, Write};
use std::path::Path;

struct TextClumps(Vec<TextChangeClump>);
impl ApplyClumpsFuzzy<TextChangeClump> for TextClumps {
    fn clumps<'b>(&'b self) -> impl Iterator<Item = &'b TextChangeClump>
    where
        TextChangeClump: 'b,
    {
        self.0.iter()
    }
}

struct ByteClumps(Vec<ByteChangeClump>);
impl ApplyClumpsClean<'_, ByteChangeClump> for ByteClumps {
    fn clumps<'b>(&'b self) -> impl Iterator<Item = &'b ByteChangeClump>
    where
        ByteChangeClump: 'b,
    {
        self.0.iter()
    }
}

struct Limited {
    budget: i64,
    most: usize,
    every: u64,
    zero: bool,
    kind: u64,
    once: bool,
    calls: u64,
    events: Vec<Value>,
}

impl Write for Limited {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.events.len() > 100_000 {
            panic!("too many calls");
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.every > 0 && self.calls % self.every == 0 {
            self.events.push(json!({"e": "i"}));
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        if self.budget == 0 {
            self.events.push(json!({"e": "e"}));
            if self.once {
                self.budget = -1;
            }
            return if self.zero {
                Ok(0)
            } else {
                Err(failure(self.kind))
            };
        }
        let mut n = buf.len().min(self.most);
        if self.budget > 0 {
            n = n.min(self.budget as usize);
            self.budget -= n as i64;
        }
        self.events.push(json!({"e": "w", "d": buf[..n].to_vec()}));
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn main() {
    execute(|case| {
        let c = case["c"].as_u64().unwrap_or(0) as u8;
        let rev = case["rev"].as_bool().unwrap_or(false);
        let write: Box<dyn Fn(&mut Limited) -> io::Result<()>> = match case["k"].as_str().unwrap() {
            "t" => {
                let changes = Changes::<String>::new(
                    Seq::<String>::from(strs(&case["_b"]).concat()),
                    Seq::<String>::from(strs(&case["_a"]).concat()),
                );
                let d = TextClumps(changes.change_clumps(c).map(TextChangeClump::from).collect());
                let p = Seq::<String>::from(strs(&case["_p"]).concat());
                Box::new(move |w: &mut Limited| d.apply_into(&p, w, rev).map(|_| ()))
            }
            "y" => {
                let changes =
                    Changes::<u8>::new(Seq::<u8>::from(bytes(&case["_b"])), Seq::<u8>::from(bytes(&case["_a"])));
                let d = ByteClumps(changes.change_clumps(c).map(ByteChangeClump::from).collect());
                let p: &'static Seq<u8> = Box::leak(Box::new(Seq::<u8>::from(bytes(&case["_p"]))));
                Box::new(move |w: &mut Limited| d.apply_into(p, w, rev).map(|_| ()))
            }
            "tf" => {
                std::fs::write("f", strs(&case["_b"]).concat()).unwrap();
                let f = PathAndLines::new(Path::new("f")).expect("reading");
                Box::new(move |w: &mut Limited| f.write_into(w))
            }
            _ => {
                std::fs::write("f", bytes(&case["_b"])).unwrap();
                let f = PathAndBytes::new(Path::new("f")).expect("reading");
                Box::new(move |w: &mut Limited| f.write_into(w))
            }
        };
        let limited = |budget: i64, most: usize, every: u64, zero: bool| Limited {
            budget,
            most,
            every,
            zero,
            kind: 0,
            once: false,
            calls: 0,
            events: vec![],
        };
        let mut w = limited(-1, usize::MAX, 0, false);
        write(&mut w).expect("writing without limit");
        let full: Vec<u8> = w.events.iter().flat_map(|e| bytes(&e["d"])).collect();
        let mut res = vec![];
        for x in case["ws"].as_array().unwrap() {
            // a budget beyond 1000 means a share of the whole, in thousandths
            let mut budget = x["b"].as_i64().unwrap();
            if budget > 1000 {
                budget = (budget - 1000) * full.len() as i64 / 1000;
            }
            let mut w = limited(
                budget,
                x["m"].as_u64().unwrap() as usize,
                x["i"].as_u64().unwrap(),
                x["z"].as_bool().unwrap(),
            );
            w.kind = x["k"].as_u64().unwrap_or(0);
            w.once = x["o"].as_bool().unwrap_or(false);
            let ok = write(&mut w).is_ok();
            res.push(json!({"ok": ok, "ev": w.events}));
        }
        vec![("full".into(), json!(full)), ("rs".into(), Value::Array(res))]
    });
}
