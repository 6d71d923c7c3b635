//! Coordinates of changes and clumps, and reverse application.
//! case {k: "t"|"y", _b, _a, _p, c, d: displacement}
//! record: os, ss, sn, r, f (see TraceCoord.tla).

use harness::*;
use pw_cub_diff_lib::unified_diff::{UnifiedClumpIter, UnifiedDiffClump};
use pw_diff_lib::apply_bytes::{ApplyClumpClean, ApplyClumpsClean};
use pw_diff_lib::apply_text::{ApplyClumpFuzzy, ApplyClumpsFuzzy, Statistics, TextClumpBasics};
use pw_diff_lib::byte_diff::{ByteChangeClump, ByteChangeDiff};
use pw_diff_lib::changes::{Change, ChangeBasics, ChangeClump, Changes};
use pw_diff_lib::common_subsequence::CommonSubsequence;
use pw_diff_lib::range::{Len, Range};
use pw_diff_lib::sequence::Seq;
use pw_diff_lib::snippet::{Snippet, SnippetWrite};
use pw_diff_lib::text_diff::{TextChangeClump, TextChangeDiff};
use std::path::Path;

fn pairs(bl: usize, al: usize, c0: usize, c1: usize) -> Vec<Option<(u8, u8)>> {
    let least = bl.min(al);
    let mut v = vec![None];
    let f = |n: usize| -> Vec<usize> { if n <= 3 { (0..=n).collect() } else { vec![0, 1, n / 2, n] } };
    for x in f(c0.min(255)) {
        for y in f(c1.min(255)) {
            if x + y <= least {
                v.push(Some((x as u8, y as u8)));
            }
        }
    }
    v
}

fn asked<B: ChangeBasics>(o: &B, red: Option<(u8, u8)>, rev: bool) -> Map<String, Value> {
    let (x, y) = red.unwrap_or((0, 0));
    let br = o.before_range(red, rev);
    let mb = o.my_before_range(red, rev);
    let ar = o.after_range(red, rev);
    let ma = o.my_after_range(red, rev);
    json!({"rev": rev, "x": x, "y": y,
        "old": {"start": o.before_start(rev), "end": o.before_end(rev), "len": o.before_length(rev),
                "range": [br.start(), br.end()], "mine": [mb.start(), mb.end()]},
        "new": {"start": o.after_start(rev), "end": o.after_end(rev), "len": o.after_length(rev),
                "range": [ar.start(), ar.end()], "mine": [ma.start(), ma.end()]}})
    .as_object()
    .unwrap()
    .clone()
}

fn object<B: ChangeBasics>(t: &str, raw: Value, o: &B, c: (usize, usize)) -> Value {
    let mut qs = vec![];
    for rev in [false, true] {
        for red in pairs(o.before_length(false), o.before_length(true), c.0, c.1) {
            qs.push(Value::Object(asked(o, red, rev)));
        }
    }
    json!({"t": t, "raw": raw, "qs": qs})
}

fn raw_of(c: &Change) -> Value {
    match c {
        Change::NoChange(s) => json!({"bs": s.0, "be": s.0 + s.2, "as": s.1, "ae": s.1 + s.2}),
        Change::Delete(r, p) => json!({"bs": r.0, "be": r.1, "as": p, "ae": p}),
        Change::Insert(p, r) => json!({"bs": p, "be": p, "as": r.0, "ae": r.1}),
        Change::Replace(r, s) => json!({"bs": r.0, "be": r.1, "as": s.0, "ae": s.1}),
    }
}

/// What a clump holds is what its first to last change hold
fn clump<T: PartialEq + Clone>(x: &ChangeClump<T>) -> Value {
    let (f, l) = (raw_of(x.changes.first().expect("changes")), raw_of(x.changes.last().expect("changes")));
    let k = x.context_lengths();
    let raw = json!({"bs": f["bs"], "be": l["be"], "as": f["as"], "ae": l["ae"]});
    let mut o = object("clump", raw, x, (k.0 as usize, k.1 as usize));
    let (s, e, r) = (x.starts(), x.ends(), x.ranges());
    o["se"] = json!([[s.0, e.0, s.1, e.1], [r.0.start(), r.0.end(), r.1.start(), r.1.end()]]);
    o
}

fn run(s: &CommonSubsequence, n: u8) -> Value {
    let l = |s: &CommonSubsequence| json!([s.0, s.1, s.2]);
    json!({"r": l(s), "n": n, "b": [s.before_range().0, s.before_range().1], "a": [s.after_range().0, s.after_range().1],
        "bs": s.before_start(), "be": s.before_end(), "as": s.after_start(), "ae": s.after_end(),
        "et": l(&s.ends_trimmed(n)), "st": l(&s.starts_trimmed(n)),
        "sp": s.split(n).map_or(json!([]), |(x, y)| json!([l(&x), l(&y)]))})
}

fn counts(s: &Statistics) -> Value {
    json!([s.clean, s.fuzzy, s.already_applied, s.already_applied_fuzzy, s.failed])
}

/// The stored form of a diff with old and new exchanged
fn exchanged(doc: &[u8]) -> Vec<u8> {
    let mut v: Value = serde_json::from_slice(doc).expect("stored diff");
    for x in v["clumps"].as_array_mut().expect("clumps") {
        let o = x.as_object_mut().expect("clump");
        let b = o.remove("before").expect("before");
        let a = o.remove("after").expect("after");
        o.insert("before".into(), a);
        o.insert("after".into(), b);
    }
    serde_json::to_vec(&v).expect("stored diff")
}

struct Wrapped<'a>(&'a UnifiedDiffClump);
impl<'a> ChangeBasics for Wrapped<'a> {
    fn before_start(&self, r: bool) -> usize {
        self.0.before_start(r)
    }
    fn before_end(&self, r: bool) -> usize {
        self.0.before_end(r)
    }
    fn before_length(&self, r: bool) -> usize {
        self.0.before_length(r)
    }
}
impl<'a> TextClumpBasics for Wrapped<'a> {
    fn context_lengths(&self) -> (u8, u8) {
        self.0.context_lengths()
    }
    fn before_lines(&self, range: Option<Range>, reverse: bool) -> impl Iterator<Item = &String> {
        self.0.before_lines(range, reverse)
    }
}
impl<'a> ApplyClumpFuzzy for Wrapped<'a> {}

/// What a stored side says of itself, and what it writes
fn side<T>(s: &Snippet<T>, red: Option<(u8, u8)>, d: isize, show: impl Fn(&[u8]) -> Value) -> Value
where
    Snippet<T>: SnippetWrite,
{
    let r = s.range(red);
    let mut out = vec![];
    s.write_into(&mut out, red).expect("writing to memory");
    // positions before the beginning of a file are not asked for
    let at = if s.start as isize + d >= 0 { json!([s.adj_start(d, red)]) } else { json!([]) };
    json!({"mine": [r.start(), r.end()], "len": s.adj_length(red), "at": at, "w": show(&out), "all": s.len(),
        "n": s.items(Some(r)).count()})
}

fn sides<T>(b: &Snippet<T>, a: &Snippet<T>, c: (u8, u8), d: isize, items: Value, show: impl Fn(&[u8]) -> Value + Copy) -> Value
where
    Snippet<T>: SnippetWrite,
{
    let raw = json!({"bs": b.start, "be": b.start + b.items.len(), "as": a.start, "ae": a.start + a.items.len()});
    let mut qs = vec![];
    for red in pairs(b.items.len(), a.items.len(), c.0 as usize, c.1 as usize) {
        let (x, y) = red.unwrap_or((0, 0));
        qs.push(json!({"x": x, "y": y, "d": d, "s": [side(b, red, d, show), side(a, red, d, show)]}));
    }
    json!({"raw": raw, "b": items[0], "a": items[1], "qs": qs})
}

fn text_object<C: ApplyClumpFuzzy>(t: &str, key: &str, raw: Value, x: &C, b: Value, a: Value, d: isize) -> Value {
    let (c0, c1) = x.context_lengths();
    let mut qs = vec![];
    for rev in [false, true] {
        for red in pairs(x.before_length(false), x.before_length(true), c0 as usize, c1 as usize) {
            let mut m = asked(x, red, rev);
            m.insert("d".into(), json!(d));
            m.insert(
                "adj".into(),
                json!([
                    x.before_adjusted_start(d, red, rev),
                    x.before_adjusted_length(red, rev),
                    x.after_adjusted_start(d, red, rev),
                    x.after_adjusted_length(red, rev)
                ]),
            );
            let br = red.map(|_| x.my_before_range(red, rev));
            let ar = red.map(|_| x.my_after_range(red, rev));
            m.insert("lines".into(), json!([enc_lines(x.before_lines(br, rev)), enc_lines(x.after_lines(ar, rev))]));
            qs.push(Value::Object(m));
        }
    }
    json!({"t": t, key: raw, "b": b, "a": a, "qs": qs})
}

fn main() {
    execute(|case| {
        let c = case["c"].as_u64().unwrap() as u8;
        let d = case["d"].as_i64().unwrap() as isize;
        let mut os = vec![];
        let mut ss = vec![];
        let mut sn = vec![];
        let (r, f);
        if case["k"] == "t" {
            let (bt, at) = (strs(&case["_b"]).concat(), strs(&case["_a"]).concat());
            std::fs::write("b", &bt).unwrap();
            std::fs::write("a", &at).unwrap();
            let changes = Changes::<String>::new(Seq::<String>::from(bt), Seq::<String>::from(at));
            for x in &changes.changes {
                let n = if matches!(x, Change::NoChange(_)) { 2 } else { 0 };
                os.push(object("change", raw_of(x), x, (n, n)));
                if let Change::NoChange(s) = x {
                    for k in [c, 0, 1, s.len().min(255) as u8] {
                        ss.push(run(s, k));
                    }
                }
            }
            for x in changes.change_clumps(c) {
                os.push(clump(&x));
                let t = TextChangeClump::from(x);
                let (b, a) = (t.before(false), t.after(false));
                assert!(std::ptr::eq(b, t.after(true)) && std::ptr::eq(a, t.before(true)), "sides are not exchanged");
                let raw = json!({"bs": b.start, "be": b.start + b.items.len(), "as": a.start, "ae": a.start + a.items.len()});
                let (bl, al) = (enc_lines(b.items.iter()), enc_lines(a.items.iter()));
                sn.push(sides(b, a, t.context_lengths(), d, json!([bl, al]), enc_out));
                os.push(text_object("stored", "raw", raw, &t, bl, al, d));
            }
            let ui = UnifiedClumpIter { before: &changes.before, after: &changes.after, iter: changes.change_clumps(c) };
            for u in ui {
                let text = format!("{}\n{}", u.header, u.lines.concat());
                let seq = Seq::<String>::from(text);
                if let Ok(Some(u)) = UnifiedDiffClump::get_from_at(&seq, 0) {
                    let s = &u.starts_and_lengths;
                    let h = json!([s.before.start, s.before.length, s.after.start, s.after.length]);
                    let (bl, al) = (enc_lines(u.before_lines.iter()), enc_lines(u.after_lines.iter()));
                    os.push(text_object("unified", "h", h, &Wrapped(&u), bl, al, d));
                }
            }
            let diff = TextChangeDiff::new(Path::new("b"), Path::new("a"), c).expect("diff");
            let mut doc = vec![];
            diff.to_writer(&mut doc).expect("writing to memory");
            let swapped = TextChangeDiff::from_reader(&mut exchanged(&doc).as_slice()).expect("stored diff");
            let p = Seq::<String>::from(strs(&case["_p"]).concat());
            let res = |x: &TextChangeDiff, rev: bool| {
                let mut out = vec![];
                let st = x.apply_into(&p, &mut out, rev).expect("writing to memory");
                json!([enc_out(&out), counts(&st), x.is_already_applied(&p, rev)])
            };
            r = json!([res(&diff, true), res(&diff, false)]);
            f = json!([res(&swapped, false), res(&swapped, true)]);
        } else {
            let (bb, ab) = (bytes(&case["_b"]), bytes(&case["_a"]));
            std::fs::write("b", &bb).unwrap();
            std::fs::write("a", &ab).unwrap();
            let changes = Changes::<u8>::new(Seq::<u8>::from(bb), Seq::<u8>::from(ab));
            for x in &changes.changes {
                let n = if matches!(x, Change::NoChange(_)) { 2 } else { 0 };
                os.push(object("change", raw_of(x), x, (n, n)));
            }
            for x in changes.change_clumps(c) {
                os.push(clump(&x));
                let k = x.context_lengths();
                let t = ByteChangeClump::from(x);
                let (b, a) = (t.before(false), t.after(false));
                assert!(std::ptr::eq(b, t.after(true)) && std::ptr::eq(a, t.before(true)), "sides are not exchanged");
                sn.push(sides(b, a, k, d, json!([b.items, a.items]), |o| json!(o)));
                assert!(t.before_start(false) == b.start && t.before_start(true) == a.start, "starts are not the sides'");
            }
            let diff = ByteChangeDiff::new(Path::new("b"), Path::new("a"), c).expect("diff");
            let mut doc = vec![];
            diff.to_writer(&mut doc).expect("writing to memory");
            let swapped = ByteChangeDiff::from_reader(&mut exchanged(&doc).as_slice()).expect("stored diff");
            let p = Seq::<u8>::from(bytes(&case["_p"]));
            let res = |x: &ByteChangeDiff, rev: bool| {
                let mut out = vec![];
                let st = x.apply_into(&p, &mut out, rev).expect("writing to memory");
                json!([out, counts(&st), x.already_applied(&p, rev)])
            };
            r = json!([res(&diff, true), res(&diff, false)]);
            f = json!([res(&swapped, false), res(&swapped, true)]);
        }
        vec![
            ("os".into(), Value::Array(os)),
            ("ss".into(), Value::Array(ss)),
            ("sn".into(), Value::Array(sn)),
            ("r".into(), r),
            ("f".into(), f),
        ]
    });
}
