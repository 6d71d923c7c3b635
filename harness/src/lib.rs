//! What the generator and the executors share: a seeded random number
//! generator, case/record input and output, and the encoding of text lines.

use std::io::{self, BufRead, Write};
use std::panic;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::Duration;

pub use serde_json::{json, Map, Value};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
}

/// An injective, printable ASCII form of a line of text: everything else,
/// and the backslash, becomes `\hex;`. End of line stays what it is.
pub fn enc(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    for c in s.chars() {
        if c == '\n' || (c.is_ascii() && !c.is_ascii_control() && c != '\\') {
            o.push(c)
        } else {
            o.push_str(&format!("\\{:x};", c as u32))
        }
    }
    o
}

pub fn enc_lines<'a, I: IntoIterator<Item = &'a String>>(it: I) -> Value {
    Value::Array(it.into_iter().map(|s| Value::String(enc(s))).collect())
}

/// Split bytes that should be text into encoded lines; bytes that are not
/// UTF-8 become a marker no model output contains.
pub fn enc_out(bytes: &[u8]) -> Value {
    match std::str::from_utf8(bytes) {
        Ok(s) => Value::Array(
            s.split_inclusive('\n')
                .map(|l| Value::String(enc(l)))
                .collect(),
        ),
        Err(_) => json!(["\\not-utf8;"]),
    }
}

pub fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .expect("array of strings")
        .iter()
        .map(|x| x.as_str().expect("string").to_string())
        .collect()
}

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array()
        .expect("array of bytes")
        .iter()
        .map(|x| x.as_u64().expect("byte") as u8)
        .collect()
}

pub fn usizes(v: &Value) -> Vec<usize> {
    v.as_array()
        .expect("array of numbers")
        .iter()
        .map(|x| x.as_u64().expect("number") as usize)
        .collect()
}

/// Run something of the code under test: a panic is data.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    panic::catch_unwind(panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

static STARTED_MS: AtomicU64 = AtomicU64::new(0);

fn now_ms() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .expect("clock")
        .as_millis() as u64
}

fn encoded(v: &Value) -> Value {
    match v {
        Value::String(s) => Value::String(enc(s)),
        Value::Array(a) => Value::Array(a.iter().map(encoded).collect()),
        Value::Object(o) => {
            Value::Object(o.iter().map(|(k, v)| (k.clone(), encoded(v))).collect())
        }
        _ => v.clone(),
    }
}

fn record_of(case: &Value, kv: Vec<(String, Value)>, panic: &str) -> Value {
    let mut rec: Map<String, Value> = case
        .as_object()
        .expect("case object")
        .iter()
        .filter(|(k, _)| !k.starts_with('_'))
        .map(|(k, v)| (k.clone(), encoded(v)))
        .collect();
    for (k, v) in kv {
        rec.insert(k, v);
    }
    rec.insert("panic".into(), json!(enc(panic)));
    Value::Object(rec)
}

fn emit(v: &Value) {
    let mut line = serde_json::to_vec(v).expect("record");
    line.push(b'\n');
    let mut out = io::stdout().lock();
    out.write_all(&line).expect("stdout");
    out.flush().expect("stdout");
}

/// Read one case per line from stdin, write one record per line to stdout.
/// The record is the case with what the closure returns merged into it and
/// the field `panic`, empty if nothing panicked. Keys starting with an
/// underscore are for the executor only and are left out of the record.
/// A case that does not complete within 20 s gets a record saying so, and
/// ends the run. Strings of the case are encoded like all others.
pub fn execute(mut f: impl FnMut(&Value) -> Vec<(String, Value)>) {
    panic::set_hook(Box::new(|_| {}));
    let current = Arc::new(Mutex::new(Value::Null));
    let watched = current.clone();
    thread::spawn(move || loop {
        thread::sleep(Duration::from_millis(500));
        let started = STARTED_MS.load(Ordering::SeqCst);
        if started != 0 && now_ms() > started + 20_000 {
            let case = watched.lock().unwrap().clone();
            emit(&record_of(&case, vec![], "did not complete"));
            std::process::exit(0);
        }
    });
    let slow = std::env::var_os("HARNESS_SLOW");
    for line in io::stdin().lock().lines() {
        let line = line.expect("stdin");
        if line.is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).expect("case");
        *current.lock().unwrap() = case.clone();
        STARTED_MS.store(now_ms(), Ordering::SeqCst);
        let begun = std::time::Instant::now();
        let result = guard(|| f(&case));
        let ms = begun.elapsed().as_millis();
        if ms > 1000 {
            if let Some(log) = &slow {
                // which cases come near to what counts as not ending
                if let Ok(mut log) = std::fs::File::options().append(true).create(true).open(log) {
                    let _ = writeln!(log, "{} {} {:.200}", std::env::args().next().unwrap_or_default(), ms, line);
                }
            }
        }
        STARTED_MS.store(0, Ordering::SeqCst);
        emit(&match result {
            Ok(kv) => record_of(&case, kv, ""),
            Err(e) => record_of(&case, vec![], if e.is_empty() { "panic" } else { &e }),
        });
    }
}


/// One of the ways in which reading and writing fail.
pub fn failure(n: u64) -> io::Error {
    use io::ErrorKind::*;
    let kinds = [
        Other, BrokenPipe, WouldBlock, TimedOut, StorageFull, WriteZero, UnexpectedEof, InvalidInput, InvalidData,
        PermissionDenied, NotFound, ConnectionReset, OutOfMemory, AlreadyExists,
    ];
    match n as usize {
        n if n < kinds.len() => io::Error::new(kinds[n], "failure"),
        n if n % 2 == 0 => io::Error::from_raw_os_error(5),
        _ => io::Error::from_raw_os_error(28),
    }
}
