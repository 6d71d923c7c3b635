//! Reads text and bytes from readers.
//! case {ps: [piece..]}: a piece is {p: "d", d: bytes}, or {p: "i"} (an
//! interruption) or {p: "e", n: kind} (failure). record adds t: {r: "lines", d: lines
//! as byte lists}, y: {r: "bytes", d: bytes} and m: the text split in memory;
//! r is "error" if it failed.

use harness::*;
use pw_diff_lib::sequence::Seq;
use std::io::{self, Read};

struct Pieces {
    pieces: Vec<Value>,
    next: usize,
    left: Vec<u8>,
}

impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.left.is_empty() {
            match self.pieces.get(self.next) {
                None => return Ok(0),
                Some(p) => {
                    self.next += 1;
                    if p["p"] == "i" {
                        return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
                    } else if p["p"] == "e" {
                        return Err(failure(p["n"].as_u64().unwrap_or(0)));
                    }
                    self.left = bytes(&p["d"]);
                }
            }
        }
        let n = self.left.len().min(buf.len());
        buf[..n].copy_from_slice(&self.left[..n]);
        self.left.drain(..n);
        Ok(n)
    }
}

fn lines(s: &Seq<String>) -> Vec<Vec<u8>> {
    s.iter().map(|l| l.as_bytes().to_vec()).collect()
}

fn main() {
    execute(|case| {
        let pieces = case["ps"].as_array().unwrap().clone();
        let reader = || Pieces { pieces: pieces.clone(), next: 0, left: vec![] };
        let t = match Seq::<String>::read(reader()) {
            Ok(s) => json!({"r": "lines", "d": lines(&s)}),
            Err(_) => json!({"r": "error"}),
        };
        let y = match Seq::<u8>::read(reader()) {
            Ok(s) => json!({"r": "bytes", "d": s.to_vec()}),
            Err(_) => json!({"r": "error"}),
        };
        let all: Vec<u8> = pieces.iter().filter(|p| p["p"] == "d").flat_map(|p| bytes(&p["d"])).collect();
        let m = match String::from_utf8(all) {
            Ok(s) => json!({"r": "lines", "d": lines(&Seq::<String>::from(s.as_str()))}),
            Err(_) => json!({"r": "error"}),
        };
        vec![("t".into(), t), ("y".into(), y), ("m".into(), m)]
    });
}
