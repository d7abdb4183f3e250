#![allow(dead_code, unused_imports)]
use std::io::{Cursor, Read, Write};
use puck::{request::Method, Request, Response};

/// Gives its pieces one read at a time.
struct Pieces(Vec<Vec<u8>>);
impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() {
            return Ok(0);
        }
        let mut p = self.0.remove(0);
        let n = p.len().min(buf.len());
        buf[..n].copy_from_slice(&p[..n]);
        if n < p.len() {
            self.0.insert(0, p.split_off(n));
        }
        Ok(n)
    }
}
fn request(wire: &[u8]) -> Request {
    Request::parse(Cursor::new(wire.to_vec())).expect("parse").expect("request")
}
fn holds(x: bool) {
    println!("{}", if x { "DEMO HOLDS" } else { "DEMO BROKEN" });
}

