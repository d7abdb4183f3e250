//! A reader that hands out a scripted sequence of chunks, one per read call.
use std::{
    cell::RefCell,
    io::{self, Read},
    rc::Rc,
};

#[derive(Debug)]
struct Inner {
    chunks: Vec<Vec<u8>>,
    chunk: usize,
    off: usize,
    end: String,
    log: Vec<i64>,
    taken: usize,
    stalls: usize,
}

/// What the reader does when every chunk has been handed out is named by `end`:
/// "eof" returns 0 for ever, "stall" stands for a peer which keeps the connection open without
/// sending (a real read would block; here an error of a kind nothing else produces is returned and
/// the stall is recorded), anything else is an I/O error (connection reset).
#[derive(Clone, Debug)]
pub struct Scripted(Rc<RefCell<Inner>>);

impl Scripted {
    pub fn new(chunks: Vec<Vec<u8>>, end: &str) -> Self {
        Scripted(Rc::new(RefCell::new(Inner {
            chunks: chunks.into_iter().filter(|c| !c.is_empty()).collect(),
            chunk: 0,
            off: 0,
            end: end.to_string(),
            log: vec![],
            taken: 0,
            stalls: 0,
        })))
    }
    pub fn taken(&self) -> usize {
        self.0.borrow().taken
    }
    pub fn stalls(&self) -> usize {
        self.0.borrow().stalls
    }
    /// sizes of the reads so far (0: end of stream, -1: error, -2: stall)
    pub fn take_log(&self) -> Vec<i64> {
        std::mem::take(&mut self.0.borrow_mut().log)
    }
}

impl Read for Scripted {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if buf.is_empty() {
            return Ok(0);
        }
        if s.chunk >= s.chunks.len() {
            return match s.end.as_str() {
                "eof" => {
                    s.log.push(0);
                    Ok(0)
                }
                "stall" => {
                    s.stalls += 1;
                    s.log.push(-2);
                    Err(io::Error::new(io::ErrorKind::TimedOut, "stall"))
                }
                _ => {
                    s.log.push(-1);
                    Err(io::Error::new(io::ErrorKind::ConnectionReset, "reset"))
                }
            };
        }
        let (c, o) = (s.chunk, s.off);
        let n = buf.len().min(s.chunks[c].len() - o);
        buf[..n].copy_from_slice(&s.chunks[c][o..o + n]);
        s.off += n;
        s.taken += n;
        s.log.push(n as i64);
        if s.off == s.chunks[c].len() {
            s.chunk += 1;
            s.off = 0;
        }
        Ok(n)
    }
}
