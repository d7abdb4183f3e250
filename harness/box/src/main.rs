//! Conformance harness: exposes the public API of `puck` to the drivers in /verif.
//!
//!   verifbox <ctl-port> [server configs...]
//!
//! `exec` connections (to ctl-port) carry one JSON command per line and get one JSON reply per line;
//! a command that traps closes the connection, which the driver records as the outcome `crash`.
#![allow(unreachable_patterns)]
mod exec;
mod scripted;
mod serve;

use lunatic::{
    net::{TcpListener, TcpStream},
    Mailbox, Process,
};

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let port = args[1].clone();
    let listener = TcpListener::bind(format!("127.0.0.1:{}", port)).expect("bind ctl");
    for cfg in &args[2..] {
        serve::start(cfg.clone());
    }
    loop {
        if let Ok((stream, _)) = listener.accept() {
            let _ = Process::spawn(stream, |stream: TcpStream, _: Mailbox<()>| {
                exec::session(stream)
            });
        }
    }
}
