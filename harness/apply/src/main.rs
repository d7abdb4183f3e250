//! Conformance harness for the changesets of puck_liveview: computes them, and applies them to elements.
//!
//!   verifapply <ctl-port>
use std::io::{BufRead, BufReader, Write};

use lunatic::{
    net::{TcpListener, TcpStream},
    Mailbox, Process,
};
use puck_liveview::dom::{element::Element, listener::ListenerRef};
use serde_json::{json, Value};

fn element(t: &Value) -> Element {
    let s = |v: &Value| v.as_str().unwrap().to_string();
    Element {
        id: t["id"].as_u64().unwrap() as usize,
        name: s(&t["n"]).into(),
        attributes: t["a"].as_array().unwrap().iter().map(|p| (s(&p[0]).into(), s(&p[1]).into())).collect(),
        listeners: t["l"].as_array().unwrap().iter().map(|p| ListenerRef::new(s(&p[0]), s(&p[1]))).collect(),
        children: t["k"].as_array().unwrap().iter().map(element).collect(),
        text: t["t"].as_array().unwrap().first().map(|x| s(x).into()),
        key: t["key"].as_str().map(|x| x.to_string()),
    }
}

fn dump(e: &Element) -> Value {
    let mut attributes: Vec<(String, String)> = e.attributes.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    attributes.sort();
    json!({
        "id": e.id, "n": e.name, "a": attributes,
        "t": e.text.iter().collect::<Vec<_>>(),
        "l": e.listeners.iter().map(|l| (l.listener_name(), l.js_event())).collect::<Vec<_>>(),
        "k": e.children.iter().map(dump).collect::<Vec<_>>(),
    })
}

/// {"trees": [...]}: one element goes from each of them to the next, by changesets between them.
fn history(c: &Value) -> Value {
    let trees: Vec<Element> = c["trees"].as_array().expect("trees").iter().map(element).collect();
    let mut shown = trees[0].clone();
    let mut out = vec![];
    for pair in trees.windows(2) {
        pair[0].diff(Some(&pair[1])).apply(&mut shown);
        out.push(dump(&shown));
    }
    json!({ "r": "ok", "out": out })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let listener = TcpListener::bind(format!("127.0.0.1:{}", args[1])).expect("bind ctl");
    loop {
        if let Ok((stream, _)) = listener.accept() {
            let _ = Process::spawn(stream, |stream: TcpStream, _: Mailbox<()>| {
                let mut out = stream.clone();
                for line in BufReader::new(stream).lines() {
                    match line {
                        Ok(l) => {
                            let r = history(&serde_json::from_str(&l).expect("command"));
                            if out.write_all(format!("{}\n", r).as_bytes()).is_err() {
                                return;
                            }
                        }
                        Err(_) => return,
                    }
                }
            });
        }
    }
}
