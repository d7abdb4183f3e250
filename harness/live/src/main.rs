//! Conformance harness for puck_liveview: a server of remote-controlled components, and the conversion
//! of nodes into elements.
//!
//!   verifliveview <ctl-port> <port>
mod nodes;

use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};

use lunatic::{
    net::{TcpListener, TcpStream},
    Mailbox, Process,
};
use puck::core::{
    router::{
        match_url::{Match, Segment},
        Route, Router,
    },
    Core,
};
use puck_liveview::{
    component::{manage, Component, Context},
    dom::{
        element::Element,
        listener::{Listener, ListenerRef},
    },
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

/// Tells the driver's log server about an event and waits until it has noted it.
fn log(ev: Value) {
    if let Ok(addr) = std::env::var("VERIF_LOG") {
        if let Ok(mut c) = TcpStream::connect(addr) {
            let _ = c.write_all(format!("{}\n", ev).as_bytes());
            let mut b = [0_u8; 1];
            let _ = c.read(&mut b);
        }
    }
}

/// What an instance of the component starts from.  Trees travel as JSON text.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Start {
    id: String,
    /// the tree shown first, then the trees shown after each event from the browser
    script: Vec<String>,
}

#[derive(Serialize, Deserialize, Debug)]
enum Input {
    /// Show this tree.
    Show { from: String, n: u32, tree: String },
    Event { listener: String, kind: String, value: String },
    /// Send the inputs to oneself by the handle the context has.
    Relay { from: String, n: u32, trees: Vec<String> },
}

struct Shower {
    id: String,
    script: Vec<String>,
    at: usize,
    /// how many inputs it has sent to itself
    relayed: u32,
    tree: String,
}

impl Shower {
    fn updated(&self, what: Value) {
        let mut what = what;
        what["ev"] = json!("update");
        what["id"] = json!(self.id);
        log(what);
    }
}

/// Is the component to crash where this view is involved?
fn booms(tree: &str, place: &str) -> bool {
    tree.contains("\"boom\"") && serde_json::from_str::<Value>(tree).unwrap()["boom"] == place
}

fn crash(id: &str, place: &str, what: Value) -> ! {
    let mut what = what;
    what["ev"] = json!("crash");
    what["id"] = json!(id);
    what["where"] = json!(place);
    log(what);
    panic!("a component which is to crash in {}", place);
}

impl Component<Start, Input> for Shower {
    fn new(data: Start, _: &Context<Input>) -> Self {
        if booms(&data.script[0], "new") {
            crash(&data.id, "new", json!({}));
        }
        let c = Shower {
            id: data.id,
            tree: data.script[0].clone(),
            script: data.script,
            at: 0,
            relayed: 0,
        };
        log(json!({"ev": "new", "id": c.id}));
        c
    }

    fn update(&mut self, input: Input, context: &Context<Input>) {
        match input {
            Input::Show { from, n, tree } => {
                if booms(&tree, "update") {
                    crash(&self.id, "update", json!({"from": from, "n": n}));
                }
                self.tree = tree;
                self.updated(json!({"from": from, "n": n}));
            }
            Input::Event { listener, kind, value } => {
                if self.at + 1 < self.script.len() {
                    self.at += 1;
                    self.tree = self.script[self.at].clone();
                }
                if booms(&self.tree, "update") {
                    crash(&self.id, "update", json!({"from": "browser", "listener": listener, "kind": kind, "value": value}));
                }
                self.updated(json!({"from": "browser", "listener": listener, "kind": kind, "value": value}));
            }
            Input::Relay { from, n, trees } => {
                for tree in trees {
                    self.relayed += 1;
                    context.process().send(Input::Show { from: "0".to_string(), n: self.relayed, tree });
                }
                self.updated(json!({"from": from, "n": n}));
            }
        }
    }

    fn render(&self) -> (Element, HashMap<String, Listener<Input>>) {
        let t: Value = serde_json::from_str(&self.tree).unwrap();
        if t["boom"] == "render" {
            crash(&self.id, "render", json!({}));
        }
        let mut next = t["start"].as_u64().unwrap_or(0) as usize;
        let mut calls: HashMap<String, Listener<Input>> = HashMap::new();
        for c in t["calls"].as_array().unwrap() {
            let name = c[0].as_str().unwrap().to_string();
            let (n, kind) = (name.clone(), c[1].as_str().unwrap().to_string());
            let doomed = (c[2] == "boom").then(|| self.id.clone());
            let event = move |value: String| {
                if let Some(id) = &doomed {
                    crash(id, "call", json!({"from": "browser", "listener": n, "kind": kind, "value": value}));
                }
                Input::Event { listener: n.clone(), kind: kind.clone(), value }
            };
            calls.insert(
                name,
                match c[1].as_str().unwrap() {
                    "click" => Listener::Click { call: Box::new(move |_| event(String::new())) },
                    "submit" => Listener::Submit { call: Box::new(move |_| event(String::new())) },
                    _ => Listener::Input { call: Box::new(move |e| event(e.value)) },
                },
            );
        }
        (element(&t["root"], &mut next), calls)
    }
}

impl Drop for Shower {
    fn drop(&mut self) {
        log(json!({"ev": "drop", "id": self.id}));
    }
}

/// An element numbered in document order.
fn element(t: &Value, next: &mut usize) -> Element {
    let s = |v: &Value| v.as_str().unwrap().to_string();
    let id = *next;
    *next += 1;
    Element {
        id,
        name: s(&t["n"]).into(),
        attributes: t["a"].as_array().unwrap().iter().map(|p| (s(&p[0]).into(), s(&p[1]).into())).collect(),
        listeners: t["l"].as_array().unwrap().iter().map(|p| ListenerRef::new(s(&p[0]), s(&p[1]))).collect(),
        children: t["k"].as_array().unwrap().iter().map(|k| element(k, next)).collect(),
        text: t["t"].as_array().unwrap().first().map(|x| s(x).into()),
        key: t["key"].as_str().map(|x| x.to_string()),
    }
}

fn header(req: &puck::Request, name: &str) -> String {
    req.headers().iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.clone()).unwrap_or_default()
}

/// Passes on to the handle what the driver sends; one line, one command.
fn remote(ctl: String, handle: Process<Input>) {
    let c = match TcpStream::connect(ctl) {
        Ok(c) => c,
        Err(_) => return,
    };
    let mut out = c.clone();
    for line in BufReader::new(c).lines() {
        let v: Value = match line.ok().and_then(|l| serde_json::from_str(&l).ok()) {
            Some(v) => v,
            None => return,
        };
        let from = v["from"].as_str().unwrap_or("").to_string();
        let n = v["n"].as_u64().unwrap_or(0) as u32;
        match v["c"].as_str() {
            Some("show") => handle.send(Input::Show { from, n, tree: v["tree"].to_string() }),
            Some("relay") => handle.send(Input::Relay { from, n, trees: v["trees"].as_array().unwrap().iter().map(|t| t.to_string()).collect() }),
            _ => return,
        }
        if v["quiet"].is_null() {
            let _ = out.write_all(b"{\"r\":\"ok\"}\n");
        }
    }
}

/// The application is mounted twice, at / and at /my/app/.
fn at(req: &puck::Request, what: &'static str) -> bool {
    Match::new().at(Segment::Static(what)).does_match(req.url())
        || Match::new().at(Segment::Static("my")).at(Segment::Static("app")).at(Segment::Static(what)).does_match(req.url())
}

fn serve(port: String) {
    let router = Router::new()
        .route(Route::new(
            |req| at(req, "js"),
            |_, stream, _| stream.respond(puck_liveview::init::js()).unwrap(),
        ))
        .route(Route::new(
            |req| at(req, ""),
            |_, stream, _| stream.respond(puck_liveview::init::index()).unwrap(),
        ))
        .route(Route::new(
            |req| at(req, "ws"),
            |req, stream, _: u8| {
                let start = Start {
                    id: header(&req, "x-id"),
                    script: serde_json::from_str::<Vec<Value>>(&header(&req, "x-script")).unwrap().iter().map(|t| t.to_string()).collect(),
                };
                let ctls = header(&req, "x-ctl");
                let websocket = match stream.upgrade(&req) {
                    Ok(w) => w,
                    Err(stream) => return stream,
                };
                let handle = manage::<Shower, Start, Input>(start, websocket);
                // all but the first of the processes which send to it are spawned; the first is the one that made it
                let mut ctls = ctls.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string());
                let own = ctls.next();
                for ctl in ctls {
                    let _ = Process::spawn((ctl, handle.clone()), |(ctl, handle), _: Mailbox<()>| remote(ctl, handle));
                }
                if let Some(own) = own {
                    remote(own, handle);
                }
                puck::core::UsedStream::empty()
            },
        ));
    Core::bind(format!("127.0.0.1:{}", port), 0_u8).expect("bind").serve_router(router);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let listener = TcpListener::bind(format!("127.0.0.1:{}", args[1])).expect("bind ctl");
    for port in &args[2..] {
        let _ = Process::spawn(port.clone(), |port: String, _: Mailbox<()>| serve(port));
    }
    loop {
        if let Ok((stream, _)) = listener.accept() {
            let _ = Process::spawn(stream, |stream: TcpStream, _: Mailbox<()>| {
                let mut out = stream.clone();
                for line in BufReader::new(stream).lines() {
                    match line {
                        Ok(l) => {
                            let r = nodes::convert(&serde_json::from_str(&l).expect("command"));
                            if out.write_all(format!("{}\n", r).as_bytes()).is_err() {
                                return;
                            }
                        }
                        Err(_) => return,
                    }
                }
            });
        }
    }
}
