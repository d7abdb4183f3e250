//! Servers in the three serving modes, with scripted matchers and remotely controlled handlers.
use std::io::{BufRead, BufReader, Read, Write};

use lunatic::{
    net::{TcpListener, TcpStream},
    Mailbox, Process,
};
use puck::{
    core::{
        router::{Route, Router},
        Core, Stream, UsedStream,
    },
    ws::{
        message::Message,
        websocket::{NextMessageError, WebSocket},
    },
    Request, Response,
};
use serde_json::{json, Value};

use crate::{exec, hex, unhex};

pub fn start(cfg: String) {
    let _ = Process::spawn(cfg, |cfg: String, _: Mailbox<()>| run(&cfg));
}

fn run(cfg: &str) {
    let cfg: Value = serde_json::from_str(cfg).expect("cfg");
    let addr = format!("127.0.0.1:{}", cfg["port"].as_u64().unwrap());
    let state = cfg["state"].as_str().unwrap().to_string();
    let mut router = Router::new();
    for r in cfg["routes"].as_array().expect("routes") {
        router = router.route(Route::new(
            MATCHERS[r[0].as_u64().unwrap() as usize],
            HANDLERS[r[1].as_u64().unwrap() as usize],
        ));
    }
    match cfg["mode"].as_str().unwrap() {
        "router" => Core::bind(addr, state).expect("bind").serve_router(router),
        "foreach" => {
            let f = HANDLERS[cfg["func"].as_u64().unwrap_or(0) as usize];
            Core::bind(addr, state).expect("bind").for_each(f)
        }
        "run" => router.run(TcpListener::bind(addr).expect("bind"), state),
        x => panic!("mode {}", x),
    }
}

fn header(req: &Request, name: &str) -> Option<String> {
    req.headers()
        .iter()
        .find(|(k, _)| k.eq_ignore_ascii_case(name))
        .map(|(_, v)| v.clone())
}

/// Tells the driver's log server about an event and waits until it has noted it.
fn log(ev: Value) {
    if let Ok(addr) = std::env::var("VERIF_LOG") {
        if let Ok(mut c) = TcpStream::connect(addr) {
            let _ = c.write_all(format!("{}\n", ev).as_bytes());
            let mut b = [0_u8; 1];
            let _ = c.read(&mut b);
        }
    }
}

fn matcher(i: usize, req: &Request) -> bool {
    let id = header(req, "x-id").unwrap_or_default();
    log(json!({"ev": "match", "i": i, "id": id}));
    let set = header(req, "x-match").unwrap_or_default();
    if set.split(',').any(|x| x == format!("!{}", i)) {
        panic!("matcher {} panics as told", i);
    }
    set.split(',').any(|x| x == i.to_string() || x == "*")
}

fn handler(i: usize, mut req: Request, stream: Stream, state: String) -> UsedStream {
    let id = header(&req, "x-id").unwrap_or_default();
    log(json!({"ev": "handler", "i": i, "id": id, "state": state}));
    if let Some(ctl) = header(&req, "x-ctl") {
        return controlled(i, req, stream, state, ctl);
    }
    match header(&req, "x-do").as_deref() {
        Some("panic") => panic!("handler told to panic"),
        Some("drop") => return UsedStream::empty(),
        Some("400") => return finish(stream.respond(puck::err_400())),
        Some("404") => return finish(stream.respond(puck::err_404())),
        Some("upgrade") => {
            return match stream.upgrade(&req) {
                Ok(ws) => {
                    log(json!({"ev": "upgraded", "i": i, "id": id}));
                    finish(ws.close().map_err(|_| std::io::ErrorKind::Other.into()))
                }
                Err(used) => {
                    log(json!({"ev": "refused", "i": i, "id": id}));
                    used
                }
            }
        }
        _ => {}
    }
    let mut v = request_json(&req);
    v["handler"] = json!(i);
    v["state"] = json!(state);
    v["body"] = match req.take_body().into_bytes() {
        Ok(b) => json!(hex(&b)),
        Err(e) => json!(format!("err:{:?}", e.kind())),
    };
    let text = v.to_string();
    finish(
        stream.respond(
            Response::build()
                .header("Content-Length", text.len())
                .header("X-Id", id)
                .status(200, "OK")
                .body(text)
                .build(),
        ),
    )
}

fn finish(r: Result<UsedStream, std::io::Error>) -> UsedStream {
    r.unwrap_or_else(|_| UsedStream::empty())
}

fn request_json(req: &Request) -> Value {
    json!({"method": exec::method_name(req.method()), "url": req.url().as_str(),
           "path": req.url().path(), "query": req.url().query().unwrap_or("#"),
           "headers": exec::headers_json(req.headers().iter())})
}

enum Holding {
    Stream(Stream),
    Ws(WebSocket),
    Nothing,
}

fn controlled(i: usize, req: Request, stream: Stream, state: String, ctl: String) -> UsedStream {
    let mut c = match TcpStream::connect(ctl.clone()) {
        Ok(c) => c,
        Err(_) => return UsedStream::empty(),
    };
    let mut v = request_json(&req);
    v["handler"] = json!(i);
    v["state"] = json!(state);
    let _ = c.write_all(format!("{}\n", v).as_bytes());
    steps(c, ctl, Some(req), Holding::Stream(stream))
}

fn ws_item(item: Option<Result<Message, NextMessageError>>) -> Value {
    match item {
        None => json!({"r": "end"}),
        Some(Ok(m)) => exec::message_json(&m),
        Some(Err(NextMessageError::ClientError)) => json!({"r": "err"}),
        Some(Err(NextMessageError::ConnectionClosed)) => json!({"r": "closed"}),
        Some(Err(_)) => json!({"r": "err"}),
    }
}

fn message_of(cmd: &Value) -> Message {
    let data = match cmd["segs"].as_array() {
        // runs of a byte each
        Some(segs) => segs
            .iter()
            .flat_map(|s| vec![s[0].as_u64().unwrap() as u8; s[1].as_u64().unwrap() as usize])
            .collect(),
        None => unhex(cmd["data"].as_str().unwrap()),
    };
    match cmd["t"].as_str().unwrap() {
        "text" => Message::Text(String::from_utf8(data).expect("utf8")),
        "bin" => Message::Binary(data),
        "ping" => Message::Ping(opt(cmd, data)),
        "pong" => Message::Pong(opt(cmd, data)),
        x => panic!("message {}", x),
    }
}

fn opt(cmd: &Value, data: Vec<u8>) -> Option<Vec<u8>> {
    if cmd["none"].as_bool().unwrap_or(false) {
        None
    } else {
        Some(data)
    }
}

fn steps(c: TcpStream, ctl: String, mut req: Option<Request>, mut h: Holding) -> UsedStream {
    let mut out = c.clone();
    let mut input = BufReader::new(c);
    let mut used = UsedStream::empty();
    loop {
        let mut line = String::new();
        match input.read_line(&mut line) {
            Ok(0) | Err(_) => return used,
            Ok(_) => {}
        }
        let cmd: Value = serde_json::from_str(&line).expect("cmd");
        let reply = match (cmd["c"].as_str().unwrap(), h) {
            ("panic", _) => panic!("told to panic"),
            ("return", _) => return used,
            ("drop", _) => {
                h = Holding::Nothing;
                json!({"r": "ok"})
            }
            ("body", x) => {
                h = x;
                let b = req.as_mut().expect("request").take_body();
                match b.into_bytes() {
                    Ok(b) => json!({"r": "ok", "body": hex(&b)}),
                    Err(e) => json!({"r": format!("err:{:?}", e.kind())}),
                }
            }
            ("respond", Holding::Stream(s)) => {
                h = Holding::Nothing;
                match s.respond(exec::response_of(&cmd)) {
                    Ok(u) => {
                        used = u;
                        json!({"r": "ok"})
                    }
                    Err(e) => json!({"r": "err", "kind": format!("{:?}", e.kind())}),
                }
            }
            ("upgrade", Holding::Stream(s)) => match s.upgrade(req.as_ref().expect("request")) {
                Ok(ws) => {
                    h = Holding::Ws(ws);
                    json!({"r": "ok"})
                }
                Err(u) => {
                    used = u;
                    h = Holding::Nothing;
                    json!({"r": "refused"})
                }
            },
            ("next", Holding::Ws(mut ws)) => {
                let v = ws_item(ws.next());
                h = Holding::Ws(ws);
                v
            }
            ("send", Holding::Ws(ws)) => {
                let r = ws.send(message_of(&cmd));
                h = Holding::Ws(ws);
                match r {
                    Ok(()) => json!({"r": "ok"}),
                    Err(_) => json!({"r": "err"}),
                }
            }
            ("sends", Holding::Ws(ws)) => {
                // one after the other, without waiting for the driver
                let rs: Vec<&str> = cmd["msgs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|m| if ws.send(message_of(m)).is_ok() { "ok" } else { "err" })
                    .collect();
                h = Holding::Ws(ws);
                json!({"r": "ok", "rs": rs})
            }
            ("nexts", Holding::Ws(mut ws)) => {
                let n = cmd["n"].as_u64().unwrap();
                if cmd["quiet"] == true {
                    let oks = (0..n).filter(|_| matches!(ws.next(), Some(Ok(_)))).count();
                    h = Holding::Ws(ws);
                    json!({"r": "ok", "n": oks})
                } else {
                    let rs: Vec<Value> = (0..n).map(|_| ws_item(ws.next())).collect();
                    h = Holding::Ws(ws);
                    json!({"r": "ok", "rs": rs})
                }
            }
            ("close", Holding::Ws(ws)) => {
                h = Holding::Nothing;
                match ws.close() {
                    Ok(u) => {
                        used = u;
                        json!({"r": "ok"})
                    }
                    Err(_) => json!({"r": "err"}),
                }
            }
            ("fork", Holding::Ws(ws)) => {
                // a second process gets a copy of the connection, as the live-view runtime does
                let copy = ws.make_copy();
                let _ = Process::spawn(
                    (copy, ctl.clone()),
                    |(copy, ctl): (WebSocket, String), _: Mailbox<()>| {
                        if let Ok(mut c) = TcpStream::connect(ctl.clone()) {
                            let _ = c.write_all(b"{\"fork\": true}\n");
                            let _ = steps(c, ctl, None, Holding::Ws(copy));
                        }
                    },
                );
                h = Holding::Ws(ws);
                json!({"r": "ok"})
            }
            ("move", Holding::Ws(ws)) => {
                // the connection itself moves to another process
                let _ = Process::spawn(
                    (ws, ctl.clone()),
                    |(ws, ctl): (WebSocket, String), _: Mailbox<()>| {
                        if let Ok(mut c) = TcpStream::connect(ctl.clone()) {
                            let _ = c.write_all(b"{\"fork\": true}\n");
                            let _ = steps(c, ctl, None, Holding::Ws(ws));
                        }
                    },
                );
                h = Holding::Nothing;
                json!({"r": "ok"})
            }
            (x, y) => {
                h = y;
                json!({"r": "bad-command", "c": x})
            }
        };
        if out.write_all(format!("{}\n", reply).as_bytes()).is_err() {
            return used;
        }
    }
}

macro_rules! fns {
    ($($m:ident $h:ident $i:expr),*) => {
        $(fn $m(r: &Request) -> bool { matcher($i, r) }
          fn $h(r: Request, s: Stream, st: String) -> UsedStream { handler($i, r, s, st) })*
        static MATCHERS: [fn(&Request) -> bool; 8] = [$($m),*];
        static HANDLERS: [fn(Request, Stream, String) -> UsedStream; 8] = [$($h),*];
    };
}
fns!(m0 h0 0, m1 h1 1, m2 h2 2, m3 h3 3, m4 h4 4, m5 h5 5, m6 h6 6, m7 h7 7);
