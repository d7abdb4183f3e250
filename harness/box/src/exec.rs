use std::io::{self, BufRead, BufReader, Cursor, Read, Write};

use lunatic::net::TcpStream;
use puck::{
    body::Body,
    core::router::match_url::{any_integer, anything, path, Match},
    request::{Method, RequestParseError},
    response::{encoder::Encoder, ParseResponseError},
    ws::{frame::Frame, frame::OpCode, message::DecodeMessageError, message::Message},
    Request, Response,
};
use serde_json::{json, Value};

use crate::{hex, scripted::Scripted, unhex};

pub fn session(stream: TcpStream) {
    let mut out = stream.clone();
    let mut reader = BufReader::new(stream);
    let mut line = String::new();
    loop {
        line.clear();
        match reader.read_line(&mut line) {
            Ok(0) | Err(_) => return,
            Ok(_) => {}
        }
        let cmd: Value = serde_json::from_str(&line).expect("command");
        let mut reply = run(&cmd).to_string();
        reply.push('\n');
        if out.write_all(reply.as_bytes()).is_err() {
            return;
        }
    }
}

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}

fn chunks(v: &Value) -> Vec<Vec<u8>> {
    v["chunks"]
        .as_array()
        .expect("chunks")
        .iter()
        .map(|c| unhex(c.as_str().unwrap()))
        .collect()
}

pub fn method_name(m: &Method) -> String {
    match m {
        Method::Get => "GET".into(),
        Method::Post => "POST".into(),
        Method::Head => "HEAD".into(),
        Method::OtherMethod(x) => format!("other:{}", x),
    }
}

pub fn method_of(name: &str) -> Method {
    match name {
        "GET" => Method::Get,
        "POST" => Method::Post,
        "HEAD" => Method::Head,
        x => Method::OtherMethod(x.strip_prefix("other:").unwrap_or(x).into()),
    }
}

pub fn headers_json<'a>(h: impl Iterator<Item = (&'a String, &'a String)>) -> Value {
    let mut v: Vec<(String, String)> = h
        .map(|(k, v)| (hex(k.as_bytes()), hex(v.as_bytes())))
        .collect();
    v.sort();
    json!(v)
}

/// Reads a body as the command asks: "reads" is a list of read sizes, repeated cyclically until a
/// read of a non-zero size returns 0 (two more reads are then made), or "mode" is bytes / string.
fn read_body(cmd: &Value, mut body: Body) -> Value {
    match s(cmd, "mode") {
        "bytes" => match body.into_bytes() {
            Ok(b) => json!({"all": hex(&b)}),
            Err(e) => json!({ "err": kind(&e) }),
        },
        "string" => match body.into_string() {
            Ok(b) => json!({"all": hex(b.as_bytes())}),
            Err(e) => json!({ "err": kind(&e) }),
        },
        "none" => json!({}),
        _ => {
            let sizes: Vec<usize> = cmd["reads"]
                .as_array()
                .map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect())
                .unwrap_or_else(|| vec![4096]);
            let mut log = vec![];
            let mut after = 0;
            let mut i = 0;
            loop {
                let n = sizes[i % sizes.len()];
                i += 1;
                let mut buf = vec![0xEE_u8; n];
                match body.read(&mut buf) {
                    Ok(k) => {
                        if k <= n && buf[k..].iter().any(|b| *b != 0xEE) {
                            log.push(json!([n, "scribbled", k]));
                        } else {
                            log.push(json!([n, "ok", hex(&buf[..k])]));
                        }
                        if k == 0 && n > 0 {
                            after += 1;
                        }
                    }
                    Err(e) => {
                        log.push(json!([n, "err", kind(&e)]));
                        after += 1;
                    }
                }
                if after >= 3 || i > 200_000 {
                    break;
                }
            }
            json!({ "reads": log })
        }
    }
}

fn kind(e: &io::Error) -> String {
    format!("{:?}", e.kind())
}

fn request_json(req: &Request) -> Value {
    json!({"r": "ok", "method": method_name(req.method()), "url": req.url().as_str(),
           "path": req.url().path(), "query": req.url().query().unwrap_or("#"),
           "headers": headers_json(req.headers().iter())})
}

fn req_parse(cmd: &Value) -> Value {
    let rd = Scripted::new(chunks(cmd), s(cmd, "end"));
    match Request::parse(rd.clone()) {
        Ok(None) => json!({"r": "none", "stalls": rd.stalls()}),
        Err(e) => {
            json!({"r": "err", "stalls": rd.stalls(), "kind": match e {
                RequestParseError::CouldNotParse(_) => "head",
                RequestParseError::Utf8Error(_) => "utf8",
                RequestParseError::IoError(_) => "io",
                RequestParseError::InvalidUrl => "url",
                RequestParseError::MissingHeader(_) => "header",
                RequestParseError::MissingMethod => "method",
                _ => "other",
            }})
        }
        Ok(Some(mut req)) => {
            let mut v = request_json(&req);
            v["head_stalls"] = json!(rd.stalls());
            let body = req.take_body();
            v["body"] = read_body(cmd, body);
            v["stalls"] = json!(rd.stalls());
            v
        }
    }
}

fn response_json(res: &Response) -> Value {
    json!({"r": "ok", "status": res.status(), "reason": hex(res.reason().as_bytes()),
           "headers": headers_json(res.headers().iter())})
}

fn res_parse(cmd: &Value) -> Value {
    let rd = Scripted::new(chunks(cmd), s(cmd, "end"));
    match Response::parse(rd.clone()) {
        Ok(None) => json!({"r": "none", "stalls": rd.stalls()}),
        Err(e) => {
            let io = matches!(e, ParseResponseError::IoError(_));
            json!({"r": "err", "stalls": rd.stalls(), "kind": if io {"io"} else {"head"}})
        }
        Ok(Some(mut res)) => {
            let mut v = response_json(&res);
            v["head_stalls"] = json!(rd.stalls());
            let body = res.take_body();
            v["body"] = read_body(cmd, body);
            v["stalls"] = json!(rd.stalls());
            v
        }
    }
}

/// {"kind": "string"|"str"|"reader"|"empty", "data": hex, "len": n|null, "chunks": [..]}
pub fn make_body(b: &Value) -> Body {
    match s(b, "kind") {
        "string" => Body::from_string(String::from_utf8(unhex(s(b, "data"))).expect("utf8")),
        "into" => {
            let x = String::from_utf8(unhex(s(b, "data"))).expect("utf8");
            x.into()
        }
        "str" => {
            let x = String::from_utf8(unhex(s(b, "data"))).expect("utf8");
            x.as_str().into()
        }
        "reader" => {
            let len = b["len"].as_u64().map(|x| x as usize);
            if b["chunks"].is_array() {
                Body::from_reader(
                    BufReader::with_capacity(
                        b["cap"].as_u64().unwrap_or(16) as usize,
                        Scripted::new(chunks(b), s(b, "end")),
                    ),
                    len,
                )
            } else {
                Body::from_reader(Cursor::new(unhex(s(b, "data"))), len)
            }
        }
        _ => Body::empty(),
    }
}

fn body(cmd: &Value) -> Value {
    let b = make_body(&cmd["body"]);
    json!({"r": "ok", "body": read_body(cmd, b)})
}

fn utf8(v: &Value) -> String {
    String::from_utf8(unhex(v.as_str().expect("hex string"))).expect("utf8")
}

fn pairs(v: &Value) -> Vec<(String, String)> {
    v.as_array()
        .map(|a| a.iter().map(|p| (utf8(&p[0]), utf8(&p[1]))).collect())
        .unwrap_or_default()
}

/// A writer which accepts at most `max` bytes per call.
struct Sink {
    data: Vec<u8>,
    max: usize,
    calls_after_err: usize,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.max);
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn sink(cmd: &Value) -> Sink {
    Sink {
        data: vec![],
        max: cmd["wmax"].as_u64().unwrap_or(1 << 30) as usize,
        calls_after_err: 0,
    }
}

fn build_response(cmd: &Value) -> Response {
    let mut b = Response::build();
    for c in cmd["calls"].as_array().expect("calls") {
        b = match s(c, "c") {
            "header" => b.header(utf8(&c["k"]), utf8(&c["v"])),
            "headers" => b.headers(pairs(&c["h"])),
            "status" => b.status(c["code"].as_u64().unwrap() as u16, utf8(&c["reason"])),
            "body" => b.body(make_body(&c["body"])),
            x => panic!("call {}", x),
        };
    }
    b.build()
}

pub fn response_of(cmd: &Value) -> Response {
    match s(cmd, "prebuilt") {
        "400" => puck::err_400(),
        "404" => puck::err_404(),
        _ => build_response(cmd),
    }
}

fn res_encode(cmd: &Value) -> Value {
    let res = response_of(cmd);
    let mut out = sink(cmd);
    let r = if s(cmd, "via") == "write_response" {
        puck::write_response(res, &mut out);
        Ok(())
    } else {
        Encoder::new(res).write_tcp_stream(&mut out)
    };
    match r {
        Ok(()) => json!({"r": "ok", "wire": hex(&out.data)}),
        Err(e) => json!({"r": "err", "kind": kind(&e), "wire": hex(&out.data)}),
    }
}

fn build_request(cmd: &Value) -> Result<Request, &'static str> {
    let mut b = match Request::try_build(utf8(&cmd["url"])) {
        Ok(b) => b,
        Err(_) => return Err("badurl"),
    };
    for c in cmd["calls"].as_array().expect("calls") {
        b = match s(c, "c") {
            "header" => b.header(utf8(&c["k"]), utf8(&c["v"])),
            "headers" => b.headers(pairs(&c["h"])),
            "method" => b.method(method_of(s(c, "m"))),
            "method_str" => b.method(Method::new_from_str(&utf8(&c["m"]))),
            "body" => b.body(make_body(&c["body"])),
            x => panic!("call {}", x),
        };
    }
    b.try_build().map_err(|_| "nomethod")
}

fn req_write(cmd: &Value) -> Value {
    let mut req = match build_request(cmd) {
        Ok(r) => r,
        Err(e) => return json!({ "r": e }),
    };
    let mut v = request_json(&req);
    let mut out = sink(cmd);
    match req.write(&mut out) {
        Ok(()) => {
            v["wire"] = json!(hex(&out.data));
        }
        Err(e) => {
            v["r"] = json!("err");
            v["kind"] = json!(kind(&e));
            v["wire"] = json!(hex(&out.data));
        }
    }
    v
}

fn all(b: Body) -> Value {
    match b.into_bytes() {
        Ok(x) => json!(hex(&x)),
        Err(e) => json!(format!("err:{}", kind(&e))),
    }
}

/// Builder history followed by replace/take operations and a final read-out.
fn builder(cmd: &Value) -> Value {
    let mut post = vec![];
    if s(cmd, "what") == "request" {
        let mut req = match build_request(cmd) {
            Ok(r) => r,
            Err(e) => return json!({ "r": e }),
        };
        let built = request_json(&req);
        for c in cmd["post"].as_array().expect("post") {
            let old = match s(c, "c") {
                "replace" => req.replace_body(make_body(&c["body"])),
                _ => req.take_body(),
            };
            post.push(json!({"old": all(old), "headers": headers_json(req.headers().iter()),
                             "method": method_name(req.method()), "url": req.url().as_str()}));
        }
        let mut v = built;
        v["post"] = json!(post);
        v["last"] = all(req.take_body());
        v
    } else {
        let mut res = build_response(cmd);
        let built = response_json(&res);
        for c in cmd["post"].as_array().expect("post") {
            let old = match s(c, "c") {
                "replace" => res.replace_body(make_body(&c["body"])),
                _ => res.take_body(),
            };
            post.push(json!({"old": all(old), "headers": headers_json(res.headers().iter()),
                             "status": res.status(), "reason": hex(res.reason().as_bytes())}));
        }
        let mut v = built;
        v["post"] = json!(post);
        v["last"] = all(res.take_body());
        v
    }
}

fn url_match(cmd: &Value) -> Value {
    let mut m = Match::new();
    for seg in cmd["segs"].as_array().expect("segs") {
        let t = seg[0].as_str().unwrap();
        m = m.at(match t {
            "static" => path(Box::leak(
                seg[1].as_str().unwrap().to_string().into_boxed_str(),
            )),
            "any" => anything(),
            _ => any_integer(),
        });
    }
    let one = |text: &str| match url::Url::parse(text) {
        Err(_) => json!({"r": "badurl"}),
        Ok(u) => {
            let a = m.does_match(&u);
            let b = m.does_match(&u);
            json!({"r": "ok", "m": a, "again": b, "path": u.path(),
                   "base": u.cannot_be_a_base()})
        }
    };
    let urls = cmd["urls"].as_array().expect("urls");
    json!({"r": "ok", "runs": urls.iter().map(|u| one(u.as_str().unwrap())).collect::<Vec<_>>()})
}

pub fn op_name(o: &OpCode) -> &'static str {
    match o {
        OpCode::Continue => "cont",
        OpCode::Binary => "bin",
        OpCode::Text => "text",
        OpCode::Reserved => "reserved",
        OpCode::Terminate => "close",
        OpCode::Ping => "ping",
        OpCode::Pong => "pong",
        _ => "other",
    }
}

/// The reserved bits have no public accessor; they are visible in the public `Debug` output.
fn rsv(f: &Frame) -> Value {
    let d = format!("{:?}", f);
    let bit = |n: &str| {
        if d.contains(&format!("{}: true", n)) {
            json!(1)
        } else if d.contains(&format!("{}: false", n)) {
            json!(0)
        } else {
            json!(-1)
        }
    };
    json!([bit("rsv1"), bit("rsv2"), bit("rsv3")])
}

fn frames(cmd: &Value) -> Value {
    let rd = Scripted::new(chunks(cmd), s(cmd, "end"));
    let max = cmd["max"].as_u64().unwrap_or(64);
    let mut out = vec![];
    for _ in 0..max {
        match Frame::parse(rd.clone()) {
            Ok(f) => {
                let r = rsv(&f);
                out.push(json!({"r": "ok", "fin": *f.fin(), "op": op_name(f.op_code()), "rsv": r,
                    "data": hex(f.decoded()), "taken": rd.taken(), "stalls": rd.stalls()}));
                if f.decoded().clone() != f.take_decoded() {
                    out.push(json!({"r": "decoded-differs"}));
                }
            }
            Err(_) => {
                out.push(json!({"r": "err", "taken": rd.taken(), "stalls": rd.stalls()}));
                break;
            }
        }
    }
    json!({"r": "ok", "frames": out})
}

pub fn message_json(m: &Message) -> Value {
    match m {
        Message::Ping(p) => json!({"r": "ok", "t": "ping", "data": hex(p.as_deref().unwrap_or(b""))}),
        Message::Pong(p) => json!({"r": "ok", "t": "pong", "data": hex(p.as_deref().unwrap_or(b""))}),
        Message::Text(x) => json!({"r": "ok", "t": "text", "data": hex(x.as_bytes())}),
        Message::Binary(x) => json!({"r": "ok", "t": "bin", "data": hex(x)}),
        _ => json!({"r": "ok", "t": "other"}),
    }
}

fn messages(cmd: &Value) -> Value {
    let rd = Scripted::new(chunks(cmd), s(cmd, "end"));
    let max = cmd["max"].as_u64().unwrap_or(64);
    let mut out = vec![];
    for _ in 0..max {
        match Message::next(rd.clone()) {
            Ok(m) => out.push(message_json(&m)),
            Err(e) => {
                out.push(match e {
                    DecodeMessageError::ClientSentCloseFrame => json!({"r": "closed"}),
                    DecodeMessageError::ClientProtocolViolationError => json!({"r": "err"}),
                    _ => json!({"r": "err"}),
                });
                break;
            }
        }
    }
    json!({"r": "ok", "messages": out})
}

pub fn run(cmd: &Value) -> Value {
    match s(cmd, "op") {
        "req_parse" => req_parse(cmd),
        "res_parse" => res_parse(cmd),
        "body" => body(cmd),
        "res_encode" => res_encode(cmd),
        "req_write" => req_write(cmd),
        "builder" => builder(cmd),
        "url_match" => url_match(cmd),
        "frames" => frames(cmd),
        "messages" => messages(cmd),
        "echo" => json!({"r": "ok"}),
        x => panic!("unknown op {}", x),
    }
}
