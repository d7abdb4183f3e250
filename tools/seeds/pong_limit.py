id = 'pong_limit'
property = 'C15'
needs = 'a ping with exactly 125 bytes of payload'
breaks = 'the pong for a ping of the largest size is empty'
edits = [('puck/src/ws/websocket.rs', 'decoded: payload.clone().unwrap_or_default(),', 'decoded: payload\n                                    .clone()\n                                    .filter(|payload| payload.len() < 125)\n                                    .unwrap_or_default(),')]
main = r'''use puck::core::{Core, Stream, UsedStream};
use puck::ws::{message::Message, websocket::NextMessageError};
fn f(r: Request, s: Stream, _: ()) -> UsedStream {
    let mut ws = s.upgrade(&r).unwrap();
    let mut n = 0;
    loop {
        n += 1;
        let text = match ws.next() {
            Some(Ok(Message::Text(t))) => format!("text {}", t),
            Some(Ok(Message::Binary(b))) => format!("binary {:?}", b),
            Some(Ok(Message::Ping(b))) => format!("ping {}", b.unwrap_or_default().len()),
            Some(Ok(Message::Pong(b))) => format!("pong {}", b.unwrap_or_default().len()),
            Some(Err(NextMessageError::ConnectionClosed)) => "closed".to_string(),
            Some(Err(_)) => "error".to_string(),
            None => "none".to_string(),
        };
        let last = text == "closed" || text == "none" || n > 20;
        let _ = ws.send(Message::Text(text));
        if last {
            return ws.close().unwrap_or_else(|_| UsedStream::empty());
        }
    }
}
fn main() {
    let port = std::env::args().last().unwrap();
    Core::bind(format!("127.0.0.1:{}", port), ()).unwrap().for_each(f);
}
'''
client = r'''p, port = start()
c = upgrade(port)
c.sendall(frame(9, b"p" * 125) + frame(9, b"q" * 124))
b = drain(c)
verdict(p, bytes([0x8a, 125]) + b"p" * 125 in b and bytes([0x8a, 124]) + b"q" * 124 in b, b)
'''
