id = 'empty_last_fragment'
property = 'C14'
needs = 'a fragmented message whose last fragment is empty'
breaks = 'a message whose last fragment is empty is not delivered'
edits = [('puck/src/ws/message.rs', '            let fin = *msg.fin();\n', '            if msg.decoded().is_empty() {\n                continue;\n            }\n\n            let fin = *msg.fin();\n')]
main = r'''use puck::core::{Core, Stream, UsedStream};
use puck::ws::{message::Message, websocket::NextMessageError};
fn f(r: Request, s: Stream, _: ()) -> UsedStream {
    let mut ws = s.upgrade(&r).unwrap();
    let mut n = 0;
    loop {
        n += 1;
        let text = match ws.next() {
            Some(Ok(Message::Text(t))) => format!("text {}", t),
            Some(Ok(Message::Binary(b))) => format!("binary {:?}", b),
            Some(Ok(Message::Ping(b))) => format!("ping {}", b.unwrap_or_default().len()),
            Some(Ok(Message::Pong(b))) => format!("pong {}", b.unwrap_or_default().len()),
            Some(Err(NextMessageError::ConnectionClosed)) => "closed".to_string(),
            Some(Err(_)) => "error".to_string(),
            None => "none".to_string(),
        };
        let last = text == "closed" || text == "none" || n > 20;
        let _ = ws.send(Message::Text(text));
        if last {
            return ws.close().unwrap_or_else(|_| UsedStream::empty());
        }
    }
}
fn main() {
    let port = std::env::args().last().unwrap();
    Core::bind(format!("127.0.0.1:{}", port), ()).unwrap().for_each(f);
}
'''
client = r'''p, port = start()
c = upgrade(port)
c.sendall(frame(1, b"he", fin=False) + frame(0, b"llo", fin=False) + frame(0, b"") + frame(2, b"x"))
b = drain(c)
verdict(p, b"text hello" in b and b"binary [120]" in b, b)
'''
