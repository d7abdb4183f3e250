id = 'lossy_fragments'
property = 'C17'
needs = 'a fragmented text message that is not UTF-8'
breaks = 'such a message is delivered with replacement characters'
edits = [('puck/src/ws/message.rs', '                        Ok(Self::Text(String::from_utf8(payload).map_err(|_| {\n                            DecodeMessageError::ClientProtocolViolationError\n                        })?))', '                        Ok(Self::Text(String::from_utf8_lossy(&payload).into_owned()))')]
main = r'''use puck::core::{Core, Stream, UsedStream};
use puck::ws::{message::Message, websocket::NextMessageError};
fn f(r: Request, s: Stream, _: ()) -> UsedStream {
    let mut ws = s.upgrade(&r).unwrap();
    let mut n = 0;
    loop {
        n += 1;
        let text = match ws.next() {
            Some(Ok(Message::Text(t))) => format!("text {}", t),
            Some(Ok(Message::Binary(b))) => format!("binary {:?}", b),
            Some(Ok(Message::Ping(b))) => format!("ping {}", b.unwrap_or_default().len()),
            Some(Ok(Message::Pong(b))) => format!("pong {}", b.unwrap_or_default().len()),
            Some(Err(NextMessageError::ConnectionClosed)) => "closed".to_string(),
            Some(Err(_)) => "error".to_string(),
            None => "none".to_string(),
        };
        let last = text == "closed" || text == "none" || n > 20;
        let _ = ws.send(Message::Text(text));
        if last {
            return ws.close().unwrap_or_else(|_| UsedStream::empty());
        }
    }
}
fn main() {
    let port = std::env::args().last().unwrap();
    Core::bind(format!("127.0.0.1:{}", port), ()).unwrap().for_each(f);
}
'''
client = r'''p, port = start()
c = upgrade(port)
c.sendall(frame(1, b"a\xc3", fin=False) + frame(0, b"(b"))
b = drain(c)
verdict(p, b"error" in b and b"text" not in b, b)
'''
