id = 'close_again'
property = 'C16'
needs = "the application closes after the client's close frame was answered"
breaks = 'a second close frame is sent'
edits = [('puck/src/ws/websocket.rs', '            WebSocketState::Closed => {}\n', '            WebSocketState::Closed => {\n                let _ = send_close_frame(self.stream.clone());\n            }\n')]
main = r'''use puck::core::{Core, Stream, UsedStream};
use puck::ws::{message::Message, websocket::NextMessageError};
fn f(r: Request, s: Stream, _: ()) -> UsedStream {
    let mut ws = s.upgrade(&r).unwrap();
    let mut n = 0;
    loop {
        n += 1;
        let text = match ws.next() {
            Some(Ok(Message::Text(t))) => format!("text {}", t),
            Some(Ok(Message::Binary(b))) => format!("binary {:?}", b),
            Some(Ok(Message::Ping(b))) => format!("ping {}", b.unwrap_or_default().len()),
            Some(Ok(Message::Pong(b))) => format!("pong {}", b.unwrap_or_default().len()),
            Some(Err(NextMessageError::ConnectionClosed)) => "closed".to_string(),
            Some(Err(_)) => "error".to_string(),
            None => "none".to_string(),
        };
        let last = text == "closed" || text == "none" || n > 20;
        if !last { let _ = ws.send(Message::Text(text)); }
        if last {
            return ws.close().unwrap_or_else(|_| UsedStream::empty());
        }
    }
}
fn main() {
    let port = std::env::args().last().unwrap();
    Core::bind(format!("127.0.0.1:{}", port), ()).unwrap().for_each(f);
}
'''
client = r'''p, port = start()
c = upgrade(port)
c.sendall(frame(8, b""))
b = drain(c)
verdict(p, b == bytes([0x88, 0]), b)
'''
