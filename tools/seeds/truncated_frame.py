id = 'truncated_frame'
property = 'C19'
needs = "the client disconnects in the middle of a frame's payload"
breaks = 'the part that arrived is delivered as a message'
edits = [('puck/src/ws/frame.rs', '            if n as u64 != payload_length {\n                if !fin && payload_length > n as u64 {\n                    return Err(ParseFrameError::WaitForNextFrame(payload_length - n as u64));\n                }\n                return Err(ParseFrameError::IoError);\n            }\n\n            let mut decoded = vec![0_u8; payload_length as usize];', '            if n as u64 != payload_length && n == 0 {\n                return Err(ParseFrameError::InsufficientData);\n            }\n\n            let mut decoded = vec![0_u8; encoded.len()];')]
main = r'''use puck::core::{Core, Stream, UsedStream};
use puck::ws::{message::Message, websocket::NextMessageError};
fn f(r: Request, s: Stream, _: ()) -> UsedStream {
    let mut ws = s.upgrade(&r).unwrap();
    let mut n = 0;
    loop {
        n += 1;
        let text = match ws.next() {
            Some(Ok(Message::Text(t))) => format!("text {}", t),
            Some(Ok(Message::Binary(b))) => format!("binary {:?}", b),
            Some(Ok(Message::Ping(b))) => format!("ping {}", b.unwrap_or_default().len()),
            Some(Ok(Message::Pong(b))) => format!("pong {}", b.unwrap_or_default().len()),
            Some(Err(NextMessageError::ConnectionClosed)) => "closed".to_string(),
            Some(Err(_)) => "error".to_string(),
            None => "none".to_string(),
        };
        let last = text == "closed" || text == "none" || n > 20;
        let _ = ws.send(Message::Text(text));
        if last {
            return ws.close().unwrap_or_else(|_| UsedStream::empty());
        }
    }
}
fn main() {
    let port = std::env::args().last().unwrap();
    Core::bind(format!("127.0.0.1:{}", port), ()).unwrap().for_each(f);
}
'''
client = r'''p, port = start()
c = upgrade(port)
c.sendall(frame(1, b"hello world")[:-4])
c.shutdown(socket.SHUT_WR)
b = drain(c)
verdict(p, b"error" in b and b"text" not in b, b)
'''
