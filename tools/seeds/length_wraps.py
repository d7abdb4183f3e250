id = 'length_wraps'
property = 'C18'
needs = 'a message of 65536 bytes or more'
breaks = 'the length form of a frame is chosen from the low 16 bits of the length'
edits = [('puck/src/ws/frame.rs', 'let two = { Self::format_length(self.decoded.len() as u64) };', 'let two = { Self::format_length(self.decoded.len() as u16 as u64) };')]
main = r'''use puck::core::{Core, Stream, UsedStream};
use puck::ws::message::Message;
fn f(r: Request, s: Stream, _: ()) -> UsedStream {
    let ws = s.upgrade(&r).unwrap();
    let _ = ws.send(Message::Binary(vec![7; 65536 + 9]));
    ws.close().unwrap_or_else(|_| UsedStream::empty())
}
fn main() {
    let port = std::env::args().last().unwrap();
    Core::bind(format!("127.0.0.1:{}", port), ()).unwrap().for_each(f);
}
'''
client = r'''p, port = start()
c = upgrade(port)
b = drain(c, 5)
want = bytes([0x82, 127]) + struct.pack(">Q", 65545) + bytes([7]) * 65545
verdict(p, b[:len(want)] == want, b[:20])
'''
