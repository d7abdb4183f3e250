id = 'line_by_line'
property = 'C29'
needs = 'two processes which send on copies of one WebSocket at the same time, and a message which contains a line break (byte 10)'
breaks = 'the frame of a message with a line break is written in two pieces, and the frame of another process can end up between them'
edits = [('puck/src/ws/send.rs', '    send_frame(stream, Frame::from(msg))', '    send_frame(std::io::LineWriter::new(stream), Frame::from(msg))')]
main = r'''use lunatic::{Mailbox, Process};
use puck::core::{Core, Stream, UsedStream};
use puck::ws::{message::Message, websocket::WebSocket};
fn many(ws: &WebSocket, c: char) {
    for i in 0..80 {
        let text = format!("{}{:03}\n{}", c, i, c.to_string().repeat(3000));
        if ws.send(Message::Text(text)).is_err() {
            return;
        }
    }
}
fn f(r: Request, s: Stream, _: ()) -> UsedStream {
    let ws = s.upgrade(&r).unwrap();
    for c in ['b', 'c', 'd'] {
        let _ = Process::spawn((ws.make_copy(), c), |(ws, c): (WebSocket, char), _: Mailbox<()>| many(&ws, c));
    }
    many(&ws, 'a');
    // until the client goes
    for m in ws {
        if m.is_err() {
            break;
        }
    }
    UsedStream::empty()
}
fn main() {
    let port = std::env::args().last().unwrap();
    Core::bind(format!("127.0.0.1:{}", port), ()).unwrap().for_each(f);
}
'''
client = r'''p, port = start()
for turn in range(50):
    c = upgrade(port)
    f = c.makefile("rb")
    c.settimeout(60)
    at, last = dict(a=0, b=0, c=0, d=0), b""
    for n in range(320):
        head = f.read(4)
        body = f.read(3005)
        last = head + body[:20] + b"..." + body[-20:]
        who = body[:1].decode("latin-1")
        if head != bytes([0x81, 126]) + struct.pack(">H", 3005) or who not in at or body != ("%s%03d\n" % (who, at[who]) + who * 3000).encode():
            verdict(p, False, (turn, n, last))
        at[who] += 1
    c.close()
verdict(p, True)
'''
