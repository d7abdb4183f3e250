id = 'linked_connections'
property = 'C07'
needs = 'a handler that crashes on one connection, then another connection'
breaks = "the crash of one connection's process ends the server's process as well"
edits = [('puck/src/core/mod.rs', '                let _ = Process::spawn(\n                    (pointer, stream.clone(), self.state.clone()),', '                let _ = Process::spawn_link(\n                    (pointer, stream.clone(), self.state.clone()),')]
main = r'''use puck::core::{Core, Stream, UsedStream};
fn f(r: Request, s: Stream, _: ()) -> UsedStream {
    if r.url().path() == "/crash" { panic!("crash"); }
    s.respond(Response::build().header("Content-Length", 2).body("ok").build()).unwrap()
}
fn main() {
    let port = std::env::args().last().unwrap();
    Core::bind(format!("127.0.0.1:{}", port), ()).unwrap().for_each(f);
}
'''
client = r'''p, port = start()
ok = True
for x in (b"a", b"crash", b"b"):
    try:
        r = ask(port, b"GET /%s HTTP/1.1\r\nHost: h\r\n\r\n" % x)
    except OSError:
        r = b"refused"
    ok = ok and (x == b"crash" or r.endswith(b"ok"))
    time.sleep(0.5)
verdict(p, ok)
'''
