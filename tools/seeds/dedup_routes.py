id = 'dedup_routes'
property = 'C05'
needs = 'a router with two neighbouring routes to the same handler, and a request only the second matches'
breaks = 'the second of two neighbouring routes to one handler is lost'
edits = [('puck/src/core/router/mod.rs', '        self.routes\n            .iter()\n            .map(|route| {\n                (\n                    route.matcher as *const () as usize,\n                    route.handler as *const () as usize,\n                )\n            })\n            .collect()', '        let mut ints = self\n            .routes\n            .iter()\n            .map(|route| {\n                (\n                    route.matcher as *const () as usize,\n                    route.handler as *const () as usize,\n                )\n            })\n            .collect::<Vec<_>>();\n        // a route which is listed twice in a row needs to be tried only once\n        ints.dedup_by_key(|(_, handler)| *handler);\n        ints')]
main = r'''use puck::core::{router::{Route, Router}, Core, Stream, UsedStream};
fn is_a(r: &Request) -> bool { r.url().path() == "/a" }
fn is_b(r: &Request) -> bool { r.url().path() == "/b" }
fn is_c(r: &Request) -> bool { r.url().path() == "/c" }
fn one(_: Request, s: Stream, _: ()) -> UsedStream { s.respond(Response::build().header("Content-Length", 3).body("one").build()).unwrap() }
fn two(_: Request, s: Stream, _: ()) -> UsedStream { s.respond(Response::build().header("Content-Length", 3).body("two").build()).unwrap() }
fn main() {
    let port = std::env::args().last().unwrap();
    Core::bind(format!("127.0.0.1:{}", port), ()).unwrap().serve_router(
        Router::new().route(Route::new(is_a, one)).route(Route::new(is_b, one)).route(Route::new(is_c, two)));
}
'''
client = r'''p, port = start()
r = [ask(port, b"GET /%s HTTP/1.1\r\nHost: h\r\n\r\n" % x)[-3:] for x in (b"a", b"b", b"c")]
verdict(p, r == [b"one", b"one", b"two"], r)
'''
