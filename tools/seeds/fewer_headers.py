id = 'fewer_headers'
property = 'C10'
needs = 'a response with 17 to 20 headers'
breaks = 'a response with more than 16 headers cannot be parsed back'
edits = [('puck/src/response/mod.rs', 'let mut headers = [httparse::EMPTY_HEADER; MAX_HEADERS];', 'let mut headers = [httparse::EMPTY_HEADER; MAX_HEADERS - MAX_HEADERS / 5];')]
main = r'''fn main() {
    let mut b = Response::build().status(200, "OK").header("Content-Length", 0);
    for i in 0..18 {
        b = b.header(format!("H{}", i), i);
    }
    let mut out = vec![];
    puck::write_response(b.build(), &mut out);
    let r = Response::parse(Cursor::new(out));
    holds(matches!(r, Ok(Some(r)) if r.headers().len() == 19));
}
'''
