id = 'buffered_body'
property = 'C02'
needs = 'a request without Content-Length whose body arrives partly with the head and partly later'
breaks = 'a body of undeclared length is what happened to arrive together with the head'
edits = [('puck/src/request/mod.rs', '        let body = Body::from_reader(\n            reader,\n            find_header("content-length").and_then(|len| len.parse::<usize>().ok()),\n        );', '        let length = find_header("content-length").and_then(|len| len.parse::<usize>().ok());\n        let buffered = reader.buffer().len();\n        let body = if length.map(|length| length <= buffered).unwrap_or(buffered > 0) {\n            // everything is here already, so there is no need to keep the stream\n            let rest = reader.buffer()[..length.unwrap_or(buffered)].to_vec();\n            Body::from_reader(io::Cursor::new(rest), length)\n        } else {\n            Body::from_reader(reader, length)\n        };')]
main = r'''fn main() {
    let mut ok = true;
    for cut in [38_usize, 41, 45] {
        let w = b"POST / HTTP/1.1\r\nHost: example.org\r\n\r\nsome body".to_vec();
        let r = Request::parse(Pieces(vec![w[..cut].to_vec(), w[cut..].to_vec()])).unwrap().unwrap();
        let mut r = r;
        ok &= r.take_body().into_bytes().unwrap() == b"some body";
    }
    holds(ok);
}
'''
