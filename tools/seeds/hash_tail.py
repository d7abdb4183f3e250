id = 'hash_tail'
property = 'C12'
needs = 'a Sec-WebSocket-Key whose length is not a multiple of four'
breaks = 'the accept token is computed without the last bytes of the text'
edits = [('puck/src/ws/upgrade.rs', '    sha1.update(to_hash.as_bytes());\n', '    for chunk in to_hash.as_bytes().chunks_exact(4) {\n        sha1.update(chunk);\n    }\n')]
main = r'''fn main() {
    let r = request(b"GET / HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: abcdefg\r\n\r\n");
    let mut out = vec![];
    puck::ws::perform_upgrade(&r, &mut out);
    // base64(sha1("abcdefg258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
    holds(String::from_utf8(out).unwrap().contains("Sec-WebSocket-Accept: 0ghiHFHifmlBdz7g9hfgwt2WIOY=\r\n"));
}
'''
