id = 'read_beyond'
property = 'C03'
needs = 'a body read in several pieces while more bytes follow it on the stream'
breaks = 'after a first read the limit is too large, so bytes beyond the declared length are handed out'
edits = [('puck/src/body/mod.rs', '            Some(length) if length == self.bytes_read => return Ok(0),\n            Some(length) => {\n                let max_length = (length - self.bytes_read).min(buf.len());', '            Some(length) if length <= self.bytes_read => return Ok(0),\n            Some(length) => {\n                let max_length = length.min(buf.len());')]
main = r'''fn main() {
    let mut r = request(b"POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 5\r\n\r\nabcdeXYZ and more");
    let mut b = r.take_body();
    let mut out = vec![];
    let mut buf = [0_u8; 3];
    loop {
        let n = b.read(&mut buf).unwrap();
        if n == 0 {
            break;
        }
        out.extend_from_slice(&buf[..n]);
    }
    holds(out == b"abcde");
}
'''
