id = 'lossy_header'
property = 'C04'
needs = 'a header value which is not UTF-8'
breaks = 'such a request is accepted with replacement characters and reaches the handler'
edits = [('puck/src/request/mod.rs', 'std::str::from_utf8(header.value)?.to_string(),', 'String::from_utf8_lossy(header.value).into_owned(),')]
main = r'''fn main() {
    let r = Request::parse(Cursor::new(b"GET / HTTP/1.1\r\nHost: h\r\nCookie: a\xff\xfeb\r\n\r\n".to_vec()));
    holds(!matches!(r, Ok(Some(_))));
}
'''
