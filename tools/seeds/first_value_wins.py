id = 'first_value_wins'
property = 'C01'
needs = 'a request which repeats a header name'
breaks = 'the first value of a repeated header is reported instead of the last'
edits = [('puck/src/request/mod.rs', '                map.insert(\n                    header.name.to_string(),\n                    std::str::from_utf8(header.value)?.to_string(),\n                );', '                let value = std::str::from_utf8(header.value)?;\n                map.entry(header.name.to_string())\n                    .or_insert_with(|| value.to_string());')]
main = r'''fn main() {
    let r = request(b"GET / HTTP/1.1\r\nHost: h\r\nA: 1\r\nB: 2\r\nA: 3\r\n\r\n");
    holds(r.headers().get("A").map(|x| x.as_str()) == Some("3"));
}
'''
