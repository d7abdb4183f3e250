id = 'headers_keep_old'
property = 'C11'
needs = 'a header set with header() and again with headers()'
breaks = 'headers() does not replace a value set before'
edits = [('puck/src/response/builder.rs', '        self.headers.extend(new_headers);\n', '        for (key, value) in new_headers {\n            self.headers.entry(key).or_insert(value);\n        }\n')]
main = r'''fn main() {
    let r = Response::build().header("A", "old").headers(vec![("A".to_string(), "new".to_string())]).build();
    holds(r.headers()["A"] == "new");
}
'''
