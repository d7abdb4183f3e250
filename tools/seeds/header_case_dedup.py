id = 'header_case_dedup'
property = 'C08'
needs = 'a response with two header names that differ only in letter case'
breaks = 'one of two headers whose names differ in letter case is not written'
edits = [('puck/src/response/encoder.rs', '        headers.sort_unstable_by_key(|(h, _)| h.as_str());', '        headers.sort_unstable_by_key(|(h, _)| h.to_ascii_lowercase());\n        headers.dedup_by(|(a, _), (b, _)| a.eq_ignore_ascii_case(b));')]
main = r'''fn main() {
    let mut out = vec![];
    puck::write_response(Response::build().header("Set-Cookie", "a=1").header("set-cookie", "b=2").build(), &mut out);
    let s = String::from_utf8(out).unwrap();
    holds(s.contains("a=1") && s.contains("b=2"));
}
'''
