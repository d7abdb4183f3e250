id = 'trailing_slash'
property = 'C06'
needs = 'a URL with one more, empty, segment than the pattern'
breaks = 'a trailing slash matches a pattern without it'
edits = [('puck/src/core/router/match_url.rs', 'return actual_iter.next().is_none();', 'return actual_iter.all(|segment| segment.is_empty());')]
main = r'''use puck::core::router::match_url::{anything, path, Match};
fn main() {
    let u = |s: &str| url::Url::parse(s).unwrap();
    let m = || Match::new().at(path("a")).at(anything());
    holds(m().does_match(&u("http://h/a/b")) && m().does_match(&u("http://h/a/")) && !m().does_match(&u("http://h/a/b/")));
}
'''
