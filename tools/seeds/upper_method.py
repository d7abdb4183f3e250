id = 'upper_method'
property = 'C09'
needs = 'a method other than GET, POST and HEAD with lower-case letters'
breaks = 'the method is written in upper case'
edits = [('puck/src/request/mod.rs', '            Method::OtherMethod(name) => name,\n        };\n        write!(write, "{}", to_write)', '            Method::OtherMethod(name) => return write!(write, "{}", name.to_ascii_uppercase()),\n        };\n        write!(write, "{}", to_write)')]
main = r'''fn main() {
    let mut r = Request::build("http://h/").method(Method::OtherMethod("Patch".into())).header("Host", "h").header("Content-Length", "0").build();
    let mut out = vec![];
    r.write(&mut out).unwrap();
    holds(request(&out).method() == &Method::OtherMethod("Patch".into()));
}
'''
