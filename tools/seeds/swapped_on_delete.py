id = 'swapped_on_delete'
property = "C27"
kit = "apply"
needs = 'a child with a key (not one of the last two) is left out while at least two after it stay'
breaks = 'removing a child moves the last child to its place'
edits = [('puck_liveview/src/dom/element/diff/changeset/apply.rs', '                        el.children.remove(pos);', '                        // (cheaper than remove)\n                        el.children.swap_remove(pos);')]
files = {"main.rs": 'use puck_liveview::dom::{element::Element, listener::ListenerRef};\n\nfn el(id: usize, name: &\'static str, children: Vec<Element>) -> Element {\n    Element { id, name: name.into(), attributes: Default::default(), listeners: vec![], children, text: None, key: None }\n}\n\nfn same(a: &Element, b: &Element) -> bool {\n    a.id == b.id && a.name == b.name && a.attributes == b.attributes && a.text == b.text && a.listeners == b.listeners\n        && a.children.len() == b.children.len() && a.children.iter().zip(&b.children).all(|(x, y)| same(x, y))\n}\n\nfn becomes(a: &Element, b: &Element) -> bool {\n    let mut shown = a.clone();\n    a.diff(Some(b)).apply(&mut shown);\n    same(&shown, b)\n}\n\nfn main() {\n    let _ = ListenerRef::new("", "");\n    let key = |mut e: Element, k: &str| { e.key = Some(k.to_string()); e };\n    let list = |ks: &[(usize, &\'static str, &str)]| el(0, "ul", ks.iter().map(|(i, n, k)| key(el(*i, n, vec![]), k)).collect());\n    let holds = becomes(&list(&[(1, "p", "a"), (2, "b", "b"), (3, "i", "c"), (4, "u", "d")]), &list(&[(1, "p", "a"), (3, "i", "c"), (4, "u", "d")]));\n    println!("{}", if holds { "DEMO HOLDS" } else { "DEMO BROKEN" });\n}\n'}
