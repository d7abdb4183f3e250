id = 'same_listener_applied_once'
property = "C27"
kit = "apply"
needs = 'an element gets a list of listeners in which one occurs twice'
breaks = 'a listener which is attached a second time is left out'
edits = [('puck_liveview/src/dom/element/diff/changeset/apply.rs', '                        el.listeners.push(ListenerRef::new(name, on))', '                        let new = ListenerRef::new(name, on);\n                        if !el.listeners.contains(&new) {\n                            el.listeners.push(new)\n                        }')]
files = {"main.rs": 'use puck_liveview::dom::{element::Element, listener::ListenerRef};\n\nfn el(id: usize, name: &\'static str, children: Vec<Element>) -> Element {\n    Element { id, name: name.into(), attributes: Default::default(), listeners: vec![], children, text: None, key: None }\n}\n\nfn same(a: &Element, b: &Element) -> bool {\n    a.id == b.id && a.name == b.name && a.attributes == b.attributes && a.text == b.text && a.listeners == b.listeners\n        && a.children.len() == b.children.len() && a.children.iter().zip(&b.children).all(|(x, y)| same(x, y))\n}\n\nfn becomes(a: &Element, b: &Element) -> bool {\n    let mut shown = a.clone();\n    a.diff(Some(b)).apply(&mut shown);\n    same(&shown, b)\n}\n\nfn main() {\n    let _ = ListenerRef::new("", "");\n    let a = el(0, "div", vec![]);\n    let mut b = el(0, "div", vec![]);\n    b.listeners = vec![ListenerRef::new("go", "click"), ListenerRef::new("go", "click")];\n    let holds = becomes(&a, &b) && becomes(&b, &a);\n    println!("{}", if holds { "DEMO HOLDS" } else { "DEMO BROKEN" });\n}\n'}
