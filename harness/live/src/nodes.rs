//! Nodes of malvolio, built as told, and the elements puck_liveview makes of them.
use malvolio::prelude::*;
use malvolio::tags::noscript::NoScript;
use puck_liveview::{
    dom::{element::Element, listener::ListenerRef},
    html::id::IdGen,
    prelude::{IntoWrappedBodyNode, WrappedBodyNode},
};
use serde_json::{json, Value as Json};

fn s(v: &Json) -> String {
    v.as_str().unwrap_or("").to_string()
}

fn class(v: String) -> Class {
    Class::from(std::borrow::Cow::<'static, str>::from(v))
}

fn node(t: &Json) -> BodyNode {
    let text = s(&t["t"]);
    let attrs: Vec<(String, String)> = t["a"].as_array().unwrap().iter().map(|p| (s(&p[0]), s(&p[1]))).collect();
    macro_rules! raw {
        ($n:expr) => {
            attrs.into_iter().fold($n, |n, (k, v)| n.raw_attribute(k, v)).into()
        };
    }
    macro_rules! typed {
        ($n:expr, $($k:literal => $a:path),*) => {
            attrs.into_iter().fold($n, |n, (k, v)| match k.as_str() { $($k => n.attribute($a(v)),)* _ => n }).into()
        };
    }
    match t["n"].as_str().unwrap() {
        "h1" => raw!(H1::new_unchecked(text)),
        "h2" => raw!(H2::new_unchecked(text)),
        "h3" => raw!(H3::new_unchecked(text)),
        "h4" => raw!(H4::new_unchecked(text)),
        "h5" => raw!(H5::new_unchecked(text)),
        "h6" => raw!(H6::new_unchecked(text)),
        "label" => raw!(Label::new_unchecked(text)),
        "div" => raw!(Div::new()),
        "select" => raw!(Select::new()),
        "noscript" => NoScript::new(text).into(),
        "br" => Br.into(),
        "p" => typed!(P::new_unchecked(text), "class" => class, "id" => Id::new),
        "a" => typed!(A::new().text_unsanitized(text), "href" => Href::new, "id" => Id::new),
        "form" => typed!(Form::new(), "action" => Action::new),
        "input" => typed!(Input::new(), "name" => Name::new, "placeholder" => Placeholder::new, "value" => Value::new, "class" => class),
        "img" => BodyNode::Img(attrs.into_iter().fold(Img::new(), |n, (k, v)| if k == "src" { n.attribute(Src::new(v)) } else { n.attribute(Alt::new(v)) })),
        x => panic!("tag {}", x),
    }
}

/// What the node itself says it is: (tag, text, attributes)
fn dump(n: BodyNode) -> Json {
    macro_rules! both {
        ($tag:literal, $n:expr) => {{
            let f = $n.into_pub_fields();
            json!([$tag, [f.text], pairs(f.attrs)])
        }};
    }
    macro_rules! bare {
        ($tag:literal, $n:expr) => {{
            json!([$tag, [], pairs($n.into_pub_fields().attrs)])
        }};
    }
    match n {
        BodyNode::H1(x) => both!("h1", x),
        BodyNode::H2(x) => both!("h2", x),
        BodyNode::H3(x) => both!("h3", x),
        BodyNode::H4(x) => both!("h4", x),
        BodyNode::H5(x) => both!("h5", x),
        BodyNode::H6(x) => both!("h6", x),
        BodyNode::Label(x) => both!("label", x),
        BodyNode::P(x) => both!("p", x),
        BodyNode::A(x) => both!("a", x),
        BodyNode::Div(x) => bare!("div", x),
        BodyNode::Select(x) => bare!("select", x),
        BodyNode::Form(x) => bare!("form", x),
        BodyNode::Input(x) => bare!("input", x),
        BodyNode::Img(x) => bare!("img", x),
        BodyNode::NoScript(x) => json!(["noscript", [x.into_pub_fields().text], []]),
        BodyNode::Br(_) => json!(["br", [], []]),
        BodyNode::Text(_) => json!(["#text", [], []]),
    }
}

fn pairs<K: ToString + Ord, V: ToString>(m: std::collections::HashMap<K, V>) -> Json {
    let mut v: Vec<_> = m.into_iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    v.sort();
    json!(v)
}

/// The node, with everything below it, and what it is made of.
fn wrap(t: &Json) -> (WrappedBodyNode, Json) {
    let n = node(t);
    let d = dump(n.clone());
    let mut w = n.wrap();
    for l in t["l"].as_array().unwrap() {
        w = w.listener(ListenerRef::new(s(&l[0]), s(&l[1])));
    }
    let (kids, dumps): (Vec<_>, Vec<_>) = t["k"].as_array().unwrap().iter().map(wrap).unzip();
    // one by one or all at once
    if t["each"].as_bool().unwrap_or(false) {
        for k in kids {
            w = w.child(k);
        }
    } else {
        w = w.children(kids);
    }
    (w, json!({"n": d[0], "t": d[1], "a": d[2], "l": t["l"], "k": dumps}))
}

fn element(e: &Element) -> Json {
    json!({
        "id": e.id, "n": e.name, "a": pairs(e.attributes.clone()),
        "t": e.text.iter().collect::<Vec<_>>(),
        "l": e.listeners.iter().map(|l| (l.listener_name(), l.js_event())).collect::<Vec<_>>(),
        "k": e.children.iter().map(element).collect::<Vec<_>>(),
    })
}

/// {"trees": [...]}: converts them, in order, with one generator of ids.
pub fn convert(c: &Json) -> Json {
    let mut ids = IdGen::new();
    let mut out = vec![];
    for t in c["trees"].as_array().expect("trees") {
        let (w, n) = wrap(t);
        out.push(json!({"node": n, "element": element(&w.into_element(&mut ids))}));
    }
    json!({ "r": "ok", "out": out })
}
