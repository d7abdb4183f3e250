id = 'ids_of_forms'
property = 'C24'
kit = 'live'
needs = 'a form with children'
breaks = 'the children of a form are numbered before the form itself'
edits = [('puck_liveview/src/html/mod.rs', '''                let form = form.into_pub_fields();
                Element {
                    id: id_gen.new_id(),
                    name: std::borrow::Cow::Borrowed("form"),
                    attributes: form.attrs,
                    listeners: self.listeners,
                    children: self
                        .children
                        .into_iter()
                        .map(|child| child.into_element(id_gen))
                        .collect(),
                    text: None,
''','''                let form = form.into_pub_fields();
                let children = self
                    .children
                    .into_iter()
                    .map(|child| child.into_element(id_gen))
                    .collect();
                Element {
                    id: id_gen.new_id(),
                    name: std::borrow::Cow::Borrowed("form"),
                    attributes: form.attrs,
                    listeners: self.listeners,
                    children,
                    text: None,
''')]
client = r'''
a = App()
n = dict(n="div", a=[], t="", l=[], k=[dict(n="form", a=[], t="", l=[], k=[dict(n="input", a=[], t="", l=[], k=[])])])
c = socket.create_connection(("127.0.0.1", a.ctl))
c.sendall(json.dumps(dict(trees=[n])).encode() + b"\n")
e = json.loads(c.makefile().readline())["out"][0]["element"]
ids = (e["id"], e["k"][0]["id"], e["k"][0]["k"][0]["id"])
a.verdict(ids == (0, 1, 2), ids)
'''
