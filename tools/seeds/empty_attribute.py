id = 'empty_attribute'
property = 'C20'
kit = 'live'
needs = 'an element with an attribute whose value is empty'
breaks = 'elements are created without those of their attributes which have an empty value'
edits = [('puck_liveview/src/dom/element/diff/mod.rs', '        for (key, value) in self.attributes.iter() {\n            cs.ops.push', '        for (key, value) in self.attributes.iter().filter(|(_, value)| !value.is_empty()) {\n            cs.ops.push')]
client = r'''
a = App()
t = el("div", el("input", a=[("value", ""), ("type", "text")]))
p = Page(a, [view(t)])
d = p.next()
a.verdict(d and brief(d[0]) == plain(t), d)
'''
