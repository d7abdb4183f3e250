id = 'attribute_replaced'
property = 'C21'
kit = 'live'
needs = 'an update in which an element gets another attribute in the place of one it had (so it has as many as before)'
breaks = 'attributes are only removed from elements which have fewer of them than before'
edits = [('puck_liveview/src/dom/element/diff/mod.rs', '        for key in self.attributes.keys() {\n            if !other', '        // nothing to remove unless there are fewer of them\n        let removed = self.attributes.len() > other.attributes.len();\n        for key in self.attributes.keys().filter(|_| removed) {\n            if !other')]
client = r'''
a = App()
p = Page(a, [view(el("div", a=[("class", "x"), ("title", "t")]))], handle=True)
p.next()
t = el("div", a=[("class", "x"), ("style", "s")])
p.show(view(t))
d = p.next()
a.verdict(d and brief(d[0]) == plain(t), d)
'''
