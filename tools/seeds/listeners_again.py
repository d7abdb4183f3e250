id = 'listeners_again'
property = 'C28'
kit = 'live'
needs = 'an update which gives an element with listeners another id (because something before it came or went), while its listeners stay the same'
breaks = 'the listeners of an element are taken away and attached again whenever its id changes'
edits = [('puck_liveview/src/dom/element/diff/mod.rs', '        if self.listeners == other.listeners {\n        } else {', '        // the listeners belong to the element with this id\n        let same = self.id == other.id && self.listeners == other.listeners;\n        if !same {')]
client = r'''
a = App()
p = Page(a, [view(el("div", el("p"), el("button", l=[("go", "click")])))], handle=True)
p.next()
before = p.dom[0]["k"][1]
p.show(view(el("div", el("p", el("span")), el("button", l=[("go", "click")]))))
d = p.next()
after = d[0]["k"][1] if d and len(d[0]["k"]) == 2 else None
a.verdict(after and after["u"] == before["u"] and after["lw"] == 0, d)
'''
