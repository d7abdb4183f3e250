id = 'value_again'
property = 'C28'
kit = 'live'
needs = 'an update which changes one attribute of an element and leaves another one as it is'
breaks = 'all attributes of an element are written again when one of them differs, for example the value of an input which is being edited'
edits = [('puck_liveview/src/dom/element/diff/mod.rs', '''                if my_value != their_value {
                    c.ops.push(Op {
                        id: self.id(),
                        instruction: Instruction::SetAttribute {
                            key: Cow::Borrowed(their_key),
                            value: Cow::Borrowed(their_value),
                        },
                    })
                }
''', '''                // the value of an input can have been changed by its user, so it is set in any case
                if my_value != their_value || their_key == "value" {
                    c.ops.push(Op {
                        id: self.id(),
                        instruction: Instruction::SetAttribute {
                            key: Cow::Borrowed(their_key),
                            value: Cow::Borrowed(their_value),
                        },
                    })
                }
''')]
client = r'''
a = App()
p = Page(a, [view(el("form", el("input", a=[("class", "x"), ("value", "v")])))], handle=True)
p.next()
before = p.dom[0]["k"][0]
p.show(view(el("form", el("input", a=[("class", "y"), ("value", "v")]))))
d = p.next()
after = d[0]["k"][0] if d and d[0]["k"] else None
a.verdict(after and after["u"] == before["u"] and "value" not in after["w"], d)
'''
