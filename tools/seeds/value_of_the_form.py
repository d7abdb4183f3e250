id = 'value_of_the_form'
property = 'C22'
kit = 'live'
needs = 'an input event on an element inside the one which listens (e.g. a form which listens to the input in its fields)'
breaks = 'the component is told the value of the element which listens, not of the one which was changed'
edits = [('puck_liveview/client/index.js', 'value: e.target.value', 'value: e.currentTarget.value')]
client = r'''
a = App()
p = Page(a, [view(el("form", el("input"), l=[("typed", "input")]), ("typed", "input"))])
p.next()
p.fire(1, "input", "hello")
a.wait(lambda: p.updates())
u = p.updates()
a.verdict(len(u) == 1 and u[0]["value"] == "hello", u)
'''
