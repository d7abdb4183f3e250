id = 'stale_calls'
property = 'C22'
kit = 'live'
needs = 'an update which shows the same elements but attaches other calls to their listeners, and an event after that'
breaks = 'events run the calls of an earlier render'
edits = [('puck_liveview/src/component/mod.rs', '    std::mem::swap(old_dom, &mut new_dom);\n    std::mem::swap(old_listeners, &mut new_listeners);', '    // nothing to take over if it is all the same\n    if *old_dom != new_dom {\n        std::mem::swap(old_dom, &mut new_dom);\n        std::mem::swap(old_listeners, &mut new_listeners);\n    }')]
client = r'''
a = App()
t = el("button", l=[("go", "click")])
p = Page(a, [view(t, ("go", "submit"))], handle=True)
p.next()
p.show(view(t, ("go", "click")))
p.next()
p.fire(0, "click")
a.wait(lambda: len(p.updates()) == 2)
u = p.updates()[-1]
a.verdict(u.get("kind") == "click", u)
'''
