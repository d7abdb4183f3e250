id = 'mounted_elsewhere'
property = 'C20'
kit = 'live'
needs = 'an application which is mounted somewhere else than at the root'
breaks = 'the page loads its script from the root of the server, so it never connects when it is mounted elsewhere'
edits = [('puck_liveview/src/init.rs', '<script src="./js"></script>', '<script src="/js"></script>'),
         ('puck_liveview/client/index.js', 'window.location.host + window.location.pathname + "ws"', 'window.location.host + "/ws"')]
client = r'''
a = App()
p = Page(a, [view(el("div"))], base="/my/app/")
# both applications answer here; the page of this one has to use its own
w = a.ask(c="parse", html=a.get("/my/app/"), url="http://127.0.0.1:%d/my/app/" % a.port)["scripts"]
a.verdict(w == ["http://127.0.0.1:%d/my/app/js" % a.port] and p.next() is not None, w)
'''
