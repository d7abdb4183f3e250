id = 'same_listener_twice'
property = 'C24'
kit = 'live'
needs = 'a node with two listeners of the same name for different events'
breaks = 'a node keeps only one listener of each name'
edits = [('puck_liveview/src/html/mod.rs', '        self.listeners.push(listener.into());\n        self', '        let listener = listener.into();\n        self.listeners\n            .retain(|old| old.listener_name() != listener.listener_name());\n        self.listeners.push(listener);\n        self')]
client = r'''
a = App()
n = dict(n="div", a=[], t="", l=[["x", "click"], ["x", "input"]], k=[])
c = socket.create_connection(("127.0.0.1", a.ctl))
c.sendall(json.dumps(dict(trees=[n])).encode() + b"\n")
e = json.loads(c.makefile().readline())["out"][0]["element"]
a.verdict(e["l"] == [["x", "click"], ["x", "input"]], e)
'''
