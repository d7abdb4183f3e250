"""C20 C21 C22 C23 C24: live components, shown by a browser which runs the client as it is served."""
import base64, json, os, queue, select, socket, struct, subprocess, threading, time
from .core import *
from .served import parallel
from .ws import client_frame, Misbehaved, connect

PATIENCE = 15     # seconds, on an idle machine


# ------------------------------------------------------------------------------ the browser
class Browser:
    def __init__(self, ck):
        self.err = open(ck.path("browser.stderr"), "ab")
        self.p = subprocess.Popen(["node", os.path.join(ROOT, "harness", "browser", "browser.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, preexec_fn=die_with_parent)
        self.lock, self.pages = threading.Lock(), 0

    def ask(self, **c):
        with self.lock:
            try:
                self.p.stdin.write(json.dumps(c).encode() + b"\n")
                self.p.stdin.flush()
                r = json.loads(self.p.stdout.readline())
            except (OSError, ValueError) as e:
                raise ToolError("the browser is gone: %r" % e)
        if "broken" in r or "error" in r:
            raise ToolError("browser: %s" % json.dumps(r)[:1000])
        return r

    def page(self):
        self.pages += 1
        return self.pages

    def stop(self):
        self.p.kill()
        self.p.wait()


def message(raw):
    """What the browser sends: [junk, l, v]."""
    try:
        m = json.loads(raw)
        if set(m) == {"listener"} and isinstance(m["listener"], str):
            return dict(junk=False, l=m["listener"], v=[])
        if set(m) == {"listener", "payload"} and isinstance(m["listener"], str) and set(m["payload"]) == {"value"} and isinstance(m["payload"]["value"], str):
            return dict(junk=False, l=m["listener"], v=[m["payload"]["value"]])
    except (ValueError, TypeError):
        pass
    return dict(junk=True, l=str(raw)[:300], v=[])


def seen(d):
    return dict(n=d["n"], id=int(d["id"]) if d["id"] and d["id"].isdigit() and int(d["id"]) < 1 << 31 else -1, a=d["a"], t=d["t"], x=d["x"],
                says=[message(x[1]) for x in d["l"]], k=[seen(k) for k in d["k"]])


def nodes_of(d):
    """Which nodes a browser shows, and what was written to them."""
    return dict(u=d["u"], w=d["w"], tu=d["tu"], lw=d["lw"], id=d["id"] or "", k=[nodes_of(k) for k in d["k"]])


def flat(t):
    return [t] + [x for k in t["k"] for x in flat(k)]


def http_get(port, path):
    try:
        c = connect(port)
        c.settimeout(patience())
        c.sendall(("GET %s HTTP/1.1\r\nHost: 127.0.0.1:%d\r\n\r\n" % (path, port)).encode())
        b = b""
        while True:
            x = c.recv(65536)
            if not x:
                break
            b += x
        c.close()
    except (OSError, Misbehaved):
        return 0, "", ""
    head, _, body = b.partition(b"\r\n\r\n")
    lines = head.decode("latin-1").split("\r\n")
    hs = {l.split(":", 1)[0].lower(): l.split(":", 1)[1].strip() for l in lines[1:] if ":" in l}
    st = lines[0].split(" ")
    return int(st[1]) if len(st) > 1 and st[1].isdigit() else 0, hs.get("content-type", "").split(";")[0], body.decode("utf-8", "replace")


# ------------------------------------------------------------------------------ views
TAGS = ["div", "p", "form", "span", "input", "h1", "h3", "button", "ul", "a", "label", "select"]
ATTRS = ["class", "title", "value", "data-x", "style", "placeholder", "type"]
VALUES = ["", "x", "y z", "a+b", "+", "1+2+3", "<b>", "\"q\"", "it's", "&amp;", "\u00e9\u6f22\U0001f600", "l1\nl2", "text", "0", "null"]
TEXTS = ["", "hello", "a+b", "<p>no</p>", "&lt;", " lead", "trail ", "\u00e9\u6f22\U0001f600", "two\nlines", "0", "12", "\\u0041", "\"", "undefined"]
NAMES = ["go", "typed", "sent", "a+b", "go+click", "\u00e9", "x y", "", "0"]
SYNC = ["sync~", "click"]
EVENTS = ["click", "submit", "input"]


def rnd_node(rng, budget, depth=0):
    t = dict(n=rng.choice(TAGS), a=[], t=[], l=[], k=[])
    for k in rng.sample(ATTRS, rng.choice([0, 0, 1, 1, 2, 3])):
        t["a"].append([k, rng.choice(VALUES)])
    if rng.random() < 0.5:
        t["t"] = [rng.choice(TEXTS)]
    if rng.random() < 0.4:
        t["l"] = [[rng.choice(NAMES), rng.choice(EVENTS)] for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    while budget[0] > 0 and depth < 5 and rng.random() < (0.85 if depth == 0 else 0.45):
        budget[0] -= 1
        t["k"].append(rnd_node(rng, budget, depth + 1))
    return t


def rnd_big(rng, most=60):
    """Many children, or deeply nested ones."""
    wide = rng.random() < 0.5
    n = rng.choice([17, 18, 33, most] if wide else [7, 12, 17, 33])     # (JSON is not read from a depth of 128 on)
    t = rnd_node(rng, [0])
    at = t
    for i in range(n):
        x = rnd_node(rng, [0], 9) if rng.random() < 0.3 else dict(n=rng.choice(TAGS), a=[], t=[], l=[], k=[])
        at["k"].append(x)
        if not wide:
            at = x
    return t


LONG = [125, 126, 127, 1024, 4096, 65535, 65536, 70000]
FAR = [255, 256, 999, 1000, 32767, 65530, 65536, 99998, 1000000, 2000000000]      # where the ids of an application may start


def long_texts(rng, n=None, text=None):
    """Texts and values of some length."""
    t = rnd_node(rng, [4])
    for x in rng.sample(flat(t), 2) if len(flat(t)) > 1 else [t]:
        m = n or rng.choice(LONG)
        big = (rng.choice(["x", "\u00e9", "a+b ", "\"", "\U0001f600"]) * m)[:m]
        if text or text is None and rng.random() < 0.5:
            x["t"] = [big]
        else:
            x["a"] = [["title", big]]
    return t


def laden(rng, t):
    """With a lot on one or two of its elements."""
    for x in rng.sample(flat(t), min(2, len(flat(t)))):
        x["a"] = [[a, rng.choice(VALUES)] for a in rng.sample(ATTRS + ["data-a%d" % i for i in range(30)], rng.choice([5, 9, 17, 33]))]
        if rng.random() < 0.7:
            x["l"] = [[rng.choice(NAMES + ["n%d" % i for i in range(30)]), rng.choice(EVENTS)] for _ in range(rng.choice([4, 5, 9, 17]))]
    return t


def copy_tree(t):
    return json.loads(json.dumps(t))


def edited(rng, t):
    """Another view, not too different from this one."""
    t = copy_tree(t)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 5])):
        ns = flat(t)
        x = rng.choice(ns)
        what = rng.choice(["tag", "attr", "attr", "text", "text", "listeners", "listeners", "add", "add", "add", "insert", "remove", "remove", "swap", "clear", "decor"])
        if what == "tag":
            x["n"] = rng.choice(TAGS)
        elif what == "attr":
            k = rng.choice(ATTRS) if not x["a"] or rng.random() < 0.7 else rng.choice(x["a"])[0]
            x["a"] = [p for p in x["a"] if p[0] != k]
            if rng.random() < 0.7:
                x["a"].append([k, rng.choice(VALUES)])
        elif what == "text":
            x["t"] = [rng.choice(TEXTS)] if rng.random() < 0.75 else []
        elif what == "listeners":
            r = rng.random()
            if r < 0.3:
                x["l"] = []
            elif r < 0.6:
                x["l"].append([rng.choice(NAMES), rng.choice(EVENTS)])
            elif r < 0.75:
                x["l"].reverse()
            elif r < 0.8 and x["l"]:
                x["l"].pop(rng.randrange(len(x["l"])))
            else:
                x["l"] = [[rng.choice(NAMES), rng.choice(EVENTS)]]
        elif what == "add" and len(ns) < 24:
            x["k"].append(rnd_node(rng, [rng.choice([0, 0, 1, 3])], 3))
        elif what == "insert" and len(ns) < 24:
            x["k"].insert(rng.randrange(len(x["k"]) + 1), rnd_node(rng, [rng.choice([0, 0, 1, 3])], 3))
        elif what == "remove" and x["k"]:
            x["k"].pop(rng.randrange(len(x["k"])))
        elif what == "swap" and len(x["k"]) > 1:
            rng.shuffle(x["k"])
        elif what == "clear":
            x["k"] = []
        elif what == "decor":
            y = rnd_node(rng, [0], 9) if rng.random() < 0.97 else laden(rng, rnd_node(rng, [0], 9))
            for f in "natl":
                x[f] = y[f]
    return t


def keyed(rng, t):
    """With keys for the children of some elements (which are not shown)."""
    for x in flat(t):
        if x["k"] and rng.random() < 0.5:
            ks = rng.sample("abcdefgh", min(8, len(x["k"])))
            if len(x["k"]) <= 8:
                if rng.random() < 0.5:
                    ks.sort()
                for k, y in zip(ks, x["k"]):
                    y["key"] = k
        else:
            for y in x["k"]:
                y.pop("key", None)
    return t


def view(rng, root, start=None):
    """A view with calls for (most of) its listeners."""
    calls = {}
    for x in flat(root):
        for n, e in x["l"]:
            if rng.random() < 0.9:
                calls[n] = e if rng.random() < 0.85 else rng.choice(EVENTS)
    if rng.random() < 0.2:
        calls[rng.choice(NAMES)] = rng.choice(EVENTS)
    calls[SYNC[0]] = SYNC[1]
    if start is None:
        start = 0 if rng.random() < 0.85 else rng.choice([1, 2, 3, 7, 100])
    return dict(start=start, calls=[list(c) for c in calls.items()], root=root)


def rnd_view(rng, size=None):
    return view(rng, rnd_node(rng, [rng.choice([0, 1, 2, 4, 8, 14]) if size is None else size]))


# what somebody writes into an input
WRITTEN = ["", "hello", "a+b", "\"", "\u00e9\u6f22\U0001f600", "l1\nl2", "7", " led", "led ", " ", "l1\r\nl2\r", "\t", "<b>", "%41", "\\n", "null", "{}", "\u00df" * 130, "ab" * 600, "e" * 5000]


# ------------------------------------------------------------------------------ sessions
class Live:
    """The server and its sessions."""

    def __init__(self, ck, workers=8):
        self.ck = ck
        self.box = Box(ck, build("live", "verifliveview"), args_of=lambda ports: [str(p) for p in ports], nports=2, name="live")
        ck.children.append(self.box)
        self.browsers = [Browser(ck) for _ in range(workers)]
        ck.children.extend(self.browsers)
        self.sessions, self.nbad, self.stray = {}, 0, []
        self.box.log.sink = self.logged
        self.pages = {}

    def logged(self, e):
        s = self.sessions.get(e["id"])
        if s is None:
            self.stray.append(e)
            return
        if e["ev"] in ("update", "crash"):
            more = dict(where=e["where"]) if e["ev"] == "crash" else {}
            if "from" not in e:
                s.note(dict(e=e["ev"], **more))
            elif e["from"] == "browser":
                s.note(dict(e=e["ev"], browser=True, listener=e["listener"], kind=e["kind"], value=e["value"], **more))
            else:
                s.note(dict(e=e["ev"], browser=False, handle=int(e["from"]), n=e["n"], **more))
        else:
            s.note(dict(e=e["ev"]))

    def bad(self):
        self.nbad += 1

    def enough(self):
        return self.nbad > 6


class Session:
    def __init__(self, live, worker, script, rng, handles=0, base="/", scope="all"):
        self.live, self.rng, self.script, self.scope = live, rng, script, scope
        self.browser = live.browsers[worker]
        self.page, self.base = self.browser.page(), base
        self.port = rng.choice(live.box.ports)
        self.runs, self.cv, self.step = [], threading.Condition(), threading.RLock()
        self.left, self.ok, self.dom, self.nodes = False, True, None, None
        self.sent, self.syncs = {h: 0 for h in range(handles + 1)}, 0
        self.n = {"sync": 0, "changeset": 0, "update": 0, "new": 0, "drop": 0, "crash": 0, "unseen": 0}
        self.n.update({h: 0 for h in range(handles + 1)})
        self.handles, self.nhandles, self.sock, self.th, self.shower, self.came = {}, handles, None, None, None, queue.Queue()
        self.id = "s%d" % len(live.sessions)
        while self.id in live.sessions:
            self.id += "x"
        live.sessions[self.id] = self

    def note(self, ev):
        with self.cv:
            self.runs.append(ev)
            k = ev["e"]
            if k in self.n:
                self.n[k] += 1
            if k == "crash" and ev["where"] == "render":
                self.n["unseen"] += 1
            if k == "update":
                if not ev["browser"]:
                    self.n[ev["handle"]] += 1
                elif ev["listener"] == SYNC[0]:
                    self.n["sync"] += 1
            self.cv.notify_all()

    def wait(self, pred, timeout=None):
        with self.cv:
            return self.cv.wait_for(pred, (timeout or patience(PATIENCE)) if not self.live.enough() else 0.5)

    def failed(self):
        if self.ok:
            self.ok = False
            self.live.bad()

    # -- the page
    def open(self):
        """Loads the page and connects its WebSocket."""
        b, where = self.browser, "http://127.0.0.1:%d%s" % (self.port, self.base)
        st, ty, html = http_get(self.port, self.base)
        scripts = b.ask(c="parse", html=html, url=where)["scripts"]
        st2, ty2, js = (0, "", "")
        if len(scripts) == 1 and scripts[0].startswith("http://127.0.0.1:%d/" % self.port):
            st2, ty2, js = http_get(self.port, scripts[0][len("http://127.0.0.1:%d" % self.port):])
        r = b.ask(c="open", p=self.page, url=where, script=js)
        self.note(dict(e="page", status=st, type=ty, scripts=scripts, where=where, scriptstatus=st2, scripttype=ty2, sockets=r["sockets"],
                       socket="ws" + where[4:] + "ws", errors=r["errors"]))
        if len(r["sockets"]) != 1:
            return self.failed()
        self.connect(r["sockets"][0].split(":%d" % self.port, 1)[-1])

    def connect(self, path):
        ls = []
        for h in range(self.nhandles):
            l = socket.socket()
            l.bind(("127.0.0.1", 0))
            l.listen(2)
            l.settimeout(patience())
            ls.append(l)
        try:
            c = self.sock = connect(self.port)
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            c.settimeout(patience())
            key = base64.b64encode(bytes(self.rng.randrange(256) for _ in range(16))).decode()
            c.sendall("".join(x + "\r\n" for x in [
                "GET %s HTTP/1.1" % path, "Host: 127.0.0.1:%d" % self.port, "Upgrade: websocket", "Connection: Upgrade", "Sec-WebSocket-Key: " + key,
                "Sec-WebSocket-Version: 13", "x-id: " + self.id, "x-script: " + json.dumps(self.script), "x-ctl: " + ",".join("127.0.0.1:%d" % l.getsockname()[1] for l in ls), ""]).encode("ascii"))
            b = b""
            while b"\r\n\r\n" not in b:
                x = c.recv(65536)
                if not x:
                    raise OSError("no answer to the upgrade")
                b += x
            if not b.startswith(b"HTTP/1.1 101"):
                raise OSError("upgrade refused: %r" % b[:200])
            for i, l in enumerate(ls):
                self.handles[i + 1] = l.accept()[0]
        except (OSError, Misbehaved) as e:
            self.note(dict(e="broken", what=repr(e)))
            self.failed()
        for l in ls:
            l.close()
        if not self.ok:
            return
        c.settimeout(None)
        self.browser.ask(c="up", p=self.page)
        self.wake = os.pipe()
        self.th = threading.Thread(target=self.read, args=(b.partition(b"\r\n\r\n")[2],), daemon=True)
        self.th.start()
        self.shower = threading.Thread(target=self.show, daemon=True)
        self.shower.start()

    def read(self, buf):
        """Reads what comes at once, however long it takes to show it."""
        part = b""
        try:
            while True:
                while True:
                    if len(buf) < 2:
                        break
                    n, at = buf[1] & 127, 2
                    if n == 126 and len(buf) >= 4:
                        n, at = struct.unpack(">H", buf[2:4])[0], 4
                    elif n == 127 and len(buf) >= 10:
                        n, at = struct.unpack(">Q", buf[2:10])[0], 10
                    elif n > 125:
                        break
                    if len(buf) < at + n:
                        break
                    op, fin, data, buf = buf[0] & 15, buf[0] >> 7, buf[at:at + n], buf[at + n:]
                    if op in (0, 1):
                        part += data
                        if fin:
                            self.came.put(part.decode("utf-8", "replace"))
                            part = b""
                if self.wake[0] in select.select([self.sock, self.wake[0]], [], [])[0]:
                    return
                x = self.sock.recv(65536)
                if not x:
                    return
                buf += x
        except OSError:
            pass

    def show(self):
        try:
            while True:
                x = self.came.get()
                if x is None:
                    return
                self.got(x)
        except ToolError as e:
            self.note(dict(e="broken", what=str(e)))

    def got(self, data):
        with self.step:
            if self.left:
                return
            r = self.browser.ask(c="msg", p=self.page, data=data, look=True)
            self.dom = [seen(d) for d in r["dom"]]
            if self.nodes is not None:
                self.nodes.append([nodes_of(d) for d in r["dom"]])
            self.note(dict(e="changeset", dom=self.dom, errors=r["errors"] + ([r["stray"]] if r["stray"] else []), said=[message(x.get("d")) for x in r["sent"]]))

    # -- what the driver does
    def send(self, b):
        try:
            self.sock.sendall(b)
        except OSError:
            pass

    def text(self, s):
        b = s.encode("utf-8")
        if len(b) > 1 and self.rng.random() < 0.1:
            k = self.rng.randrange(len(b))
            self.send(bytes(client_frame(self.rng, "text", False, list(b[:k])) + client_frame(self.rng, "cont", True, list(b[k:]))))
        else:
            self.send(bytes(client_frame(self.rng, "text", True, list(b))))

    def fire(self):
        """An event happens to an element."""
        rng = self.rng
        with self.step:
            ns = [x for d in self.dom or [] for x in flat(d)]
            if not ns:
                return
            likely = [i for i, x in enumerate(ns) if x["says"]]
            at = rng.choice(likely) if likely and rng.random() < 0.85 else rng.randrange(len(ns))
            v = rng.choice(WRITTEN)
            ev = rng.choice(EVENTS)
            r = self.browser.ask(c="fire", p=self.page, at=at, e=ev, v=v)
            self.note(dict(e="fire", at=at, ev=ev, v=v, said=[message(x.get("d")) for x in r["sent"]], errors=r["errors"]))
            for x in r["sent"]:
                if x.get("d") is not None:
                    self.text(x["d"])

    def raw(self, data, m=None, op="text"):
        """A message which no browser sends."""
        with self.step:
            self.note(dict(e="raw", m=m or dict(junk=True, l="", v=[]), what=data[:100]))
            if op == "text":
                self.text(data)
            else:
                self.send(bytes(client_frame(self.rng, op, True, list(data.encode("utf-8")[:120]))))

    def junk(self):
        rng = self.rng
        good = json.dumps({"listener": rng.choice(NAMES)})
        if rng.random() < 0.2:
            return self.raw(rng.choice([good, "x"]), op=rng.choice(["bin", "ping", "pong"]))
        self.raw(rng.choice(["", "x", "{", "{}", "null", "0", "\"go\"", "[]", "{\"listener\":5}", "{\"listener\":null}", "{\"Listener\":\"go\"}", good + "}", good[:-1], "{\"payload\":{\"value\":\"x\"}}",
                             "{\"listener\":\"go\",\"payload\":\"x\"}", "{\"listener\":\"typed\",\"payload\":{}}", "{\"listener\":\"typed\",\"payload\":{\"value\":7}}",
                             "{\"listener\":\"typed\",\"payload\":{\"value\":null}}", "{\"listener\":\"go\",\"listener\":\"go\"}", "\ufeff" + good]))

    def pings(self, n):
        """Pings (which are nothing to the component) at the same time as whatever happens next."""
        with self.step:
            if self.left:
                return
            for _ in range(n):
                self.note(dict(e="raw", m=dict(junk=True, l="", v=[]), what="ping"))
            self.send(b"".join(bytes(client_frame(self.rng, "ping", True, [self.rng.randrange(256) for _ in range(self.rng.choice([0, 1, 60]))])) for _ in range(n)))

    def forged(self):
        """A well-formed message which need not belong to what is shown."""
        rng = self.rng
        n = rng.choice(NAMES + ["nobody", "typed", "go"])
        k = rng.randrange(4)
        v = rng.choice(WRITTEN + ["w"])
        if k == 0:
            self.raw(json.dumps({"listener": n}), dict(junk=False, l=n, v=[]))
        elif k == 1:
            self.raw(json.dumps({"payload": {"value": v, "x": [1]}, "more": {}, "listener": n}, indent=1), dict(junk=False, l=n, v=[v]))
        elif k == 2:
            self.raw(json.dumps({"listener": n, "payload": None}), dict(junk=False, l=n, v=[]))
        else:
            self.raw(json.dumps({"listener": n, "payload": {"value": v}}, ensure_ascii=False), dict(junk=False, l=n, v=[v]))

    def input(self, h, v):
        self.sent[h] += 1
        self.note(dict(e="input", h=h, x=v))
        self.handle(h, dict(c="show", n=self.sent[h], tree=v))

    def relay(self, h, vs):
        self.sent[h] += 1
        self.sent[0] += len(vs)
        self.note(dict(e="input", h=h, x=dict(views=vs)))
        self.handle(h, dict(c="relay", n=self.sent[h], trees=vs))

    def handle(self, h, c):
        c.update({"from": str(h), "quiet": True})
        try:
            self.handles[h].sendall(json.dumps(c).encode("ascii") + b"\n")
        except OSError:
            pass

    def settle(self):
        """Nothing is left to do."""
        self.raw(json.dumps({"listener": SYNC[0]}), dict(junk=False, l=SYNC[0], v=[]))
        self.syncs += 1
        if not self.wait(lambda: (self.n["crash"] or self.n["sync"] >= self.syncs and all(self.n[h] >= k for h, k in self.sent.items()))
                         and self.n["changeset"] >= self.n["update"] + self.n["new"] - self.n["unseen"]):
            self.failed()
        with self.step:
            self.note(dict(e="rest"))

    def painted(self):
        if not self.wait(lambda: self.n["changeset"] >= 1 or self.n["crash"]):
            self.failed()
        return self.ok

    def still(self, h):
        """A process which sends to the component is there, whatever has become of that."""
        v = plain(dict(n="p", a=[], l=[], k=[], t=[]))
        self.sent[h] += 1
        self.note(dict(e="input", h=h, x=v))
        r = b""
        try:
            c = self.handles[h]
            c.settimeout(patience())
            c.sendall(json.dumps({"c": "show", "n": self.sent[h], "tree": v, "from": str(h)}).encode() + b"\n")
            while not r.endswith(b"\n"):
                x = c.recv(100)
                if not x:
                    break
                r += x
        except OSError:
            pass
        self.note(dict(e="sends", ok=r.startswith(b'{"r":"ok"}')))

    def leave(self, how):
        with self.step:
            self.note(dict(e="leave", how="abrupt" if how in ("reset", "close") else "orderly"))
            self.left = True
        c = self.sock
        try:
            if how == "frame":
                self.send(bytes(client_frame(self.rng, "close", True, self.rng.choice([[], [3, 232], [3, 233, 104, 105]]))))
            elif how == "violation":
                self.send(bytes(self.rng.choice([client_frame(self.rng, "reserved", True, [1, 2]), client_frame(self.rng, "text", True, [65], rsv=(1,)), client_frame(self.rng, "cont", True, [65])])))
            elif how == "fin":
                c.shutdown(socket.SHUT_WR)
            elif how == "reset":
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                self.hang_up()
            else:
                self.hang_up()
        except OSError:
            pass

    def hang_up(self):
        # a socket is only closed once nobody is about to read from it
        self.stop_reading()
        self.sock.close()

    def stop_reading(self):
        if self.th:
            os.write(self.wake[1], b"x")
            self.th.join(patience())
            self.th = None
            os.close(self.wake[0])
            os.close(self.wake[1])

    def gone(self):
        if not self.wait(lambda: self.n["drop"] >= 1 or self.n["crash"]):
            self.failed()
        with self.step:
            self.note(dict(e="over"))

    def end(self):
        if not self.left:
            with self.step:
                self.left = True
        for h in self.handles.values():
            h.close()
        self.stop_reading()
        if self.sock:
            self.sock.close()
        if self.shower:
            self.came.put(None)
            self.shower.join(patience())
        self.browser.ask(c="forget", p=self.page)

    def trace(self):
        runs = list(self.runs)
        if self.scope == "rest":
            k = max([i for i, e in enumerate(runs) if e["e"] == "rest"], default=len(runs) - 1)
            runs = runs[:k + 1]
        return dict(id=self.id, script=self.script, runs=runs)


# ------------------------------------------------------------------------------ the checks
def describe(s, ev, l):
    return "session %s, event %d of %d: %s" % (s["id"], l, len(s["runs"]), json.dumps(ev)[:1500])


def run_sessions(live, jobs, work):
    """work(worker, job) -> Session"""
    done = []

    def one(k, j):
        x = work(k, j)
        x.end()
        done.append((str(j), x))

    parallel(len(live.browsers), jobs, one, live.enough)
    done.sort(key=lambda d: d[0])
    return [x for _, x in done]


def judge(ck, live, sessions, what):
    ss = [x.trace() for x in sessions]
    if live.stray:
        ck.violation("a component which belongs to no page: %r" % live.stray[0], dict(events=live.stray[:20]))
    ck.cov["evaluations"] = ck.cov.get("evaluations", 0) + sum(len(s["runs"]) for s in ss)
    n = {}
    for s in ss:
        for e in s["runs"]:
            n[e["e"]] = n.get(e["e"], 0) + 1
    ck.part(what, sessions=len(ss), events=n)
    for s in ss[:: max(1, len(ss) // 2)]:
        ck.sample(dict(id=s["id"], script=s["script"][:1], runs=s["runs"][:4]))
    validate(ck, "Trace_Live", ss, describe=describe, heap="3g")


def plain(t, start=0):
    return dict(start=start, calls=[SYNC], root=t)


def walks(ck):
    return [b for b in behaviours(ck, "Gen_Live", workers=1, args=["-simulate", "num=%d" % (4000 if THOROUGH else 300), "-depth", "64"]) if b]


def cpu_over(box, s):
    a = box.cpu_s()
    time.sleep(s)
    return round(box.cpu_s() - a, 2)


def small_trees(ck):
    return generate(ck, "Gen_Trees", env=dict(LONG="yes" if THOROUGH else "no"))


def c20(ck):
    rng = ck.rng
    model_check(ck, "MC_DomDiff", "MC_DomDiff_Deco" if THOROUGH else None, workers=4)
    trees = small_trees(ck)
    live = Live(ck)
    jobs = [view(rng, t, rng.choice([0, 0, 5])) for t in trees] + [rnd_view(rng) for _ in range(6000 if THOROUGH else 500)] + [rnd_view(rng, 60) for _ in range(60 if THOROUGH else 6)] + [view(rng, rnd_big(rng, 300 if i % 4 == 0 else 66)) for i in range(200 if THOROUGH else 24)] + [view(rng, long_texts(rng, n, b)) for n in LONG for b in (True, False) for _ in range(4 if THOROUGH else 1)]
    jobs += [view(rng, laden(rng, rnd_node(rng, [rng.choice([0, 2, 6])]))) for _ in range(300 if THOROUGH else 40)] + [view(rng, rnd_node(rng, [4]), n) for n in FAR for _ in range(20 if THOROUGH else 3)]
    seeds = [rng.random() for _ in jobs]

    def work(k, j):
        r = random.Random(seeds[j])
        x = Session(live, k, [jobs[j]], r, base=r.choice(["/", "/", "/my/app/"]), scope="rest")
        x.open()
        if x.ok and x.painted():
            x.settle()
        return x

    judge(ck, live, run_sessions(live, list(range(len(jobs))), work), "pages")


def view_histories(ck, n):
    """Histories of views, and the number of changes which are those of the model."""
    rng = ck.rng
    trees = small_trees(ck)
    # every view of the model becomes every other one
    walks = []
    for i, a in enumerate(trees):
        w = [a]
        for b in trees[i + 1:]:
            w += [b, a]
        walks += [w[k:k + 61] for k in range(0, max(1, len(w) - 1), 60)]
    jobs = [[plain(t, rng.choice([0, 0, 0, 1, 4])) for t in w] for w in walks]
    pairs = sum(len(w) - 1 for w in walks)
    for _ in range(n):
        # some applications number their elements from elsewhere, and some give them keys
        r = rng.random()
        starts, keys = [0] if r < 0.55 else [5] if r < 0.75 else [rng.choice(FAR)] if r < 0.82 else rng.sample(FAR, 2) if r < 0.87 else [0, 1, 2, 3, 9], rng.random() < 0.4
        t = rnd_node(rng, [rng.choice([1, 2, 4, 8, 14])]) if rng.random() < 0.94 else rnd_big(rng)
        if rng.random() < 0.08:
            t = laden(rng, t)
        if len(jobs) % 90 == 0:     # a change with a lot of instructions
            t["k"] += [rnd_node(rng, [1]) for _ in range(700 if THOROUGH else 400)]
        w = []
        for _ in range((14 if len(jobs) % 70 else 160) if len(flat(t)) < 400 else 4):
            w.append(plain(keyed(rng, copy_tree(t)) if keys and rng.random() < 0.9 else t, rng.choice(starts)))
            t = edited(rng, t) if rng.random() < 0.93 else rnd_node(rng, [8]) if rng.random() < 0.9 else long_texts(rng)
        jobs.append(w)
    return jobs, pairs


def c21(ck):
    rng = ck.rng
    model_check(ck, "MC_DomDiff", "MC_DomDiff_Def" if THOROUGH else None, workers=4)
    live = Live(ck)
    jobs, pairs = view_histories(ck, 3000 if THOROUGH else 260)
    ck.part("updates", of_the_model=pairs, at_random=sum(len(w) - 1 for w in jobs) - pairs)
    seeds = [rng.random() for _ in jobs]

    def work(k, j):
        x = Session(live, k, [jobs[j][0]], random.Random(seeds[j]), handles=1, scope="rest")
        x.open()
        if x.ok and x.painted():
            for v in jobs[j][1:]:
                x.input(1, v)
            x.settle()
        return x

    judge(ck, live, run_sessions(live, list(range(len(jobs))), work), "updates")


def c22(ck):
    rng = ck.rng
    model_check(ck, "MC_LiveSession", "MC_LiveSession_deep" if THOROUGH else None, workers=4)
    live = Live(ck)
    behs = [[a for a in b if a not in WAYS] for b in walks(ck)]
    for _ in range(40 if THOROUGH else 10):      # some lives are long
        behs.append(rng.choices(["fire", "settle"], k=150) + [a for b in rng.sample(behs, 4) for a in b])
    jobs = list(range(len(behs)))
    seeds = [rng.random() for _ in jobs]

    def work(k, j):
        r = random.Random(seeds[j])
        script, t = [], rnd_node(r, [r.choice([1, 4, 8])])
        if r.random() < 0.08:
            t = laden(r, t)
        for _ in range(r.choice([1, 3, 8]) if len(behs[j]) < 90 else 160):
            if len(behs[j]) >= 90 and r.random() < 0.8:     # listeners which no other view has
                for y in flat(t):
                    y["l"] = [[l + str(len(script)), e] for l, e in y["l"] or [["go", "click"]]]
            script.append(view(r, t))
            t = edited(r, t if r.random() < 0.97 else laden(r, t)) if len(behs[j]) < 90 else rnd_node(r, [4])
        x = Session(live, k, script, r, handles=2, scope="rest")
        x.open()
        if x.ok and x.painted():
            for a in behs[j] + ["settle"]:
                if not x.ok:
                    break
                play(x, r, a)
                if r.random() < 0.02:
                    time.sleep(0.01)
        return x

    judge(ck, live, run_sessions(live, jobs, work), "events")


WAYS = ("frame", "fin", "reset", "violation", "close")


def play(x, r, a):
    if r.random() < 0.06:
        x.pings(r.choice([1, 5, 30]))
    if a == "fire":
        x.fire() if r.random() < 0.75 else x.forged()
    elif a == "junk":
        x.junk()
    elif a.startswith("input"):
        x.input(int(a[5:]), rnd_view(r, r.choice([1, 4])))
    elif a.startswith("relay"):
        x.relay(int(a[5:]), [rnd_view(r, 2) for _ in range(r.choice([0, 1, 2, 3]))])
    elif a == "settle":
        x.settle()
    else:
        x.leave(a)


def c23(ck):
    rng = ck.rng
    model_check(ck, "MC_LiveSession", "MC_LiveSession_deep" if THOROUGH else None, workers=4)
    live = Live(ck)
    behs = walks(ck)
    behs = [b if b and any(a in WAYS for a in b) else b + [rng.choice(WAYS)] for b in behs]
    behs += [[w] for w in WAYS for _ in range(12)]      # gone before anything was shown
    jobs = list(range(len(behs)))
    seeds = [rng.random() for _ in jobs]
    ck.part("ways to leave", **{w: sum(1 for b in behs if w in b) for w in WAYS})

    def work(k, j):
        r = random.Random(seeds[j])
        x = Session(live, k, [rnd_view(r, 3) for _ in range(r.choice([1, 3]))], r, handles=2)
        x.open()
        if x.ok and (behs[j][0] in WAYS or x.painted()):
            for a in behs[j]:
                if not x.ok:
                    break
                play(x, r, a)
                if r.random() < 0.02:
                    time.sleep(0.01)
        if x.ok:
            x.gone()
        return x

    ss = run_sessions(live, jobs, work)
    judge(ck, live, ss, "lives")
    # nobody is there, so there is nothing to do
    used = [cpu_over(live.box, 0.7) for _ in range(3)]
    ck.part("after everybody has left", cpu_s_in_0_7_s=used)
    if min(used) > 0.35:
        ck.violation("all browsers have left, but the server keeps running: %r s of CPU time in 0.7 s" % used, dict(cpu=used))


CRASHES = ("render", "update", "call")


def doomed(rng, v, how):
    """The component crashes where this view is involved."""
    v = dict(v)
    if how == "call":
        cs = [list(c) for c in v["calls"]]
        for c in rng.sample([c for c in cs if c != SYNC] or cs, 1):
            c.append("boom")
        v["calls"] = cs
    else:
        v["boom"] = how
    return v


def c31(ck):
    rng = ck.rng
    model_check(ck, "MC_LiveSession", "MC_LiveSession_deep" if THOROUGH else None, workers=4)
    live = Live(ck)
    behs = walks(ck)
    rng.shuffle(behs)
    behs = behs[: 1200 if THOROUGH else 160]
    jobs = list(range(len(behs)))
    seeds = [rng.random() for _ in jobs]

    def work(k, j):
        r = random.Random(seeds[j])
        script = [rnd_view(r, r.choice([1, 3, 5])) for _ in range(r.choice([1, 2, 4]))]
        doom = j % 2 == 0
        at = r.randrange(len(script))
        inputs = r.random() < 0.4       # (it is an input that is to crash it)
        if doom and not inputs:
            script[at] = doomed(r, script[at], r.choice(CRASHES if at else ("render", "call", "call", "new")))
        x = Session(live, k, script, r, handles=2)
        x.open()
        if x.ok and x.painted():
            for a in behs[j]:
                if not x.ok:
                    break
                if doom and inputs and a.startswith("input") and r.random() < 0.4:
                    x.input(int(a[5:]), doomed(r, rnd_view(r, 2), r.choice(CRASHES)))
                elif doom and not inputs and a in ("fire", "junk") and r.random() < 0.5 and x.dom:
                    name = r.choice([c[0] for v in script for c in v["calls"] if c[0] != SYNC[0]] or ["nobody"])
                    x.raw(json.dumps({"listener": name, "payload": {"value": "v"}}), dict(junk=False, l=name, v=["v"]))
                elif a not in WAYS or doom or x.syncs:
                    play(x, r, a)
                if r.random() < 0.1 and not x.left:
                    x.still(r.choice([1, 2]))
            if x.ok and not x.left:
                x.settle()
                x.still(1)
                x.leave(r.choice(WAYS))
        if x.ok and x.left:
            x.gone()
        return x

    ss = run_sessions(live, jobs, work)
    n = {}
    for x in ss:
        for e in x.runs:
            if e["e"] == "crash":
                n[e["where"]] = n.get(e["where"], 0) + 1
    ck.part("crashes", **n)
    judge(ck, live, ss, "lives")


BOXES = ["p", "form", "div", "input", "select"]
LEAVES = ["h1", "h2", "h3", "h4", "h5", "h6", "label", "a", "img", "br", "noscript"]
HAVE = dict(p=["class", "id"], a=["href", "id"], form=["action"], input=["name", "placeholder", "value", "class"], img=["src", "alt"], noscript=[], br=[])


def decorated(rng, t, bare=0.2):
    """A node of this shape."""
    n = rng.choice(BOXES if t["n"] == "box" else LEAVES) if t["n"] in ("box", "leaf") else t["n"]
    have = HAVE.get(n, ["class", "title", "id", "data-x", "style"])
    x = dict(n=n, a=[], l=[], t="", k=[decorated(rng, k, bare) for k in t["k"]], each=rng.random() < 0.5)
    if rng.random() >= bare:
        x["a"] = [[k, rng.choice(VALUES)] for k in rng.sample(have, rng.randrange(min(4, len(have) + 1)) if rng.random() < 0.97 else len(have))]
        x["t"] = rng.choice(TEXTS) if rng.random() < 0.999 else "ab\u00e9" * rng.choice([43, 400, 22000])
        if n not in ("br", "noscript"):
            x["l"] = [[rng.choice(NAMES), rng.choice(EVENTS)] for _ in range(rng.choice([0, 1, 1, 2, 3]) if rng.random() < 0.98 else 17)]
    return x


def rnd_shape(rng, budget, depth=0):
    n = dict(n="box", k=[])
    while budget[0] > 0 and depth < 6 and rng.random() < (0.9 if depth == 0 else 0.5):
        budget[0] -= 1
        n["k"].append(dict(n="leaf", k=[]) if rng.random() < 0.4 else rnd_shape(rng, budget, depth + 1))
    return n


def big_shape(rng):
    """Many nodes in one, or deeply nested ones."""
    t = at = dict(n="box", k=[])
    wide = rng.random() < 0.5
    for i in range(rng.choice([17, 33, 129, 300] if wide else [7, 12, 17, 33])):
        x = dict(n="leaf" if wide and rng.random() < 0.7 else "box", k=[])
        at["k"].append(x)
        if not wide:
            at = x
    return t


def c24(ck):
    rng = ck.rng
    shapes = generate(ck, "Gen_Nodes", env=dict(LONG="yes" if THOROUGH else "no"))
    jobs = [[decorated(rng, t, b) for b in (1, 0.2, 0)] for t in shapes]
    # every kind of node, on its own and below and next to every other one
    for n in BOXES + LEAVES:
        jobs.append([decorated(rng, dict(n=n, k=[]), b) for b in (1, 0, 0, 0, 0)])
    for n in BOXES:
        for m in BOXES + LEAVES:
            jobs.append([decorated(rng, dict(n=n, k=[dict(n=m, k=[]), dict(n=o, k=[])]), 0) for o in BOXES + LEAVES])
    jobs += [[decorated(rng, rnd_shape(rng, [rng.choice([1, 3, 8, 20])])) for _ in range(rng.choice([1, 1, 2, 5]))] for _ in range(20000 if THOROUGH else 1200)]
    jobs += [[decorated(rng, big_shape(rng)) for _ in range(rng.choice([1, 2]))] for _ in range(200 if THOROUGH else 24)]
    # one source of ids for many nodes
    jobs += [[decorated(rng, dict(n="box", k=[dict(n="leaf", k=[])] * 299), 1) for _ in range(230 if THOROUGH else 5)]]
    box = Box(ck, build("live", "verifliveview"), args_of=lambda ports: [str(p) for p in ports], nports=2, name="live")
    ck.children.append(box)
    res = box.exec_many([dict(trees=j) for j in jobs])
    ss = []
    for i, (j, r) in enumerate(zip(jobs, res)):
        if r["r"] != "ok":
            ck.violation("conversion of nodes: %s" % r["r"], dict(trees=j))
        ss.append(dict(id="n%d" % i, runs=[dict(e="converted", **o) for o in r["out"]]))
    ck.cov["evaluations"] = sum(len(s["runs"]) for s in ss)
    ck.part("conversions", sources_of_ids=len(ss), nodes=sum(len(flat(o["node"])) for s in ss for o in s["runs"]))
    for s in ss[:: max(1, len(ss) // 2)]:
        ck.sample(dict(id=s["id"], runs=s["runs"][:1]))
    validate(ck, "Trace_Nodes", ss, describe=lambda s, ev, l: "source of ids %s, node %d: %s" % (s["id"], l, json.dumps(ev)[:1500]), heap="3g")


# ------------------------------------------------------------------------------ C28
def tidy_history(rng):
    """Views whose elements have keys which stay with them: some are left out, and new ones come at the end."""
    fresh = [0]

    def key(x):
        fresh[0] += 1
        x["key"] = "k%d" % fresh[0]
        return x

    def dress(x):
        for y in x["k"]:
            key(y)
            dress(y)
        return x
    t = dress(rnd_node(rng, [rng.choice([3, 6, 12])]) if rng.random() < 0.9 else rnd_big(rng, 40))
    if rng.random() < 0.06:
        laden(rng, t)
    w = [t]
    for _ in range(14):
        t = copy_tree(t)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            x = rng.choice(flat(t))
            what = rng.choice(["out", "out", "end", "end", "decor"])
            if what == "out" and x["k"]:
                x["k"].pop(rng.randrange(len(x["k"])))
            elif what == "end" and len(flat(t)) < 24:
                x["k"].append(dress(key(rnd_node(rng, [rng.choice([0, 0, 2])], 3))))
            elif what == "decor":
                y = rnd_node(rng, [0], 9) if rng.random() < 0.97 else laden(rng, rnd_node(rng, [0], 9))
                for f in rng.sample("natl", rng.choice([1, 2])):
                    x[f] = y[f]
        w.append(t)
    start = rng.choice([0, 0, 3] if rng.random() < 0.9 else FAR)
    return [plain(t, start) for t in w]


def partly_keyed(rng, views):
    """The same with only some of the keys: these views are matched by position."""
    for v in views:
        for x in flat(v["root"]):
            if rng.random() < 0.4:
                x.pop("key", None)
    return views


def stays_view(v):
    def go(x):
        return dict(n=x["n"], a=[list(p) for p in x["a"]], t=x["t"], l=[list(p) for p in x["l"]], key=x.get("key") or "", k=[go(y) for y in x["k"]])
    return go(v["root"])


def c28(ck):
    rng = ck.rng
    model_check(ck, "MC_KeyedDiff", "MC_KeyedDiff_deep" if THOROUGH else None, workers=4)
    live = Live(ck)
    jobs, pairs = view_histories(ck, 2000 if THOROUGH else 150)
    if not THOROUGH:
        few = [j for j in jobs if len(j) > 15]
        jobs = rng.sample(few, len(few) // 3) + [j for j in jobs if len(j) <= 15]
    jobs += [tidy_history(rng) for _ in range(1500 if THOROUGH else 150)]
    jobs += [partly_keyed(rng, tidy_history(rng)) for _ in range(500 if THOROUGH else 50)]
    # now and then nothing changes at all
    jobs = [[v for x in j for v in ([x, x] if rng.random() < 0.1 else [x])] for j in jobs]
    seeds = [rng.random() for _ in jobs]

    def work(k, j):
        x = Session(live, k, [jobs[j][0]], random.Random(seeds[j]), handles=1, scope="rest")
        x.nodes = []
        x.open()
        if x.ok and x.painted():
            for v in jobs[j][1:]:
                x.input(1, v)
            x.settle()
        x.job = j
        return x

    ss = []
    for x in run_sessions(live, list(range(len(jobs))), work):
        vs, at = [stays_view(jobs[x.job][0])], 0
        for e in x.runs:
            if e["e"] == "update":      # by the next view, or by an event which does not change the view
                at = at if e["browser"] else min(at + 1, len(jobs[x.job]) - 1)
                vs.append(stays_view(jobs[x.job][at]))
        # (that each changeset shows the next view is C21)
        n = min(len(vs), len(x.nodes))
        ss.append(dict(id=x.id, runs=[dict(view=v, nodes=d) for v, d in zip(vs[:n], x.nodes[:n])]))
    ck.cov["evaluations"] = sum(len(s["runs"]) for s in ss)
    ck.part("updates", sessions=len(ss), changesets=ck.cov["evaluations"])
    for s in ss[:: max(1, len(ss) // 2)]:
        ck.sample(dict(id=s["id"], runs=s["runs"][:2]))
    if not any(len(s["runs"]) > 1 for s in ss):
        ck.violation("no session got as far as an update", dict(sessions=len(ss)))
    validate(ck, "Trace_Stays", ss, describe=lambda s, ev, l: "session %s, update %d: %s after %s" % (s["id"], l - 1, json.dumps(ev)[:1200], json.dumps(s["runs"][l - 2])[:1200]), heap="3g")
