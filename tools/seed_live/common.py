import base64, json, os, socket, struct, subprocess, sys, time

def el(n, *k, **o):
    return dict(n=n, a=[list(x) for x in o.get("a", [])], t=[o["t"]] if "t" in o else [], l=[list(x) for x in o.get("l", [])], k=list(k))

def view(root, *calls, start=0):
    return dict(start=start, calls=[list(c) for c in calls], root=root)

class App:
    """The server, and a browser (in node) which runs what it serves."""
    def __init__(self):
        ports = []
        ss = [socket.socket() for _ in range(3)]
        for s in ss:
            s.bind(("127.0.0.1", 0))
        ports = [s.getsockname()[1] for s in ss]
        for s in ss[:2]:
            s.close()
        self.log, self.events = ss[2], []
        self.log.listen(64)
        import threading
        threading.Thread(target=self.listen, daemon=True).start()
        env = dict(os.environ, VERIF_LOG="127.0.0.1:%d" % ports[2])
        self.p = subprocess.Popen([sys.argv[1], sys.argv[2], str(ports[0]), str(ports[1])],
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
        self.node = subprocess.Popen(["node", sys.argv[3]], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.ctl, self.port, self.n = ports[0], ports[1], 0
        for p in ports[:2]:
            for _ in range(400):
                try:
                    socket.create_connection(("127.0.0.1", p), timeout=5).close()
                    break
                except OSError:
                    time.sleep(0.05)
            else:
                self.over(9)

    def listen(self):
        while True:
            c, _ = self.log.accept()
            l = c.makefile("rb").readline()
            if l:
                self.events.append(json.loads(l))
            try:
                c.sendall(b"k")
            except OSError:
                pass
            c.close()

    def wait(self, pred, t=8):
        end = time.time() + t
        while time.time() < end:
            if pred():
                return True
            time.sleep(0.02)
        return False

    def ask(self, **c):
        self.node.stdin.write(json.dumps(c).encode() + b"\n")
        self.node.stdin.flush()
        return json.loads(self.node.stdout.readline())

    def get(self, path):
        c = socket.create_connection(("127.0.0.1", self.port), timeout=10)
        c.sendall(("GET %s HTTP/1.1\r\nHost: 127.0.0.1:%d\r\n\r\n" % (path, self.port)).encode())
        b = b""
        while True:
            d = c.recv(65536)
            if not d:
                return b.partition(b"\r\n\r\n")[2].decode()
            b += d

    def cpu(self):
        f = open("/proc/%d/stat" % self.p.pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")

    def over(self, rc):
        self.p.kill(); self.node.kill()
        sys.exit(rc)

    def verdict(self, ok, what=""):
        print("DEMO HOLDS" if ok else "DEMO BROKEN %r" % (what,))
        self.over(0 if ok else 1)

class Page:
    def __init__(self, app, script, base="/", handle=False):
        self.app, self.dom = app, None
        app.n += 1
        self.no, self.id = app.n, "p%d" % app.n
        where = "http://127.0.0.1:%d%s" % (app.port, base)
        scripts = app.ask(c="parse", html=app.get(base), url=where)["scripts"]
        js = app.get(scripts[0][len("http://127.0.0.1:%d" % app.port):]) if scripts else ""
        socks = app.ask(c="open", p=self.no, url=where, script=js)["sockets"]
        if not socks:
            app.verdict(False, "the page does not connect")
        l = socket.socket(); l.bind(("127.0.0.1", 0)); l.listen(1); l.settimeout(8)
        self.c = socket.create_connection(("127.0.0.1", app.port), timeout=8)
        self.c.sendall(("GET %s HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\nx-id: %s\r\nx-script: %s\r\nx-ctl: %s\r\n\r\n"
                        % (socks[0].split(":%d" % app.port, 1)[1], self.id, json.dumps(script), "127.0.0.1:%d" % l.getsockname()[1] if handle else "")).encode())
        b = b""
        while b"\r\n\r\n" not in b:
            d = self.c.recv(1)
            if not d:
                app.verdict(False, "the page's WebSocket does not connect")
            b += d
        self.h = l.accept()[0] if handle else None
        app.ask(c="up", p=self.no)
        self.inputs = 0

    def read(self, n):
        b = b""
        while len(b) < n:
            d = self.c.recv(n - len(b))
            if not d:
                raise OSError("closed")
            b += d
        return b

    def next(self, t=8):
        """The browser gets the next changeset."""
        self.c.settimeout(t)
        try:
            while True:
                h = self.read(2)
                n = h[1] & 127
                n = struct.unpack(">H", self.read(2))[0] if n == 126 else struct.unpack(">Q", self.read(8))[0] if n == 127 else n
                d = self.read(n)
                if h[0] & 15 == 1:
                    break
        except OSError:
            return None
        r = self.app.ask(c="msg", p=self.no, data=d.decode(), look=True)
        self.dom = r["dom"]
        if r["errors"]:
            return None
        return self.dom

    def frame(self, op, d):
        n = len(d)
        ln = bytes([128 | n]) if n < 126 else bytes([128 | 126]) + struct.pack(">H", n)
        self.c.sendall(bytes([128 | op]) + ln + b"\0\0\0\0" + d)

    def fire(self, at, event, value=None):
        said = [x["d"] for x in self.app.ask(c="fire", p=self.no, at=at, e=event, v=value)["sent"]]
        for x in said:
            self.frame(1, x.encode())
        return said

    def show(self, tree):
        self.inputs += 1
        self.h.sendall(json.dumps({"c": "show", "from": "1", "n": self.inputs, "tree": tree, "quiet": True}).encode() + b"\n")

    def updates(self):
        return [e for e in self.app.events if e["ev"] == "update" and e["id"] == self.id]

def brief(d):
    """[tag, attributes, text, children]"""
    return [d["n"], sorted(map(tuple, d["a"])), d["t"] + d["x"], [brief(k) for k in d["k"]]]

def plain(t):
    return [t["n"], sorted(map(tuple, t["a"])), (t["t"] or [""])[0], [plain(k) for k in t["k"]]]
