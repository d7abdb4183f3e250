import base64, html, json, os, re, socket, struct, subprocess, sys, threading, time

class App:
    """The example, on a port of its own."""
    def __init__(self):
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.port = s.getsockname()[1]
        s.close()
        self.p = subprocess.Popen([sys.argv[1], sys.argv[2]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  env=dict(os.environ, VERIF_PORT=str(self.port), LD_PRELOAD=sys.argv[3]))
        self.node = None
        for _ in range(400):
            try:
                self.connect().close()
                break
            except OSError:
                time.sleep(0.05)
        else:
            self.over(9)

    def connect(self):
        c = socket.create_connection(("127.0.0.1", self.port), timeout=15)
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return c

    def over(self, rc):
        self.p.kill()
        if self.node:
            self.node.kill()
        sys.exit(rc)

    def verdict(self, ok, what=""):
        print("ok" if ok else "BROKEN", what)
        self.over(0 if ok else 1)

    def send(self, method, path, body=b""):
        c = self.connect()
        c.sendall(("%s %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n" % (method, path, len(body))).encode() + body)
        return c

    def answer(self, c):
        b = b""
        while True:
            d = c.recv(65536)
            if not d:
                break
            b += d
        c.close()
        return b.partition(b"\r\n\r\n")[2].decode()

    # the list
    def add(self, x):
        return "Added" in self.answer(self.send("POST", "/submit", b"message=" + x.encode()))

    def read(self, n):
        return [html.unescape(x) for x in re.findall(r"<p[^>]*>Item: ([^<]*)</p>", self.answer(self.send("GET", "/read/%d" % n)))]

    # the chat
    def ask(self, **c):
        if not self.node:
            self.node = subprocess.Popen(["node", sys.argv[4]], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.node.stdin.write(json.dumps(c).encode() + b"\n")
        self.node.stdin.flush()
        return json.loads(self.node.stdout.readline())

def flat(d):
    return [d] + [x for k in d["k"] for x in flat(k)]

class User:
    """A user of the chat and its browser."""
    pages = 0
    def __init__(self, app, name):
        User.pages += 1
        self.app, self.page, self.dom, self.buf = app, User.pages, [], b""
        r = app.ask(c="open", p=self.page, url="http://127.0.0.1:%d/" % app.port, script=app.answer(app.send("GET", "/js")))
        self.s = app.connect()
        self.s.sendall(("GET /ws HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: %s\r\nSec-WebSocket-Version: 13\r\n\r\n" % base64.b64encode(b"x" * 16).decode()).encode())
        while b"\r\n\r\n" not in self.buf:
            self.buf += self.s.recv(1)
        self.buf = b""
        app.ask(c="up", p=self.page)
        self.until(lambda: self.dom)
        self.do("text", "input", name)
        self.do("submit", "click")
        self.until(lambda: self.hello() is not None)

    def do(self, which, ev, value=None):
        ns = [x for d in self.dom for x in flat(d)]
        at = [i for i, x in enumerate(ns) if x["n"] == "input" and ["type", which] in x["a"]][0]
        for x in self.app.ask(c="fire", p=self.page, at=at, e=ev, v=value)["sent"]:
            b, m = x["d"].encode(), b"\1\2\3\4"
            n = bytes([128 | len(b)]) if len(b) < 126 else bytes([254]) + struct.pack(">H", len(b))
            self.s.sendall(b"\x81" + n + m + bytes(c ^ m[i % 4] for i, c in enumerate(b)))

    def until(self, pred, t=6):
        """Shows what comes until it is so."""
        end = time.time() + t
        while not pred() and time.time() < end:
            self.s.settimeout(max(0.01, end - time.time()))
            try:
                x = self.s.recv(65536)
            except OSError:
                break
            if not x:
                break
            self.buf += x
            while len(self.buf) >= 2:
                n, at = self.buf[1] & 127, 2
                if n == 126:
                    n, at = (struct.unpack(">H", self.buf[2:4])[0] if len(self.buf) >= 4 else 1 << 30), 4
                elif n == 127:
                    n, at = (struct.unpack(">Q", self.buf[2:10])[0] if len(self.buf) >= 10 else 1 << 30), 10
                if len(self.buf) < at + n:
                    break
                data, self.buf = self.buf[at:at + n], self.buf[at + n:]
                self.dom = self.app.ask(c="msg", p=self.page, data=data.decode(), look=True)["dom"]
        return pred()

    def texts(self, *tags):
        return [x["t"] for d in self.dom for x in flat(d) if x["n"] in tags]

    def hello(self):
        m = re.search(r"user_id: (\d+)", " ".join(self.texts("p")))
        return int(m.group(1)) if m else None

    def messages(self):
        return list(zip(self.texts("h3"), self.texts("p")[1:]))

    def say(self, text):
        self.do("text", "input", text)
        self.do("submit", "click")

    def leave(self):
        self.s.close()
        time.sleep(0.5)

