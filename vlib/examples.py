"""C25 C26: the examples, as they are."""
import html.parser, json, socket, struct, threading, time
from .core import *
from .http_parse import cut, pieces
from .served import parallel


def bind_shim(ck):
    """The examples listen on fixed ports; this preloaded bind makes that the port in VERIF_PORT."""
    so = ck.path("bind.so")
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(ROOT, "harness", "bind", "bind.c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise ToolError("bind.c: " + p.stdout.decode(errors="replace"))
    return so


PORTS, PORTS_LOCK = random.Random(os.getpid()).sample(range(15000, 32000), 16000), threading.Lock()


def own_port():
    """A port which nobody else gets: none is given out twice, and none is one that the system gives out."""
    with PORTS_LOCK:
        while PORTS:
            p = PORTS.pop()
            with socket.socket() as s:
                try:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                    s.bind(("127.0.0.1", p))
                    return p
                except OSError:
                    pass
    raise ToolError("no port is left")


class Example:
    """One running example."""

    def __init__(self, ck, wasm, so, name):
        self.ck, self.name = ck, name
        self.stderr = ck.path(name + ".stderr")
        for attempt in range(5):
            self.port = own_port()
            with open(self.stderr, "wb") as f:
                self.p = subprocess.Popen([LUNATIC, wasm], stdin=subprocess.DEVNULL, stdout=f, stderr=f, cwd=ck.dir, preexec_fn=die_with_parent,
                                          env=dict(os.environ, VERIF_PORT=str(self.port), LD_PRELOAD=so))
            ck.children.append(self)
            t0 = time.time()
            while self.p.poll() is None and time.time() - t0 < 40:
                try:
                    socket.create_connection(("127.0.0.1", self.port), timeout=5).close()
                    return
                except OSError:
                    time.sleep(0.05)
            self.stop()
        raise ToolError("the example does not start (see %s)" % self.stderr)

    def stop(self):
        self.p.kill()
        self.p.wait()


# ------------------------------------------------------------------------------ C25: the list
class Page(html.parser.HTMLParser):
    """The texts of a page's headings and paragraphs, and whether it has a form to submit a message."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.h1, self.p, self.form, self.fields, self.at = [], [], False, [], None
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag in ("h1", "p"):
            self.at = getattr(self, tag)
            self.at.append("")
        elif tag == "form":
            self.form = (a.get("method") or "").lower() == "post" and a.get("action") in (None, "", "/submit")
        elif tag == "input" and self.form:
            self.fields.append(a.get("name"))

    def handle_endtag(self, tag):
        if tag in ("h1", "p"):
            self.at = None

    def handle_data(self, d):
        if self.at is not None:
            self.at[-1] += d


def list_answer(rx):
    """What a response says."""
    other = dict(status=0, page="other", items=[])
    try:
        head, body = rx.split(b"\r\n\r\n", 1)
        status = int(head.split(b" ", 2)[1])
        p = Page(body.decode("utf-8"))
    except (ValueError, IndexError, UnicodeDecodeError):
        return dict(other, page="other" if rx else "none")
    a = dict(status=status, page="other", items=[])
    if p.h1 == ["Message list"] and p.p == ["There are no messages yet."]:
        a["page"] = "items"
    elif p.h1 == ["Message list"] and p.p and all(x.startswith("Item: ") for x in p.p):
        a.update(page="items", items=[x[6:] for x in p.p])
    elif p.h1 == ["Added that item"] and not p.p:
        a["page"] = "added"
    elif p.form and "message" in p.fields:
        a["page"] = "form"
    return a


WORDS = ["a", "b", "hello", "caf\u00e9", "\u65e5\u672c", "x=y", "message=", "50%", "%41", "+", "-1", "0", ",", "q?r", "#", "/read/1", "\U0001f600", "'", "it is"]


class ListSession:
    """Clients of one list."""

    def __init__(self, ex, rng):
        self.ex, self.rng = ex, rng
        self.runs, self.calls, self.n, self.adds, self.texts = [], {}, 0, 0, []
        self.lost = 0
        self.stuck = False

    def text(self):
        r = self.rng
        if self.texts and r.random() < 0.12:
            return r.choice(self.texts)     # the same once more
        k = r.random()
        if k < 0.03:
            x = ""
        elif k < 0.06:
            x = "long" + str(self.adds) + "x" * r.choice([1000, 5000])
        else:
            x = " ".join([r.choice(WORDS) for _ in range(r.choice([0, 1, 1, 2, 4]))] + [str(self.adds)])
        return x

    def request(self, op):
        r = self.rng
        hs = "".join("%s: %s\r\n" % h for h in r.sample([("Accept", "*/*"), ("User-Agent", "check"), ("Cookie", "a=b; c=d")], r.randrange(4))) + "Host: %s\r\n" % r.choice(["x", "localhost:8080", "127.0.0.1"])
        if op == "add":
            x = self.text()
            self.texts = (self.texts + [x])[-5:]
            self.adds += 1
            b = ("message=" + x).encode()
            return dict(op="add", x=x), ("POST /submit HTTP/1.1\r\n%sContent-Length: %d\r\n\r\n" % (hs, len(b))).encode() + b
        if op == "read":
            n = r.choice([0, 1, 1, 2, 3, 5, 10, r.randrange(1 + max(1, self.adds)), max(0, self.adds - 1), self.adds, self.adds + 1, 1000000, 2147483647])
            return dict(op="read", n=n), ("%s /read/%s HTTP/1.1\r\n%s\r\n" % (r.choice(["GET", "GET", "GET", "PUT"]), r.choice(["%d", "%d", "%d", "+%d", "00%d"]) % n, hs)).encode()
        op = r.choice(["form", "malformed", "malformed", "unknown"])
        if op == "form":
            return dict(op=op), ("GET /submit HTTP/1.1\r\n%s\r\n" % hs).encode()
        if op == "malformed":
            if r.random() < 0.3:
                return dict(op="negative"), ("GET /read/-%d HTTP/1.1\r\n%s\r\n" % (r.choice([1, 2, 70]), hs)).encode()
            b = r.choice(["", "x", "Message=a", "message", "messag=e", " message=a", "a=b&message=c", "xmessage=1"]).encode()
            return dict(op=op), ("POST /submit HTTP/1.1\r\n%sContent-Length: %d\r\n\r\n" % (hs, len(b))).encode() + b
        return dict(op=op), ("%s HTTP/1.1\r\n%s\r\n" % (r.choice(["GET /", "GET /read", "GET /read/", "GET /read/x", "GET /read/1/2", "GET /submit/", "PUT /submit", "GET /read/1x", "DELETE /submit", "GET /submit/read/1"]), hs)).encode()

    def call(self, c, op):
        if c in self.calls:
            self.answered(c)
        call, w = self.request(op)
        self.n += 1
        self.runs.append(dict(e="call", id=self.n, call=call))
        s = socket.create_connection(("127.0.0.1", self.ex.port), timeout=patience())
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        k = self.rng.choice([0, 1, len(w) - 1, self.rng.randrange(len(w)), len(w), len(w)])
        s.sendall(w[:k])
        self.calls[c] = dict(id=self.n, s=s, rest=w[k:], op=call["op"])

    def finish(self, c):
        x = self.calls[c]
        if x["rest"]:
            try:
                x["s"].sendall(x["rest"])
            except OSError:
                pass     # judged by the answer
            x["rest"] = b""

    def answered(self, c):
        self.finish(c)
        x = self.calls.pop(c)
        rx = b""
        try:
            while True:
                b = x["s"].recv(65536)
                if not b:
                    break
                rx += b
        except OSError:
            self.stuck = True
        x["s"].close()
        a = list_answer(rx)
        self.runs.append(dict(e="answer", id=x["id"], answer=a))
        return a

    def vanish(self, c):
        """goes away once the request is complete"""
        x = self.calls[c]
        if x["op"] == "add" and self.lost > 25:
            return self.answered(c)
        self.finish(c)
        self.lost += x["op"] == "add"
        self.calls.pop(c)
        self.runs.append(dict(e="vanish", id=x["id"]))
        if self.rng.random() < 0.4:
            x["s"].setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        x["s"].close()

    def play(self, walk):
        for a, c, op in walk:
            if self.stuck:
                return
            if a == "call":
                self.call(c, op)
            elif c not in self.calls:
                continue
            elif a == "finish":
                self.finish(c)
            elif a == "await":
                self.answered(c)
            else:
                self.vanish(c)
            if self.rng.random() < 0.1:
                time.sleep(self.rng.choice([0.0003, 0.002]))

    def storm(self, n, adds):
        """n clients at once"""
        cs = ["s%d" % i for i in range(n)]
        for c in cs:
            self.call(c, "add" if self.rng.random() < adds else "read")
        self.rng.shuffle(cs)
        for c in cs:
            self.finish(c)
        self.rng.shuffle(cs)
        for c in cs:
            if not self.stuck:
                self.answered(c)

    def end(self):
        for c in list(self.calls):
            if not self.stuck:
                self.answered(c)
        # of everything, and once more: what has gone may have come into effect only now
        for n in (10 ** 6, 2147483647):
            if self.stuck:
                break
            self.n += 1
            s = socket.create_connection(("127.0.0.1", self.ex.port), timeout=patience())
            self.runs.append(dict(e="call", id=self.n, call=dict(op="read", n=n)))
            s.sendall(b"GET /read/%d HTTP/1.1\r\nHost: x\r\n\r\n" % n)
            self.calls["end"] = dict(id=self.n, s=s, rest=b"", op="read")
            a = self.answered("end")
            time.sleep(0.02)
        return dict(final=a["items"] if not self.stuck else [], runs=self.runs)


def c25(ck):
    rng = ck.rng
    # the findings which are listed; Trace_List allows exactly what they are
    known = [k["id"] for k in ck.known]
    wasm = build("examples", "list")
    so = bind_shim(ck)
    model_check(ck, "MC_List", "MC_List_deep" if THOROUGH else None, workers=4, timeout=850)
    ws = [b for b in behaviours(ck, "Gen_List", workers=1, args=["-simulate", "num=%d" % (1600 if THOROUGH else 120), "-depth", "154"]) if b]
    per = 3
    jobs = [ws[i:i + per] for i in range(0, len(ws), per)]
    seeds = [rng.random() for _ in jobs]
    ss = [None] * len(jobs)

    def work(k, j):
        r = random.Random(seeds[j])
        ex = Example(ck, wasm, so, "list%d" % j)
        try:
            x = ListSession(ex, r)
            for w in jobs[j]:
                x.play(w)
                if not x.stuck and r.random() < 0.5:
                    x.storm(r.choice([8, 16, 30]), r.choice([0.3, 0.7, 1]))
            ss[j] = dict(id="list%d" % j, **x.end())
        finally:
            ex.stop()

    parallel(8, range(len(jobs)), work)
    ops = {}
    for s in ss:
        for e in s["runs"]:
            if e["e"] == "call":
                ops[e["call"]["op"]] = ops.get(e["call"]["op"], 0) + 1
    ck.part("lists", lists=len(ss), calls=ops, vanished=sum(e["e"] == "vanish" for s in ss for e in s["runs"]), longest=max(len(s["final"]) for s in ss))
    for s in ss[:: max(1, len(ss) // 3)]:
        ck.sample(dict(id=s["id"], runs=s["runs"][:12]))
    for s in ss:
        s["known"] = known
    # (what is listed shows itself: those which do not are not reported)
    for s in ss:
        calls = {e["id"]: e["call"] for e in s["runs"] if e["e"] == "call"}
        for e in s["runs"]:
            if e["e"] == "answer":
                c, a = calls[e["id"]], e["answer"]
                hit = "C25-read-all" if c["op"] == "read" and len(a["items"]) > c["n"] else "C25-negative" if c["op"] == "negative" and a["page"] == "none" else None
                ck.known_hit.update({k["id"]: k["text"] for k in ck.known if k["id"] == hit})
    validate(ck, "Trace_List", ss, shards=8, describe=lambda s, ev, l: "list %s, event %d: %s %s" % (
        s["id"], l, json.dumps(ev)[:1200], json.dumps([e for e in s["runs"] if ev and e.get("id") == ev.get("id")][:1])[:400]))


# ------------------------------------------------------------------------------ C26: the chat
from .live import Browser, Session, seen, flat, WAYS, PATIENCE  # noqa: E402


def attr(x, name):
    return next((v for k, v in x["a"] if k == name), None)


def chat_view(dom):
    """What a browser shows of the chat."""
    ns = [x for d in dom for x in flat(d)]
    field = [x for x in ns if x["n"] == "input" and attr(x, "placeholder") == "username..."]
    if field:
        return dict(stage="out", name="", id=-1, messages=[]) if not any(x["n"] in ("p", "h3") for x in ns) else dict(stage="other", name="", id=-1, messages=[])
    other = dict(stage="other", name=json.dumps(dom)[:600], id=-1, messages=[])
    texts = [(x["n"], x["t"]) for x in ns if x["n"] in ("p", "h3")]
    m = re.fullmatch(r"Hello (.*) \(user_id: (\d{1,9})\)!", texts[0][1]) if texts and texts[0][0] == "p" else None
    if not m or len(texts) % 2 != 1:
        return other
    ms = []
    for (h, who), (p, what) in zip(texts[1::2], texts[2::2]):
        w = re.fullmatch(r"Message from (.*) \(user id: (\d{1,9})\)", who)
        if (h, p) != ("h3", "p") or not w:
            return other
        ms.append(dict(name=w.group(1), id=int(w.group(2)), text=what))
    return dict(stage="in", name=m.group(1), id=int(m.group(2)), messages=ms)


class ChatUser(Session):
    """A user of a chat, with a browser."""

    def __init__(self, chat, worker, u):
        self.chat, self.u = chat, u
        super().__init__(chat, worker, [], chat.rng)
        self.step = chat.step
        self.phase, self.asked, self.typed, self.composed, self.saw, self.begun = "out", False, "", "", [], 0
        self.said, self.next, self.since, self.name = [], {}, {}, ""

    def note(self, e):
        if e["e"] == "leave":
            self.chat.note(dict(e="leave", u=self.u))
        if e["e"] == "page":
            if e["status"] == 200 and e["scriptstatus"] == 200 and len(e["sockets"]) == 1 and not e["errors"]:
                return
            e = dict(what=e, e="broken")
        if e["e"] == "broken":
            self.chat.note(dict(e="shows", u=self.u, view=dict(stage="other", name=json.dumps(e)[:600], id=-1, messages=[])))
            self.chat.bad()

    def got(self, data):
        with self.step:
            if self.left:
                return
            r = self.browser.ask(c="msg", p=self.page, data=data, look=True)
            self.dom = [seen(d) for d in r["dom"]]
            v = chat_view(self.dom)
            if r["errors"] or r["stray"] or r["sent"]:
                v = dict(stage="other", name=json.dumps([r["errors"], r["stray"], r["sent"]])[:600], id=-1, messages=[])
            self.chat.note(dict(e="shows", u=self.u, view=v))
            if v["stage"] == "in":
                if self.phase != "in":
                    self.phase = "in"
                    self.next = {x.u: {1} if x is self else set(range(self.since.get(x.u, 0) + 1, len(x.said) + 2)) for x in self.chat.users.values()}
                for m in v["messages"][len(self.saw):]:
                    self.saw.append(m)
                    for x in self.chat.users.values():
                        n = {k + 1 for k in self.next.get(x.u, {1}) if k <= len(x.said) and x.said[k - 1] == m["text"]} if x.name == m["name"] else set()
                        if n:
                            self.next[x.u] = n
                            self.chat.known[x.u] = max(self.chat.known.get(x.u, 0), min(n) - 1)
                            break
            elif v["stage"] == "other":
                self.chat.bad()
            self.chat.cv.notify_all()

    def do(self, which, ev, value=None):
        """An event happens to one of the inputs."""
        ns = [x for d in self.dom or [] for x in flat(d)]
        at = [i for i, x in enumerate(ns) if x["n"] == "input" and attr(x, "type") == which]
        if not at:
            return
        r = self.browser.ask(c="fire", p=self.page, at=at[0], e=ev, v=value)
        for x in r["sent"]:
            if x.get("d") is not None:
                self.text(x["d"])

    def type(self, text):
        with self.step:
            self.do("text", "input", text)
            if self.phase == "out" and not self.asked:
                self.typed = text
            elif self.phase == "in":
                self.composed = text

    def register(self):
        with self.step:
            if self.phase != "out" or not self.dom:
                return
            self.chat.note(dict(e="register", u=self.u, name=self.typed))
            if not self.asked:
                self.asked, self.name, self.since = True, self.typed, dict(self.chat.known)
            self.do("submit", "click")

    def say(self):
        with self.step:
            self.chat.note(dict(e="say", u=self.u, text=self.composed))
            self.said.append(self.composed)
            self.do("submit", "click")


class Chat:
    """A running chat and its users."""

    def __init__(self, ck, ex, browser, rng):
        self.ck, self.ex, self.rng, self.runs = ck, ex, rng, []
        self.browsers, self.box, self.sessions = [browser], self, {}
        self.ports = [ex.port]
        self.users, self.known, self.nbad = {}, {}, 0
        self.step = threading.RLock()
        self.cv = threading.Condition(self.step)
        self.last = time.time()

    def bad(self):
        self.nbad += 1

    def enough(self):
        return self.nbad > 0

    def note(self, e):
        with self.step:
            self.runs.append(e)
            self.last = time.time()

    def wait(self, pred):
        with self.cv:
            if not self.cv.wait_for(lambda: self.enough() or pred(), patience(PATIENCE)):
                self.bad()      # what is missing is noticed at the next rest
            return not self.enough()

    def all_shown(self):
        us = [x for x in self.users.values() if not x.left]
        if any(x.asked and x.phase != "in" for x in us):
            return False
        done = {v: self.known.get(v, 0) if x.left else len(x.said) for v, x in self.users.items()}
        return all(any(k > done[v] for k in x.next.get(v, {1})) for x in us if x.phase == "in" for v in done)

    def rest(self):
        self.wait(self.all_shown)
        time.sleep(0.03)    # for what should not come
        with self.cv:
            # (what one who has left had said may just be coming)
            self.wait(self.all_shown)
            for x in self.users.values():
                done = len(x.said) if not x.left else self.known.get(x.u, 0)
                self.known[x.u] = done
                for y in self.users.values():
                    if x.u in y.next:
                        y.next[x.u] = {k for k in y.next[x.u] if k > done} or {done + 1}
            self.note(dict(e="rest"))

    NAMES = ["ann", "bob", "J\u00fcrgen", "\u5c71\u7530", "x y", "", "user", "0", "a+b"]

    def play(self, walk):
        r = self.rng
        n = 0
        for what, u in walk:
            if self.enough():
                return
            if what == "join":
                x = ChatUser(self, 0, u)
                self.users[u] = x
                self.note(dict(e="join", u=u))
                x.open()
                self.wait(lambda: x.dom)
                continue
            if what == "rest":
                self.rest()
                continue
            x = self.users[u]
            if what == "register":
                if not x.asked:
                    for i in range(r.choice([0, 1, 1, 2, 5])):
                        # (whose messages they are can be told from the names and what they say)
                        x.type(r.choice(self.NAMES) + (str(u) if r.random() < 0.7 else ""))
                x.register()
                if r.random() < 0.2:
                    x.type("late")
            elif what == "say":
                if not self.wait(lambda: x.phase == "in"):
                    break
                if not x.composed or r.random() < 0.75:
                    n += 1
                    for i in range(r.choice([1, 1, 1, 3])):
                        x.type("%d.%d%s" % (u, n, r.choice(["", " hello", " \u00e9\u6f22\U0001f600", " a+b", " " + "long " * 60 + "."])) if i or r.random() < 0.9 else "%d.draft" % u)
                x.say()
            elif what == "leave":
                x.leave(r.choice(WAYS))
            if r.random() < 0.2:
                time.sleep(r.choice([0.0005, 0.003, 0.01]))
        self.rest()

    def end(self):
        for x in self.users.values():
            x.end()


def c26(ck):
    rng = ck.rng
    wasm = build("examples", "chat")
    so = bind_shim(ck)
    model_check(ck, "MC_Chat", workers=4)
    model_check(ck, "MC_Chat", "MC_Chat_three", workers=8)
    if THOROUGH:
        model_check(ck, "MC_Chat", "MC_Chat_deep", workers=8)
    ws = [b for b in behaviours(ck, "Gen_Chat", workers=1, args=["-simulate", "num=%d" % (1600 if THOROUGH else 110), "-depth", "174"]) if b]
    seeds = [rng.random() for _ in ws]
    browsers = [Browser(ck) for _ in range(8)]
    ck.children.extend(browsers)
    ss, bad = [None] * len(ws), []

    def work(k, j):
        ex = Example(ck, wasm, so, "chat%d" % j)
        try:
            x = Chat(ck, ex, browsers[k], random.Random(seeds[j]))
            x.play(ws[j])
            x.end()
            ss[j] = dict(id="chat%d" % j, users=max(x.users, default=1), runs=list(x.runs))
            if x.enough():
                bad.append(j)
        finally:
            ex.stop()

    parallel(8, range(len(ws)), work, lambda: len(bad) > 4)
    ss = [s for s in ss if s]
    n = {}
    for s in ss:
        for e in s["runs"]:
            n[e["e"]] = n.get(e["e"], 0) + 1
    ck.part("chats", chats=len(ss), events=n, longest=max(len(e["view"]["messages"]) for s in ss for e in s["runs"] if e["e"] == "shows"))
    for s in ss[:: max(1, len(ss) // 3)]:
        ck.sample(dict(id=s["id"], runs=s["runs"][:12]))
    validate(ck, "Trace_Chat", ss, describe=lambda s, ev, l: "chat %s, event %d of %d: %s" % (s["id"], l, len(s["runs"]), json.dumps(ev)[:1500]))
