"""C04 C05 C07 C12: running servers."""
import json, socket, struct, threading, time
from .core import *
from .http_parse import cut, pieces, gen, plan_run, validate_plans, rnd_request, rnd_mutant, rnd_case, rnd_name, rnd_value
from .ws import server_cfgs, Ctl, Client, Misbehaved, connect, force_close

MODES = ["foreach", "router", "run"]


def exchange(port, wire, rng=None, how="whole", fin=False, timeout=None):
    """Sends the bytes, optionally ends that direction, and reads up to the end of the stream."""
    try:
        c = connect(port, timeout)
    except Misbehaved:
        return b"", "refused"
    c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    c.settimeout(timeout or patience())
    rx, end = b"", "eof"
    try:
        b = unlat(wire)
        for p in pieces(b, cut(rng, len(b), how)):
            c.sendall(p)
            if how != "whole" and rng.random() < 0.2:
                time.sleep(0.0005)
        if fin:
            c.shutdown(socket.SHUT_WR)
    except OSError:
        pass
    try:
        while True:
            x = c.recv(65536)
            if not x:
                break
            rx += x
    except (socket.timeout, TimeoutError):
        end = "open"
    except OSError:
        end = "reset"
    c.close()
    return rx, end


def parallel(n, jobs, work, enough=lambda: False):
    """work(k, job) for every job, n threads (thread k); no more jobs are begun once there is enough"""
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    errs = []

    def loop(k):
        while not enough():
            try:
                j = q.get_nowait()
            except queue.Empty:
                return
            try:
                work(k, j)
            except BaseException as e:  # noqa
                errs.append(e)
                return

    ts = [threading.Thread(target=loop, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0] if isinstance(errs[0], (ToolError, Violation)) else ToolError("driver: %r" % errs[0])


# ------------------------------------------------------------------------------ C12
BESIDE = {  # headers a browser or a proxy sends beside the three that decide
    "Sec-WebSocket-Version": ["13", "8", "0", "x", "13, 8"], "Sec-WebSocket-Protocol": ["chat", "chat, superchat"], "Sec-WebSocket-Extensions": ["permessage-deflate; client_max_window_bits"],
    "Sec-WebSocket-Accept": ["x", "s3pPLMBiTxaQ9kYGzzhZRbK+xOo="], "Origin": ["http://h", "null", "http://evil.example"], "Cookie": ["a=b; c=d"], "Content-Length": ["0"], "Accept": ["*/*", "text/html"],
    "Content-Type": ["text/plain"], "Proxy-Connection": ["close", "Upgrade"], "Pragma": ["no-cache"], "HTTP2-Settings": ["AAMAAABkAAQ"], "Keep-Alive": ["timeout=5"], "Expect": ["100-continue"],
    "X-Forwarded-Proto": ["https"], "Sec-Fetch-Mode": ["websocket", "navigate"], "TE": ["trailers"], "Authorization": ["Basic eDp5"]}


def c12(ck):
    cases = generate(ck, "Gen_Upgrade")
    cases.sort(key=lambda c: c["head"])
    n = {}
    for c in cases:
        n[c["want"]] = n.get(c["want"], 0) + 1
    ck.part("generated:Gen_Upgrade", cases=len(cases), classes=n)
    if not n.get("yes") or not n.get("no"):
        raise ToolError("generator")
    rng = ck.rng
    wires = [c["head"] for c in cases]
    for _ in range(4000 if THOROUGH else 500):
        hs = []
        if rng.random() < 0.93:
            hs.append("%s: %s" % (rnd_case(rng, "upgrade"), rnd_case(rng, "websocket")))
        if rng.random() < 0.93:
            toks = [rng.choice(["keep-alive", "x", "te", "foo bar", "upgrad", "upgrade2"]) for _ in range(rng.choice([0, 0, 1, 2, 3, 5, 20]))] + ([rnd_case(rng, "upgrade")] if rng.random() < 0.9 else [])
            rng.shuffle(toks)
            hs.append("%s: %s" % (rnd_case(rng, "connection"), rng.choice([",", ", ", " ,", " , ", ",\t", "\t,\t", ",   "]).join(toks)))
        if rng.random() < 0.93:
            k = "".join(rng.choice("ABCDefgh0189+/=") for _ in range(rng.choice([1, 8, 16, 22, 24, 24, 24, 27, 28, 29, 40, 90, 91, 92, 93, 120])))
            hs.append("%s: %s" % (rnd_case(rng, "sec-websocket-key"), k))
        for _ in range(rng.choice([0, 1, 5])):
            hs.append("Z-%s: %s" % (rnd_name(rng), rng.choice(["Upgrade", "websocket", "13", rnd_value(rng)])))
        for k in rng.sample(sorted(BESIDE), rng.choice([0, 0, 1, 2, 4])):
            hs.append("%s: %s" % (rnd_case(rng, k), rng.choice(BESIDE[k])))
        rng.shuffle(hs)
        wires.append("%s /c HTTP/1.1\r\nHost: h\r\n%s" % (rng.choice(["GET", "GET", "GET", "PUT"]), "".join(h + "\r\n" for h in hs)))
    box = Box(ck, build("box", "verifbox"), args_of=server_cfgs, nports=3)
    ck.children.append(box)
    ss = [None] * len(wires)
    hows = [rng.choice(["whole", "whole", "rand"]) for _ in wires]
    seeds = [rng.random() for _ in wires]

    def work(k, i):
        r = random.Random(seeds[i])
        w = wires[i] + "x-do: upgrade\r\nx-match: 0\r\nx-id: %d\r\n\r\n" % i
        runs = []
        modes = [0, 1, 2] if THOROUGH else [r.randrange(3)]
        for j, m in enumerate(modes):
            before = 0 if j == 0 else len([e for e in box.log.snapshot() if e["id"] == str(i) and e["ev"] != "match"])
            rx, end = exchange(box.ports[m], w, r, hows[i])
            log = [e["ev"] for e in box.log.snapshot() if e["id"] == str(i) and e["ev"] != "match"][before:]
            runs.append(dict(mode=MODES[m], log=log, rx=lat(rx), end=end))
            if end in ("open", "refused"):
                bad.append(i)
        ss[i] = dict(wire=w, runs=runs)

    bad = []
    parallel(8, range(len(wires)), work, lambda: len(bad) > 5)
    ss = [s for s in ss if s]
    ck.cov["evaluations"] = sum(len(s["runs"]) for s in ss)
    for s in ss[:: len(ss) // 4]:
        ck.sample(s)
    validate(ck, "Trace_Upgrade", ss, describe=lambda s, ev, l: "%r: %s" % (s["wire"], json.dumps(ev)[:900]))


# ------------------------------------------------------------------------------ servers under test
class Servers:
    """One Box with many servers; every event logged by matchers and handlers goes to the session that
    made the connection (by the id it carries)."""

    def __init__(self, ck, specs, name="box"):
        """specs: [(mode, routes)]"""
        self.specs = specs

        def args(ports):
            return [json.dumps(dict(mode=m, port=p, state="S%d" % p, routes=r, func=r[0][1] if r else 0)) for (m, r), p in zip(specs, ports)]
        self.box = Box(ck, build("box", "verifbox"), args_of=args, nports=len(specs), name=name)
        ck.children.append(self.box)
        self.lock, self.sessions, self.stray = threading.Lock(), {}, []
        self.box.log.sink = self.logged
        self.n = self.nbad = 0

    def enough(self):
        """so much did not come that it is pointless to wait for more"""
        return self.nbad > 5

    def new_id(self):
        with self.lock:
            self.n += 1
            return "c%d" % self.n

    def logged(self, e):
        h = self.sessions.get(e.get("id"))
        if e["ev"] not in ("match", "handler"):
            return
        r = dict(e=e["ev"], i=e["i"])
        if e["ev"] == "handler":
            r["state"] = e["state"]
        if h is None:
            with self.lock:
                self.stray.append(e)
        else:
            h[0].add(c=h[1], **r)


class Hist:
    """A session for Trace_Serving."""

    def __init__(self, srv, k):
        self.srv, self.port = srv, srv.box.ports[k]
        self.mode, self.routes = srv.specs[k]
        self.lock, self.conns, self.runs, self.ended = threading.Lock(), [], [], set()

    def conn(self, id, wire, sizes, acc=(), boom=()):
        self.conns.append(dict(wire=wire, pieces=sizes, acc=sorted(acc), boom=sorted(boom)))
        self.srv.sessions[id] = (self, len(self.conns))
        return len(self.conns)

    def add(self, e, c, **kw):
        r = dict(e=e, c=c, i=-1, state="", rx="", end="", id="", told=False, quiet=False, status=0, body="", echo=EMPTY)
        r.update(kw)
        with self.lock:
            if c in self.ended and e in ("match", "handler"):
                r["e"] = "late " + e
            if e == "got":
                self.ended.add(c)
            if e == "silent":
                self.srv.nbad += 1
            self.runs.append(r)

    def json(self):
        with self.lock:
            # the server of for_each has a single function; a router's routes as they were added
            return dict(mode="foreach" if self.mode == "foreach" else "router", kind=self.mode, routes=self.routes or [],
                        state="S%d" % self.port, conns=self.conns, runs=list(self.runs))


EMPTY = dict(handler=-1, state="", method="", url="", path="", query="", headers=[], body="")


def echo_of(v):
    """the request as the handler saw it"""
    try:
        return dict(handler=v["handler"], state=v["state"], method=v["method"], url=v["url"], path=v["path"], query=v["query"],
                    headers=[[hexs(k), hexs(x)] for k, x in v["headers"]], body=hexs(v.get("body", "")) if not v.get("body", "").startswith("err:") else v["body"])
    except (KeyError, ValueError, TypeError, AttributeError):
        return EMPTY


def echo_in(rx):
    try:
        return echo_of(json.loads(rx.split(b"\r\n\r\n", 1)[1]))
    except (ValueError, IndexError, TypeError):
        return EMPTY


def one_shot(h, id, wire, sizes, rng, acc=(), boom=(), fin=False, quiet=False, vanish=None, timeout=None):
    """One connection: sends, possibly ends its direction, reads to the end."""
    c = h.conn(id, wire, sizes, acc, boom)
    h.add("connect", c)
    try:
        s = connect(h.port, timeout)
    except Misbehaved as e:
        h.add("silent", c, body=str(e))
        return
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    try:
        for p in pieces(unlat(wire), sizes):
            h.add("send", c)
            s.sendall(p)
            if rng.random() < 0.1:
                time.sleep(0.0005)
        if vanish:
            h.add("vanish", c)
            if vanish == "rst":
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            s.close()
            return
        if fin:
            h.add("fin", c)
            s.shutdown(socket.SHUT_WR)
    except OSError:
        pass
    rx, end = b"", "eof"
    try:
        while True:
            x = s.recv(65536)
            if not x:
                break
            rx += x
    except (socket.timeout, TimeoutError):
        h.add("silent", c, rx=lat(rx))
        s.close()
        return
    except OSError:
        end = "reset"
    s.close()
    h.add("got", c, rx=lat(rx), end=end, id=id, quiet=quiet, echo=echo_in(rx))


def head_cut(rng, wire, how):
    """Segmentation in which everything after the head's last piece comes with it: a refusal then cannot
    be lost to a reset caused by bytes that nobody reads."""
    b = unlat(wire)
    i = b.find(b"\r\n\r\n")
    if i < 0 or how == "whole":
        return cut(rng, len(b), how)
    out = cut(rng, i + 3, how)
    return out + [len(b) - i - 3]


def with_id(wire, id, more=""):
    """adds the id (and more lines) behind the first line"""
    i = wire.find("\r\n")
    return wire if i < 0 else wire[:i + 2] + "x-id: %s\r\n%s" % (id, more) + wire[i + 2:]


def finish_serving(ck, srv, hists, label, cfg=None):
    ss = [h.json() for h in hists if h is not None and h.conns]
    for e in srv.stray:
        # a call nobody can account for: no event of the specification
        if ss:
            ss[-1]["runs"].append(dict(ss[-1]["runs"][-1], e="stray", c=0, id=json.dumps(e)))
    srv.stray = []
    ck.cov["evaluations"] = ck.cov.get("evaluations", 0) + sum(len(s["conns"]) for s in ss)
    for s in ss[:: max(1, len(ss) // 3)]:
        ck.sample(dict(mode=s["kind"], routes=s["routes"], conns=[dict(c, wire=c["wire"][:120]) for c in s["conns"][:3]],
                       runs=[{k: v for k, v in e.items() if k in ("e", "c", "i")} for e in s["runs"][:12]]))
    validate(ck, "Trace_Serving", ss, describe=describe_serving)


def describe_serving(s, ev, l):
    if ev is None:
        return "history of %s server with routes %r" % (s["kind"], s["routes"])
    c = s["conns"][ev["c"] - 1] if 0 < ev["c"] <= len(s["conns"]) else {}
    return "%s server, routes %r, connection %d %r: event %d %s" % (
        s["kind"], s["routes"], ev["c"], c.get("wire", "")[:300], l, json.dumps({k: v for k, v in ev.items() if v not in ("", -1, False, 0)})[:900])


# ------------------------------------------------------------------------------ C04
PLAIN_ROUTES = [[0, 0], [1, 1], [2, 2]]


def c04(ck):
    rng = ck.rng
    cases = gen(ck, "request", 0)
    bad = [c for c in cases if c["class"] in ("bad", "cut")]
    free = [c for c in cases if c["class"] == "free"]
    ok = [c for c in cases if c["class"] == "ok"]
    for x in (bad, free, ok):
        rng.shuffle(x)
    wires = [c["wire"] for c in bad] + [c["wire"] for c in (free + ok if THOROUGH else free[:150] + ok[:60])]
    # other ways to be malformed
    for _ in range(8000 if THOROUGH else 900):
        w = rnd_request(rng, 10)
        k = rng.random()
        if k < 0.35:
            w = rnd_mutant(rng, w)
        elif k < 0.5:                                    # no host
            w = "\r\n".join(x for x in w.split("\r\n") if not x.lower().startswith("host:"))
        elif k < 0.65:                                   # too many lines
            w = with_id(w, "0", "".join("H%s: v\r\n" % rng.choice([str(j), "a"]) for j in range(rng.choice([18, 19, 20, 21, 31, 32, 33, 63, 64, 65, 100]))))
        elif k < 0.8:                                    # not UTF-8
            v = rng.choice(["\xff", "a\xc3", "\xe2\x82", "\xc0\xaf", "\xed\xa0\x80", "\xf5\x80\x80\x80", "ok\xfe ok", "\xf0\x9f\x98"])
            w = with_id(w, "0", "%s: %s%s%s\r\n" % (rng.choice(["X", "Cookie", "A-b", "Content-Type", "x-match"]), rnd_value(rng), v, rnd_value(rng)))
        else:                                            # cut
            i = w.find("\r\n\r\n")
            w = w[:rng.randrange(i + 4)]
        wires.append(w)
    wires = [w for w in wires if len(w) < 8000]
    # the parser itself
    box = box_for(ck)
    plans = []
    for w in wires[: None if THOROUGH else 1200]:
        plans.append(("request", w, [plan_run(rng, w, "whole", "eof", "none"), plan_run(rng, w, "rand", rng.choice(["eof", "reset"]), "none")]))
    validate_plans(ck, box, plans)
    # running servers
    srv = Servers(ck, [(m, PLAIN_ROUTES) for m in MODES], name="servers")
    surely = {c["wire"] for c in bad}
    jobs = [(w, m, rng.random()) for w in wires for m in (range(3) if THOROUGH else [rng.randrange(3)])]
    hists = [None] * len(jobs)

    def work(_, j):
        w, m, seed = jobs[j]
        r = random.Random(seed)
        id, known = srv.new_id(), w
        if w not in surely or r.random() < 0.7:
            w = with_id(w, id, "x-match: 1,2\r\n" if r.random() < 0.5 and w.count("\r\n") < 18 else "")
        b = unlat(w)
        h = hists[j] = Hist(srv, m)
        whole = b.find(b"\r\n\r\n") >= 0
        acc = (1, 2) if "x-match: 1,2\r\n" in w else ()
        vanish = r.choice(["fin", "rst"]) if r.random() < 0.05 else None
        one_shot(h, id, w, head_cut(r, w, r.choice(["whole", "whole", "rand"])), r, acc=acc, fin=not whole or known not in surely or r.random() < 0.4, vanish=vanish)

    parallel(8, range(len(jobs)), work, srv.enough)
    time.sleep(0.2)
    finish_serving(ck, srv, hists, "C04")


def box_for(ck):
    b = Box(ck, build("box", "verifbox"))
    ck.children.append(b)
    return b


# ------------------------------------------------------------------------------ C05
def routers(ck):
    """Every router of up to four routes, up to renaming of matchers and handlers."""
    def rgs(n):
        out = [[]]
        for _ in range(n):
            out = [s + [k] for s in out for k in range(max(s, default=-1) + 2)]
        return out
    rs = [[]]
    for n in range(1, 5 if THOROUGH else 4):
        rs += [list(zip(a, b)) for a in rgs(n) for b in rgs(n)]
    return rs


def c05(ck):
    model_check(ck, "MC_HttpServer", "MC_HttpServer_deep" if THOROUGH else None, timeout=850 if not THOROUGH else 3000, workers=4)
    rng = ck.rng
    specs = []
    for r in routers(ck):
        pm, ph = rng.sample(range(8), 8), rng.sample(range(8), 8)
        specs.append((rng.choice(["router", "run"]), [[pm[a], ph[b]] for a, b in r]))
    for _ in range(60 if THOROUGH else 14):
        n = rng.choice([4, 5, 8, 8, 12])
        specs.append((rng.choice(["router", "run"]), [[rng.randrange(8), rng.randrange(8)] for _ in range(n)]))
    # many routes, and only the last ones are of another kind
    for n in ((9, 16, 17, 20, 33, 65, 100, 129, 257) if THOROUGH else (9, 17, 33, 65)):
        m = rng.sample(range(8), 8)
        specs.append((rng.choice(["router", "run"]), [[rng.choice(m[:4]), rng.randrange(8)] for _ in range(n - 2)] + [[m[4], rng.randrange(8)], [m[5], rng.randrange(8)]]))
    for i in range(8 if THOROUGH else 4):
        specs.append(("foreach", [[0, rng.randrange(8)]]))
    srv = Servers(ck, specs, name="servers")
    jobs = []
    for k, (mode, routes) in enumerate(specs):
        ms = sorted({m for m, _ in routes})
        if len(ms) <= 4:
            sets = [[m for i, m in enumerate(ms) if s >> i & 1] for s in range(1 << len(ms))]
        else:
            sets = [rng.sample(ms, rng.randrange(1, len(ms))) for _ in range(12)] + [[m] for m in ms]
        for acc in sets:
            rest = [m for m in ms if m not in acc]
            boom = [rng.choice(rest)] if rest and rng.random() < 0.2 else []
            jobs.append((k, acc, boom, rng.random()))
    hists = [None] * len(jobs)

    def work(_, j):
        k, acc, boom, seed = jobs[j]
        r = random.Random(seed)
        h = hists[j] = Hist(srv, k)
        for _ in range(r.choice([1, 1, 2]) if len(h.routes) > 2 else 5):
            id = srv.new_id()
            others = [m for m in range(8) if m not in acc and r.random() < 0.2 and m not in [x for x, _ in h.routes]]
            star = bool(acc) and not boom and set(acc) == {m for m, _ in h.routes} and r.random() < 0.3
            xs = ["*"] if star else [str(m) for m in list(acc) + others] + ["!%d" % m for m in boom]
            r.shuffle(xs)
            do = r.choice([None] * 6 + ["panic", "drop"])
            n = r.choice([0, 0, 1, 5, 200, 3000])
            body = body_text_(r, n)
            hs = ["x-id: %s" % id, "x-match: %s" % ",".join(xs), rnd_case(r, "host") + ": h", "%s: %d" % (rnd_case(r, "content-length"), n)]
            hs += ["x-do: " + do] if do else []
            hs += ["Q%d%s: %s" % (i, rnd_name(r), rnd_value(r)) for i in range(r.choice([0, 1, 4, 12]))]
            r.shuffle(hs)
            w = "%s /%s HTTP/1.1\r\n%s\r\n%s" % (r.choice(["GET", "POST", "HEAD", "PUT", "DELETE", "x"]), "".join(r.choice("ab/c%41?&=") for _ in range(r.choice([0, 3, 9]))),
                                                "".join(x + "\r\n" for x in hs), body)
            one_shot(h, id, w, cut(r, len(unlat(w)), r.choice(["whole", "whole", "rand"])), r, acc=list(acc) + others, boom=boom, quiet=do is not None)

    parallel(8, range(len(jobs)), work, srv.enough)
    time.sleep(0.2)
    finish_serving(ck, srv, hists, "C05")


def body_text_(rng, n):
    return "".join(chr(rng.randrange(256)) for _ in range(n))


# ------------------------------------------------------------------------------ C07
GEN_ROUTES = {"foreach": [[0, 0]]}


class Conn:
    """One connection of a replayed history."""

    def __init__(self, h, srv, plan, act, rng, badwires):
        self.h, self.plan, self.act, self.rng = h, plan, act, rng
        self.id, self.ctl, self.cli, self.over, self.gone = srv.new_id(), None, None, False, False
        kind = plan["kind"]
        if kind == "ok":
            self.ctl = Ctl() if act != "answer" or rng.random() < 0.6 else None
            nb = plan["pieces"] - plan["head"]
            body = body_text_(rng, rng.choice([nb, nb + 3, 50, 2000])) if nb else ""
            hs = ["Host: h", "x-id: " + self.id, "x-match: " + ",".join([str(m) for m in plan["acc"]] + ["!%d" % m for m in plan["boom"]])]
            hs += ["Content-Length: %d" % len(body)]
            hs += ["x-ctl: " + self.ctl.addr] if self.ctl else []
            hs += ["X-Own: %s" % body_hex(rng)]
            rng.shuffle(hs)
            head = "%s /%s?%s HTTP/1.1\r\n%s\r\n" % (rng.choice(["GET", "POST", "PUT"]), self.id, body_hex(rng), "".join(x + "\r\n" for x in hs))
            self.wire = head + body
            self.sizes = parts(rng, len(head), plan["head"]) + (parts(rng, len(body), nb) if nb else [])
        elif kind == "bad":
            self.wire = rng.choice(badwires)
            i = self.wire.find("\r\n\r\n") + 3
            self.sizes = parts(rng, i, plan["head"])
            self.sizes[-1] += len(self.wire) - i
        else:
            self.wire = ("GET /%s HTTP/1.1\r\nHost: h\r\nx-id: %s\r\nA: b" % (self.id, self.id))[: rng.choice([3, 20, 60])] if plan["pieces"] else ""
            self.sizes = parts(rng, len(self.wire), plan["pieces"]) if plan["pieces"] else []
        if plan["pieces"] and kind == "cut":
            self.sizes = [x for x in self.sizes if x]
        self.c = h.conn(self.id, self.wire, self.sizes, plan["acc"], plan["boom"])
        self.left = pieces(unlat(self.wire), self.sizes)

    def connect(self):
        self.h.add("connect", self.c)
        try:
            self.cli = Client(self.h.port)
        except Misbehaved:
            self.silent()

    def send(self):
        if self.left and not self.over:
            self.h.add("send", self.c)
            self.cli.send(self.left.pop(0))

    def fin(self):
        self.h.add("fin", self.c)
        try:
            self.cli.s.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def vanish(self):
        self.h.add("vanish", self.c)
        self.gone = True
        how = self.rng.choice(["close", "rst"])
        if how == "rst":
            self.cli.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        force_close(self.cli, how)

    def run(self):
        """the handler does what it is to do"""
        if self.ctl is None:
            self.rest()
            return self.end()
        if self.over:
            return
        try:
            self.ctl.c, self.ctl.f, hello = self.ctl.accept(0.3 if self.gone else 20)
        except (OSError, ValueError):
            if not self.gone:
                self.silent()
            return
        self.h.add("hello", self.c, echo=echo_of(hello))
        told, quiet, status, body = False, True, 0, ""
        if self.act in ("answer", "hold"):
            # (an answer sent before the body was read could be lost to a reset)
            if not self.gone:
                self.rest()
                rep = self.ctl.ask(dict(c="body"))
                self.h.add("body", self.c, body=hexs(rep.get("body", "")) if rep.get("r") == "ok" else json.dumps(rep))
            status, body = self.rng.choice([200, 201, 404, 500]), self.id + body_hex(self.rng) * self.rng.choice([1, 20, 2000])
            rep = self.ctl.ask(dict(c="respond", calls=[
                dict(c="status", code=status, reason=b"R".hex()), dict(c="header", k=b"Content-Length".hex(), v=str(len(body)).encode().hex()),
                dict(c="body", body=dict(kind="string", data=body.encode().hex()))]))
            if rep.get("r") != "ok" and not self.gone:
                self.h.add("respond failed", self.c, body=json.dumps(rep))
            told, quiet = True, False
            self.ctl.ask(dict(c="return"), 2)
        elif self.act == "crash":
            self.ctl.ask(dict(c="panic"), 2)
        else:
            self.ctl.ask(dict(c=self.rng.choice(["return"])), 2)
        self.end(told=told, quiet=quiet, status=status, body=body)

    def end(self, **kw):
        """the connection is over now"""
        if self.over or self.gone or self.cli is None:
            return
        self.cli.wait(lambda c: False, 20)
        with self.cli.cv:
            rx, end = bytes(self.cli.buf), self.cli.end
        if end is None:
            return self.silent()
        self.over = True
        kw.setdefault("quiet", False)
        self.h.add("got", self.c, rx=lat(rx), end=end, id=self.id, echo=echo_in(rx), **kw)

    def rest(self):
        """the rest of the request"""
        if not self.gone and not any(e["e"] == "fin" and e["c"] == self.c for e in self.h.runs):
            while self.left:
                self.send()

    def silent(self):
        self.over = True
        self.h.add("silent", self.c)

    def close(self):
        try:
            self.cli and self.cli.s.close()
        except OSError:
            pass
        self.ctl and self.ctl.close()


def body_hex(rng):
    return "".join(rng.choice("0123456789abcdef") for _ in range(12))


def parts(rng, n, k):
    """n bytes in k pieces, none empty if that can be"""
    if k <= 1:
        return [n]
    if n < k:
        return [1] * (n - 1) + [n - max(0, n - 1)] if n else [0]
    pts = sorted(rng.sample(range(1, n), k - 1))
    return [b - a for a, b in zip([0] + pts, pts + [n])]


def replay_serving(srv, k, b, rng, badwires):
    h = Hist(srv, k)
    cs = {}
    try:
        for step, c in b["hist"]:
            if step == "connect":
                cs[c] = Conn(h, srv, b["plan"][c - 1], b["act"][c - 1], rng, badwires)
            x = cs[c]
            if h.runs and h.runs[-1]["e"] == "silent":
                break
            getattr(x, step)()
        # what is still open is completed or ended by its client; handlers that were holding answer last
        rest = [x for x in cs.values() if not x.over and not x.gone]
        rng.shuffle(rest)
        rest.sort(key=lambda x: x.act == "hold")
        for x in rest:
            if h.runs and h.runs[-1]["e"] == "silent":
                break
            finned = any(e["e"] == "fin" and e["c"] == x.c for e in h.runs)
            if not finned and x.plan["kind"] != "cut" and (x.left and rng.random() < 0.6 or len(x.plan["acc"]) and not x.left):
                while x.left:
                    x.send()
            sent = len(x.sizes) - len(x.left)
            if x.plan["kind"] == "ok" and sent >= x.plan["head"]:
                while x.left and not finned:
                    x.send()
                accepted = h.mode == "foreach" or any(m in x.plan["acc"] for m, _ in h.routes)
                boom = h.mode != "foreach" and any(m in x.plan["boom"] and not any(a in x.plan["acc"] for a, _ in h.routes[:i]) for i, (m, _) in enumerate(h.routes))
                if accepted and not boom:
                    if x.left and not x.ctl:
                        pass
                    x.run()
                else:
                    x.end()
            else:
                if not finned and not (x.plan["kind"] == "bad" and sent >= x.plan["head"]):
                    x.fin()
                x.end()
    except (OSError, ValueError, AttributeError, KeyError) as e:
        # the driver was thrown off by something the specification has no place for
        h.add("lost", 1, body=repr(e))
    finally:
        for x in cs.values():
            x.close()
    return h


def crowd(srv, k, n, rng, badwires):
    """many connections at once: some are held by their handler, some never finish their request, some
    crash; then all are ended"""
    h = Hist(srv, k)
    cs = []
    ok = dict(kind="ok", head=1, pieces=1, acc=[0, 1, 2], boom=[])
    try:
        for i in range(n):
            r = rng.random()
            plan, act = ok, rng.choice(["hold", "hold", "answer", "crash"])
            if r < 0.2:
                plan = dict(kind="cut", head=99, pieces=1, acc=[], boom=[])
            elif r < 0.3:
                plan = dict(kind="bad", head=1, pieces=1, acc=[], boom=[])
            x = Conn(h, srv, plan, act, rng, badwires)
            cs.append(x)
            x.connect()
            x.send()
            if plan["kind"] == "ok" and act != "hold":
                x.run()
            elif plan["kind"] == "bad":
                x.end()
            if h.runs[-1]["e"] == "silent":
                return h
        for x in rng.sample(cs, len(cs)):
            if not x.over:
                if x.plan["kind"] == "cut":
                    rng.choice([x.fin, x.vanish])()
                    x.end()
                else:
                    x.run()
            if h.runs[-1]["e"] == "silent":
                return h
    finally:
        for x in cs:
            x.close()
    return h


def c07(ck):
    rng = ck.rng
    mc = threading.Thread(target=lambda: errs.append(safely(lambda: model_check(ck, "MC_HttpServer", "MC_HttpServer_deep" if THOROUGH else None, timeout=3000, workers=4 if THOROUGH else 2))))
    errs = []
    mc.start()
    bs = behaviours(ck, "Gen_HttpServer", workers=1, args=["-simulate", "num=%d" % (4000 if THOROUGH else 350), "-depth", "95"])
    ck.part("generated:Gen_HttpServer", histories=len(bs), steps=sum(len(b["hist"]) for b in bs))
    cases = gen(ck, "request", 0)
    badwires = sorted(c["wire"] for c in cases if c["class"] == "bad" and len(c["wire"]) < 2000 and c["wire"].find("\r\n\r\n") > 3)
    routes = [[[0, 0]], [[0, 0], [1, 1], [2, 2]], [[1, 0], [0, 1], [1, 2]]]
    specs = [("foreach", routes[0])] + [(m, r) for r in routes[1:] for m in ("router", "run")]
    srv = Servers(ck, specs, name="servers")
    jobs = []
    for b in bs:
        if not b["hist"]:
            continue
        r = b["srv"]["routes"]
        k = rng.choice([i for i, (m, x) in enumerate(specs) if x == r and (m == "foreach") == (b["srv"]["mode"] == "foreach")])
        jobs.append((k, b, rng.random()))
    hists = [None] * len(jobs)

    def work(_, j):
        k, b, seed = jobs[j]
        hists[j] = replay_serving(srv, k, b, random.Random(seed), badwires)

    parallel(8, range(len(jobs)), work, srv.enough)
    time.sleep(0.1)
    finish_serving(ck, srv, hists, "C07")
    if srv.enough():
        return
    big = [crowd(srv, k, 700 if THOROUGH else 150, rng, badwires) for k in range(3)]
    # after all that every server still serves
    last = []
    for k in range(len(specs)):
        h = Hist(srv, k)
        for _ in range(3):
            id = srv.new_id()
            w = "GET /%s HTTP/1.1\r\nHost: h\r\nx-id: %s\r\nx-match: 0\r\nContent-Length: 0\r\n\r\n" % (id, id)
            one_shot(h, id, w, [len(w)], rng, acc=[0])
        last.append(h)
    finish_serving(ck, srv, last, "C07 last")
    finish_serving(ck, srv, big, "C07 crowd")
    mc.join()
    if errs and errs[0]:
        raise errs[0]


def safely(f):
    try:
        f()
    except BaseException as e:  # noqa
        return e
