"""C30: what a server holds while it serves, and what of that it keeps."""
import json, os, random, socket, struct, threading, time
from .core import *
from .served import parallel, head_cut
from .ws import Ctl, Client, Misbehaved, client_frame, connect, force_close, handshake, upgrade_request, WSH
from . import live as lv

SPARE, SPARE_MEMORY = 3, 64     # (as in Trace_Holdings; only to know how long to wait)
ROLES = dict(http=1, ws=1, live=3)


class Server:
    """A running server: the connections which are open, and what it holds."""

    def __init__(self, id, box, routes=()):
        self.id, self.box, self.lock = id, box, threading.Lock()
        self.runs, self.open, self.n, self.base, self.bad = [], {}, 0, None, 0

    def note(self, **e):
        with self.lock:
            r = dict(e="", c=0, kind="", sockets=0, processes=0, files=0, memory=0, ok=True, what="")
            r.update(e)
            self.runs.append(r)

    def begin(self, kind, what, sockets=0, processes=0):
        with self.lock:
            self.n += 1
            c = self.n
            self.open[c] = (kind, sockets, processes)
        self.note(e="open", c=c, kind=kind, sockets=sockets, processes=processes, what=what)
        return c

    def end(self, c):
        with self.lock:
            del self.open[c]
        self.note(e="end", c=c)

    def served(self, c, ok, what=""):
        if not ok:
            self.bad += 1
        self.note(e="served", c=c, ok=bool(ok), what=what)

    def look(self):
        pid = self.box.p.pid
        s = f = 0
        try:
            for x in os.listdir("/proc/%d/fd" % pid):
                try:
                    if os.readlink("/proc/%d/fd/%s" % (pid, x)).startswith("socket:"):
                        s += 1
                    else:
                        f += 1
                except OSError:
                    pass
            pages = int(open("/proc/%d/statm" % pid).read().split()[1])
        except OSError:
            raise ToolError("the server is gone")
        return dict(sockets=s, files=f, memory=pages * os.sysconf("SC_PAGE_SIZE") >> 20)

    def calm(self):
        """Measures once what has ended is gone, or does not go."""
        t0, h = time.time(), self.look()
        if self.base is None:
            while time.time() - t0 < 1:     # nothing has happened yet
                time.sleep(0.1)
                h = self.look()
            self.base = h
        else:
            with self.lock:
                os_ = list(self.open.values())
            most = dict(sockets=self.base["sockets"] + sum(1 + o[1] for o in os_) + SPARE, files=self.base["files"] + sum(ROLES[o[0]] + o[2] for o in os_) + SPARE,
                        memory=self.base["memory"] + 4 * len(os_) + SPARE_MEMORY)
            # (what is about to end has a moment for it, so that little is left to Spare)
            while any(h[k] > most[k] - SPARE for k in ("sockets", "files")) and time.time() - t0 < 0.5:
                time.sleep(0.02)
                h = self.look()
            while any(h[k] > most[k] for k in most) and time.time() - t0 < patience(6):
                time.sleep(0.05)
                h = self.look()
            if any(h[k] > most[k] for k in most):
                self.bad += 1
        self.note(e="held", **h)
        return h

    def trace(self):
        return dict(id=self.id, runs=list(self.runs))


def all_of(s, timeout=None):
    s.settimeout(timeout or patience())
    b = b""
    try:
        while True:
            x = s.recv(65536)
            if not x:
                return b
            b += x
    except (socket.timeout, TimeoutError):
        return None
    except OSError:
        return b


def go(s, how):
    if how == "rst":
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    s.close()


HTTP = ["plain", "plain", "body", "longer", "panic", "drop", "404", "bad", "cut", "silent", "no route", "matcher panics", "closes", "refused", "vanish", "vanish body", "half", "fat"]


def http(sv, port, what, rng):
    """One request of this sort, to its end."""
    hs = {"Host": "h", "x-id": "h", "x-match": "0", "Content-Length": "0"}
    body, method, want = b"", "GET", b"HTTP/1.1 200"
    if what in ("body", "longer", "vanish body", "half"):
        body, method = bytes(rng.randrange(256) for _ in range(rng.choice([1, 100, 5000]))), "POST"
        hs["Content-Length"] = str(len(body) + (7 if what in ("vanish body", "half") else 0))
    if what == "longer":
        body += b"GET / HTTP/1.1\r\nHost: h\r\n\r\n"
    if what in ("panic", "drop", "404"):
        hs["x-do"], want = what, b"HTTP/1.1 404" if what == "404" else b""
    if what == "no route":
        hs["x-match"] = "7"
        want = None     # (for_each has no routes)
    if what == "matcher panics":
        hs["x-match"] = "!0"
        want = None
    if what in ("closes", "refused"):
        hs.update(dict(WSH))
        hs["x-do"] = "upgrade"
        want = b"HTTP/1.1 101" if what == "closes" else b"HTTP/1.1 400"
        if what == "refused":
            del hs["Sec-WebSocket-Key"]
    if what == "fat":
        hs.update({"x-%d" % i: "v" * rng.choice([1, 2000]) for i in range(12)})
    wire = ("%s /%d HTTP/1.1\r\n" % (method, rng.randrange(1000)) + "".join("%s: %s\r\n" % h for h in hs.items()) + "\r\n").encode() + body
    if what == "bad":
        wire, want = rng.choice([b"GET / HTTP/1.1\r\n\r\n", b"x\r\n\r\n", b"GET / HTTP/1.1\r\nHost h\r\n\r\n", b"\x00\xff\r\n\r\n", b"GET  / HTTP/1.1\r\nHost: h\r\n\r\n"]), b"HTTP/1.1 400"
    if what == "cut":
        wire, want = wire[:rng.randrange(1, wire.index(b"\r\n\r\n"))], b"HTTP/1.1 400"
    if what == "silent":
        wire, want = b"", None
    c = sv.begin("http", what)
    try:
        s = connect(port)
    except Misbehaved as e:
        sv.served(c, False, str(e))
        return sv.end(c)
    try:
        s.sendall(wire)
        if what.startswith("vanish"):
            if rng.random() < 0.5:
                time.sleep(0.002)
            go(s, rng.choice(["close", "rst"]))
            return
        if what in ("cut", "silent", "half"):
            s.shutdown(socket.SHUT_WR)
    except OSError:
        pass
    finally:
        if what.startswith("vanish"):
            sv.end(c)
    b = all_of(s)
    # a refusal or an answer may be lost to a reset when what was sent is not all read
    ok = b is not None and ((want is None or b.startswith(want) or what in ("bad", "longer", "half", "cut", "404", "panic", "drop") and b == b""))
    sv.served(c, ok, "%s: %r" % (what, b[:80] if b is not None else None))
    s.close()
    sv.end(c)


def echo(cl, ctl, rng, f):
    cl.send(bytes(client_frame(rng, f[0], True, f[1])))
    return ctl.ask(dict(c="next")).get("r") not in ("crash", "hang")


def socketed(sv, port, rng, steps):
    """One WebSocket; the application copies it, hands it on, crashes, or leaves it."""
    c, ctl, more, cl, ok = sv.begin("ws", "/".join(steps), sockets=1), Ctl(), [], None, True
    try:
        cl = handshake(port, ctl)
        for a in steps:
            if a == "talk":
                ok = echo(cl, ctl, rng, rng.choice([("text", [65]), ("bin", [0] * rng.choice([0, 200, 70000])), ("ping", [1, 2])])) and ok
                ok = ctl.ask(dict(c="send", t="text", data="6162")).get("r") == "ok" and ok
            elif a in ("copy", "move"):
                ctl.ask(dict(c="fork" if a == "copy" else "move"))
                more.append(ctl.accept())
            elif a in ("close", "panic", "return", "drop"):
                ctl.ask(dict(c=a))
            elif a == "read":           # the application waits for a message when the client leaves
                ctl.put(dict(c="next"))
            elif a in ("bye", "cut", "rst", "fin"):
                if a == "bye":
                    cl.send(bytes(client_frame(rng, "close", True, [])))
                elif a == "fin":
                    cl.s.shutdown(socket.SHUT_WR)
                else:
                    force_close(cl, "rst" if a == "rst" else "close")
        sv.served(c, ok, "/".join(steps))
    except (Misbehaved, OSError, ValueError) as e:
        sv.served(c, False, "%s: %r" % ("/".join(steps), e))
    # everything has been told to end now
    for x in [m[0] for m in more] + [m[1] for m in more]:
        x.close()
    ctl.close()
    if cl:
        try:
            cl.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        cl.th.join(patience())
        cl.s.close()
    sv.end(c)


def ws_steps(rng):
    s = ["talk"] * rng.choice([0, 1, 3])
    if rng.random() < 0.4:
        s += [rng.choice(["copy", "copy", "move"])]
    return s + [rng.choice(["close", "panic", "return", "drop", "read", "none"]), rng.choice(["bye", "cut", "rst", "fin", "none"])]


def lasting(sv, port, rng, rounds):
    """One WebSocket for a long time: much is sent both ways, and none of it is to stay."""
    c, ctl = sv.begin("ws", "lasting", sockets=1), Ctl()
    s = None
    try:
        s = connect(port)
        s.settimeout(patience(40))
        s.sendall(upgrade_request(list(WSH) + [("x-ctl", ctl.addr), ("x-match", "*")]))
        ctl.take()
        if ctl.ask(dict(c="upgrade")).get("r") != "ok":
            raise Misbehaved("upgrade refused")
        threading.Thread(target=drain, args=(s,), daemon=True).start()
        big = [65] * 500000
        whole = bytes(client_frame(rng, "text", True, big))
        parted = bytes(client_frame(rng, "bin", False, big[:200000]) + client_frame(rng, "ping", True, [1]) + client_frame(rng, "cont", True, big[200000:]))
        n = 0
        for i in range(rounds):
            s.sendall(parted if i % 3 else whole)
            ctl.put(dict(c="nexts", n=2 if i % 3 else 1, quiet=True))
            r = ctl.get(patience(40))
            if not r or "n" not in r:
                raise Misbehaved("round %d: %r" % (i, r))
            if ctl.ask(dict(c="sends", msgs=[dict(t="bin", segs=[[7, 500000]])])).get("rs") != ["ok"]:
                raise Misbehaved("round %d: not sent" % i)
            n += 1
        for i in range(rounds // 4):        # many small ones
            s.sendall(bytes(client_frame(rng, "ping", True, [3] * 100)) * 100)
            ctl.put(dict(c="nexts", n=100, quiet=True))
            if not ctl.get(patience(40)):
                raise Misbehaved("no pings")
        sv.served(c, True)
    except (Misbehaved, OSError) as e:
        sv.served(c, False, "lasting: %r" % e)
    return c, ctl, s


def drain(s):
    try:
        s.settimeout(None)
        while s.recv(1 << 20):
            pass
    except OSError:
        pass


def waves(ck, sv, ports, rng, n):
    """Waves of connections, with some which stay open over a measurement."""
    sv.calm()
    for w in range(n):
        jobs = [("http", what) for what in HTTP for _ in range(6 if w else 2)] + [("ws", ws_steps(rng)) for _ in range(40)]
        # some waves are all of a kind
        if w and w % 3 == 0:
            jobs = [rng.choice([("http", rng.choice(HTTP)), ("ws", ws_steps(rng))])] * 60
        rng.shuffle(jobs)
        seeds = [rng.random() for _ in jobs]
        kept = []
        for i in range(rng.choice([0, 3, 12])):      # these just stay
            c = sv.begin("http", "stays")
            try:
                s = connect(rng.choice(ports))
                s.sendall(rng.choice([b"", b"GET / HT", b"GET / HTTP/1.1\r\nHost: h\r\nx-id: h\r\n"]))
                kept.append((c, s))
            except (Misbehaved, OSError) as e:
                sv.served(c, False, "stays: %r" % e)
                sv.end(c)

        def one(k, i):
            r = random.Random(seeds[i])
            port = r.choice(ports)
            if jobs[i][0] == "http":
                http(sv, port, jobs[i][1], r)
            else:
                socketed(sv, port, r, jobs[i][1])

        parallel(12, range(len(jobs)), one, lambda: sv.bad > 3)
        sv.calm()
        for c, s in kept:
            go(s, rng.choice(["close", "rst"]))
            sv.end(c)
        if kept:
            sv.calm()
        if sv.bad:
            break


def pages(ck, sv, live, rng, n, each):
    """Pages which are shown and left; some of their components crash."""
    sv.calm()
    for w in range(n):
        seeds = [rng.random() for _ in range(each)]
        way = rng.choice(lv.WAYS) if w % 2 else None

        def one(k, i):
            r = random.Random(seeds[i])
            handles = r.choice([0, 0, 1, 2])
            script = [lv.rnd_view(r, 3) for _ in range(3)]
            if r.random() < 0.2:
                script[0] = lv.doomed(r, script[0], r.choice(["new", "render", "call"]))
            x = lv.Session(live, k, script, r, handles=handles)
            c = sv.begin("live", "page", sockets=handles, processes=handles)
            early = r.random() < 0.1
            x.open()
            if x.ok and (early or x.painted()):
                for _ in range(0 if early else r.choice([0, 1, 4])):
                    lv.play(x, r, r.choice(["fire", "junk"] + ["input%d" % h for h in range(1, handles + 1)]))
                if way is None and r.random() < 0.15:
                    x.left = True                   # as when a browser is killed
                else:
                    x.leave(way or r.choice(lv.WAYS))
                    x.gone()
            sv.served(c, x.ok, "page %s" % x.id)
            x.end()
            sv.end(c)

        parallel(len(live.browsers), range(each), one, lambda: sv.bad > 3)
        sv.calm()
        if sv.bad:
            break


def lasting_page(ck, sv, live, rng, rounds):
    """One page for a long time, with large views."""
    def big(i):
        t = chr(97 + i % 26) * 12000
        return lv.plain(dict(n="ul", a=[["class", "c%d" % i]], t=[], l=[], k=[dict(n="li", a=[["title", t]], t=[t + str(i)], l=[], k=[]) for _ in range(20)]))
    x = lv.Session(live, 0, [big(0)], rng, handles=1)
    c = sv.begin("live", "lasting", sockets=1, processes=1)
    x.open()
    if x.ok and x.painted():
        for i in range(rounds):
            x.input(1, big(i + 1))
            if i % 10 == 9 and not x.wait(lambda: x.n["changeset"] >= i - 20):
                x.failed()
            if not x.ok:
                break
        if x.ok and not x.wait(lambda: x.n["changeset"] >= rounds + 1):
            x.failed()
    sv.served(c, x.ok, "lasting page")
    sv.calm()
    x.end()
    sv.end(c)
    sv.calm()


def c30(ck):
    rng = ck.rng
    model_check(ck, "MC_Holdings", "MC_Holdings_deep" if THOROUGH else None, workers=4)
    model_refutes(ck, "MC_Holdings", "MC_Holdings_unlinked", "Everybody", workers=1)
    svs = []
    # a server of each kind, each on its own
    for k, mode in enumerate(["foreach", "router", "run"]):
        box = Box(ck, build("box", "verifbox"), args_of=lambda ports: [json.dumps(dict(mode=mode, port=ports[0], state="S", routes=[[0, 0], [1, 1]], func=0))], nports=1, name="box." + mode)
        ck.children.append(box)
        box.log.sink = lambda e: None
        sv = Server(mode, box)
        svs.append(sv)
        waves(ck, sv, box.ports, rng, 12 if THOROUGH else 3)
        if mode == "router" and not sv.bad:
            c, ctl, s = lasting(sv, box.ports[0], rng, 800 if THOROUGH else 300)
            sv.calm()
            ctl.close()
            s and s.close()
            sv.end(c)
            sv.calm()
        box.stop()
    live = lv.Live(ck)
    sv = Server("live", live.box)
    svs.append(sv)
    pages(ck, sv, live, rng, 10 if THOROUGH else 3, 60)
    if not sv.bad:
        lasting_page(ck, sv, live, rng, 2000 if THOROUGH else 500)
    ss = [sv.trace() for sv in svs]
    for sv in svs:
        helds = [e for e in sv.runs if e["e"] == "held"]
        n = {}
        for e in sv.runs:
            if e["e"] == "open":
                n[e["kind"]] = n.get(e["kind"], 0) + 1
        ck.part(sv.id, connections=n, held=[[h["sockets"], h["files"], h["memory"]] for h in helds])
        ck.sample(dict(id=sv.id, first=helds[:1], last=helds[-1:], connections=n))
    ck.cov["evaluations"] = sum(len(s["runs"]) for s in ss)
    validate(ck, "Trace_Holdings", ss, describe=lambda s, ev, l: "server %s, event %d of %d: %s; at first it held %s" % (
        s["id"], l, len(s["runs"]), json.dumps(ev), json.dumps(next((e for e in s["runs"] if e["e"] == "held"), None))))
