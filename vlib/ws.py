"""C12-C19: WebSocket upgrade, frames, messages, connections."""
import base64, errno, json, os, random, select, socket, struct, threading, time
from .core import *

OPS = dict(cont=0, text=1, bin=2, close=8, ping=9, pong=10)


def client_frame(rng, op, fin, data, rsv=(), masked=True, form=None, mask=None, code=None):
    n = len(data)
    code = OPS.get(op, rng.choice([3, 4, 5, 6, 7, 11, 12, 13, 14, 15])) if code is None else code
    b = [(0x80 if fin else 0) | sum(1 << (7 - i) for i in rsv) | code]
    if form is None:
        form = 7 if n < 126 else 16 if n < 65536 else 64
    m = 0x80 if masked else 0
    if form == 7:
        b.append(m | n)
    elif form == 16:
        b += [m | 126, *struct.pack(">H", n)]
    else:
        b += [m | 127, *struct.pack(">Q", n)]
    if masked:
        if mask is None:
            mask = rng.choice([[rng.randrange(256) for _ in range(4)]] * 3 + [[0, 0, 0, 0], [255, 255, 255, 255]])
        b += mask
        b += [x ^ mask[i % 4] for i, x in enumerate(data)]
    else:
        b += data
    return b


def split(rng, n, how):
    if n == 0:
        return []
    if how == "whole":
        return [n]
    if how == "bytes":
        return [1] * n
    out, left = [], n
    while left:
        k = min(left, rng.choice([1, 1, 2, 3, 5, 8, 40, 997, 5000]))
        out.append(k)
        left -= k
    return out


def ints(h):
    return list(bytes.fromhex(h))


def upgrade_request(headers):
    return ("GET /ws HTTP/1.1\r\nHost: h\r\n" + "".join("%s: %s\r\n" % h for h in headers) + "\r\n").encode("latin-1")


WSH = [("Upgrade", "websocket"), ("Connection", "Upgrade"), ("Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ=="), ("Sec-WebSocket-Version", "13")]


def server_cfgs(ports, routes=None):
    modes = ["foreach", "router", "run"]
    return [json.dumps(dict(mode=m, port=p, state="S%d" % p, routes=routes or [[0, 0]], func=0)) for m, p in zip(modes, ports)]


def ws_box(ck):
    b = Box(ck, build("box", "verifbox"), args_of=server_cfgs, nports=3)
    ck.children.append(b)
    return b


class Ctl:
    """The remote-controlled handler of one connection."""

    def __init__(self):
        self.l = socket.socket()
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(8)
        self.addr = "127.0.0.1:%d" % self.l.getsockname()[1]
        self.c = None

    def accept(self, timeout=None):
        self.l.settimeout(timeout or patience())
        c, _ = self.l.accept()
        c.settimeout(patience())
        f = c.makefile("rb")
        hello = json.loads(f.readline())
        return c, f, hello

    def take(self):
        self.c, self.f, self.hello = self.accept()

    def put(self, cmd):
        self.c.sendall(json.dumps(cmd).encode() + b"\n")

    def get(self, timeout=None):
        """None: no answer within the time; {'r': 'crash'}: the process is gone"""
        self.c.settimeout(timeout or patience())
        try:
            line = self.f.readline()
        except (socket.timeout, TimeoutError):
            self.f = self.c.makefile("rb")
            return None
        except OSError:
            return dict(r="crash")
        return json.loads(line) if line else dict(r="crash")

    def ready(self, timeout):
        return bool(select.select([self.c], [], [], timeout)[0])

    def ask(self, cmd, timeout=None):
        try:
            self.put(cmd)
        except OSError:
            return dict(r="crash")
        r = self.get(timeout)
        return dict(r="hang") if r is None else r

    def close(self):
        for x in (self.c, self.l):
            try:
                x and x.close()
            except OSError:
                pass


class Misbehaved(Exception):
    """The code under test did not come up with what had to come (found while driving it)."""


def connect(port, timeout=None):
    try:
        return socket.create_connection(("127.0.0.1", port), timeout=timeout or patience())
    except OSError as e:
        if e.errno in (errno.EMFILE, errno.ENFILE, errno.EADDRNOTAVAIL, errno.ENOBUFS, errno.ENOMEM):
            raise ToolError("connect: %r" % e)
        raise Misbehaved("the server takes no connection: %r" % e)


class Client:
    """The client's socket; what arrives is collected by a thread."""

    def __init__(self, port):
        self.s = connect(port)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.settimeout(None)
        self.buf, self.end, self.cv = bytearray(), None, threading.Condition()
        self.th = threading.Thread(target=self.pump, daemon=True)
        self.th.start()

    def pump(self):
        while True:
            try:
                d = self.s.recv(65536)
            except OSError:
                d = None
            with self.cv:
                if d:
                    self.buf += d
                else:
                    self.end = "eof" if d is not None else "reset"
                self.cv.notify_all()
            if not d:
                return

    def wait(self, pred, timeout):
        with self.cv:
            return self.cv.wait_for(lambda: pred(self) or self.end, timeout)

    def send(self, b):
        try:
            self.s.sendall(b)
        except OSError:
            pass


def handshake(port, ctl, extra=()):
    c = Client(port)
    c.send(upgrade_request(list(WSH) + [("x-ctl", ctl.addr), ("x-match", "*")] + list(extra)))
    try:
        ctl.take()
    except (OSError, ValueError) as e:
        raise Misbehaved("no handler was run: %r" % e)
    r = ctl.ask(dict(c="upgrade"))
    if r.get("r") != "ok":
        raise Misbehaved("upgrade refused: %r" % r)
    c.wait(lambda c: b"\r\n\r\n" in c.buf, 20)
    with c.cv:
        i = c.buf.find(b"\r\n\r\n")
        if i < 0:
            raise Misbehaved("no answer to the upgrade")
        del c.buf[:i + 4]
    return c


def item(rep):
    r = rep.get("r")
    return dict(e="next", r="closed" if r == "end" else r, t=rep.get("t", ""), data=ints(rep["data"]) if "data" in rep else [])


def play(port, steps, rng):
    """Runs one history; returns a session for Trace_WebSocket."""
    drain = rng.random() < 0.7
    ctl = Ctl()
    wire, ev = [], []
    try:
        c = handshake(port, ctl)
        waiting = False
        live = True
        copies = []

        def tx(b):
            for k in split(rng, len(b), rng.choice(["whole", "whole", "rand", "bytes" if len(b) < 40 else "rand"])):
                c.send(bytes(b[:k]))
                b = b[k:]
                if rng.random() < 0.1:
                    time.sleep(0.001)

        def join():
            nonlocal waiting
            if waiting:
                rep = ctl.get(20)
                ev.append(item(dict(r="hang") if rep is None else rep))
                waiting = False

        for i, s in enumerate(steps):
            k = s["c"]
            if k == "tx":
                b = client_frame(rng, s["op"], s["fin"], s["data"], s.get("rsv", ()), s.get("masked", True), s.get("form"), code=s.get("code"))
                ev.append(dict(e="tx", n=len(b)))
                wire += b
                tx(b)
                if waiting and i + 1 < len(steps) and s.get("wakes"):
                    join()
            elif k == "raw":
                ev.append(dict(e="tx", n=len(s["data"])))
                wire += s["data"]
                tx(s["data"])
            elif k == "over":
                b = client_frame(rng, s["op"], s["fin"], s["data"])[:s["part"]] if "op" in s else []
                if b:
                    ev.append(dict(e="tx", n=len(b)))
                    wire += b
                    tx(b)
                if s["how"].lower() == "fin":
                    ev.append(dict(e="over"))
                    end_sending(c)
                else:
                    ev.append(dict(e="gone"))
                    if s["how"] == "rst":
                        c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                        c.s.shutdown(socket.SHUT_RD) if False else None
                    live = False
                    force_close(c, s["how"])
            elif k in ("next", "wait", "peek"):
                if waiting:                # the read that was under way
                    join()
                    if k == "next":
                        continue
                ctl.put(dict(c="next"))
                if k == "peek":
                    if ctl.ready(0.01):
                        ev.append(item(ctl.get()))
                    else:
                        waiting = True
                elif k == "wait":
                    if ctl.ready(0.03):
                        ev.append(item(ctl.get()))
                    else:
                        ev.append(dict(e="blocked"))
                        waiting = True
                else:
                    rep = ctl.get(20)
                    ev.append(item(dict(r="hang") if rep is None else rep))
            elif k == "send":
                join()
                rep = ctl.ask(dict(c="send", t=s["t"], data=bytes(s["data"]).hex(), none=not s["data"] and rng.random() < 0.5))
                ev.append(dict(e="send", t=s["t"], data=s["data"], r=rep["r"]))
            elif k == "close":
                join()
                rep = ctl.ask(dict(c="close"))
                ev.append(dict(e="close", r=rep["r"]))
            elif k in ("move", "copy"):
                join()
                rep = ctl.ask(dict(c="move" if k == "move" else "fork"))
                if rep["r"] == "ok":
                    try:
                        c2 = ctl.accept()
                    except (OSError, ValueError) as e:
                        raise Misbehaved("the connection that was handed on is not heard of again: %r" % e)
                    if k == "copy":
                        # the copy takes over, the original stays where it is, unused
                        copies.append(ctl.c)
                    else:
                        ctl_old = ctl.c
                        copies.append(ctl_old)
                    ctl.c, ctl.f, ctl.hello = c2
            if ev and ev[-1].get("r") in ("crash", "hang"):
                break
        if waiting:
            # let the read end with the stream
            ev.append(dict(e="over"))
            end_sending(c)
            join()
        if live and drain and ev and ev[-1]["e"] not in ("close",) and ev[-1].get("r") not in ("crash", "hang"):
            # the client ends its direction and the application reads what is left
            if not any(e["e"] == "over" for e in ev):
                ev.append(dict(e="over"))
                end_sending(c)
            for _ in range(40):
                rep = ctl.ask(dict(c="next"))
                ev.append(item(rep))
                if rep.get("r") != "ok":
                    break
            if rng.random() < 0.5 and rep.get("r") in ("closed", "err"):
                ev.append(item(ctl.ask(dict(c="next"))))
        if live:
            # what has been sent must arrive now (closing with unread data resets the connection)
            n = owed(ev)
            c.wait(lambda c: len(c.buf) >= n, 10)
            if not n:
                c.wait(lambda c: False, 0.002)
            with c.cv:
                ev.append(dict(e="rx", data=list(c.buf), whole=True))
        for x in copies + [ctl.c]:
            try:
                x.sendall(b'{"c":"return"}\n')
            except OSError:
                pass
        if live:
            c.wait(lambda c: False, 20)
            if c.end is None:
                ev.append(dict(e="next", r="not-closed", t="", data=[]))
            with c.cv:
                ev.append(dict(e="rx", data=list(c.buf), whole=c.end == "eof"))
        for x in copies:
            x.close()
        try:
            c.s.close()
        except OSError:
            pass
    except Misbehaved as e:
        ev.append(dict(e="misbehaved", what=str(e)))
    finally:
        ctl.close()
    for e in ev:
        e.setdefault("e", "")
    return dict(kind="live", stateless=False, wire=wire, runs=ev)


def end_sending(c):
    try:
        c.s.shutdown(socket.SHUT_WR)
    except OSError:
        pass


BROKEN = ("hang", "not-closed")


def broken(s):
    """what takes long to find out; a few sessions of that kind are enough"""
    return any(e.get("e") == "misbehaved" or e.get("r") in BROKEN for e in s["runs"])


def owed(ev):
    """How many bytes the client must receive for what the application saw and did (used only to know
    how long to wait: what arrived is judged by the specification)."""
    n, closed, failed = 0, False, False
    for e in ev:
        if e["e"] == "next":
            if e["t"] == "ping":
                n += 2 + len(e["data"])
            elif e["r"] == "closed" and not closed and not failed:
                closed = True
                n += 2
            elif e["r"] == "err":
                failed = True
        elif e["e"] == "send":
            k = len(e["data"])
            n += 2 + k + (0 if k < 126 else 2 if k < 65536 else 8)
        elif e["e"] == "close" and not closed and not failed:
            n += 2
    return n


def force_close(c, how):
    """closes the client's socket although its reader thread is inside recv"""
    if how == "rst":
        c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    fd = c.s.fileno()
    try:
        if how != "rst":
            c.s.shutdown(socket.SHUT_RDWR)
        else:
            # disconnecting (AF_UNSPEC) sends the RST at once
            import ctypes
            libc = ctypes.CDLL(None)
            buf = (ctypes.c_char * 16)()
            libc.connect(fd, buf, 16)
    except OSError:
        pass
    c.s.close()


def play_all(ck, box, plans, par=16):
    """plans: list of step lists"""
    res = [None] * len(plans)
    errs = []
    seeds = [ck.rng.randrange(1 << 30) for _ in plans]
    todo = queue.Queue()
    for i in range(len(plans)):
        todo.put(i)

    bad = []

    def work():
        while not errs and len(bad) < 20:
            try:
                i = todo.get_nowait()
            except queue.Empty:
                return
            try:
                res[i] = play(box.ports[i % len(box.ports)], plans[i], random.Random(seeds[i]))
                if broken(res[i]):
                    bad.append(i)
            except Exception as e:  # noqa
                errs.append((i, e))

    ts = [threading.Thread(target=work) for _ in range(par)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise ToolError("live session %r: %r" % (plans[errs[0][0]], errs[0][1]))
    return [r for r in res if r is not None]


def describe(s, ev, l):
    def short(e):
        e = dict(e or {})
        if len(e.get("data", [])) > 40:
            e["data"] = e["data"][:40] + ["(%d bytes)" % len(e["data"])]
        return e
    return "%s session, client bytes %s%s, event %d: %s (before it: %s)" % (
        s.get("kind"), s["wire"][:80], "..." if len(s["wire"]) > 80 else "", l, json.dumps(short(ev)),
        json.dumps([short(e) for e in s["runs"][max(0, l - 6):l - 1]]))


def histories(ck, profile, n):
    env = dict(PROFILE=profile)
    out = behaviours(ck, "Gen_WebSocket", env=env, workers=1, args=["-simulate", "num=%d" % n, "-depth", "60"], label="Gen_WebSocket." + profile)
    if len(out) < n // 2:
        raise ToolError("the generator printed %d histories only" % len(out))
    return out


def live(ck, box, plans):
    ck.cov["evaluations"] = ck.cov.get("evaluations", 0) + len(plans)
    t0 = time.time()
    ss = play_all(ck, box, plans)
    ck.part("live", sessions=len(plans), wall_s=round(time.time() - t0, 1))
    for s in ss[:: max(1, len(ss) // 3)]:
        ck.sample(dict(wire=s["wire"][:60], events=[e for e in s["runs"] if len(e.get("data", [])) < 40][:12]))
    validate(ck, "Trace_WebSocket", ss, describe=describe)
    return ss


# ---------------------------------------------------------------------------------- frame streams
def frames_cmd(wire, how, end, rng, op="frames"):
    sizes = split(rng, len(wire), how) if isinstance(how, str) else how
    out, at = [], 0
    for k in sizes:
        out.append(bytes(wire[at:at + k]).hex())
        at += k
    return dict(op=op, chunks=out, end=end)


def two(n, i):
    return [x for x in (i, n - i) if x]


def frame_sessions(ck, box, plans):
    """plans: [(wire, [(how, end)])]: Frame::parse until it reports an error"""
    rng = ck.rng
    cmds, where = [], []
    ss = [dict(kind="frames", wire=w, runs=[]) for w, _ in plans]
    for i, (w, runs) in enumerate(plans):
        for how, end in runs:
            cmds.append(frames_cmd(w, how, end, rng))
            where.append((i, end))
    for (i, end), rep, cmd in zip(where, box.exec_many(cmds), cmds):
        fs = [dict(r=f["r"], fin=f.get("fin", False), op=f.get("op", ""), rsv=f.get("rsv", [0, 0, 0]), data=ints(f.get("data", "")),
                   taken=f.get("taken", 0), stalls=f.get("stalls", 0)) for f in rep.get("frames", [])]
        ss[i]["runs"].append(dict(r=rep["r"], frames=fs, end=end, data=[], cuts=[len(c) // 2 for c in cmd["chunks"]][:50]))
    ck.cov["evaluations"] = ck.cov.get("evaluations", 0) + len(cmds)
    for s in ss[:: max(1, len(ss) // 3)]:
        ck.sample(dict(wire=s["wire"][:40], run=s["runs"][0]) if len(s["wire"]) < 100 else dict(wire_bytes=len(s["wire"])))
    validate(ck, "Trace_WsFrames", ss, describe=describe)


def message_sessions(ck, box, plans):
    """plans: [(wire, how, "eof"|"reset"|"stall")]: Message::next until it reports an error"""
    rng = ck.rng
    cmds = [frames_cmd(w, how, end, rng, "messages") for w, how, end in plans]
    ss = []
    for (w, how, end), rep in zip(plans, box.exec_many(cmds)):
        ev = [dict(e="tx", n=len(w))]
        if end != "stall":
            ev.append(dict(e="over"))
        for m in rep.get("messages", [dict(r=rep["r"])]):
            ev.append(item(m))
        if end == "stall" and ev[-1].get("r") == "err":
            # the reader's artificial error stands for "waits here"; a real error would be one, too
            ev[-1] = dict(e="stalled")
        ss.append(dict(kind="messages", stateless=True, wire=w, runs=ev))
    ck.cov["evaluations"] = ck.cov.get("evaluations", 0) + len(cmds)
    for s in ss[:: max(1, len(ss) // 3)]:
        ck.sample(dict(wire=s["wire"][:60], events=[e for e in s["runs"] if len(e.get("data", [])) < 40][:12]))
    validate(ck, "Trace_WebSocket", ss, describe=describe)


def rnd_bytes(rng, n):
    return [rng.randrange(256) for _ in range(n)]


def rnd_text(rng, n):
    return list("".join(rng.choice("ab é€😀\0\n") for _ in range(n)).encode())


HEADER_LENGTHS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 63, 124, 125, 126, 127, 128, 129, 255, 256, 257, 1000, 4096]


def c13(ck):
    box = ws_box(ck)
    rng = ck.rng
    plans = []
    ends = ["eof", "stall", "reset"]
    # every first byte, several second bytes, with what follows being there or not
    for b0 in range(256):
        for n, masked, form in ((0, True, 7), (3, True, 7), (3, False, 7), (0, False, 7), (2, True, 16), (2, True, 64), (130, True, 16), (0, True, 16), (0, False, 64), (1, False, 64), (1, False, 16)):
            if n == 130 and b0 % 16 and not THOROUGH:
                continue
            w = [b0] + client_frame(rng, "bin", True, rnd_bytes(rng, n), masked=masked, form=form)[1:]
            w += client_frame(rng, rng.choice(["text", "pong"]), rng.random() < 0.5, rnd_bytes(rng, 2))
            plans.append((w, [("whole", "eof"), ("bytes", "stall"), ("rand", "reset")]))
    # every length form, every cut
    for n in HEADER_LENGTHS + [65535, 65536] + ([65537, 70000, 200000] if THOROUGH else [70000]):
        for form in (7, 16, 64):
            if form == 7 and n > 125 or form == 16 and n > 65535 or (n > 60000 and form == 16 and n != 65535):
                continue
            w = client_frame(rng, "bin", True, rnd_bytes(rng, n), form=form) + client_frame(rng, "text", True, [97])
            runs = [("whole", "eof"), ("rand", "stall")]
            if n < 300:
                runs += [(two(len(w), i), "stall") for i in range(1, min(len(w), 24))]
                runs += [("bytes", "eof")]
            plans.append((w, runs))
            for cut in sorted(set(list(range(0, min(16, len(w)))) + [len(w) - 7 - 1, len(w) - 6, len(w) - 8])):
                if 0 <= cut < len(w) and (n < 5000 or cut < 16):
                    plans.append((w[:cut], [("whole", e) for e in ends]))
    # every mask byte counts
    for mask in [[0, 0, 0, 0], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [255, 128, 127, 1], [18, 52, 86, 120]]:
        for n in range(0, 12):
            w = client_frame(rng, "bin", True, rnd_bytes(rng, n), mask=mask)
            plans.append((w, [("whole", "eof"), ("bytes", "eof")]))
    # declared lengths that no stream lives up to
    for ln in [1 << 63, (1 << 64) - 1, 1 << 32, (1 << 32) + 3, (1 << 31) - 1, 1 << 31, (1 << 31) + 5, 1 << 24, 0xFFFFFFFF, 1 << 40, 3 << 30, 1 << 30, (1 << 30) - 1]:
        for masked in (True, False):
            for b0 in (0x82, 0x02, 0x89, 0x81):
                w = [b0, (128 if masked else 0) | 127, *struct.pack(">Q", ln)] + ([1, 2, 3, 4] if masked else []) + rnd_bytes(rng, rng.choice([0, 1, 20]))
                plans.append((w, [("whole", e) for e in ends] + [("bytes", "eof")]))
    # streams of several frames
    for _ in range(6000 if THOROUGH else 500):
        w = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            n = rng.choice([0, 1, 2, 5, 20, 125, 126, 130, 300])
            form = rng.choice([None, None, 64] + ([16] if n < 65536 else []))
            w += client_frame(rng, rng.choice(list(OPS) + ["reserved"]), rng.random() < 0.6, rnd_bytes(rng, n),
                              rsv=[i for i in (1, 2, 3) if rng.random() < 0.2], masked=rng.random() < 0.95, form=form)
        if rng.random() < 0.3:
            w = w[:rng.randrange(len(w) + 1)]
        if rng.random() < 0.1:
            w = w + rnd_bytes(rng, rng.randrange(40))
        plans.append((w, [("whole", "eof"), ("rand", "stall"), ("bytes" if len(w) < 400 else "rand", "reset"), ("rand", "eof")]))
    frame_sessions(ck, box, plans)
    # and on real connections: frames packed into and split across packets
    hist = []
    for _ in range(1500 if THOROUGH else 150):
        steps = []
        for _ in range(rng.choice([1, 2, 4, 6])):
            n = rng.choice([0, 1, 5, 125, 126, 127, 300, 1500, 5000])
            steps.append(dict(c="tx", op=rng.choice(["text", "bin"]), fin=True, data=[rng.randrange(32, 127) for _ in range(n)], form=rng.choice([None, 64])))
            if rng.random() < 0.4:
                steps.append(dict(c="next"))
        hist.append(steps)
    for n in (65535, 65536, 100000, 1100000):
        hist.append([dict(c="tx", op="bin", fin=True, data=rnd_bytes(rng, n)), dict(c="next"), dict(c="tx", op="text", fin=True, data=[97]), dict(c="next")])
    live(ck, box, hist)


ALPHABET = [dict(op="text", fin=True, data=[97]), dict(op="text", fin=True, data=[195]), dict(op="text", fin=False, data=[195]),
            dict(op="bin", fin=False, data=[1, 200]), dict(op="cont", fin=False, data=[98]), dict(op="cont", fin=True, data=[169]), dict(op="cont", fin=True, data=[]),
            dict(op="ping", fin=True, data=[7]), dict(op="pong", fin=True, data=[]), dict(op="close", fin=True, data=[]), dict(op="close", fin=True, data=[3, 232]),
            dict(op="ping", fin=False, data=[]), dict(op="reserved", fin=True, data=[]), dict(op="bin", fin=True, data=[2], rsv=[1])]


def sequences(ck, n, keep=None):
    """every sequence of n frames of the alphabet, read late or step by step"""
    import itertools
    out = []
    for fs in itertools.product(ALPHABET, repeat=n):
        if keep and not any(keep(f) for f in fs):
            continue
        tx = [dict(f, c="tx") for f in fs]
        out.append(tx)                                       # read at the end (drain)
    if len(out) > 700 and not THOROUGH:
        out = ck.rng.sample(out, 700)
    return out


def message_streams(rng, n, control=False, sizes=(0, 1, 2, 5, 30, 125, 126, 200, 700)):
    """n well-formed messages, fragmented at random; returns the list of frames"""
    fs = []
    for _ in range(n):
        op = rng.choice(["text", "bin"])
        size = rng.choice(sizes)
        data = rnd_text(rng, size) if op == "text" else rnd_bytes(rng, size)
        parts = rng.choice([1, 1, 2, 3, 5])
        cuts = sorted(rng.randrange(len(data) + 1) for _ in range(parts - 1))
        at = 0
        for i, c in enumerate(cuts + [len(data)]):
            fs.append(dict(op=op if i == 0 else "cont", fin=i == len(cuts), data=data[at:c]))
            at = c
            while control and rng.random() < 0.4:
                k = rng.choice([0, 1, 4, 125])
                fs.append(dict(op=rng.choice(["ping", "ping", "pong"]), fin=True, data=rnd_bytes(rng, k)))
    return fs


def marathon(rng, n, sends=0.0, moves=0.01):
    """A long conversation about little: n messages, and pings, pongs and sends between their fragments."""
    steps, ready = [], 0
    for f in message_streams(rng, n, control=True, sizes=(0, 1, 3, 12)):
        steps.append(dict(f, c="tx"))
        ready += f["fin"]
        while ready and rng.random() < 0.7:
            steps.append(dict(c="next"))
            ready -= 1
        if rng.random() < sends:
            steps.append(dict(c="send", t=rng.choice(["text", "bin", "ping", "pong"]), data=[rng.randrange(32, 127) for _ in range(rng.choice([0, 1, 5]))]))
        if rng.random() < moves:
            steps.append(dict(c="move"))
    return steps + [dict(c="next")] * ready


def many_fragments(rng, n, control=0.1):
    op = rng.choice(["text", "bin"])
    steps, pings = [], 0
    for i in range(n):
        steps.append(dict(c="tx", op=op if i == 0 else "cont", fin=i == n - 1, data=[rng.randrange(32, 127) for _ in range(rng.choice([0, 1, 2, 9]))]))
        if i < n - 1 and rng.random() < control:
            steps.append(dict(c="tx", op=rng.choice(["ping", "pong"]), fin=True, data=[i % 128]))
            pings += 1
    return steps + [dict(c="next")] * (pings + 1)


def wire_of(rng, fs):
    return [b for f in fs for b in client_frame(rng, f["op"], f["fin"], f["data"], f.get("rsv", ()), f.get("masked", True), f.get("form"))]


def mc(ck):
    model_check(ck, "MC_WebSocket", "MC_WebSocket_big" if THOROUGH else None, heap="12g", timeout=850)


def c14(ck):
    mc(ck)
    box = ws_box(ck)
    rng = ck.rng
    plans = []
    for _ in range(4000 if THOROUGH else 400):
        w = wire_of(rng, message_streams(rng, rng.choice([1, 2, 4])))
        plans.append((w, rng.choice(["whole", "rand", "bytes" if len(w) < 400 else "rand"]), rng.choice(["eof", "stall", "reset"])))
    message_sessions(ck, box, plans)
    hist = histories(ck, "good", 3000 if THOROUGH else 350) + sequences(ck, 2)
    for _ in range(1500 if THOROUGH else 200):
        steps = []
        for f in message_streams(rng, rng.choice([1, 2, 4]), control=True):
            steps.append(dict(f, c="tx"))
            if rng.random() < 0.2:
                steps.append(dict(c="move"))
        hist.append(steps)
    # the whole conversation in one write, and large messages in large fragments
    for _ in range(300 if THOROUGH else 60):
        hist.append([dict(c="raw", data=wire_of(rng, message_streams(rng, rng.choice([2, 5, 9]), control=True)))])
    for sizes in ([70000], [65536, 1], [3, 66000, 0], [40000, 40000], [126] * 30, [1100000], [300000] * 4):
        op = rng.choice(["text", "bin"])
        hist.append([dict(c="tx", op=op if i == 0 else "cont", fin=i == len(sizes) - 1, data=[rng.randrange(32, 127) for _ in range(n)]) for i, n in enumerate(sizes)]
                    + [dict(c="next"), dict(c="tx", op="text", fin=True, data=[122])])
    hist = [marathon(rng, n) for n in ((600, 150) if THOROUGH else (150,))] + [marathon(rng, 300, moves=0)] + [many_fragments(rng, n, c) for n, c in ((120, 0.1), (300, 0.02), (300, 0), (1200, 0))] + hist
    live(ck, box, hist)


def c15(ck):
    mc(ck)
    box = ws_box(ck)
    rng = ck.rng
    hist = histories(ck, "ping", 3000 if THOROUGH else 400) + sequences(ck, 2, lambda f: f["op"] in ("ping", "pong"))
    for n in range(126):
        d = rnd_bytes(rng, n)
        hist.append([dict(c="tx", op="ping", fin=True, data=d), dict(c="next")])
        if n % 5 == 0 or THOROUGH:
            hist.append([dict(c="tx", op="text", fin=False, data=[97]), dict(c="tx", op="ping", fin=True, data=d, form=rng.choice([None, 16, 64])), dict(c="tx", op="pong", fin=True, data=d),
                         dict(c="tx", op="cont", fin=True, data=[98]), dict(c="next"), dict(c="next"), dict(c="next")])
    for _ in range(1500 if THOROUGH else 200):
        hist.append([dict(f, c="tx") for f in message_streams(rng, rng.choice([1, 3]), control=True)])
    pings = [dict(c="tx", op="ping", fin=True, data=rnd_bytes(rng, rng.choice([0, 1, 2, 125]))) for _ in range(300)]
    hist = [marathon(rng, 250, moves=0), many_fragments(rng, 150, 0.9), [x for p in pings for x in (p, dict(c="next"))], pings + [dict(c="next")] * 300] + hist
    live(ck, box, hist)


def c16(ck):
    mc(ck)
    box = ws_box(ck)
    rng = ck.rng
    hist = histories(ck, "close", 3000 if THOROUGH else 350) + sequences(ck, 2, lambda f: f["op"] == "close") + [[dict(s, c="tx") for s in ()] + [dict(c="close")]]
    payloads = [[], [3, 232], [3, 233] + list(b"going away"), [3, 232] + rnd_bytes(rng, 123), [15, 160], [3, 232] + list("é".encode())]
    for p in payloads:
        for before in ([], ["text"], ["part"], ["ping"], ["part", "ping"], ["text", "part", "pong"]):
            steps = []
            for b in before:
                steps.append(dict(c="tx", **dict(text=dict(op="text", fin=True, data=[97]), part=dict(op="bin", fin=False, data=[1]), ping=dict(op="ping", fin=True, data=[5]), pong=dict(op="pong", fin=True, data=[5]))[b]))
            n = sum(1 for b in before if b != "part") + 1
            steps.append(dict(c="tx", op="close", fin=True, data=p))
            for after in ([], [dict(c="tx", op="text", fin=True, data=[120])], [dict(c="tx", op="close", fin=True, data=p)], [dict(c="tx", op="cont", fin=True, data=[120])], [dict(c="tx", op="ping", fin=True, data=[120])]):
                for tail in ([], [dict(c="close")], [dict(c="next"), dict(c="next"), dict(c="close")], [dict(c="move"), dict(c="next"), dict(c="close")]):
                    hist.append(steps + after + [dict(c="next")] * n + tail)
            hist.append(steps + [dict(c="close")])                          # closed before the close frame was read
            hist.append(steps[:-1] + [dict(c="next")] * (n - 1) + [dict(c="close")])
    if not THOROUGH:
        hist = hist[:560] + rng.sample(hist[560:], min(600, max(0, len(hist) - 560)))
    close = [dict(c="tx", op="close", fin=True, data=[3, 232])] + [dict(c="next")] * 2 + [dict(c="close")]
    more = [marathon(rng, 150) + close]
    for n in (500, 1500, 5000, 70000, 130000):     # closed inside long messages
        part = [dict(c="tx", op=rng.choice(["text", "bin"]), fin=False, data=[rng.randrange(32, 127) for _ in range(n)])]
        more += [part + close, part + [dict(c="tx", op="cont", fin=False, data=[97])] + close, part + [dict(c="tx", op="ping", fin=True, data=[97]), dict(c="next")] + close,
                 [dict(c="tx", op="bin", fin=True, data=part[0]["data"])] + close[:1] + [dict(c="next")] * 3 + close[3:], [dict(c="send", t="text", data=part[0]["data"])] + close]
    hist = more + [many_fragments(rng, 130)[:-3] + close] + hist
    live(ck, box, hist)


INVALID_UTF8 = [[0x80], [0xC0, 0x80], [0xC1, 0xBF], [0xC3], [0xE0, 0x9F, 0xBF], [0xE0, 0xA0], [0xED, 0xA0, 0x80], [0xED, 0xBF, 0xBF], [0xF0, 0x8F, 0xBF, 0xBF],
                [0xF4, 0x90, 0x80, 0x80], [0xF5, 0x80, 0x80, 0x80], [0xFF], [0xFE], [97, 0xF0, 0x9F, 0x98], [0xC3, 0xA9, 0xA9], [0xE2, 0x28, 0xA1], [0xF8, 0x88, 0x80, 0x80, 0x80]]
VALID_UTF8 = [[0], [0x7F], [0xC2, 0x80], [0xDF, 0xBF], [0xE0, 0xA0, 0x80], [0xED, 0x9F, 0xBF], [0xEE, 0x80, 0x80], [0xEF, 0xBF, 0xBF], [0xF0, 0x90, 0x80, 0x80], [0xF4, 0x8F, 0xBF, 0xBF], [0xEF, 0xBB, 0xBF, 97]]


def violations():
    out = [dict(op="x", code=c, fin=fin, data=d) for c in (3, 4, 5, 6, 7, 11, 12, 13, 14, 15) for fin in (True, False) for d in ([], [98])]
    out += [dict(op=op, fin=fin, data=[98], rsv=r) for op in ("text", "bin", "cont", "ping", "pong", "close") for fin in (True, False) for r in ([1], [2], [3], [1, 2, 3])]
    out += [dict(op=op, fin=True, data=d, masked=False) for op in ("text", "bin", "cont", "ping", "pong", "close") for d in ([98], [3, 232])]
    out += [dict(op=op, fin=False, data=d) for op in ("ping", "pong", "close") for d in ([], [98])]
    out += [dict(op=op, fin=fin, data=[7] * n) for op in ("ping", "pong", "close") for n in (126, 127, 300) for fin in (True,)]
    out += [dict(op=op, fin=fin, data=[98]) for op in ("text", "bin", "cont") for fin in (True, False)]
    out += [dict(op="text", fin=True, data=d) for d in INVALID_UTF8 + VALID_UTF8]
    return out


CONTEXTS = [[], [dict(op="text", fin=True, data=[97])], [dict(op="text", fin=False, data=[97])], [dict(op="bin", fin=False, data=[1]), dict(op="cont", fin=False, data=[2])],
            [dict(op="text", fin=False, data=[]), dict(op="ping", fin=True, data=[1])], [dict(op="ping", fin=True, data=[]), dict(op="pong", fin=True, data=[])],
            [dict(op="bin", fin=False, data=[1]), dict(op="cont", fin=True, data=[2])]]


def c17(ck):
    mc(ck)
    box = ws_box(ck)
    rng = ck.rng
    plans, hist = [], []
    for v in violations():
        for ctx in CONTEXTS:
            follow = rng.choice([[], [dict(op="cont", fin=True, data=[99])], [dict(op="text", fin=True, data=[99])], [dict(op="ping", fin=True, data=[99])], [dict(op="close", fin=True, data=[])]])
            fs = ctx + [v] + follow
            w = [b for f in fs for b in client_frame(rng, f["op"], f["fin"], f["data"], f.get("rsv", ()), f.get("masked", True), code=f.get("code"))]
            if not any(f["op"] in ("ping", "pong") for f in ctx):
                plans.append((w, rng.choice(["whole", "rand"]), rng.choice(["eof", "stall", "reset"])))
            hist.append([dict(f, c="tx") for f in fs] + [dict(c="peek")] * rng.choice([0, 1]))
    # text whose characters are split over fragments, valid or not
    for d in INVALID_UTF8 + VALID_UTF8:
        for i in range(len(d) + 1):
            fs = [dict(op="text", fin=False, data=d[:i]), dict(op="cont", fin=True, data=d[i:])]
            plans.append((wire_of(rng, fs + [dict(op="text", fin=True, data=[99])]), "rand", "eof"))
            hist.append([dict(f, c="tx") for f in fs[:1] + [dict(op="ping", fin=True, data=d)] + fs[1:]])
    # in long texts
    more = []
    for n in (100, 1000, 1100, 5000, 70000):
        for d in rng.sample(INVALID_UTF8, 4) + rng.sample(VALID_UTF8, 2):
            text = [rng.randrange(32, 127) for _ in range(n)]
            i = rng.choice([0, n // 2, n])
            text[i:i] = d
            j = rng.randrange(len(text))
            parts = [dict(op="text", fin=False, data=text[:j]), dict(op="cont", fin=True, data=text[j:])]
            more.append([dict(op="text", fin=True, data=text), dict(op="text", fin=True, data=[99])])
            more.append(parts + [dict(op="text", fin=True, data=[99])])
            more.append(parts[:1] + [dict(op="ping", fin=True, data=[99])] + parts[1:])
        # and other violations inside long messages
        part = [dict(op=rng.choice(["text", "bin"]), fin=False, data=[rng.randrange(32, 127) for _ in range(n)])]
        more += [part + [v] + [dict(op="cont", fin=True, data=[99])] for v in rng.sample(violations(), 6)]
    more = [[dict(f, c="tx") for f in fs] for fs in more]
    bad = rng.sample([v for v in violations() if v["op"] == "x" or v.get("rsv")], 3)
    more += [marathon(rng, 100) + [dict(v, c="tx")] + [dict(c="next")] * 2 for v in bad]
    more += [many_fragments(rng, 130)[:-20] + [dict(v, c="tx")] + [dict(c="next")] * 2 for v in bad]
    for _ in range(3000 if THOROUGH else 300):      # any bytes at all
        w = wire_of(rng, message_streams(rng, rng.choice([0, 1, 2]))) + rnd_bytes(rng, rng.randrange(1, 30))
        plans.append((w, "rand", rng.choice(["eof", "reset"])))
        hist.append([dict(c="raw", data=w)])
    message_sessions(ck, box, plans)
    for h in hist:
        for s in h:
            s["c"] = s.get("c", "tx")
    if not THOROUGH:
        hist = rng.sample(hist, 900)
    hist = more + hist + histories(ck, "bad", 3000 if THOROUGH else 350) + sequences(ck, 2)
    live(ck, box, hist)


def c18(ck):
    mc(ck)
    box = ws_box(ck)
    rng = ck.rng
    hist = []
    sizes = list(range(0, 10)) + [60, 123, 124, 125, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1000, 4095, 4096, 8191, 8192, 8193, 16384, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000, 100000, 1100000]
    if THOROUGH:
        sizes += list(range(10, 300)) + [131071, 131072, 200000, 300000]
    for n in sizes:
        for t in ("text", "bin", "ping", "pong"):
            if n > 60000 and t in ("ping", "pong") and not THOROUGH:
                continue
            d = rnd_bytes(rng, n) if t != "text" else ([rng.randrange(32, 127) for _ in range(n)] if n > 50 else rnd_text(rng, n))
            hist.append([dict(c="send", t=t, data=d), dict(c="send", t="text", data=[46])])
    hist += histories(ck, "send", 2500 if THOROUGH else 300)
    # sending inside everything that can be under way on the receiving side
    for _ in range(1500 if THOROUGH else 250):
        steps = []
        for f in message_streams(rng, rng.choice([1, 2]), control=True):
            steps.append(dict(f, c="tx"))
            if rng.random() < 0.5:
                steps.append(dict(c="send", t=rng.choice(["text", "bin", "ping", "pong"]), data=[rng.randrange(32, 127) for _ in range(rng.choice([0, 1, 126, 300]))]))
            if rng.random() < 0.15:
                steps.append(dict(c=rng.choice(["move", "copy"])))
        hist.append(steps)
    hist = [marathon(rng, 150, sends=0.8, moves=0)] + [[dict(c="send", t=rng.choice(["text", "bin", "ping", "pong"]), data=[97] * rng.choice([0, 1, 2, 125, 126])) for _ in range(600)]] + hist
    live(ck, box, hist)


def c19(ck):
    mc(ck)
    box = ws_box(ck)
    rng = ck.rng
    bases = [[dict(op="text", fin=True, data=[97, 98])], [dict(op="ping", fin=True, data=[1, 2, 3]), dict(op="bin", fin=True, data=[9] * 130)],
             [dict(op="text", fin=False, data=[97]), dict(op="ping", fin=True, data=[1]), dict(op="cont", fin=True, data=[98])],
             [dict(op="bin", fin=True, data=[5] * 6, form=64), dict(op="close", fin=True, data=[3, 232])],
             [dict(op="bin", fin=False, data=[5] * 3), dict(op="cont", fin=False, data=[]), dict(op="cont", fin=True, data=[6] * 2), dict(op="pong", fin=True, data=[])]]
    plans, hist = [], []
    for fs in bases:
        w = wire_of(rng, fs)
        for cut in range(len(w) + 1):
            if cut > 40 and cut < len(w) - 10 and not THOROUGH and cut % 20:
                continue
            for end in ("eof", "reset"):
                for how in ("whole", "bytes"):
                    plans.append((w[:cut], how, end))
            for how in ("fin", "gone", "rst"):
                steps = ([dict(c="raw", data=w[:cut])] if cut else []) + [dict(c="over", how=how)]
                reads = [dict(c="next")] * (len(fs) + 3)
                hist.append(steps + reads)
                if how != "fin":
                    hist.append(steps + [dict(c="next")] * rng.randrange(3) + [dict(c="close")])
                if cut % 7 == 0:
                    hist.append([dict(c="wait")] + steps + reads if cut == 0 else steps + reads)
    for _ in range(3000 if THOROUGH else 300):
        w = wire_of(rng, message_streams(rng, rng.choice([1, 2, 3])))
        w = w[:rng.randrange(len(w) + 1)]
        plans.append((w, "rand", rng.choice(["eof", "reset"])))
        hist.append([dict(c="raw", data=w), dict(c="over", how=rng.choice(["fin", "gone", "rst"]))] + [dict(c="next")] * 5 if w else [dict(c="over", how="gone"), dict(c="next"), dict(c="next")])
    # the peer vanishes while pongs and messages are being sent to it
    for _ in range(400 if THOROUGH else 60):
        steps = [dict(c="tx", op="ping", fin=True, data=rnd_bytes(rng, rng.randrange(125))) for _ in range(rng.choice([1, 3, 8]))]
        steps += [dict(c="over", how=rng.choice(["gone", "rst"]))] + [dict(c="next")] * rng.choice([2, 5, 12])
        steps += rng.choice([[], [dict(c="send", t="text", data=[97] * 1000)] * 2 + [dict(c="next")], [dict(c="close")]])
        hist.append(steps)
    message_sessions(ck, box, plans)
    lost = []
    for how in ("fin", "gone", "rst"):
        lost.append(marathon(rng, 80) + [dict(c="over", how=how)] + [dict(c="next")] * 3)
        for n in (1000, 5000, 70000):
            part = [dict(c="tx", op="bin", fin=False, data=rnd_bytes(rng, n))]
            lost.append(part + [dict(c="over", how=how, op="cont", fin=True, data=[1] * 300, part=rng.choice([1, 2, 5, 8, 100]))] + [dict(c="next")] * 3)
    live(ck, box, lost + histories(ck, "loss", 3000 if THOROUGH else 300) + hist)


# ---------------------------------------------------------------------------------- several processes, one connection
def runs_of(b):
    """runs of equal bytes"""
    out, i = [], 0
    while i < len(b):
        j = i + 1
        while j < len(b) and b[j] == b[i]:
            # (long runs: look ahead in steps)
            j = j + 4096 if b[j:j + 4096] == b[i:i + 1] * 4096 else j + 1
        out.append([b[i], j - i])
        i = j
    return out


def frames_of(b):
    """what arrived, cut where the heads say that a frame ends"""
    out, p = [], 0
    while p + 2 <= len(b) and b[p] & 127 in (1, 2, 8, 9, 10):
        k = b[p + 1] & 127
        h = 2 + (2 if k == 126 else 8 if k == 127 else 0)
        if p + h > len(b):
            break
        n = k if k < 126 else int.from_bytes(b[p + 2:p + h], "big")
        if p + h + n > len(b):
            break
        out.append(dict(e="frame", head=list(b[p:p + h]), data=runs_of(bytes(b[p + h:p + h + n]))))
        p += h + n
    return out + [dict(e="end", rest=len(b) - p)]


def text_segs(rng, p, k):
    x = rng.randrange(32, 100)
    return [[100 + p, 1], [x, k // 2], [10, 1], [x, k - k // 2]] if rng.random() < 0.5 else [[100 + p, 1], [x, k]]


def sender_plan(rng, p, n, sizes):
    """messages of process p: all begin with a byte of its own"""
    ms = []
    for i in range(n):
        k, t = rng.choice(sizes), rng.choice(["text", "bin", "bin", "ping", "pong"])
        b = text_segs(rng, p, k) if t == "text" else [[240 + p, 1], [i % 240, 1 + k // 2], [rng.randrange(200, 240), 1 + k // 3]]
        if t in ("ping", "pong"):
            b = b[:1] + [[i % 240, min(k, 124)]]
        ms.append(dict(t=t, segs=[s for s in b if s[1]]))
    return ms


def shared(ck, port, plan, rng):
    ctl = Ctl()
    ev, results, reads = [], [], []
    stalled = plan["stalled"]
    got = bytearray()
    s = connect(port)
    try:
        s.sendall(upgrade_request(list(WSH) + [("x-ctl", ctl.addr), ("x-match", "*")]))
        ctl.take()
        if ctl.ask(dict(c="upgrade")).get("r") != "ok":
            raise Misbehaved("upgrade refused")
        s.settimeout(patience())
        while b"\r\n\r\n" not in got:
            x = s.recv(65536)
            if not x:
                raise Misbehaved("no answer to the upgrade")
            got += x
        del got[:got.index(b"\r\n\r\n") + 4]
        conns = []
        for _ in plan["procs"]:
            if ctl.ask(dict(c="fork")).get("r") != "ok":
                raise Misbehaved("no copy")
            conns.append(ctl.accept())
        over = threading.Event()

        def pump():
            s.settimeout(None)
            try:
                while True:
                    x = s.recv(1 << 20 if stalled else rng.choice([100, 4096, 65536]))
                    if not x:
                        break
                    got.extend(x)
            except OSError:
                pass
            over.set()

        reader = threading.Thread(target=pump, daemon=True)
        if not stalled:
            reader.start()
        for (c, f, h), ms in zip(conns, plan["procs"]):
            c.sendall(json.dumps(dict(c="sends", msgs=ms)).encode() + b"\n")
        ctl.put(dict(c="nexts", n=plan["reads"]))
        for f in plan["client"]:
            s.sendall(bytes(client_frame(rng, f["op"], f["fin"], f["data"])))
            if rng.random() < 0.3:
                time.sleep(rng.choice([0, 0.0003, 0.002]))
        if stalled:
            time.sleep(patience(1))
            reader.start()
        r = ctl.get()
        reads = [item(x) for x in r["rs"]] if r and "rs" in r else [dict(e="next", r="hang" if r is None else "crash", t="", data=[])]
        for c, f, h in conns:
            c.settimeout(patience())
            try:
                results.append(json.loads(f.readline())["rs"])
            except (OSError, ValueError):
                results.append(["no answer"])
        for c in [x[0] for x in conns] + [ctl.c]:
            c.sendall(b'{"c":"return"}\n')
        if not over.wait(patience()):
            ev.append(dict(e="open"))     # (all processes have returned, but the connection is open)
    except (Misbehaved, OSError) as e:
        ev.append(dict(e="misbehaved", what=str(e)))
    finally:
        for x in (s, ctl):
            try:
                x.close()
            except OSError:
                pass
    return dict(client=plan["client"], procs=[[dict(op=m["t"], segs=m["segs"]) for m in ms] for ms in plan["procs"]], reads=reads, results=results,
                stalled=stalled, runs=[dict(e="start")] + ev + frames_of(bytes(got)))


def c29(ck):
    from .served import parallel
    rng = ck.rng
    model_check(ck, "MC_SharedSocket", "MC_SharedSocket_deep" if THOROUGH else None, workers=4)
    model_check(ck, "MC_SharedSocket", "MC_SharedSocket_locked", workers=4, label="MC_SharedSocket_locked")
    model_refutes(ck, "MC_SharedSocket", "MC_SharedSocket_two", "Unmixed", workers=1)
    model_refutes(ck, "MC_SharedSocket", "MC_SharedSocket_full", "Unmixed", workers=1)
    box = ws_box(ck)
    plans = []
    for i in range(1500 if THOROUGH else 150):
        k = rng.choice([1, 2, 2, 3, 5, 8])
        sizes = rng.choice([[1, 3, 10], [1, 100, 124, 125, 126, 200], [1, 50, 3000], [10, 20000], [1, 70000]])
        # (no more in all than a connection takes at once)
        n = min(rng.choice([5, 30, 60]), max(3, 900000 // (k * max(sizes))))
        fs = message_streams(rng, rng.choice([0, 1, 3, 8]), control=True)
        fs += [dict(op="ping", fin=True, data=rnd_bytes(rng, rng.choice([0, 1, 3, 125]))) for _ in range(rng.choice([0, 3, 20, 60]))]
        # (the first byte tells whose a frame is)
        fs = [dict(op=f["op"], fin=f["fin"], data=[f["data"][0] % 90] + f["data"][1:] if f["op"] in ("ping", "pong") and f["data"] else f["data"]) for f in fs]
        plans.append(dict(client=fs, procs=[sender_plan(rng, p, n, sizes) for p in range(k)], stalled=False))
    for i in range(12 if THOROUGH else 4):
        plans.append(dict(client=[], procs=[sender_plan(rng, p, 50, [60000, 90000]) for p in range(4)], stalled=True))
    for p in plans:
        p["reads"] = sum(1 for f in p["client"] if f["fin"])
    seeds = [rng.random() for _ in plans]
    ss = [None] * len(plans)
    bad = []

    def work(k, j):
        ss[j] = dict(id="w%d" % j, known=[k["id"] for k in ck.known], **shared(ck, box.ports[j % len(box.ports)], plans[j], random.Random(seeds[j])))
        if any(e["e"] in ("misbehaved", "open") for e in ss[j]["runs"]):
            bad.append(j)

    parallel(8, range(len(plans)), work, enough=lambda: len(bad) > 10)
    ss = [s for s in ss if s]
    ck.cov["evaluations"] = len(ss)
    switches = 0
    for s in ss:
        own = [e["data"][0][0] if e["data"] else -1 for e in s["runs"] if e["e"] == "frame"]
        switches += sum(a != b for a, b in zip(own, own[1:]))
    ck.part("connections", connections=len(ss), frames=sum(len(s["runs"]) - 2 for s in ss), changes_of_sender=switches)
    for s in ss[:: max(1, len(ss) // 3)]:
        ck.sample(dict(id=s["id"], runs=s["runs"][:12]))
    validate(ck, "Trace_Shared", ss, describe=lambda s, ev, l: "connection %s (%d sending processes), event %d: %s%s" % (
        s["id"], len(s["procs"]), l, json.dumps(ev)[:300], "" if l > 1 else " reads %s results %s" % (json.dumps(s["reads"])[:600], json.dumps(s["results"])[:300])))
    seen = set()
    for f in os.listdir(ck.dir):
        if f.startswith("tlc.Trace_Shared"):
            seen |= {k["id"] for k in ck.known if "KNOWN " + k["id"] in open(ck.path(f)).read()}
    ck.known_hit.update({k["id"]: k["text"] for k in ck.known if k["id"] in seen})
