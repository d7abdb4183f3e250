"""C01 C02 C03 (and the parser halves of C04, C10): Request::parse, Response::parse and Body."""
import json
from .core import *


def cut(rng, n, how):
    """segmentation of n bytes: list of piece sizes"""
    if n == 0:
        return []
    if how == "whole":
        return [n]
    if how == "bytes":
        return [1] * n
    if isinstance(how, tuple):          # explicit cut points
        pts = sorted({p for p in how if 0 < p < n})
        out, last = [], 0
        for p in pts + [n]:
            out.append(p - last)
            last = p
        return out
    out, left = [], n                   # random
    while left:
        k = min(left, rng.choice([1, 1, 2, 3, 5, 8, 13, 40, 100, 997, 5000]))
        out.append(k)
        left -= k
    return out


def pieces(w, sizes):
    out, at = [], 0
    for k in sizes:
        out.append(w[at:at + k])
        at += k
    return out


READS = [[4096], [1], [3, 1, 0, 7], [1, 2, 3, 5, 8], [65536], [10000, 1], [0, 2], [16]]


def plan_run(rng, w, how, end, mode):
    b = unlat(w)
    sizes = cut(rng, len(b), how)
    r = dict(chunks=sizes, end=end, mode=mode)
    if mode == "reads":
        r["sizes"] = rng.choice(READS)
    return r


def command(kind, w, run):
    c = dict(op="req_parse" if kind == "request" else "res_parse",
             chunks=[x.hex() for x in pieces(unlat(w), run["chunks"])], end=run["end"], mode=run["mode"])
    if "sizes" in run:
        c["reads"] = run["sizes"]
    return c


def record(kind, run, rep):
    """projects the harness' reply to the specification's vocabulary"""
    o = dict(chunks=run["chunks"], end=run["end"], mode=run["mode"], r=rep["r"], stalls=rep.get("stalls", 0),
             head_stalls=rep.get("head_stalls", 0), reads=[], all=dict(ok=False, data=""))
    key = dict(r=rep["r"], kind=rep.get("kind"))
    if rep["r"] == "ok":
        o["headers"] = [[hexs(k), hexs(v)] for k, v in rep["headers"]]
        key["headers"] = rep["headers"]
        for k in ("method", "url", "path", "query", "status"):
            if k in rep:
                o[k] = rep[k]
                key[k] = rep[k]
        if "reason" in rep:
            o["reason"] = hexs(rep["reason"])
            key["reason"] = rep["reason"]
        body = rep.get("body", {})
        if "reads" in body:
            o["reads"] = [[n, k, hexs(d) if k == "ok" else str(d)] for n, k, d in body["reads"]]
        if "all" in body:
            o["all"] = dict(ok=True, data=hexs(body["all"]))
    o["key"] = json.dumps(key, sort_keys=True)
    return o


def run_sessions(ck, box, plans):
    """plans: [(kind, wire, [run])] -> sessions with recorded runs"""
    cmds, where = [], []
    for i, (kind, w, runs) in enumerate(plans):
        for j, r in enumerate(runs):
            cmds.append(command(kind, w, r))
            where.append((i, j))
    reps = box.exec_many(cmds)
    sessions = [dict(kind=k, wire=w, runs=[]) for k, w, _ in plans]
    for (i, j), rep in zip(where, reps):
        sessions[i]["runs"].append(record(plans[i][0], plans[i][2][j], rep))
    return sessions


def describe(s, ev, l):
    e = dict(ev)
    e.pop("key", None)
    if len(e.get("chunks", [])) > 20:
        e["chunks"] = e["chunks"][:20] + ["..."]
    return "%s %r, run %d: %s" % (s["kind"], s["wire"][:300], l, json.dumps(e)[:900])


def validate_plans(ck, box, plans):
    ck.cov["evaluations"] = ck.cov.get("evaluations", 0) + sum(len(p[2]) for p in plans)
    ss = run_sessions(ck, box, plans)
    for s in ss[:: max(1, len(ss) // 3)]:
        ck.sample(dict(kind=s["kind"], wire=s["wire"][:200], run={k: v for k, v in s["runs"][0].items() if k != "key"}), cap=8)
    validate(ck, "Trace_HttpParse", ss, describe=describe)
    return ss


def gen(ck, kind, samples):
    cases = generate(ck, "Gen_HttpParse", env=dict(KIND=kind, SAMPLES=str(samples)), label="Gen_HttpParse." + kind)
    cases.sort(key=lambda c: c["wire"])
    n = {}
    for c in cases:
        n[c["class"]] = n.get(c["class"], 0) + 1
    ck.part("generated:" + kind, cases=len(cases), classes=n)
    for k in ("ok", "bad", "cut", "free"):
        if not n.get(k):
            raise ToolError("generator produced no %s case" % k)
    return cases


def box_for(ck):
    b = Box(ck, build("box", "verifbox"))
    ck.children.append(b)
    return b


# ------------------------------------------------------------------------------ random messages
TOK = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~"
VAL = [chr(c) for c in range(0x21, 0x7f)] + [" ", "\t", " ", lat("é".encode()), lat("€".encode()), lat("😀".encode())]
# characters which some notion of blank space counts and HTTP does not (RFC 9110, 5.6.3: only space and tab)
BLANK = [lat(c.encode()) for c in ("\u00a0", "\u3000", "\u2003", "\u2028", "\u0085", "\ufeff", "\u200b")]
NEAR = ["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "CONNECT", "TRACE"]


# names with a meaning somewhere (none of them changes what a message is, here)
COMMON = ["Accept", "accept-encoding", "Authorization", "Cache-Control", "Connection", "Content-Encoding", "Content-Language", "Cookie", "Set-Cookie", "Date",
          "Expect", "Forwarded", "From", "Keep-Alive", "Hostname", "X-Forwarded-Host", "X-Forwarded-For", "X-Forwarded-Proto", "X-HTTP-Method-Override", "X-Original-URL",
          "If-Match", "If-Modified-Since", "If-None-Match", "Location", "Max-Forwards", "Origin", "Pragma", "Proxy-Connection", "Range", "Referer", "Server", "TE", "Trailer",
          "Upgrade", "User-Agent", "Via", "X-Content-Length", "Content-Range", "Content-Location", "Content-Disposition", "ETag", "Vary", "Last-Modified"]
COMMON_VALUES = ["close", "keep-alive", "100-continue", "gzip, deflate", "identity", "a=b; c=d", "bytes=0-3", "Mon, 01 Jan 2024 00:00:00 GMT", "max-age=0, no-cache", "text/html;q=0.8, */*",
                 "PUT", "/elsewhere?x=1", "other.example", "websocket", "5", "0", "https", "\"v\"", "for=1.2.3.4;host=evil.example;proto=https", "Basic dTpw", "en", "1.1 proxy"]


def rnd_header(rng):
    if rng.random() < 0.25:
        return rnd_case(rng, rng.choice(COMMON)) if rng.random() < 0.3 else rng.choice(COMMON), rng.choice(COMMON_VALUES) if rng.random() < 0.7 else rnd_value(rng)
    return rnd_name(rng), rnd_value(rng)


def rnd_name(rng):
    return "".join(rng.choice(TOK) for _ in range(rng.choice([1, 1, 2, 3, 8, 20])))


def rnd_value(rng):
    v = "".join(rng.choice(VAL) for _ in range(rng.choice([0, 1, 2, 5, 12, 40])))
    if rng.random() < 0.12:
        v = rng.choice(BLANK) + v
    if rng.random() < 0.12:
        v += rng.choice(BLANK)
    return v


def rnd_method(rng):
    """A known method, one written one edit away from it, or any token."""
    k = rng.random()
    m = rng.choice(NEAR)
    if k < 0.4:
        return m
    if k < 0.6:
        i = rng.randrange(len(m) + 1)
        c = rng.choice(TOK) if rng.random() < 0.7 else rng.choice(m)
        return rng.choice([m[:i] + c + m[i:], m[:i] + c + m[i + 1:], m[:i] + m[i + 1:], m.lower(), m.title(), m + c, m + m])
    return rnd_name(rng)


def rnd_case(rng, s):
    r = rng.random()
    if r < 0.5:
        return s.title() if r < 0.3 else s.lower() if r < 0.4 else s.upper()
    return "".join(rng.choice((c.upper(), c.lower())) for c in s)


def rnd_request(rng, bodymax=40):
    m = rnd_method(rng)
    pc = "abcXYZ019-_~.!$&()*+,;=:@%/'\"<>`{}|[]/."
    p = "/" + "".join(rng.choice(pc) for _ in range(rng.choice([0, 1, 3, 8, 25])))
    if rng.random() < 0.15:
        p = "".join("/" + rng.choice(["", "a", "b", ".", "..", "%2e", "%2E.", "..%2e", "c%20"]) for _ in range(rng.choice([1, 2, 3, 5])))
    if rng.random() < 0.02:
        p += "/" + rng.choice("ab") * rng.choice([500, 1900, 2100, 4000, 8200]) + "/z"
    q = rng.choice(["", "", "?", "?" + "".join(rng.choice(pc + "?") for _ in range(rng.choice([1, 4, 15])))])
    host = rng.choice(["h", "example.com", "A.b.C-d.e5", "x:81", "foo.bar:65000", "127.0.0.1", "127.0.0.1:8080", "h_1,x!.y"])
    t = rng.choice([p + q, p + q, p + q, "http://o.example" + p + q, "https://s.example:444" + p + q,
                    rng.choice(["http://localhost", "http://localhost:3000", "https://localhost", "http://127.0.0.1:80", "https://A.Example:80"]) + p + q])
    n = rng.choice([0, 1, 2, 3, 5, 10, 17, 18, 19])
    hs = []
    for _ in range(n):
        name, value = rnd_header(rng)
        if hs and rng.random() < 0.25:
            name = rng.choice(hs)[0]
            if rng.random() < 0.4:
                name = rnd_case(rng, name)
        hs.append((name, value))
    if rng.random() < 0.97:
        hs.insert(rng.randrange(len(hs) + 1), (rnd_case(rng, "host"), host))
    body = "".join(chr(rng.randrange(256)) for _ in range(rng.randrange(bodymax)))
    if rng.random() < 0.3:
        body += "\r\n\r\n" + body
    if rng.random() < 0.6 and len(hs) < 20:
        hs.insert(rng.randrange(len(hs) + 1), (rnd_case(rng, "content-length"), str(max(0, len(body) + rng.choice([0, 0, 0, -1, -3, 1, 50])))))
    sep = lambda: rng.choice([": ", ":", ":  ", ":\t"])
    return "%s %s HTTP/1.1\r\n%s\r\n%s" % (m, t, "".join(k + sep() + v + "\r\n" for k, v in hs), body)


def rnd_response(rng, bodymax=40):
    n = rng.choice([0, 1, 2, 5, 18, 19])
    hs = []
    for _ in range(n):
        name, value = rnd_header(rng)
        hs.append((name if not hs or rng.random() < 0.8 else rng.choice(hs)[0], value))
    body = "".join(chr(rng.randrange(256)) for _ in range(rng.randrange(bodymax)))
    if rng.random() < 0.7:
        hs.insert(rng.randrange(len(hs) + 1), (rnd_case(rng, "content-length"), str(max(0, len(body) + rng.choice([0, 0, -1, -3, 1, 50])))))
    if rng.random() < 0.5 and len(hs) < 20:
        hs.insert(rng.randrange(len(hs) + 1), (rnd_case(rng, "content-type"), rng.choice(["text/html", "7", "1"])))
    reason = rng.choice(["", "OK", "a b c", "x!y(z)"])
    return "HTTP/1.1 %d %s\r\n%s\r\n%s" % (rng.randrange(100, 1000), reason, "".join(k + ": " + v + "\r\n" for k, v in hs), body)


def rnd_mutant(rng, w):
    w = list(w)
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randrange(len(w) + 1)
        k = rng.random()
        c = rng.choice(["\r", "\n", "\r\n", " ", ":", "\0", "\xff", "\xc3", "a", "\t", "\r\n\r\n", "?", "/"])
        if k < 0.4:
            w.insert(i, c)
        elif k < 0.7 and i < len(w):
            w[i] = c
        elif i < len(w):
            del w[i]
    return "".join(w)


# ------------------------------------------------------------------------------ the checks
def c01(ck):
    box = box_for(ck)
    rng = ck.rng
    cases = gen(ck, "request", 0)
    plans = []
    for c in cases:
        w = c["wire"]
        runs = [plan_run(rng, w, "whole", "eof", "none"), plan_run(rng, w, "rand", "stall" if c["class"] != "cut" else "eof", "none")]
        # the same bytes again and again: the outcome may not depend on anything else
        if "ost" in w or c["class"] == "ok":
            runs += [plan_run(rng, w, "whole", "eof", "none") for _ in range(3)]
        plans.append(("request", w, runs))
    for _ in range(12000 if THOROUGH else 1500):
        w = rnd_request(rng)
        plans.append(("request", w, [plan_run(rng, w, "whole", "eof", "none"), plan_run(rng, w, "rand", "stall", "none"),
                                     plan_run(rng, w, "rand", "eof", "reads")]))
    validate_plans(ck, box, plans)


def c02(ck):
    model_check(ck, "MC_HttpIntake", "MC_HttpIntake_big" if THOROUGH else None)
    box = box_for(ck)
    rng = ck.rng
    plans = []
    for kind in ("request", "response"):
        cases = gen(ck, kind, 0)
        seeds = [c for c in cases if c["class"] == "ok" and len(c["wire"]) < 120]
        rng.shuffle(cases)
        for c in cases[: None if THOROUGH else 1100]:
            w = c["wire"]
            runs = [plan_run(rng, w, "whole", "eof", "reads"), plan_run(rng, w, "bytes", "eof", "reads"),
                    plan_run(rng, w, "rand", "stall", "reads"), plan_run(rng, w, "rand", "eof", "reads"), plan_run(rng, w, "rand", "reset", "reads"),
                    plan_run(rng, w, "whole", "stall", "reads")]
            plans.append((kind, w, runs))
        rng.shuffle(seeds)
        for c in seeds[: 60 if THOROUGH else 8]:   # every two-piece split, and every three-piece split around the head's end
            w = c["wire"] + "tail\r\n\r\nmore"
            runs = [plan_run(rng, w, "whole", "eof", "reads")]
            runs += [plan_run(rng, w, (i,), e, "reads") for i in range(1, len(w)) for e in ("eof", "stall")]
            h = w.index("\r\n\r\n")
            runs += [plan_run(rng, w, (i, j), "eof", "reads") for i in range(max(1, h - 3), h + 6) for j in range(i + 1, h + 7)]
            plans.append((kind, w, runs))
        # sizes around the reader's buffer
        for size in (900, 960, 990, 1000, 1010, 1100, 2000, 8192, 9900, 9950, 9990, 10000, 10010, 20000):
            for _ in range(3 if THOROUGH else 1):
                first = "POST /x HTTP/1.1\r\nHost: h\r\n" if kind == "request" else "HTTP/1.1 200 OK\r\n"
                pad = size - len(first) - len("A: \r\n\r\n") - rng.randrange(0, 8)
                w = first + "A: " + "x" * max(1, pad) + "\r\n\r\n" + "0123456789" * 5 + "\r\n\r\nrest"
                plans.append((kind, w, [plan_run(rng, w, h, e, "reads") for h, e in (("whole", "eof"), ("rand", "stall"), ("rand", "eof"), ((size - 3, size - 1, size, size + 1), "eof"), ((1000, 2000, 9999, 10000), "stall"))]))
        # a head which fills the reader's buffer, or nearly
        for full in ((10000, 8192, 20000) if kind == "request" else (1000, 2000, 1024)):
            for size in range(full - 4, full + 3):
                first = "POST /x HTTP/1.1\r\nHost: h\r\n" if kind == "request" else "HTTP/1.1 200 OK\r\n"
                if rng.random() < 0.5:
                    first += "Content-Length: 15\r\n"
                w = first + "A: " + "x" * (size - len(first) - len("A: \r\n\r\n")) + "\r\n\r\n" + "0123456789" * 2
                plans.append((kind, w, [plan_run(rng, w, h, e, "reads") for h, e in (("whole", "eof"), ((size,), "eof"), ((size - 2, size + 1), "stall"), ((full,), "stall"))]))
        for _ in range(6000 if THOROUGH else 600):
            w = rnd_request(rng) if kind == "request" else rnd_response(rng)
            if rng.random() < 0.6:
                w = rnd_mutant(rng, w)
            plans.append((kind, w, [plan_run(rng, w, h, e, "reads") for h, e in (("whole", "eof"), ("rand", "eof"), ("bytes", "stall"), ("rand", "stall"), ("rand", "reset"), ("whole", "reset"))]))
    validate_plans(ck, box, plans)


def body_text(rng, n, utf8):
    if utf8:
        s = "".join(rng.choice("abc\r\n\0é€😀 ") for _ in range(n)).encode()[:n]
        return lat(s)
    return "".join(chr(rng.randrange(256)) for _ in range(n))


def c03(ck):
    model_check(ck, "MC_HttpIntake", "MC_HttpIntake_big" if THOROUGH else None)
    box = box_for(ck)
    rng = ck.rng
    plans = []
    lens = [0, 1, 2, 3, 7, 30, 31, 32, 33, 127, 128, 255, 256, 1000, 1023, 1024, 1025, 4096]
    big = [8191, 8192, 8193, 10000, 16384, 30000]
    huge = ["99999999", "2147483647", "2147483648", "4294967295", "4294967296", "4294967299", "18446744073709551615", "18446744073709551616", "0000000000004"]
    combos = []
    for n in lens:
        for d in (0, 1, n - 1, n, n + 1, n // 2):
            if d >= 0:
                combos.append((n, str(d)))
        combos.append((n, None))
        combos.append((n, rng.choice(huge)))
    combos += [(n, str(d)) for n in big for d in ((n, n - 1, n + 7) if THOROUGH else (n - 1,))]
    combos += [(5, h) for h in huge] * 3
    for kind in ("request", "response"):
        for n, d in combos * (4 if THOROUGH else 1):
            body = body_text(rng, n, rng.random() < 0.5)
            cl = "" if d is None else "%s: %s\r\n" % (rnd_case(rng, "content-length"), d)
            w = ("POST / HTTP/1.1\r\nHost: h\r\n" if kind == "request" else "HTTP/1.1 200 OK\r\n") + cl + rng.choice(["", "Content-Type: 2\r\n"]) + "\r\n" + body
            runs = []
            for mode in ("reads", "bytes", "string", "reads"):
                for end in (("eof", "stall") if n < 2000 else (rng.choice(["eof", "stall"]),)):
                    runs.append(plan_run(rng, w, rng.choice(["whole", "rand", "rand", "bytes" if n < 300 else "rand"]), end, mode))
            runs.append(plan_run(rng, w, "rand", "reset", rng.choice(["reads", "bytes", "string"])))
            # one-byte reads of long bodies would only make the trace long
            for r in runs:
                if n > 300 and r.get("sizes") and max(r["sizes"]) < 16:
                    r["sizes"] = [300, 4096, 1, 0]
            plans.append((kind, w, runs))
    # lengths which need more than 16 bits, and more than any buffer one would think of
    for kind in ("request", "response"):
        for n in (65535, 65536, 65537, 70000, 131073, 1100000):
            for d in ("%d" % n, None, "%d" % (n - 1), "%d" % (n + 1)):
                if d is None and n < 131073 or n > 131073 and d != str(n):
                    continue
                w = ("POST / HTTP/1.1\r\nHost: h\r\n" if kind == "request" else "HTTP/1.1 200 OK\r\n") + ("" if d is None else "Content-Length: %s\r\n" % d) + "\r\n"
                w += body_text(rng, 997, False) * (n // 997) + "z" * (n % 997)
                runs = [plan_run(rng, w, "rand", "eof" if d is None else "stall", "bytes")]
                if n <= 131073:
                    runs.append(plan_run(rng, w, "rand", "eof", "reads"))
                    runs[-1]["sizes"] = [30000, 65536, 0, 70000]
                plans.append((kind, w, runs))
    validate_plans(ck, box, plans)
    # Body built by the application
    sess = []
    cmds = []
    for i in range(3000 if THOROUGH else 500):
        n = rng.choice([0, 1, 2, 5, 30, 300, 3000] if i % 10 == 0 else [0, 1, 2, 5, 30])
        data = body_text(rng, n, True)
        kind = rng.choice(["reader", "reader", "chunked", "string", "into", "str", "empty"])
        b = dict(kind=kind, data=unlat(data).hex())
        decl, end = -1, "eof"
        if kind in ("string", "into", "str"):
            data = unlat(data).decode("utf-8", "ignore").encode()
            b["data"], data = data.hex(), lat(data)
            decl = len(data)
        elif kind == "empty":
            data, decl = "", 0
        else:
            decl = rng.choice([-1, 0, 1, n, n, n, max(0, n - 1), n + 1, n + 100, 1 << 31, (1 << 32) - 1])
            b["len"] = None if decl < 0 else decl
            if kind == "chunked":
                b["kind"] = "reader"
                b["cap"] = rng.choice([1, 2, 3, 16, 64])
                b["chunks"] = [x.hex() for x in pieces(unlat(data), cut(rng, len(unlat(data)), "rand"))]
                b["end"] = end = rng.choice(["eof", "stall", "reset"])
        mode = rng.choice(["reads", "reads", "bytes", "string"])
        cmd = dict(op="body", body=b, mode=mode)
        if mode == "reads":
            cmd["reads"] = rng.choice(READS)
        cmds.append(cmd)
        sess.append(dict(kind="body", wire=data, decl=-1 if decl < 0 else min(decl, 2000000000), runs=[dict(end=end, mode=mode)]))
    for s, rep in zip(sess, box.exec_many(cmds)):
        o = record("body", dict(chunks=[], **s["runs"][0]), dict(rep, headers=[]))
        s["runs"] = [o]
    ck.cov["evaluations"] += len(cmds)
    validate(ck, "Trace_HttpBody", sess, describe=describe)
