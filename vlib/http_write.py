"""C06 (URL patterns), C08 C09 C10 C11 (what is built, written and read back)."""
import json, socket
from .core import *
from .http_parse import (box_for, gen, plan_run, validate_plans, pieces, cut, rnd_name, rnd_value, rnd_case, rnd_response,
                         rnd_mutant, record, describe as describe_parse)


# ------------------------------------------------------------------------------ C06
INTS = ["0", "1", "-1", "+1", "007", "-0", "+0", "-007", "+", "-", "--1", "+-1", "1-", "1a", "a1", "1.0", "1,0", "1e3", "0x10", "1_0", "2147483647",
        "2147483648", "-2147483648", "-2147483649", "+2147483647", "+2147483648", "00000000002147483647", "4294967295", "99999999999", "-99999999999999999999",
        "%31", "1%20", "%20", "١", "１", "NaN", "inf", "true", "1;2", "1:"]
TEXTS = ["a", "A", "aa", "home", "Home", "%61", "ä", "a b", "a%20b", ".", "..", "...", "a.b", "~", "*", "$", "'", "a'", "(", "[", "a[", "|", "^", "\\", "@", ":", "a=b", "a;b", "a,b", "", "index.html"]
SPECIAL = ["http://h", "http://h/", "http://h?", "http://h#", "http://h?a/b", "http://h/?a/b", "http://h/a?b", "http://h/a#b", "http://h/a?/b/c", "http://h/a/?x", "http://h/#/a/b",
           "https://other.example:8443/a", "http://user:pw@h/a", "http://a/b", "ftp://h/a/b", "file:///a/b", "file:///", "file://h/a", "ws://h/a/1", "custom://h/a/1", "custom:/a/1", "custom:///a",
           "custom://h", "mailto:a/1", "mailto:a", "data:,a/b", "data:a", "urn:a:b", "blob:http://h/a", "about:blank", "javascript:1", "custom:a/1", "a:", "a:/", "a:///1", "http://h/a//1", "http://h//",
           "http://h///", "http://h//a", "http:/a", "http:a", "http:///a/b", "http://1/1", "http://[::1]/a", "http://h/a/../b", "http://h/a/./b", "http://h/..", "http://h/a\\b", "http://h/ a", "http://h/a\t/b", "http://h/a\n/1"]


def c06(ck):
    out = ck.path("urls.json")
    r = model_check(ck, "MC_UrlMatch", env=dict(OUT=out))
    g = json.load(open(out))
    g["pats"].sort()
    g["paths"].sort()
    box, rng = box_for(ck), ck.rng
    jobs = [(p, ["http://h.io" + x for x in g["paths"]]) for p in g["pats"]]        # every small pattern with every small path
    segs = [["static", t] for t in ("a", "A", "1", "", "home", "%61", "..", "a%20b", "a b", "+1", "-0", "x?y", "x#y", "x/y", "/", "é")] + [["any", ""], ["int", ""]]
    for s in segs:
        texts = INTS + TEXTS
        jobs.append(([s], ["http://h/" + t for t in texts] + ["http://h/" + t + x for t in texts for x in ("?q=1/2", "#f/g", "/")] + SPECIAL))
    allurls = ["http://h/" + t for t in INTS + TEXTS] + SPECIAL
    for p in ([["any", ""], ["int", ""]], [["int", ""], ["int", ""]], [["any", ""], ["any", ""], ["any", ""]], [], [["any", ""]] * 2, [["static", ""]] * 2, [["static", "a"], ["int", ""]]):
        jobs.append((p, allurls + [u + "/" + t for u in ("http://h/1", "http://h/a", "custom:/a") for t in INTS + TEXTS]))
    for _ in range(3000 if THOROUGH else 300):
        n = rng.choice([1, 2, 3, 4, 5, 8])
        p = [rng.choice(segs) for _ in range(n)]
        urls = []
        for _ in range(40):
            ts = []
            for s in p:
                t = s[1] if s[0] == "static" else rng.choice(INTS if s[0] == "int" else TEXTS + INTS)
                if rng.random() < 0.12:
                    t = rng.choice(TEXTS + INTS + [t + "0", t.upper(), t[:-1]])
                ts.append(t)
            k = rng.random()
            if k < 0.1:
                ts.append(rng.choice(["", "x"]))
            elif k < 0.2:
                ts.pop()
            elif k < 0.3:
                rng.shuffle(ts)
            u = rng.choice(["http://h", "https://x.y:9", "ws://h", "custom://q", "file://", "custom:"]) + "/" + "/".join(ts)
            u += rng.choice(["", "", "", "?", "?" + rng.choice(TEXTS), "#" + rng.choice(TEXTS), "?a/b#c/d"])
            urls.append(u)
        jobs.append((p, urls))
    reps = box.exec_many([dict(op="url_match", segs=p, urls=us) for p, us in jobs])
    ss, n = [], 0
    for (p, us), rep in zip(jobs, reps):
        if rep.get("r") != "ok":
            ck.violation("the pattern %s: %s" % (p, rep), dict(pattern=p, urls=us, outcome=rep))
            continue
        runs = []
        for u, o in zip(us, rep["runs"]):
            if o["r"] == "ok":
                runs.append(dict(o, path=lat(o["path"].encode()), url=u))
        n += len(runs)
        for k in range(0, len(runs), 200):
            ss.append(dict(segs=[[a, lat(b.encode())] for a, b in p], runs=runs[k:k + 200]))
    ck.cov["evaluations"] = n
    for s in ss[:: max(1, len(ss) // 4)]:
        ck.sample(dict(pattern=s["segs"], run=s["runs"][0]))
    validate(ck, "Trace_UrlMatch", ss, describe=lambda s, ev, l: "pattern %s against %s" % (s["segs"], json.dumps(ev)))


# ------------------------------------------------------------------------------ builder calls
def hx(s):
    return unlat(s).hex()


def is_utf8(s):
    try:
        unlat(s).decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def harness_body(rng, b):
    """b: the specification's [data, len]; a random way of making it"""
    data, n = b["data"], b["len"]
    if n == len(data) and is_utf8(data) and rng.random() < 0.7:
        return dict(kind="empty") if n == 0 and rng.random() < 0.5 else dict(kind=rng.choice(["string", "into", "str"]), data=hx(data))
    r = dict(kind="reader", data=hx(data), len=None if n < 0 else n)
    if rng.random() < 0.5:
        r["cap"] = rng.choice([1, 3, 16, 64])
        r["chunks"] = [x.hex() for x in pieces(unlat(data), cut(rng, len(data), "rand"))]
        r["end"] = "eof"
    return r


def harness_calls(rng, calls):
    out = []
    for c in calls:
        k = c["c"]
        if k == "header":
            out.append(dict(c=k, k=hx(c["k"]), v=hx(c["v"])))
        elif k == "headers":
            out.append(dict(c=k, h=[[hx(a), hx(b)] for a, b in c["h"]]))
        elif k == "status":
            out.append(dict(c=k, code=c["code"], reason=hx(c["reason"])))
        elif k == "method":
            m = c["m"]
            if m in ("GET", "POST", "HEAD") and rng.random() < 0.5:
                out.append(dict(c="method_str", m=hx(rnd_case(rng, m))))
            elif m.startswith("other:") and rng.random() < 0.5 and m[6:].lower() not in ("get", "post", "head"):
                out.append(dict(c="method_str", m=hx(m[6:])))
            else:
                out.append(dict(c=k, m=m))
        else:
            out.append(dict(c=k, body=harness_body(rng, c["b"])))
    return out


def call_events(calls):
    return [dict({k: v for k, v in c.items() if k != "c"}, e="call", c=c["c"]) for c in calls]


def show(rep):
    o = dict(headers=[[hexs(k), hexs(v)] for k, v in rep.get("headers", [])])
    for k in ("method", "url", "status"):
        if k in rep:
            o[k] = rep[k]
    if "reason" in rep:
        o["reason"] = hexs(rep["reason"])
    return o


def old(x):
    return x if x.startswith("err:") else hexs(x)


def describe(s, ev, l):
    hist = [e for e in s["runs"][:l - 1] if e["e"] in ("call", "replace", "take")]
    return "%s after %s: %s" % (s["kind"], json.dumps([{k: e[k] for k in ("e", "c", "k", "v", "h", "code", "reason", "m", "b") if k in e} for e in hist])[:700], json.dumps(ev)[:800])


URL = "http://h.io/p?q"


def build_sessions(ck, box, hists, url=URL):
    """hists: [dict(kind, calls, posts)] -> validated sessions of C11"""
    rng = ck.rng
    cmds = []
    for h in hists:
        posts = [dict(c="take") if p["c"] == "take" else dict(c="replace", body=harness_body(rng, p["b"])) for p in h["posts"]]
        cmds.append(dict(op="builder", what=h["kind"], url=hx(url), calls=harness_calls(rng, h["calls"]), post=posts))
    ss = []
    for h, rep in zip(hists, box.exec_many(cmds)):
        ev = call_events(h["calls"])
        ev.append(dict(e="built", r=rep["r"], **show(rep)))
        if rep["r"] == "ok":
            for p, o in zip(h["posts"], rep["post"]):
                ev.append(dict(e=p["c"], old=old(o["old"]), **show(o), **({"b": p["b"]} if "b" in p else {})))
            ev.append(dict(e="last", old=old(rep["last"])))
        ss.append(dict(kind=h["kind"], url=url, runs=ev))
    return ss


def rnd_body(rng, kinds=(0,)):
    n = rng.choice([0, 0, 1, 2, 5, 40, 300])
    data = "".join(chr(rng.randrange(256)) for _ in range(n)) if rng.random() < 0.4 else lat("".join(rng.choice("abc \r\né€") for _ in range(n)).encode())
    d = len(data)
    return dict(data=data, len=rng.choice([d, d, d, -1, max(0, d - 1), d // 2, d + 3, 0]))


def rnd_calls(rng, kind, n, text=rnd_value, name=rnd_name, body=rnd_body):
    names = [name(rng) for _ in range(rng.choice([1, 2, 3, 6]))] + ["Content-Type", "content-type", "Content-Length", "Host"]
    names += [rnd_case(rng, names[0])]
    calls = []
    for _ in range(n):
        k = rng.random()
        if k < 0.5:
            calls.append(dict(c="header", k=rng.choice(names), v=text(rng)))
        elif k < 0.6:
            calls.append(dict(c="headers", h=[[rng.choice(names), text(rng)] for _ in range(rng.choice([0, 1, 2, 3, 5]))]))
        elif k < 0.8:
            if kind == "request":
                calls.append(dict(c="method", m=rng.choice(["GET", "POST", "HEAD", "other:PUT", "other:" + rnd_name(rng), "other:get"])))
            else:
                calls.append(dict(c="status", code=rng.choice([0, 99, 100, 200, 404, 599, 999, 1000, 65535]), reason=text(rng)))
        else:
            calls.append(dict(c="body", b=body(rng)))
    return calls


def c11(ck):
    bs = behaviours(ck, "Gen_Builders", env=dict(LONG="yes" if THOROUGH else "no"))
    box, rng = box_for(ck), ck.rng
    ss = build_sessions(ck, box, bs)
    hists = []
    for _ in range(12000 if THOROUGH else 2500):
        kind = rng.choice(["request", "response"])
        posts = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            posts.append(dict(c="take") if rng.random() < 0.4 else dict(c="replace", b=rnd_body(rng)))
        # anything is allowed in a text that is only kept
        text = lambda r: lat("".join(r.choice(["a", "B", " ", "\t", "\r", "\n", "\0", "é", "€", ":", "😀"]) for _ in range(r.choice([0, 1, 2, 6]) if r.random() < 0.997 else r.choice([300, 2000, 5000]))).encode())
        calls = rnd_calls(rng, kind, rng.choice([0, 1, 2, 3, 6, 12, 30]), text=text)
        if kind == "request" and rng.random() < 0.85:
            calls.insert(rng.randrange(len(calls) + 1), dict(c="method", m=rng.choice(["GET", "POST", "other:DELETE"])))
        hists.append(dict(kind=kind, calls=calls, posts=posts))
    ss += build_sessions(ck, box, hists)
    ck.cov["evaluations"] = len(ss)
    for s in ss[:: max(1, len(ss) // 4)]:
        ck.sample(s)
    validate(ck, "Trace_HttpWrite", ss, describe=describe)


# ------------------------------------------------------------------------------ writing and reading back
def parse_cmd(rng, kind, wire, extra, end, mode=None):
    run = plan_run(rng, lat(wire + extra), rng.choice(["whole", "rand", "rand", "bytes"] if len(wire) < 1500 else ["whole", "rand"]), end, mode or ("bytes" if len(wire) > 30000 else rng.choice(["bytes", "reads"])))
    c = dict(op="req_parse" if kind == "request" else "res_parse", chunks=[x.hex() for x in pieces(wire + extra, run["chunks"])], end=run["end"], mode=run["mode"])
    if "sizes" in run:
        c["reads"] = run["sizes"]
    return c


def back_event(rep, extra=None):
    e = dict(e="back", r=rep["r"], **show(rep))
    b = rep.get("body", {})
    e["body"] = hexs(b["all"]) if "all" in b else "".join(hexs(d) for _, k, d in b.get("reads", []) if k == "ok")
    if any(k != "ok" for _, k, _ in b.get("reads", [])) or ("err" in b):
        e["body"] = "!" + json.dumps(b)[:200]
    e["path"], e["query"] = rep.get("path", ""), rep.get("query", "")
    return e


def valid_value(rng):
    return rnd_value(rng).strip(" \t")


def lengthen(rng, v):
    """v made longer than the buffers a value may pass through (its ends stay what they were)"""
    n = rng.choice([129, 257, 1001, 1025, 4097, 8193, 10001])
    fill = "".join(rng.choice("abc:;=, \x07~") for _ in range(rng.choice([1, 7, 50])))
    v = v.encode("latin-1").decode() or "z"
    return lat((v[0] + (fill * (n // len(fill) + 1))[:n] + v[-1]).encode())


def one_longer(rng, hs):
    """now and then one of the values is long, or one of the names"""
    if hs and rng.random() < 0.02:
        i = rng.randrange(len(hs))
        k, v = hs[i]
        if k.lower() in ("content-length", "host", "content-type"):
            return
        hs[i] = [k, lengthen(rng, v).replace("\x07", "") if v == v.strip() else lengthen(rng, v)] if rng.random() < 0.8 else [k + "n" * rng.choice([128, 256, 1001, 4097]), v]


def c09(ck):
    box, rng = box_for(ck), ck.rng
    pc = "abcXYZ019-_~.!$&'()*+,;=:@%/[]|^{}`\"<> é"
    urls = ["http://h.io/", "http://h.io", "http://h.io?", "http://h.io?a=b&c=/d?e", "http://h.io/a//b/", "http://h.io//", "https://h.io:444/x?y#z", "http://h.io/a/../b/./c", "http://h.io/%2e%2e/x",
            "http://h.io/é?ü=ö", "http://h.io/a b?c d", "http://u:p@h.io/x", "ftp://h.io/x", "custom://h/p?q", "http://h.io/x?", "http://h.io/'\"<>`{}|^[]\\?'\"<>`{}|^[]\\", "http://h.io/?http://x/",
            "http://h.io/http://x/y", "http://h.io/*", "http://h.io/%00%0d%0a", "http://h.io/a\r\nb", "http://h.io/x?#", "ws://h.io/chat?room=1"]
    hists, bodies = [], huge_bodies(rng)
    for i in range(12000 if THOROUGH else 2500):
        u = rng.choice(urls) if i % 2 else "http://" + rng.choice(["h", "a.b:8080"]) + "/" + "".join(rng.choice(pc) for _ in range(rng.choice([0, 1, 3, 10]))) \
            + rng.choice(["", "?" + "".join(rng.choice(pc + "?") for _ in range(rng.choice([0, 1, 3, 10])))])
        b = bodies[i] if i < len(bodies) else rnd_body(rng)
        if rng.random() < 0.05 and i >= len(bodies):
            n = rng.choice([1000, 8191, 8192, 8193, 20000])
            b = dict(data="".join(chr(rng.randrange(256)) for _ in range(n)), len=rng.choice([n, n - 5, -1]))
        if rng.random() < 0.02:
            n = rng.choice([256, 1001, 4097, 8193])
            u += rng.choice(["/", "?", "#", "a", "/../", "&"]) + ("".join(rng.choice(pc + "?&/") for _ in range(37)) * (n // 37 + 1))[:n]
        m = rng.choice(["GET", "POST", "HEAD", "other:PUT", "other:OPTIONS", "other:CONNECT", "other:" + rnd_name(rng), "other:Get"])
        seen = {"host"}
        hs = []
        for _ in range(rng.choice([0, 1, 2, 5, 10, 17, 18, 19])):
            k = rnd_name(rng)
            if k.lower() in ("host", "content-length") or any(k == a for a, _ in hs):
                continue
            hs.append([k, valid_value(rng)])
            if rng.random() < 0.2:
                hs.append([rnd_case(rng, k), valid_value(rng)])
        hs = hs[:18]
        hs.append([rnd_case(rng, "host"), rng.choice(["h.io", "X.y:81", "a"])])
        n = len(b["data"]) if b["len"] < 0 else min(b["len"], len(b["data"]))
        if rng.random() < 0.7:
            hs.append([rnd_case(rng, "content-length"), str(n)])
        rng.shuffle(hs)
        one_longer(rng, hs)
        calls = [dict(c="header", k=k, v=v) for k, v in hs] if rng.random() < 0.7 else [dict(c="headers", h=hs)]
        calls += [dict(c="method", m=m), dict(c="body", b=b)]
        rng.shuffle(calls)
        hists.append((u, calls, n, any(k.lower() == "content-length" for k, _ in hs)))
    reps = box.exec_many([dict(op="req_write", url=u.encode().hex(), calls=harness_calls(rng, calls), wmax=rng.choice([1, 2, 7, 100, 1 << 30, 1 << 30])) for u, calls, _, _ in hists])
    keep = [(h, r) for h, r in zip(hists, reps) if r["r"] != "badurl"]
    backs = box.exec_many([parse_cmd(rng, "request", bytes.fromhex(r.get("wire", "")), b"GET / HTTP/1.1\r\nHost: h\r\n\r\n" if h[3] and rng.random() < 0.5 else b"", "eof") for h, r in keep])
    ss = []
    for (h, r), b in zip(keep, backs):
        ev = call_events(h[1])
        ev.append(dict(e="built", r="ok" if r["r"] in ("ok", "err") else r["r"], **show(r)))
        if "wire" in r:
            ev.append(dict(e="write", r=r["r"], wire=hexs(r["wire"]), path=r["path"], query=r["query"]))
            ev.append(dict(back_event(b), opath=r["path"], oquery=r["query"]))
        ss.append(dict(kind="request", url=r.get("url", ""), given=h[0], runs=ev))
    ck.cov["evaluations"] = len(ss)
    for s in ss[:: max(1, len(ss) // 4)]:
        ck.sample(s)
    validate(ck, "Trace_HttpWrite", ss, describe=lambda s, ev, l: "url %r, %s" % (s["given"], describe(s, ev, l)))


def huge_bodies(rng):
    """bodies beyond every buffer"""
    out = []
    for n in (65535, 65536, 65537, 70000, 131073, 1048577, 1200000):
        d = "".join(chr(rng.randrange(256)) for _ in range(997))
        d = (d * (n // 997 + 1))[:n]
        out.append(dict(data=d, len=rng.choice([n, n, -1, n - 1])))
    return out


def res_hists(rng, n, readable, huge=False):
    out = []
    bodies = huge_bodies(rng) if huge else []
    for i in range(n):
        b = bodies[i] if i < len(bodies) else rnd_body(rng)
        if rng.random() < 0.05 and i >= len(bodies):
            k = rng.choice([1000, 8191, 8192, 8193, 20000])
            b = dict(data="".join(chr(rng.randrange(256)) for _ in range(k)), len=rng.choice([k, k - 5, -1]))
        size = len(b["data"]) if b["len"] < 0 else min(b["len"], len(b["data"]))
        hs = []
        for _ in range(rng.choice([0, 1, 2, 5, 10, 17, 18, 19])):
            k = rnd_name(rng)
            if k.lower() == "content-length" or any(k == a for a, _ in hs):
                continue
            hs.append([k, valid_value(rng) if readable else rnd_value(rng)])
            if rng.random() < 0.2:
                hs.append([rnd_case(rng, k), valid_value(rng)])
        hs = hs[:19]
        if readable or rng.random() < 0.5:
            hs.append([rnd_case(rng, "content-length"), str(size)])
        if readable and rng.random() < 0.4 and len(hs) < 20:
            hs.insert(0, ["Content-Type", rng.choice(["1", "0", "3", "text/html"])])
        rng.shuffle(hs)
        one_longer(rng, hs)
        calls = [dict(c="header", k=k, v=v) for k, v in hs] if rng.random() < 0.7 else [dict(c="headers", h=hs)]
        if readable or rng.random() < 0.8:
            reason = rng.choice(["", "OK", "a  b", "x!y(z) 7", "not found", "\"q\"", "a\tb", "200", "".join(chr(rng.randrange(32, 127)) for _ in range(rng.choice([1, 2, 5, 30]))).strip()])
            if rng.random() < 0.01:
                reason = "r" * rng.choice([256, 1001, 4097]) + reason + "."
            calls.append(dict(c="status", code=rng.choice([100, 101, 200, 204, 304, 404, 500, 999, rng.randrange(100, 1000)]), reason=reason))
        calls.append(dict(c="body", b=b))
        rng.shuffle(calls)
        if not readable and rng.random() < 0.45:
            # a line break somewhere
            bad = rng.choice(["\r\n", "\n", "\r", "\r\nX-Evil: 1", "\r\n\r\n<h1>", "a\nb", "a\r", "\nb"])
            k = rng.choice(["name", "value", "reason", "both"])
            if k == "name":
                calls.insert(rng.randrange(len(calls) + 1), dict(c="header", k=rng.choice(["A" + bad, bad + "A", bad]), v="1"))
            elif k == "value":
                calls.insert(rng.randrange(len(calls) + 1), dict(c="header", k="X-V", v=rng.choice(["v" + bad, bad, bad + "v"])))
            elif k == "reason":
                calls.append(dict(c="status", code=200, reason=rng.choice(["OK" + bad, bad])))
            else:   # set, then overwritten by a harmless value
                calls.insert(0, dict(c="header", k="X-V", v=bad))
                calls.append(dict(c="header", k="X-V", v="fine"))
        if not readable and rng.random() < 0.2:
            calls.append(dict(c="header", k=rng.choice(["", "a b", "é€".encode().decode("latin-1"), ":", "X"]), v=rng.choice([" lead", "trail ", "", "\0", "\x7f", "a:b"])))
        out.append(calls)
    return out


def encode(ck, box, hists, direct=0.7):
    """-> [(calls, via, reply)]"""
    rng = ck.rng
    cmds = [dict(op="res_encode", calls=harness_calls(rng, c), via="" if rng.random() < direct else "write_response", wmax=rng.choice([1, 2, 7, 100, 1 << 30, 1 << 30])) for c in hists]
    return [(h, c["via"], r) for h, c, r in zip(hists, cmds, box.exec_many(cmds))]


def write_event(via, r):
    # write_response has no result; it refuses by panicking
    res = "void" if via else r["r"]
    if r["r"] in ("crash", "hang"):
        res = "void" if via and r["r"] == "crash" else r["r"]
    return dict(e="write", r=res, wire=hexs(r.get("wire", "")))


def live_responses(ck, hists, per_server):
    """Sends a request to each of three servers, lets the handler respond, reads to the end of the stream."""
    from .ws import Ctl, Misbehaved, connect, server_cfgs
    rng = ck.rng
    box = Box(ck, build("box", "verifbox"), args_of=server_cfgs, nports=3, name="live")
    ck.children.append(box)
    out = []
    bad = 0
    for i, calls in enumerate(hists[: 3 * per_server]):
        ctl, c = Ctl(), None
        data, end, r = b"", "eof", dict(r="crash")
        try:
            c = connect(box.ports[i % 3])
            c.settimeout(patience())
            c.sendall(b"GET /p HTTP/1.1\r\nHost: h\r\nx-match: 0\r\nx-ctl: %s\r\n\r\n" % ctl.addr.encode())
            ctl.take()
            r = ctl.ask(dict(c="respond", calls=harness_calls(rng, calls)))
            try:
                ctl.put(dict(c="return"))
            except OSError:
                pass
            while True:
                x = c.recv(65536)
                if not x:
                    break
                data += x
        except socket.timeout:
            end = "open"
        except (OSError, ValueError):
            end = "reset"
        except Misbehaved:
            end = "refused"
        c and c.close()
        ctl.close()
        out.append((calls, ["foreach", "router", "run"][i % 3], r, data, end))
        bad += end in ("open", "refused")
        if bad > 3:
            break
    return out


def c08(ck):
    box, rng = box_for(ck), ck.rng
    hists = res_hists(rng, 12000 if THOROUGH else 2500, False, huge=True)
    small = [c["calls"] for c in behaviours(ck, "Gen_Builders", env=dict(LONG="no")) if c["kind"] == "response" and not c["posts"]]
    rng.shuffle(small)
    hists += small[: None if THOROUGH else 400]
    ss = []
    for calls, via, r in encode(ck, box, hists):
        ss.append(dict(kind="response", url="", runs=call_events(calls) + [write_event(via, r)]))
    live = res_hists(rng, 3 * (300 if THOROUGH else 60), False, huge=True)
    for calls, mode, r, data, end in live_responses(ck, live, 300 if THOROUGH else 60):
        ss.append(dict(kind="response", url="", mode=mode, runs=call_events(calls) + [dict(e="write", r=r["r"] if end == "eof" else "stream " + end, wire=lat(data))]))
    ck.cov["evaluations"] = len(ss)
    for s in ss[:: max(1, len(ss) // 4)]:
        ck.sample(s)
    validate(ck, "Trace_HttpWrite", ss, describe=describe)


def c10(ck):
    box, rng = box_for(ck), ck.rng
    hists = res_hists(rng, 12000 if THOROUGH else 2500, True, huge=True)
    enc = encode(ck, box, hists, direct=1.0)
    backs = box.exec_many([parse_cmd(rng, "response", bytes.fromhex(r.get("wire", "")), rng.choice([b"", b"x", b"\r\n\r\n", b"HTTP/1.1 200 OK\r\n\r\n", bytes(rng.randrange(256) for _ in range(50))]),
                                     rng.choice(["eof", "stall"])) for _, _, r in enc])
    ss = []
    for (calls, via, r), b in zip(enc, backs):
        # a reader that was made to wait for bytes beyond the declared length would stall
        ev = back_event(b)
        if b.get("stalls", 0):
            ev["r"] = "waited"
        ss.append(dict(kind="response", url="", runs=call_events(calls) + [write_event(via, r), ev]))
    ck.cov["evaluations"] = len(ss)
    for s in ss[:: max(1, len(ss) // 4)]:
        ck.sample(s)
    validate(ck, "Trace_HttpWrite", ss, describe=describe)
    # and texts that are not responses
    plans = []
    for c in gen(ck, "response", 0):
        plans.append(("response", c["wire"], [plan_run(rng, c["wire"], h, e, "reads") for h, e in (("whole", "eof"), ("rand", "eof"))]))
    for _ in range(6000 if THOROUGH else 800):
        w = rnd_response(rng)
        if rng.random() < 0.7:
            w = rnd_mutant(rng, w)
        if rng.random() < 0.2:
            w = w[: rng.randrange(len(w) + 1)]
        plans.append(("response", w, [plan_run(rng, w, h, e, "reads") for h, e in (("whole", "eof"), ("rand", "stall"))]))
    validate_plans(ck, box, plans)
