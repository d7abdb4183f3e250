#!/usr/bin/env python3-vt
"""Is the oracle sharp?  Takes the traces which the checks recorded last (run/<id>/trace.<module>.*.json),
corrupts one thing in each of a number of them - an event left out, said twice, exchanged with the next one, or
one value in an event changed - and counts what the trace specification refuses.  Corruptions which are accepted
are printed, to be explained.

  tools/corrupt.py ID [module] [n]        (after `./check.py ID`)
"""
import copy, glob, json, os, random, re, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
from vlib.core import JARS, SPEC
rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        if x:
            yield path + ("#",)
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    else:
        yield path


def change(x, path):
    p = path
    while len(p) > 1:
        x, p = x[p[0]], p[1:]
    k = p[0]
    if k == "#":
        i = rng.randrange(len(x))
        if rng.random() < .5 or not x:
            del x[i]
        else:
            x.insert(i, copy.deepcopy(x[i]))
        return "list"
    v = x[k]
    if isinstance(v, bool):
        x[k] = not v
    elif isinstance(v, int):
        x[k] = v + rng.choice([-1, 1])
    else:
        i = rng.randrange(len(v) + 1)
        x[k] = rng.choice([v[:i] + "z" + v[i:], v[:i] + v[i + 1:] if i < len(v) else v + "z", v.swapcase() if v.swapcase() != v else v + "z"])
    return "value"


def corrupt(s, only=None):
    """a session with one corruption, and what was done"""
    s = copy.deepcopy(s)
    rs = s["runs"]
    how = rng.choice(["leave out", "twice", "swap", "value", "value", "value"]) if len(rs) > 1 else "value"
    i = rng.randrange(len(rs))
    if how == "leave out":
        return s, [how, rs.pop(i)]
    if how == "twice":
        rs.insert(i, copy.deepcopy(rs[i]))
        return s, [how, rs[i]]
    if how == "swap":
        i = min(i, len(rs) - 2)
        if rs[i] == rs[i + 1]:
            return None
        rs[i], rs[i + 1] = rs[i + 1], rs[i]
        return s, [how, rs[i + 1], rs[i]]
    ps = [p for p in leaves(rs[i]) if p != ("e",)]
    if not ps:
        return None
    p = rng.choice(ps)
    old = json.dumps(rs[i])
    change(rs[i], p)
    if json.dumps(rs[i]) == old:
        return None
    return s, [how, json.loads(old), list(p), rs[i]]


def accepted(module, sessions, d):
    """which sessions the specification accepts to the end"""
    if not sessions:
        return set()
    name = "Corrupted"
    text = open(os.path.join(SPEC, module + ".cfg")).read()
    text = re.sub(r"CHECK_DEADLOCK \w+", "", text)
    open(os.path.join(d, name + ".tla"), "w").write(
        "---- MODULE %s ----\nEXTENDS %s\nTold == l > Len(S.runs) => PrintT(<<\"accepted\", t>>)\n====\n" % (name, module))
    open(os.path.join(d, name + ".cfg"), "w").write(text + "\nCHECK_DEADLOCK FALSE\nINVARIANT Told\n")
    trace = os.path.join(d, "trace.json")
    json.dump(sessions, open(trace, "w"))
    if "EXTENDS" in text:
        pass
    p = subprocess.run(["java", "-Xss64m", "-Xmx4g", "-XX:+UseSerialGC", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC", "-workers", "1", "-metadir", os.path.join(d, "meta"),
                        "-noGenerateSpecTE", "-config", name + ".cfg", name + ".tla"], cwd=d, env=dict(os.environ, TRACE=trace),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode("utf-8", "replace")
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    if p.returncode in (10, 1) or re.search("Parsing or semantic|Could not parse", out):
        sys.exit(out[-2000:])
    if p.returncode == 0:
        return {int(x) - 1 for x in re.findall(r'<<"accepted", (\d+)>>', out)}
    if len(sessions) == 1:
        return set()
    h = len(sessions) // 2
    return accepted(module, sessions[:h], d) | {h + i for i in accepted(module, sessions[h:], d)}


def main():
    pid = sys.argv[1]
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 300
    modules = {os.path.basename(p).split(".")[1] for p in glob.glob(os.path.join(ROOT, "run", pid, "trace.*.json"))}
    if len(sys.argv) > 2 and sys.argv[2] != "all":
        modules = {sys.argv[2]}
    for m in sorted(modules):
        ss = [s for p in sorted(glob.glob(os.path.join(ROOT, "run", pid, "trace.%s.*.json" % m))) for s in json.load(open(p))]
        ss = [s for s in ss if s["runs"] and len(json.dumps(s)) < 200000]
        cs = []
        while len(cs) < n:
            c = corrupt(rng.choice(ss))
            if c:
                cs.append(c)
        d = tempfile.mkdtemp(prefix="corrupt")
        acc = set()
        try:
            for k in range(0, n, 40):
                acc |= {k + i for i in accepted(m, [c[0] for c in cs[k:k + 40]], d)}
        finally:
            shutil.rmtree(d, ignore_errors=True)
        kinds = {}
        for i, c in enumerate(cs):
            a = kinds.setdefault(c[1][0], [0, 0])
            a[0] += 1
            a[1] += i not in acc
        print("%s %s: refused %d of %d (%s)" % (pid, m, n - len(acc), n, ", ".join("%s %d/%d" % (k, v[1], v[0]) for k, v in sorted(kinds.items()))))
        for i in sorted(acc):
            print("  accepted:", json.dumps(cs[i][1])[:700])


main()
