#!/usr/bin/env python3
"""Applies the changes listed in tools/mutants/*.py one by one and runs the checks of their properties on each (not
used by any check).  Works on copies of /repo and /verif which are mounted over them in a namespace of their own, so
nothing real is changed.   tools/mutate.py [-j N] [-o LOG] SET[:name,...] ..."""
import importlib, os, shutil, subprocess, sys, threading, queue
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "mutants"))


def worker(k, q, log, lock):
    base = "/tmp/mutate.%d.%d" % (os.getpid(), k)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.check_call(["cp", "-a", "/repo", base + "/repo"])
    subprocess.check_call("cd %s/repo && git checkout -q -- ." % base, shell=True)
    subprocess.check_call(["cp", "-a", "/verif", base + "/verif"])
    while True:
        try:
            name, props, f, edits = q.get_nowait()
        except queue.Empty:
            break
        subprocess.check_call("cd %s/repo && git checkout -q -- ." % base, shell=True)
        p = os.path.join(base, "repo", f)
        s = open(p).read()
        bad = [a for a, b in edits if s.count(a) != 1]
        if bad:
            line = "%s: %r is there %d times" % (name, bad[0][:80], s.count(bad[0]))
        else:
            for a, b in edits:
                s = s.replace(a, b)
            open(p, "w").write(s)
            rs = []
            for prop in props.split(","):
                r = subprocess.run(["unshare", "-Urm", "sh", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && VERIF_SEED=%s exec timeout 1200 python3 check.py %s" % (base, base, os.environ.get("VERIF_SEED", "1"), prop)],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                out = r.stdout.decode(errors="replace").splitlines()
                open("/tmp/mutate.%s.%s.log" % (name, prop), "w").write("\n".join(out))
                why = [l for l in out if l.startswith("violated") or "error" in l]
                rs.append("%s=%d" % (prop, r.returncode) + (" " + why[0][:260] if r.returncode and why else ""))
            line = "%s: %s" % (name, "; ".join(rs))
        with lock:
            print(line, file=log, flush=True)
    shutil.rmtree(base, ignore_errors=True)


def main():
    args, n, log = sys.argv[1:], 2, sys.stdout
    while args and args[0].startswith("-"):
        if args[0] == "-j":
            n = int(args[1])
        else:
            log = open(args[1], "a")
        args = args[2:]
    q = queue.Queue()
    for a in args:
        s, _, names = a.partition(":")
        for m in importlib.import_module(s).MUTANTS:
            if not names or m[0] in names.split(","):
                q.put(m)
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, q, log, lock)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
