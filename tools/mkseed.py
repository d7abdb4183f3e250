"""Development aid: makes /verif/seeded/<id>/ from a description (not used by any check).
usage: mkseed.py FILE...   each FILE is a Python file defining id, property, needs, breaks, edits, and main and/or client"""
import json, os, re, shutil, subprocess, sys
T = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seed")
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
for f in sys.argv[1:]:
    d = {}
    exec(open(f).read(), d)
    wt = "/tmp/seed_wt"
    if not os.path.isdir(wt):
        subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    subprocess.check_call(["git", "-C", wt, "fetch", "-q", "origin"])
    subprocess.check_call(["git", "-C", wt, "reset", "-q", "--hard", "origin/HEAD"])
    for path, old, new in d["edits"]:
        p = os.path.join(wt, path)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %s: %d occurrences of %r" % (f, path, s.count(old), old))
        open(p, "w").write(s.replace(old, new))
    o = os.path.join(OUT, d["id"])
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "wb").write(subprocess.check_output(["git", "-C", wt, "diff"]))
    json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(os.path.join(o, "meta.json"), "w"), indent=1)
    live = d.get("kit") == "live"
    ex = d.get("kit") in ("list", "chat")
    TT = T + "_live" if live else T + "_examples" if ex else T
    open(os.path.join(o, "demo.sh"), "w").write(d.get("demo") or open(os.path.join(TT, "demo.sh")).read().replace("@ID@", d["id"]).replace("@BIN@", d.get("kit", "")))
    if live:
        h = os.path.join(os.path.dirname(os.path.dirname(T)), "harness")
        shutil.rmtree(os.path.join(o, "app"), ignore_errors=True)
        shutil.copytree(os.path.join(h, "live"), os.path.join(o, "app"))
        shutil.copy(os.path.join(h, "browser", "browser.js"), o)
    if ex:
        h = os.path.join(os.path.dirname(os.path.dirname(T)), "harness")
        for n in ("live", "examples"):
            shutil.rmtree(os.path.join(o, n), ignore_errors=True)
            shutil.copytree(os.path.join(h, n), os.path.join(o, n))
        shutil.copy(os.path.join(h, "browser", "browser.js"), o)
        shutil.copy(os.path.join(h, "bind", "bind.c"), o)
    if d.get("kit") == "apply":
        h = os.path.join(os.path.dirname(os.path.dirname(T)), "harness")
        open(os.path.join(o, "demo.sh"), "w").write(open(T + "_apply.sh").read().replace("@ID@", d["id"]))
        for n in ("live", "apply"):
            shutil.rmtree(os.path.join(o, n), ignore_errors=True)
            shutil.copytree(os.path.join(h, n), os.path.join(o, n))
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    for n in ("Cargo.toml", "Cargo.lock"):
        if not d.get("demo") and not live and not ex and d.get("kit") != "apply":
            shutil.copy(os.path.join(T, n), o)
    if "main" in d:
        open(os.path.join(o, "main.rs"), "w").write(open(os.path.join(T, "common.rs")).read() + d["main"])
    if "client" in d:
        open(os.path.join(o, "client.py"), "w").write(open(os.path.join(TT, "common.py")).read() + d["client"])
    for n, text in d.get("files", {}).items():
        open(os.path.join(o, n), "w").write(text)
    print(d["id"])
