"""C27: changesets between elements, applied on the server."""
from .core import *
from .live import copy_tree, edited, flat, laden, long_texts, rnd_big, rnd_node

TOP = 4294967294        # the greatest id but one (usize has 32 bits there): the greatest is the spare one


def numbered(rng, t, how):
    """The element with ids: in document order, or any numbers."""
    t = copy_tree(t)
    ns = flat(t)
    if how == "order":
        start = rng.choice([0, 0, 1, 7] if rng.random() < 0.9 else [250, 65530, 1 << 31, TOP - 1 - len(ns)])
        ids = list(range(start, start + len(ns)))
    elif how == "tight":        # as few as possible, so that they change hands
        ids = list(range(len(ns)))
        rng.shuffle(ids)
    else:
        ids = rng.sample(list(range(3 * len(ns))) + [TOP, TOP - 1, 1 << 31, 1 << 16], len(ns))
    for x, i in zip(ns, ids):
        x["id"] = i
    return t


def with_keys(rng, t, pool, chance):
    """Keys for the children of some elements: an element keeps its key as it is edited."""
    for x in flat(t):
        if x["k"] and rng.random() < chance:
            for y in x["k"]:
                if y.get("key") is None or rng.random() < 0.05:
                    y["key"] = rng.choice(pool) if rng.random() < 0.1 else "k%d" % rng.randrange(10 ** 6)
        elif rng.random() < 0.1:
            for y in x["k"]:
                y.pop("key", None)
    return t


def bare(t):
    """A tree of the model as an element"""
    return dict(n=t["n"], a=[], t=[], l=[], key=t["key"] or None, k=[bare(x) for x in t["k"]])


def project(t):
    return dict(id=str(t["id"]), n=t["n"], a=[list(p) for p in t["a"]], t=t["t"], l=[list(p) for p in t["l"]], k=[project(x) for x in t["k"]])


def c27(ck):
    rng = ck.rng
    model_check(ck, "MC_KeyedDiff", "MC_KeyedDiff_deep" if THOROUGH else None, workers=4)
    model = [bare(t) for t in generate(ck, "Gen_Keyed", env=dict(LONG="yes" if THOROUGH else "no"))]
    model += [dict(t, key=None) for t in generate(ck, "Gen_Trees", env=dict(LONG="no"))][:: 1 if THOROUGH else 6]
    jobs = []
    for i, a in enumerate(model):           # every element of the model becomes every other one, and back
        w = [a]
        for b in model[i + 1:]:
            w += [b, a]
        how = ("order", "tight", "any")[i % 3]
        jobs += [[numbered(rng, x, how) for x in w[k:k + 61]] for k in range(0, max(1, len(w) - 1), 60)]
    of_model = sum(len(j) - 1 for j in jobs)
    for _ in range(8000 if THOROUGH else 700):
        t = rnd_node(rng, [rng.choice([1, 2, 4, 8, 14, 30])]) if rng.random() < 0.95 else rnd_big(rng) if rng.random() < 0.8 else long_texts(rng, rng.choice([300, 5000, 70000]))
        if rng.random() < 0.08:
            laden(rng, t)
        keys, how, w = rng.random() < 0.7, rng.choice(["order", "tight", "any"]), []
        for _ in range(rng.choice([2, 6, 12]) if len(jobs) % 150 else 150):
            if keys:
                with_keys(rng, t, "abc", 0.8)
            w.append(numbered(rng, t, how))
            t = edited(rng, t) if rng.random() < 0.93 else rnd_node(rng, [8])
        jobs.append(w)
    box = Box(ck, build("apply", "verifapply"), name="apply")
    ck.children.append(box)
    res = box.exec_many([dict(trees=j) for j in jobs])
    ss, bad = [], 0
    for i, (j, r) in enumerate(zip(jobs, res)):
        if r["r"] != "ok":
            bad += 1
            if bad <= 3:
                ck.violation("a history of an element ends with %s" % r["r"], dict(trees=j))
            continue
        ss.append(dict(id="h%d" % i, first=project(j[0]), runs=[dict(to=project(b), shown=project(o)) for b, o in zip(j[1:], r["out"])]))
    ck.cov["evaluations"] = sum(len(s["runs"]) for s in ss)
    ck.part("changes", of_the_model=of_model, at_random=sum(len(j) - 1 for j in jobs) - of_model)
    for s in ss[:: max(1, len(ss) // 3)]:
        ck.sample(dict(id=s["id"], first=s["first"], run=s["runs"][0]))
    def describe(s, ev, l):
        return "history %s, change %d: from %s to %s became %s" % (s["id"], l, json.dumps(s["first"] if l == 1 else s["runs"][l - 2]["to"])[:700], json.dumps(ev["to"])[:700], json.dumps(ev["shown"])[:700])
    validate(ck, "Trace_Changes", ss, describe=describe, heap="3g")
