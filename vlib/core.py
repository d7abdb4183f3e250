"""Shared machinery of the checks: build the harness from /repo's tree, run it, run TLC, report."""
import json, os, random, re, shutil, socket, subprocess, sys, threading, time, queue, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
LUNATIC = "/opt/vp/lunatic/bin/lunatic"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def die_with_parent():
    """(in a child process) no child outlives the check"""
    import ctypes, signal
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


class ToolError(Exception):
    """The machinery (not the code under test) failed: exit 2."""


class Violation(Exception):
    pass


def env_build(target):
    e = dict(os.environ)
    e.update(
        HOME="/root", RUSTUP_TOOLCHAIN="1.81.0", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
        CARGO_TARGET_DIR=os.path.join(ROOT, "target", target),
        PATH="/opt/vp/lunatic/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", ""),
    )
    return e


def build(crate, binary):
    """Builds harness crate /verif/harness/<crate> against /repo's working tree; returns the wasm."""
    d = os.path.join(ROOT, "harness", crate)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--target", "wasm32-wasi"], cwd=d,
                       env=env_build(crate), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
    if p.returncode != 0:
        raise ToolError("harness %s does not build:\n%s" % (crate, p.stdout.decode(errors="replace")[-4000:]))
    return os.path.join(ROOT, "target", crate, "wasm32-wasi", "debug", binary + ".wasm")


def free_ports(n):
    ss = []
    for _ in range(n):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(("127.0.0.1", 0))
        ss.append(s)
    ports = [s.getsockname()[1] for s in ss]
    for s in ss:
        s.close()
    return ports


def lat(b):
    """bytes -> string with one character per byte (the specification's byte strings)"""
    return b.decode("latin-1")


def unlat(s):
    return s.encode("latin-1")


def hexs(h):
    return lat(bytes.fromhex(h))


# ---------------------------------------------------------------------------------------- reporting
def patience(base=20):
    """How long to wait for something which is due, in seconds: longer on a busy machine."""
    try:
        busy = os.getloadavg()[0] / (os.cpu_count() or 1)
    except OSError:
        busy = 1
    return base * min(6, max(1, busy))


class Check:
    def __init__(self, pid, level):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.rng = random.Random("%s/%d" % (pid, SEED))
        self.dir = os.path.join(ROOT, "run", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.parts = []
        self.assumptions = []
        self.known = load_known(pid)
        self.known_hit = {}
        self.children = []

    def path(self, name):
        return os.path.join(self.dir, name)

    def sample(self, x, cap=6):
        if len(self.cov["samples"]) < cap:
            s = json.dumps(x, ensure_ascii=True)
            self.cov["samples"].append(json.loads(s) if len(s) < 1500 else s[:1500])

    def part(self, name, **kw):
        self.parts.append(dict(part=name, at_s=round(time.time() - self.t0, 1), **kw))

    def violation(self, what, replay):
        """what: one line; replay: JSON-able description of the failing input/schedule/history"""
        for k in self.known:
            if k["match"](what, replay):
                self.known_hit[k["id"]] = k["text"]
                return
        p = self.path("violation.json")
        json.dump(dict(property=self.pid, what=what, seed=SEED, tier=TIER, replay=replay), open(p, "w"), indent=1, default=str)
        print("violated: " + what[:2000])
        print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
        self.evidence(1)
        raise Violation(what)

    def evidence(self, violations=0):
        cov = dict(self.cov)
        cov["parts"] = self.parts
        cov["explanation"] = "states/transitions: TLC, summed over the model-checking and trace-validation runs listed in parts; traces_validated_against_impl: executions of the real code accepted by the specification"
        if not cov["samples"]:
            cov["samples"] = ["(none)"]
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                  level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w"), indent=1)

    def finish(self):
        for k, text in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        self.evidence(0)
        print("%s held on everything explored (%.1f s)" % (self.pid, time.time() - self.t0))


def load_known(pid):
    """known-findings.json: [{property, id, text, input, match: substring of what | allowed_by: where the specification admits it}]; `fixed` entries suppress nothing"""
    p = os.path.join(ROOT, "known-findings.json")
    out = []
    if os.path.exists(p):
        for k in json.load(open(p)).get("findings", []):
            if k["property"] == pid:
                out.append(dict(id=k["id"], text=k["text"], match=lambda what, replay, k=k: "match" in k and k["match"] in what))
    return out


# ---------------------------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, ok, out, states, distinct, depth, error):
        self.ok, self.out, self.states, self.distinct, self.depth, self.error = ok, out, states, distinct, depth, error


def tlc(ck, module, cfg=None, env=None, workers=8, args=(), timeout=600, heap="6g", label=None, seed=None, partial=False):
    """Runs TLC on spec/<module>.tla. Result .ok is False only for a genuine property violation/deadlock."""
    meta = ck.path("meta.%s.%d.%d" % (module, threading.get_ident(), time.time_ns()))
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
           "-Djava.io.tmpdir=" + meta + ".tmp", "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-seed", str(SEED if seed is None else seed), "-config", (cfg or module) + ".cfg", "-noGenerateSpecTE", *args, module + ".tla"]
    t0 = time.time()
    e = dict(os.environ)
    e.update(env or {})
    os.makedirs(meta + ".tmp", exist_ok=True)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=die_with_parent)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s ran out of its %d s" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(meta + ".tmp", ignore_errors=True)
    out = p.stdout.decode("utf-8", "replace")
    open(ck.path("tlc.%s.log" % (label or module)), "w").write(out)
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states", out)
    g, d = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    if "-simulate" in args:
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        g = d = int(m[-1].replace(",", "")) if m else 0
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    depth = int(m.group(1)) if m else 0
    # exit codes: 0 ok, 10 assumption, 11 deadlock, 12 safety, 13 liveness; others are errors
    # an expression of the specification that has no value for what was recorded (only with `partial`)
    undefined = partial and p.returncode not in (0, 11, 12, 13) and re.search(r"Attempted to|evaluating|is not in the domain|out of range", out) \
        and not re.search(r"OutOfMemory|StackOverflow|Java heap|Parsing or semantic|Could not parse|FileNotFound", out)
    if p.returncode not in (0, 11, 12, 13) and not undefined:
        raise ToolError("TLC on %s exited %d:\n%s" % (module, p.returncode, out[-3000:]))
    ck.cov["states"] += d
    ck.cov["transitions"] += g
    ck.part("tlc:" + (label or module), states=d, transitions=g, depth=depth, wall_s=round(time.time() - t0, 1))
    return Tlc(p.returncode == 0, out, g, d, depth, p.returncode)


def model_check(ck, module, cfg=None, **kw):
    """Design-level check: a violation here is an error of the specification, not of the code."""
    r = tlc(ck, module, cfg, **kw)
    if not r.ok:
        raise ToolError("the specification %s itself violates a property:\n%s" % (module, r.out[-3000:]))
    return r


def model_refutes(ck, module, cfg, name, **kw):
    """A design which is known not to keep the property `name`: the specification has to show that."""
    r = tlc(ck, module, cfg, label=cfg, **kw)
    if r.ok or not any(x % name in r.out for x in ("Invariant %s is violated", "Temporal property %s was violated")):
        raise ToolError("the specification %s (%s) does not refute %s:\n%s" % (module, cfg, name, r.out[-3000:]))
    return r


def last_state(out):
    """variables (as TLA+ text) of the last state of a counterexample"""
    blocks = re.split(r"\nState \d+: .*\n", out)
    if len(blocks) < 2:
        m = re.search(r"is:\n((?:/\\ .*\n(?:(?!/\\|\n).*\n)*)+)", out)
        text = m.group(1) if m else ""
    else:
        text = blocks[-1].split("\n\n")[0]
    vs = {}
    for m in re.finditer(r"(?m)^(?:/\\ )?(\w+) = ((?:.|\n(?!/\\ ))*)", text):
        vs[m.group(1)] = m.group(2).strip()
    return vs


def validate(ck, module, sessions, events_key="runs", describe=None, env=None, shards=8, timeout=600, cfg=None, heap="2g"):
    """Trace validation: every session must be accepted by spec/<module>.tla (deterministic: one
    behaviour per session, a session that is refused deadlocks). Reports the first refused event.
    The sessions are dealt out to several TLC processes."""
    if not sessions:
        return
    n = min(shards, 1 + len(sessions) // 40)
    weight = sorted(range(len(sessions)), key=lambda i: -len(json.dumps(sessions[i])))
    deal = [[] for _ in range(n)]
    for k, i in enumerate(weight):
        deal[k % n].append(i)
    out, errs = [None] * n, []

    def one(k):
        try:
            out[k] = _validate_shard(ck, module, [sessions[i] for i in deal[k]], events_key, describe, env, timeout, cfg, heap, k)
        except BaseException as e:  # noqa
            errs.append(e)

    ts = [threading.Thread(target=one, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    refused = [r for rs in out for r in rs]
    for what, replay in refused:
        ck.violation(what, replay)
    ck.cov["traces_validated_against_impl"] += len(sessions) - len(refused)
    ck.part("validated:" + module, sessions=len(sessions), events=sum(len(s[events_key]) for s in sessions))


def _validate_shard(ck, module, sessions, events_key, describe, env, timeout, cfg, heap, k):
    refused = []
    while True:
        path = ck.path("trace.%s.%d.json" % (module, k))
        json.dump(sessions, open(path, "w"), ensure_ascii=True)
        e = dict(TRACE=path)
        e.update(env or {})
        r = tlc(ck, module, cfg, env=e, workers=1, timeout=timeout, heap=heap, label="%s.%d" % (module, k), partial=True)
        if r.ok:
            return refused
        if "tlc2.overrides.Json.deserialize" in r.out:
            raise ToolError("the trace cannot be read:\n" + r.out[-3000:])
        vs = last_state(r.out)
        if ("t" not in vs or "l" not in vs) and r.error not in (11, 12, 13):
            if len(sessions) > 1:
                # no state was printed: find the session
                half = len(sessions) // 2
                for part in (sessions[:half], sessions[half:]):
                    found = _validate_shard(ck, module, part, events_key, describe, env, timeout, cfg, heap, k)
                    if found:
                        return refused + found
            return refused + [("%s has no value for what was recorded: %s" % (module, (describe or str)(sessions[0], None, 1) if describe else "session"),
                               dict(session=sessions[0], tlc=r.out[-3000:]))]
        if "t" not in vs or "l" not in vs:
            raise ToolError("TLC refused a trace but its output is not understood:\n" + r.out[-3000:])
        t, l = int(vs["t"]), int(vs["l"])
        s = sessions[t - 1]
        ev = s[events_key][l - 1] if l <= len(s[events_key]) else None
        what = (describe or (lambda s, ev, l: "event %d of session: %s" % (l, json.dumps(ev)[:600])))(s, ev, l)
        refused.append(("%s refuses: %s" % (module, what), dict(session=s, refused_event_index=l, refused_event=ev, spec_state=vs)))
        if not ck.known or len(refused) > 200:
            return refused
        # known findings: go on with the other sessions
        sessions = sessions[:t - 1] + sessions[t:]
        if not sessions:
            return refused


def generate(ck, module, env=None, label=None, timeout=600, seed=None):
    """Enumerates cases with a Gen_ module which writes JSON to IOEnv.OUT."""
    out = ck.path("gen.%s.json" % (label or module))
    e = dict(OUT=out)
    e.update(env or {})
    r = tlc(ck, module, env=e, workers=1, timeout=timeout, label=label, seed=seed)
    if not r.ok or not os.path.exists(out):
        raise ToolError("generation with %s failed: %s" % (module, r.out[-2000:]))
    return json.load(open(out, encoding="utf-8"))


def behaviours(ck, module, cfg=None, env=None, args=(), timeout=600, workers=8, label=None, seed=None):
    """Behaviours printed by a Gen_ state machine (lines starting with BEHAVIOUR followed by a JSON string)."""
    r = tlc(ck, module, cfg, env=env, workers=workers, args=args, timeout=timeout, label=label, seed=seed)
    if not r.ok:
        raise ToolError("generation with %s failed: %s" % (module, r.out[-2000:]))
    out = []
    for m in re.finditer(r'(?m)^"BEHAVIOUR (.*)"$', r.out):
        out.append(json.loads(json.loads('"%s"' % m.group(1))))
    # workers finish in any order
    out.sort(key=lambda b: json.dumps(b, sort_keys=True))
    return out


# ---------------------------------------------------------------------------------------- harness
class LogServer:
    """Receives events from matchers and handlers; an event is acknowledged once it is noted."""

    def __init__(self):
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(512)
        self.addr = "127.0.0.1:%d" % self.s.getsockname()[1]
        self.events, self.lock, self.sink = [], threading.Lock(), None
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.one, args=(c,), daemon=True).start()

    def one(self, c):
        try:
            f = c.makefile("rb")
            line = f.readline()
            if line.strip():
                e = json.loads(line)
                with self.lock:
                    self.events.append(e)
                    if self.sink:
                        self.sink(e)
                c.sendall(b"k")
        except (OSError, ValueError):
            pass
        finally:
            c.close()

    def snapshot(self):
        with self.lock:
            return list(self.events)

    def close(self):
        self.s.close()


class Box:
    """A running harness (one Lunatic VM)."""

    def __init__(self, ck, wasm, args_of=None, nports=0, name="box", env=None):
        self.ck, self.wasm = ck, wasm
        self.log = LogServer()
        for attempt in range(5):
            self.ctl, *self.ports = free_ports(1 + nports)
            extra = args_of(self.ports) if args_of else []
            self.stderr = open(ck.path("%s.stderr" % name), "wb")
            e = dict(os.environ, VERIF_LOG=self.log.addr)
            e.pop("CARGO_MANIFEST_DIR", None)
            e.update(env or {})
            self.p = subprocess.Popen([LUNATIC, wasm, str(self.ctl), *extra], stdin=subprocess.DEVNULL,
                                      stdout=self.stderr, stderr=self.stderr, env=e, cwd=ck.dir, preexec_fn=die_with_parent)
            if self.wait_up():
                return
            self.stop()
        if self.ctl_up and self.ports:
            self.ck.violation("a server of the harness does not take connections: %s" % open(self.stderr.name, errors="replace").read()[-1500:], dict(servers=args_of(self.ports)))
        raise ToolError("the harness does not start (see %s)" % self.stderr.name)

    def wait_up(self):
        want = [self.ctl] + list(self.ports)
        self.ctl_up, t0 = False, time.time()
        while want and time.time() - t0 < 40:
            if self.p.poll() is not None:
                return False
            try:
                c = socket.create_connection(("127.0.0.1", want[0]), timeout=5)
                c.close()
                want.pop(0)
                self.ctl_up = True
            except OSError:
                time.sleep(0.02)
        return not want

    def stop(self):
        self.p.kill()
        self.p.wait()
        self.log.close() if False else None

    def cpu_s(self):
        f = open("/proc/%d/stat" % self.p.pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")

    # exec mode ------------------------------------------------------------------------------------
    def exec_many(self, cmds, par=8, timeout=30):
        """Runs every command; the outcome of one that traps is {"r": "crash"}, of one that does not
        come back {"r": "hang"}."""
        res = [None] * len(cmds)
        self.hangs = 0
        todo = queue.Queue()
        step = max(1, min(200, len(cmds) // (par * 2) + 1))
        for i in range(0, len(cmds), step):
            todo.put((i, min(i + step, len(cmds))))
        errs = []

        def work():
            while True:
                try:
                    a, b = todo.get_nowait()
                except queue.Empty:
                    return
                try:
                    self._batch(cmds, res, a, b, timeout)
                except Exception as e:  # noqa
                    errs.append(e)
                    return

        ts = [threading.Thread(target=work) for _ in range(par)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise ToolError("exec: %r" % errs[0])
        return res

    def _batch(self, cmds, res, a, b, timeout):
        c = f = None
        for i in range(a, b):
            if self.hangs > 4:
                res[i] = {"r": "hang", "note": "not run any more after others had hung"}
                continue
            if c is None:
                c = socket.create_connection(("127.0.0.1", self.ctl), timeout=timeout)
                f = c.makefile("rb")
            try:
                c.sendall(json.dumps(cmds[i]).encode() + b"\n")
                line = f.readline()
                if line:
                    res[i] = json.loads(line)
                    continue
                res[i] = {"r": "crash"}
            except socket.timeout:
                res[i] = {"r": "hang"}
                self.hangs += 1
            except ConnectionError:
                res[i] = {"r": "crash"}
            c.close()
            c = None
        if c:
            c.close()


def main(pid, level, run):
    ck = Check(pid, level)
    try:
        run(ck)
        ck.finish()
        return 0
    except Violation:
        return 1
    except ToolError as e:
        print("TOOL ERROR: %s" % e)
        return 2
    finally:
        for c in ck.children:
            try:
                c.stop()
            except Exception:
                pass
