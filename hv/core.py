"""Runner of the monitors: workload loop, watchdogs, shrinking, replay, evidence, verdict.

A check module (hv/checks/cNN.py) provides

  PROPERTY, LEVEL, RULE, ASSUMPTIONS
  BUDGET   = {"quick": n, "thorough": n}         number of generated cases
  FLOORS   = {counter: minimum}                  below that the run is inconclusive
  COVER    = [source file suffixes]              whose executed lines are reported
  fixed(tier)            -> iterable of cases    (directed / enumerated workload)
  generate(rng, i, tier) -> case                 (random workload)
  run(case, mon)                                 raises Violation
  shrink(case)           -> iterable of smaller cases   (optional)

Cases are JSON values, so that a violation is replayed from a file.
"""
import hashlib
import faulthandler
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get("HV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("HV_OUT") or VERIF    # where evidence and replays are written
CASE_CPU = 40            # CPU seconds one case may use before it counts as hanging
CASE_WALL = 240          # seconds after which a worker that cannot be interrupted is ended


class Violation(Exception):
    def __init__(self, what, **detail):
        Exception.__init__(self, what)
        self.what, self.detail = what, detail


class Hang(BaseException):
    pass


class Sut:
    """Context in which the code under test runs: what it raises is its fault."""
    def __init__(self, mon, what):
        self.mon, self.what = mon, what

    def __enter__(self):
        self.mon.insut += 1

    def __exit__(self, et, ev, tb):
        self.mon.insut -= 1
        if et is None or issubclass(et, Violation) or not issubclass(et, Exception):
            return False
        raise Violation("%s raised %s: %s" % (self.what, et.__name__, str(ev)[:300]),
                        trace=traceback.format_exception(et, ev, tb)[-4:]) from ev


class Monitor:
    def __init__(self):
        self.counts = {}
        self.distinct = {}
        self.samples = []
        self.evaluations = 0
        self.shared = [0, 0, 0]      # case number, its start, whether the code under test runs

    @property
    def insut(self):
        return self.shared[2]

    @insut.setter
    def insut(self, n):
        self.shared[2] = n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def see(self, name, key):
        """Record a distinct observed state under name."""
        if not isinstance(key, bytes):
            key = repr(key).encode()
        self.distinct.setdefault(name, set()).add(hashlib.blake2b(key, digest_size=8).digest())

    def nontrivial(self, key):
        self.see("nontrivial", key)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def sut(self, what):
        return Sut(self, what)

    def expect_raise(self, what, fn, *a, **k):
        """fn must raise an ordinary exception; returns it."""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = fn(*a, **k)
        except Hang:
            raise
        except Exception as e:
            self.count("refusals")
            return e
        raise Violation("%s was accepted: %r" % (what, r))


# --------------------------------------------------------------------- line coverage

class Lines:
    """Executed lines of hrdc, through sys.monitoring (each location reported once)."""
    TOOL = 3

    def __init__(self):
        self.hit = {}
        self.codes = {}

    def start(self):
        m = getattr(sys, "monitoring", None)
        if m is None or m.get_tool(self.TOOL):
            return
        m.use_tool_id(self.TOOL, "hv")
        prefix = REPO + "/hrdc/"

        def line(code, no):
            f = code.co_filename
            if f.startswith(prefix):
                self.hit.setdefault(f[len(REPO) + 1:], set()).add(no)
            return m.DISABLE
        m.register_callback(self.TOOL, m.events.LINE, line)
        m.set_events(self.TOOL, m.events.LINE)


def executable_lines(path):
    try:
        with open(path) as f:
            code = compile(f.read(), path, "exec")
    except Exception:
        return set()
    out, todo = set(), [code]
    while todo:
        c = todo.pop()
        out |= {l for _, _, l in c.co_lines() if l}
        todo += [k for k in c.co_consts if hasattr(k, "co_lines")]
    return out


# ------------------------------------------------------------------------- one case

def alarm(*_):
    raise Hang()


def run_case(mod, case, mon):
    """Returns None or a Violation."""
    signal.signal(signal.SIGPROF, alarm)
    # again later, in case a bare except swallowed it
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU, 1)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(case, mon)
        return None
    except Violation as v:
        # what the frames hold may be large
        v.__traceback__ = v.__context__ = v.__cause__ = None
        return v
    except Exception as e:
        # raised inside the code under test, outside of the contexts that expect it
        tb = traceback.extract_tb(e.__traceback__)
        if tb and tb[-1].filename.startswith(REPO + "/hrdc/"):
            mon.insut = 0
            return Violation("raised %s: %s" % (type(e).__name__, str(e)[:300]),
                             trace=traceback.format_exception(e)[-4:])
        raise
    except Hang:
        if mon.insut > 0:
            mon.insut = 0
            return Violation("no result within %d s of CPU time" % CASE_CPU)
        raise RuntimeError("harness used more than %d s of CPU on one case" % CASE_CPU)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def key(case):
    return json.dumps(case, sort_keys=True)


def do_shrink(mod, case, v, deadline):
    if not hasattr(mod, "shrink"):
        return case, v
    improved = True
    while improved and time.time() < deadline:
        improved = False
        for c in mod.shrink(case):
            if time.time() > deadline:
                break
            try:
                w = run_case(mod, c, Monitor())
            except Exception:
                continue
            if w is not None:
                case, v, improved = c, w, True
                break
    return case, v


def plan(mod, w, nw, tier, seed):
    i = 0
    for c in mod.fixed(tier):
        if i % nw == w:
            yield "fixed/%d" % i, c
        i += 1
    for i in range(mod.BUDGET[tier]):
        if i % nw == w:
            rng = random.Random("%d/%s/%d" % (seed, mod.PROPERTY, i))
            yield "random/%d" % i, mod.generate(rng, i, tier)


def worker(name, w, nw, tier, seed, deadline, conn, shared):
    mon, lines = Monitor(), Lines()
    mon.shared = shared
    faulthandler.register(signal.SIGUSR1)
    res = {"violation": None, "error": None, "done": 0, "planned": 0}
    limit_memory(2500 << 20)
    try:
        lines.start()
        mod = importlib.import_module("hv.checks." + name)
        if hasattr(mod, "setup"):
            mod.setup(tier)
        known = load_known(mod.PROPERTY)
        res["known"] = []
        for n, (label, c) in enumerate(plan(mod, w, nw, tier, seed)):
            if time.time() > deadline:
                res["stopped"] = label
                break
            mon.evaluations += 1
            shared[0], shared[1] = n, 1
            v = run_case(mod, c, mon)
            shared[1] = 0
            res["done"] += 1
            if v is not None:
                k = [e for e in known if hasattr(mod, "is_known") and mod.is_known(e, c, v)]
                if k:
                    if k[0]["what"] not in res["known"]:
                        res["known"].append(k[0]["what"])
                    continue
                c, v = do_shrink(mod, c, v, time.time() + 40)
                res["violation"] = {"label": label, "case": c, "what": v.what, "detail": v.detail}
                break
    except BaseException:
        res["error"] = traceback.format_exc()
    res.update(counts=mon.counts, distinct=mon.distinct, samples=mon.samples,
               evaluations=mon.evaluations, lines=lines.hit)
    conn.send(res)
    conn.close()


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f).get("findings", []) if e["property"] == prop]


def default_workers(tier):
    return int(os.environ.get("HV_WORKERS") or min(8, os.cpu_count() or 2))


def setup_process():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    limit_memory(6 << 30)


def limit_memory(lim):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass


def main(argv):
    name = argv[0].lower()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    setup_process()
    t0 = time.time()
    if "--replay" in argv:
        return replay(name, argv[argv.index("--replay") + 1])

    mod = importlib.import_module("hv.checks." + name)
    prop = mod.PROPERTY
    limit = {"quick": 420, "thorough": 3000}[tier]
    nw = getattr(mod, "WORKERS", None) or default_workers(tier)
    ctx = multiprocessing.get_context("fork")
    procs = []
    for w in range(nw):
        a, b = ctx.Pipe(duplex=False)
        shared = ctx.RawArray("d", 3)
        p = ctx.Process(target=worker, args=(name, w, nw, tier, seed, t0 + limit, b, shared))
        p.start()
        b.close()
        procs.append((p, a, w, shared))
    results = []
    pending = {a: (p, w, shared) for p, a, w, shared in procs}
    turns = {}
    while pending:
        ready = multiprocessing.connection.wait(list(pending), 2)
        for a in list(pending):
            p, w, shared = pending[a]
            # counted in turns: the clock goes on while the whole machine is stopped
            at, n = turns.get(a, (None, 0))
            now = shared[0] if shared[1] else None
            turns[a] = now, n + (not ready) if now is not None and now == at else 0
            lost = {"error": "worker died", "violation": None, "counts": {}, "distinct": {}, "samples": [],
                    "evaluations": 0, "lines": {}, "done": 0}
            if a in ready:
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append(lost)
            elif turns[a][1] > CASE_WALL // 2:
                os.kill(p.pid, signal.SIGUSR1)      # shows where
                time.sleep(1)
                p.kill()
                lost["error"] = "worker stuck in case %d" % shared[0]
                if shared[2] > 0:
                    label, case = next(x for n, x in enumerate(plan(mod, w, nw, tier, seed)) if n == int(shared[0]))
                    lost["violation"] = {"label": label, "case": case, "what": "no result within %d s" % CASE_WALL,
                                         "detail": {}}
                results.append(lost)
            else:
                continue
            del pending[a]
            p.join()

    counts, distinct, samples, lines = {}, {}, [], {}
    for r in results:
        for k, n in r["counts"].items():
            counts[k] = counts.get(k, 0) + n
        for k, s in r["distinct"].items():
            distinct.setdefault(k, set()).update(s)
        samples += r["samples"]
        for f, s in r["lines"].items():
            lines.setdefault(f, set()).update(s)
    known = sorted({k for r in results for k in r.get("known", [])})
    viol = [r["violation"] for r in results if r["violation"]]
    errors = [r["error"] for r in results if r["error"]]
    stopped = [r["stopped"] for r in results if r.get("stopped")]

    cov = {}
    for suffix in getattr(mod, "COVER", []):
        for f in sorted(lines):
            if suffix in f:
                ex = executable_lines(os.path.join(REPO, f))
                if ex:
                    cov[f] = "%d/%d lines" % (len(lines[f] & ex), len(ex))
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(distinct.get("nontrivial", ())),
            "rule": mod.RULE,
            "samples": samples[:6],
            "observed": dict(sorted(counts.items())),
            "distinct_states": {k: len(v) for k, v in sorted(distinct.items()) if k != "nontrivial"},
            "code_lines_executed": cov,
            "stopped_early": stopped,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write("\n")

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if viol:
        v = min(viol, key=lambda x: (x["label"].startswith("random"), int(x["label"].split("/")[1])))
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        path = os.path.join(OUT, "replays", "%s-%d.json" % (prop, seed))
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, seed=seed, tier=tier), f, indent=1, default=repr)
            f.write("\n")
        print("%s: %s" % (v["label"], v["what"]))
        for k, d in v["detail"].items():
            print("  %s: %s" % (k, d if isinstance(d, str) else json.dumps(d, default=repr)[:2000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        print("INCONCLUSIVE property=%s: error of the harness" % prop)
        return 2
    short = {k: (counts.get(k, 0) + len(distinct.get(k, ())), n) for k, n in mod.FLOORS.items()
             if counts.get(k, 0) + len(distinct.get(k, ())) < n}
    if short and not stopped:
        print("INCONCLUSIVE property=%s: too little observed %s" % (prop, short))
        return 2
    print("HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs%s" % (
        prop, tier, seed, evidence["coverage"]["evaluations"],
        evidence["coverage"]["distinct_nontrivial"], evidence["wall_s"],
        " (stopped at its time limit)" if stopped else ""))
    return 0


def replay(name, path):
    mod = importlib.import_module("hv.checks." + name)
    if hasattr(mod, "setup"):
        mod.setup("quick")
    with open(path) as f:
        c = json.load(f)["case"]
    v = run_case(mod, c, Monitor())
    if v is None:
        print("HELD on replay", path)
        return 0
    print(v.what)
    for k, d in v.detail.items():
        print("  %s: %s" % (k, d if isinstance(d, str) else json.dumps(d, default=repr)[:4000]))
    print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, path))
    return 1
