"""Check driver: seeded search over simulated runs, minimisation, replay files,
evidence.   python -m holsim.main check C01 | replay FILE | determinism C01"""
import gc
import hashlib
import importlib
import json
import os
import re
import select
import signal
import subprocess
import sys
import time
import traceback

T0 = time.time()
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

from holsim import env, proc, seams  # noqa: E402
from holsim.rng import Rng, derive  # noqa: E402


def load_prop(pid):
    return importlib.import_module("holsim.props.%s" % pid.lower())


def boot(prop):
    if getattr(prop, "LIGHTNING", True):
        import pytorch_lightning  # noqa: F401  (before the lock seam goes in)
        import torchmetrics  # noqa: F401
        import lion_pytorch  # noqa: F401
        import omegaconf  # noqa: F401
    seams.install_locks()
    env.load(lightning=getattr(prop, "LIGHTNING", True))
    if hasattr(prop, "prepare"):
        prop.prepare()
    gc.collect()
    gc.freeze()


class Ctx:
    """What a run may use: counters, probes, log, pristine processes."""

    def __init__(self, tier):
        self.tier = tier
        self.c = {}
        self.log = []
        self.sets = {}
        self._z = None
        self.nontrivial = False
        self.sim_time = 0.0

    def count(self, k, n=1):
        self.c[k] = self.c.get(k, 0) + n

    def reach(self, k, v):
        self.sets.setdefault(k, set()).add(v)

    def note(self, *a):
        self.log.append(" ".join(str(x) for x in a))

    def zygote(self):
        if self._z is None:
            self._z = proc.Zygote()
        return self._z


class Violation(Exception):
    """cls: stable class used for minimisation; sig: identifies the finding."""

    def __init__(self, cls, msg, sig=None, patch=None):
        super().__init__(msg)
        self.cls, self.msg, self.sig = cls, msg, sig or cls
        self.patch = patch  # optional trace update (e.g. explicit schedule)


def run_trace(prop, trace, tier):
    """Executes one simulated run in this process."""
    ctx = Ctx(tier)
    if getattr(prop, "PRISTINE", False):
        ctx.zygote()
    v = None
    try:
        prop.run(trace, ctx)
    except Violation as e:
        v = dict(cls=e.cls, msg=e.msg, sig=e.sig, patch=e.patch)
    except proc.HarnessError:
        raise
    except (Exception, seams.SimDeadlock, KeyboardInterrupt) as e:
        # raised inside the library or torch during a call that must succeed
        if isinstance(e, proc.LibraryError):
            name, at, msg, tb = e.name, e.at, e.msg, e.tb
        else:
            own, at, tb = proc.where_raised(e)
            if own and not isinstance(e, seams.SimDeadlock):
                raise
            name, msg = type(e).__name__, str(e)[:300]
        v = dict(cls="exception:%s:%s:%s" % (name, at, re.sub(r"[0-9x]+", "#", msg)[:60]),
                 msg="%s raised in a call that must succeed, at %s: %s\n%s" % (name, at, msg, tb),
                 sig="exception:%s:%s" % (name, at), patch=None)
    finally:
        if ctx._z:
            ctx._z.close()
    return dict(v=v, c=ctx.c, nontrivial=ctx.nontrivial, sim=ctx.sim_time,
                sets={k: sorted(map(str, x))[:4000] for k, x in ctx.sets.items()},
                log=hashlib.sha1("\n".join(ctx.log).encode()).hexdigest(), nlog=len(ctx.log),
                logtail=ctx.log[-40:])


def _child(prop, seed, idx, tier, want_trace):
    trace = prop.gen(Rng("holsim", prop.ID, seed, idx), tier)
    r = run_trace(prop, trace, tier)
    if r["v"] or want_trace:
        r["trace"] = trace
    r["tsig"] = derive(json.dumps(trace, sort_keys=True))
    return r


def _worker(prop, seed, tier, idxs, wfd, deadline, timeout):
    for n, i in enumerate(idxs):
        if time.monotonic() > deadline:
            break
        k, v = proc.fork_call(_child, prop, seed, i, tier, n == 0, timeout=timeout)
        proc.write_msg(wfd, (i, k, proc.pack(v)))
    os._exit(0)


def search(prop, seed, tier, nruns, deadline, workers, on_result):
    timeout = getattr(prop, "RUN_TIMEOUT", 100.0)
    rfds, pids = {}, []
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for f in rfds:
                    os.close(f)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                _worker(prop, seed, tier, range(w, nruns, workers), wr, deadline, timeout)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(1)
        os.close(wr)
        rfds[r] = pid
        pids.append(pid)
    stop = False
    try:
        while rfds and not stop:
            ready, _, _ = select.select(list(rfds), [], [], 5.0)
            for fd in ready:
                try:
                    i, k, v = proc.read_msg(fd)
                except EOFError:
                    os.close(fd)
                    rfds.pop(fd)
                    continue
                if on_result(i, k, proc.unpack(v)):
                    stop = True
                    break
    finally:
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        for p in pids:
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
        for fd in list(rfds):
            os.close(fd)


def exec_trace(prop, trace, tier):
    return proc.fork_call(run_trace, prop, trace, tier, timeout=getattr(prop, "RUN_TIMEOUT", 100.0))


# -- minimisation ----------------------------------------------------------


def _get(o, path):
    for p in path:
        o = o[p]
    return o


def _with(trace, path, val):
    t = json.loads(json.dumps(trace))
    o = t
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = val
    return t


def list_paths(trace, prop):
    """Paths of lists the minimiser may thin out."""
    out = []
    names = getattr(prop, "LISTS", ())

    def go(o, path):
        if isinstance(o, dict):
            for k in o:
                if k in names and isinstance(o[k], list):
                    out.append(path + [k])
                go(o[k], path + [k])
        elif isinstance(o, list):
            for i, x in enumerate(o):
                go(x, path + [i])

    go(trace, [])
    return out


def shrink(prop, trace, v, tier, budget):
    end = time.monotonic() + budget
    tried = 0
    best, bestv = trace, v

    def attempt(t):
        nonlocal best, bestv, tried
        if time.monotonic() > end:
            return False
        tried += 1
        k, r = exec_trace(prop, t, tier)
        if k == "ok" and r["v"] and r["v"]["cls"] == v["cls"]:
            best, bestv = t, r["v"]
            return True
        return False

    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for path in list_paths(best, prop):
            try:
                n = max(1, len(_get(best, path)) // 2)
            except (KeyError, IndexError):
                continue
            while n >= 1 and time.monotonic() < end:
                i = 0
                try:
                    cur = _get(best, path)
                except (KeyError, IndexError):
                    break
                while i < len(cur) and time.monotonic() < end:
                    cand = cur[:i] + cur[i + n:]
                    if attempt(_with(best, path, cand)):
                        progress = True
                        cur = _get(best, path)
                    else:
                        i += n
                n //= 2
        for cand in (prop.simplify(best) if hasattr(prop, "simplify") else ()):
            if attempt(cand):
                progress = True
                break
    return best, bestv, tried


def generic_simplify(trace, keys):
    """Candidates with smaller integers under the given keys."""
    def go(o, path):
        if isinstance(o, dict):
            for k in o:
                if k in keys and isinstance(o[k], int) and not isinstance(o[k], bool) and o[k] > keys[k]:
                    yield path + [k], keys[k]
                    if o[k] // 2 > keys[k]:
                        yield path + [k], o[k] // 2
                    yield path + [k], o[k] - 1
                elif not isinstance(o[k], int):
                    yield from go(o[k], path + [k])
        elif isinstance(o, list):
            for i, x in enumerate(o):
                yield from go(x, path + [i])

    for p, val in go(trace, []):
        yield _with(trace, p, val)


# -- known findings --------------------------------------------------------


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


# -- check -----------------------------------------------------------------


def write_replay(prop, trace, v, tier, extra):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    h = derive(json.dumps(trace, sort_keys=True)) % 16 ** 8
    p = os.path.join(d, "%s-%08x.json" % (prop.ID, h))
    json.dump(dict(property=prop.ID, tier=tier, violation={k: v[k] for k in ("cls", "msg", "sig")}, trace=trace, **extra),
              open(p, "w"), indent=1, sort_keys=True)
    return p


def confirm(path, tries=3):
    for _ in range(tries):
        r = subprocess.run([sys.executable, "-W", "ignore", "-m", "holsim.main", "replay", path], cwd=ROOT,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        if r.returncode == 1 and b"VIOLATION" in r.stdout:
            return True
    return False


def check(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    print("holsim property=%s tier=%s seed=%d" % (pid, tier, seed), flush=True)
    prop = load_prop(pid)
    boot(prop)
    workers = int(os.environ.get("HOLSIM_WORKERS", 0)) or max(1, min(8, os.cpu_count() or 1))
    nruns = int(os.environ.get("HOLSIM_RUNS", 0)) or prop.RUNS[tier]
    cap = dict(quick=float(os.environ.get("HOLSIM_CAP", 330)), thorough=float(os.environ.get("HOLSIM_CAP", 3000)))[tier]
    deadline = time.monotonic() + cap
    known = known_findings(pid)
    st = dict(runs=0, nontrivial=0, errors=[], c={}, sets={}, sim=0.0, sigs=set(), samples=[], known={}, unconf=[], timeouts=0)
    found = []

    def on_result(i, k, v):
        if k == "timeout":
            st["timeouts"] += 1
            return False
        if k != "ok":
            st["errors"].append((i, k, v))
            return len(st["errors"]) >= 60
        st["runs"] += 1
        st["sigs"].add(v["tsig"])
        if v["nontrivial"]:
            st["nontrivial"] += 1
        for a, b in v["c"].items():
            st["c"][a] = st["c"].get(a, 0) + b
        for a, b in v["sets"].items():
            st["sets"].setdefault(a, set()).update(b)
        st["sim"] += v["sim"]
        if v.get("trace") is not None and not v["v"] and len(st["samples"]) < 3:
            st["samples"].append(v["trace"])
        if v["v"]:
            for rx, what in known:
                if rx.search(v["v"]["sig"]):
                    st["known"][what] = st["known"].get(what, 0) + 1
                    return False
            found.append((i, v["trace"], v["v"]))
            return len(found) >= 3
        return False

    t1 = time.monotonic()
    search(prop, seed, tier, nruns, deadline, workers, on_result)
    if hasattr(prop, "post") and not found:
        # checks that need several interpreters; returns a (trace, violation) or None
        extra = prop.post(st, seed, tier, deadline)
        if extra:
            found.append((-1,) + extra)
    t2 = time.monotonic()

    code, replay = 0, None
    if found:
        found.sort(key=lambda f: len(json.dumps(f[1])))
        for i, trace, v in found:
            full = json.loads(json.dumps(trace))
            if v.get("patch"):
                full.update(v["patch"])
            small, sv, tried = full, v, 0
            k, r = exec_trace(prop, full, tier)
            if not (k == "ok" and r["v"]):
                full = trace
            if not getattr(prop, "NO_SHRINK", False):
                small, sv, tried = shrink(prop, full, v, tier, 60.0 if tier == "quick" else 300.0)
            ok = False
            for t, vv in ((small, sv), (full, v), (trace, v)):
                p = write_replay(prop, t, vv, tier, dict(seed=seed, run=i, minimise_attempts=tried))
                if confirm(p):
                    ok = True
                    break
                os.unlink(p)
            if ok:
                replay = p
                print("violation: %s" % vv["msg"])
                print("trace: %s" % json.dumps(t)[:3000])
                print("VIOLATION property=%s replay=%s" % (pid, replay), flush=True)
                code = 1
                break
            st["unconf"].append(v["msg"])
        if code == 0:
            # seen, but not reproducible from its trace: never an alarm and never a pass
            print("ERROR: %d violations did not replay: %s" % (len(st["unconf"]), st["unconf"][0]))
            code = 2
    for what, n in sorted(st["known"].items()):
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (pid, what, n))
    if code == 0 and st["errors"]:
        i, k, v = st["errors"][0]
        print("ERROR: %d runs failed in the harness; run %s: %s\n%s" % (len(st["errors"]), i, k, v))
        code = 2
    if code == 0 and st["timeouts"] > max(3, st["runs"] // 50):
        print("ERROR: %d of %d runs were cut off by the wall clock" % (st["timeouts"], st["runs"] + st["timeouts"]))
        code = 2
    if code == 0 and st["runs"] < max(1, nruns // 5):
        print("ERROR: only %d of %d runs finished in time" % (st["runs"], nruns))
        code = 2
    if code == 0:
        for probe in getattr(prop, "PROBES", ()):
            if not st["c"].get(probe):
                print("ERROR: probe %s was never reached" % probe)
                code = 2
    write_evidence(prop, tier, seed, st, t2 - t1, len(found), code)
    print("runs=%d distinct=%d nontrivial=%d wall=%.1fs (search %.1fs) %s exit=%d" % (
        st["runs"], len(st["sigs"]), st["nontrivial"], time.time() - T0, t2 - t1,
        {k: v for k, v in sorted(st["c"].items())}, code), flush=True)
    return code


def write_evidence(prop, tier, seed, st, search_s, nviol, code):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    c = st["c"]
    cov = dict(
        evaluations=st["runs"], distinct_nontrivial=min(st["nontrivial"], len(st["sigs"])), rule=prop.RULE,
        samples=[json.dumps(s)[:1500] for s in st["samples"]] or ["none"],
        runs_per_hour=int(st["runs"] * 3600 / max(search_s, 1e-3)),
        simulated_seconds=round(st["sim"], 3),
        faults_injected={k[6:]: v for k, v in sorted(c.items()) if k.startswith("fault.")},
        counters={k: v for k, v in sorted(c.items()) if not k.startswith("fault.")},
        distinct={k: len(v) for k, v in sorted(st["sets"].items())},
        distinct_measure=getattr(prop, "MEASURE", "distinct traces (operation, fault and schedule sequences)"),
        components=dict(real=getattr(prop, "REAL", "the package under test from /repo, torch, autograd, torch.save/load"),
                        simulated=getattr(prop, "SIMULATED", "faults, scheduling")),
        harness_errors=len(st["errors"]), cut_off_runs=st["timeouts"], exit_code=code)
    ev = dict(property=prop.ID, tier=tier, seed=seed, level=prop.LEVEL, coverage=cov,
              assumptions=list(getattr(prop, "ASSUMPTIONS", ())), wall_s=round(time.time() - T0, 2), violations=nviol)
    p = os.path.join(ROOT, "evidence", prop.ID + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)


def replay(path):
    d = json.load(open(path))
    prop = load_prop(d["property"])
    boot(prop)
    if hasattr(prop, "replay"):
        v = prop.replay(d["trace"], d["tier"])
    else:
        k, r = exec_trace(prop, d["trace"], d["tier"])
        if k != "ok":
            print("ERROR: replay failed: %s %s" % (k, r))
            return 2
        v = r["v"]
    if v:
        print(v["msg"])
        same = v["cls"] == d["violation"]["cls"]
        print("VIOLATION property=%s replay=%s%s" % (d["property"], path, "" if same else " (different class)"))
        return 1
    print("no violation")
    return 0


def determinism(pid, nseeds):
    """Prints one line per run: index, event-log hash.  Two invocations (other
    worker count, other PYTHONHASHSEED) must print the same."""
    prop = load_prop(pid)
    boot(prop)
    out = {}

    def on(i, k, v):
        out[i] = (k, v["log"] if k == "ok" else str(v)[-300:], v["nlog"] if k == "ok" else 0)

    search(prop, int(os.environ.get("VERIF_SEED", "1")), "quick", nseeds, time.monotonic() + 3000,
           int(os.environ.get("HOLSIM_WORKERS", 8)), on)
    for i in sorted(out):
        print(i, *out[i])


def _exit(code):
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)  # skip the interpreter's (noisy, slow) teardown


def main():
    cmd = sys.argv[1]
    if cmd == "check":
        _exit(check(sys.argv[2]))
    if cmd == "replay":
        _exit(replay(sys.argv[2]))
    if cmd == "determinism":
        determinism(sys.argv[2], int(sys.argv[3]))
        _exit(0)
    if cmd == "smoke":  # everything needed is there and the package imports
        prop = load_prop("C03")
        boot(prop)
        r = run_trace(prop, prop.gen(Rng("holsim", "C03", 1, 0), "quick"), "quick")
        print("holsim ready", "runs real code from", env.PKG)
        _exit(0)
    if cmd == "one":  # debugging: one run in this process
        prop = load_prop(sys.argv[2])
        boot(prop)
        tier = os.environ.get("VERIF_TIER", "quick")
        trace = prop.gen(Rng("holsim", prop.ID, int(os.environ.get("VERIF_SEED", "1")), int(sys.argv[3])), tier)
        print(json.dumps(trace))
        r = run_trace(prop, trace, tier)
        print(json.dumps({k: v for k, v in r.items() if k != "sets"}, indent=1, default=str))
        _exit(0)


if __name__ == "__main__":
    # `python -m holsim.main` would otherwise exist twice (as __main__)
    from holsim import main as _m

    _m.main()
