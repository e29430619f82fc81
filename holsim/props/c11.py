"""C11: the same seeded program is executed in a quiet fresh process and in a
hostile one (earlier history, garbage in uninitialised memory, jumping clock,
other entropy and process id) and must give the same results; a second pass
compares whole interpreters with different hash seeds and heap fill."""
import copy
import json
import os
import subprocess
import sys

import torch

from .. import env, life, seams, zoo
from ..cmp import clone_state, digest, exact, near
from ..main import Violation, generic_simplify
from ..rng import Rng, derive

ID = "C11"
LEVEL = "exploration"
PRISTINE = True
RUNS = dict(quick=1800, thorough=24000)
LISTS = ("ops", "history")
RULE = ("seeded programs (build, train with dropout, evaluate, sample, initialise, refine, smooth, copy) run once in a fresh "
        "process and once after a history of other programs under injected garbage memory, clock jumps and entropy; plus "
        "groups of programs in separate interpreters with different hash seeds, heap fill bytes and order; non-trivial if "
        "the hostile run saw at least one dirtied allocation and the program made at least two recorded steps")
PROBES = ("fault.dirty", "fault.clock", "op.train", "op.eval", "op.init", "op.refine", "op.vae", "history", "interpreters")
SIMULATED = "allocator contents, clock, os entropy, process id, hash seed, process history"
ASSUMPTIONS = ("the program seeds torch, python and numpy before building",)
INTERP_GROUPS = dict(quick=6, thorough=40)


def gen_prog(rng, short=False, spec=None):
    r = rng.random()
    if spec is not None:
        spec = json.loads(json.dumps(spec))
    elif r < 0.3:
        spec = life.sample_refinable(rng)
    elif r < 0.45:
        spec = zoo.sample_mlp(rng, dropout=True)
    elif r < 0.53:
        spec = zoo.sample_vae(rng)
    else:
        spec = zoo.sample(rng)
    from .c06 import refinable

    ops = []
    for _ in range(rng.choice([1, 2] if short else [2, 3, 4])):
        k = rng.wchoice([(4, "train"), (3, "eval"), (1.5, "init"), (1.5, "refine"), (1, "copy"), (0.7, "smooth"), (0.7, "reseed"),
                         (1, "rebuild")])
        if spec["fam"] == "vae" and rng.chance(0.5):
            k = "vae"
        o = dict(op=k, seed=rng.seed31())
        if k in ("train", "eval", "vae"):
            o["inp"] = zoo.sample_input(rng, b=rng.choice([2, 3, 5]))
        if k == "train":
            o["opt"] = life.sample_opt(rng)
            o["steps"] = rng.choice([1, 2, 3])
        if k == "init":
            o["init"] = dict(slope=1.0, offset=0.5, scale=rng.choice([None, "inv"]))
        if k == "refine":
            if not refinable(spec):
                continue
            o["how"] = rng.choice(["p", "hp"]) if spec["lt"] in ("continuous", "switch_continuous") else "p"
            o["target"] = life.refined_spec(rng, spec, o["how"])
            if life.refine_cost(o["target"]) > 4000:
                continue
        if k == "smooth" and not (spec["fam"] == "mlp" and spec["lt"] == "discontinuous"):
            continue
        ops.append(o)
    return dict(spec=spec, seed=rng.seed31(), ops=ops)


def gen(rng, tier):
    prog = gen_prog(rng)
    # half of what ran earlier is the same kind of model, so that anything the
    # code keeps per class, per shape or per option is already there
    history = [gen_prog(rng, True, prog["spec"] if rng.chance(0.5) else None) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    return dict(history=history, prog=prog,
                dirty=rng.seed31(), clock=rng.seed31())


def program(p, counts=None):
    """Runs a program; returns the list of everything it computed."""
    log = []

    def cnt(k):
        if counts is not None:
            counts[k] = counts.get(k, 0) + 1

    spec = p["spec"]
    env.seed_all(p["seed"])
    m = zoo.warm(zoo.build(spec), spec)
    log.append(("build", clone_state(m)))
    for op in p["ops"]:
        k = op["op"]
        cnt("op." + k)
        if k == "train":
            m.train()
            if not any(q.requires_grad for q in m.parameters()):
                continue
            opt = life.make_opt(op["opt"], m.parameters())
            ls = [life.train_step(m, spec, zoo.make_input(spec, op["inp"]), opt, op["seed"], stochastic=op["seed"] % 2 == 0) for _ in range(op["steps"])]
            log.append(("train", [torch.tensor(ls, dtype=torch.float64), clone_state(m)]))
        elif k == "eval":
            m.eval()
            a = seams.ambient()
            with torch.no_grad():
                outs = zoo.call(m, spec, zoo.make_input(spec, op["inp"]))
            d = [x for x in seams.ambient_diff(a, seams.ambient()) if x.endswith("rng")]
            log.append(("eval", [o.clone() for o in outs]))
            if d:
                log.append(("drew", d))
        elif k == "vae":
            m.eval()
            with torch.no_grad():
                x = zoo.make_input(spec, op["inp"])[0]
                log.append(("vae", [t.clone() for t in zoo.call(m, spec, (x,), True)]))
        elif k == "init":
            life.initialize(m, op["init"])
            log.append(("init", clone_state(m)))
        elif k == "refine":
            t = zoo.warm(zoo.build(op["target"]), op["target"])
            life.refine(op["how"], spec, m, t)
            log.append(("refine", clone_state(t)))
        elif k == "copy":
            m = copy.deepcopy(m)
        elif k == "smooth":
            life.smooth(m, spec, 0.5)
            log.append(("smooth", clone_state(m)))
        elif k == "reseed":
            env.seed_all(op["seed"])
        elif k == "rebuild":
            m = zoo.warm(zoo.build(spec), spec)
            log.append(("rebuild", clone_state(m)))
    log.append(("rng", [torch.get_rng_state()]))
    import random

    log.append(("pyrng", [torch.tensor([random.random()])]))
    return log


def quiet_program(p):
    with seams.Dirty(0, clean=True):
        return program(p)


def compare(a, b, what):
    for x in (a, b):
        for kind, v in x:
            if kind == "drew":
                raise Violation("eval-draws", "an evaluation-mode call consumed random numbers (%s)" % v)
    if [k for k, _ in a] != [k for k, _ in b]:
        raise Violation("seed-does-not-fix", "%s: different course %s / %s" % (what, [k for k, _ in a], [k for k, _ in b]))
    for i, ((k, x), (_, y)) in enumerate(zip(a, b)):
        d = exact(x, y)
        if d:
            raise Violation("seed-does-not-fix", "%s: step %d (%s) differs: %s" % (what, i, k, d))


def run(trace, ctx):
    z = ctx.zygote()
    want = z.call(quiet_program, trace["prog"])
    for h in trace["history"]:
        ctx.count("history")
        program(h)
        torch.rand(3)
    with seams.Clock(trace["clock"]):
        dm = seams.Dirty(trace["dirty"])
        with dm:
            got = program(trace["prog"], ctx.c)
    ctx.count("fault.clock")
    ctx.count("fault.dirty", dm.n)
    ctx.nontrivial = dm.n > 0 and len(got) >= 4
    for k, v in got:
        ctx.note(k, digest(v))
    compare([tuple(x) for x in want], got, "same seeds, hostile process")


def simplify(trace):
    yield from generic_simplify(trace, {"b": 1, "hl": 0, "hw": 1, "steps": 1})


# -- whole interpreters ------------------------------------------------------

CHILD = ("import sys, json; sys.path.insert(0, %r); from holsim import main; main.seams.install_locks(); "
         "main.env.load(True); from holsim.props import c11; "
         "d = json.load(sys.stdin); print('@@' + json.dumps([c11.digests(p) for p in d]))")


def digests(p):
    return [(k, v if k == "drew" else digest(v)) for k, v in program(p)]


def interp(progs, hashseed, perturb):
    from ..main import ROOT

    e = dict(os.environ, PYTHONHASHSEED=str(hashseed), MALLOC_PERTURB_=str(perturb))
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD % ROOT], input=json.dumps(progs).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=ROOT, timeout=250)
    for l in r.stdout.decode().splitlines():
        if l.startswith("@@"):
            return json.loads(l[2:])
    raise RuntimeError("interpreter failed: " + r.stderr.decode()[-2000:])


def inter_check(progs, hs):
    a = interp(progs, hs[0], 0)
    b = interp(progs[::-1], hs[1], hs[1] % 255 + 1)[::-1]
    for p, x, y in zip(progs, a, b):
        for i, (u, v) in enumerate(zip(x, y)):
            if u[0] == "drew" or v[0] == "drew":
                continue
            if u != v:
                return dict(cls="interpreters", sig="interpreters", patch=None,
                            msg="the same seeded program differs between two interpreters (hash seeds %s) at step %d (%s); program %s" % (
                                hs, i, u[0], json.dumps(p)[:800]))
    return None


def post(st, seed, tier, deadline):
    from concurrent.futures import ThreadPoolExecutor

    jobs = []
    for g in range(INTERP_GROUPS[tier]):
        rng = Rng("holsim", ID, "interp", seed, g)
        jobs.append(([gen_prog(rng) for _ in range(12)], [rng.randrange(1, 10000), rng.randrange(1, 10000)]))
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda j: inter_check(*j), jobs))
    st["c"]["interpreters"] = 2 * len(jobs)
    st["c"]["interpreter_programs"] = 12 * len(jobs)
    for (progs, hs), v in zip(jobs, res):
        if v:
            # keep only one differing program if that is enough
            for p in progs:
                w = inter_check([p], hs)
                if w:
                    return dict(inter=[p], hs=hs), w
            return dict(inter=progs, hs=hs), v
    return None


def replay(trace, tier):
    from ..main import exec_trace
    from .. import props

    if "inter" in trace:
        return inter_check(trace["inter"], trace["hs"])
    k, r = exec_trace(sys.modules[__name__], trace, tier)
    if k != "ok":
        raise RuntimeError("%s %s" % (k, r))
    return r["v"]
