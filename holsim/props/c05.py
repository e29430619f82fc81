"""C05: real threads call shared and separate models under a scheduler that
decides at every source line (or bytecode) of the package which thread runs;
every answer is compared with the one a single-threaded fresh process gives."""
import copy

import torch

from .. import env, life, sched, seams, zoo
from ..cmp import clone_state, digest, exact, near
from ..main import Violation, generic_simplify
from ..rng import derive

ID = "C05"
LEVEL = "exploration"
PRISTINE = True
RUNS = dict(quick=2000, thorough=30000)
LISTS = ("sw", "ops", "threads")
RULE = ("2-4 threads x 1-4 operations (evaluation, gradients, refinement into a private network, deep copy, saving) on 1-3 "
        "shared or separate models; schedules: random preemption, one thread parked, priority changes, line or bytecode "
        "granularity; non-trivial if at least one preemption happened inside the package")
PROBES = ("preempted", "mode.rand", "mode.stall", "mode.pct", "opcodes", "op.call", "op.refine", "op.deepcopy", "op.state",
          "shared_model", "shared_input")
SIMULATED = "thread scheduling at line/bytecode granularity inside the package; locks created by the package"
MEASURE = "distinct preemption points (function:line) and distinct schedules (hash of switch points)"
ASSUMPTIONS = ("tensor operations are atomic with respect to the scheduler", "models were used at least once before and are in "
               "evaluation mode")


def gen(rng, tier):
    models = []
    # half of the time everyone makes the same kind of call of one model with inputs of equal shape
    crowd = rng.choice(["plain", "nograd", "nograd", "inference", "grad"]) if rng.chance(0.5) else None
    for _ in range(1 if crowd else rng.wchoice([(4, 1), (3, 2), (1, 3)])):
        if models and rng.chance(0.7):
            s = life.sibling(rng, models[0]["spec"])
        elif rng.chance(0.25):
            s = life.sample_refinable(rng)
        else:
            s = zoo.sample(rng)
        models.append(dict(spec=s, seed=rng.seed31(), dtype=rng.wchoice([(6, None), (1, "f64")]) if zoo.f64_ok(s) else None))
    b = rng.choice([1, 2, 3]) if crowd else None
    inputs = [zoo.sample_input(rng, b=b or rng.choice([1, 2, 3, 3, 5, 8])) for _ in range(4)]
    threads = []
    for _ in range(rng.wchoice([(5, 2), (3, 3), (1, 4)])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            m = rng.randrange(len(models))
            k = "call" if crowd and rng.chance(0.9) else rng.wchoice([(10, "call"), (1, "refine"), (0.7, "deepcopy"), (0.7, "state")])
            sp = models[m]["spec"]
            o = dict(op=k, m=m, seed=rng.seed31())
            if k == "refine":
                from .c06 import refinable

                if not refinable(sp) or models[m]["dtype"]:
                    k = o["op"] = "call"
                else:
                    o["how"] = rng.choice(["p", "h", "hp"]) if sp["lt"] in ("continuous", "continuous_prod", "switch_continuous") else "p"
                    o["target"] = life.refined_spec(rng, sp, o["how"])
                    if life.refine_cost(o["target"]) > 800:
                        del o["target"], o["how"]
                        k = o["op"] = "call"
            if k == "call":
                i = rng.randrange(len(inputs))
                o.update(inp=inputs[i], shared=rng.chance(0.15 if crowd else 0.4), kind=crowd or rng.choice(["plain", "nograd", "grad", "grad"]))
            ops.append(o)
        threads.append(dict(ops=ops))
    mode = rng.wchoice([(4, "rand"), (3, "stall"), (2, "pct")])
    plan = dict(mode=mode, seed=rng.seed31())
    if mode == "rand":
        plan["p"] = rng.choice([0.01, 0.05, 0.2, 0.5])
    if mode == "stall":
        plan["len"] = rng.choice([20, 60, 200, 600])
    if mode == "pct":
        plan["d"] = rng.choice([1, 2, 3])
        plan["len"] = rng.choice([50, 200, 800])
    return dict(models=models, threads=threads, plan=plan, opcodes=rng.chance(0.25) and not any(o["op"] == "refine" for t in threads for o in t["ops"]), pre=zoo.sample_input(rng, b=rng.choice([1, 2, 4])))


def run(trace, ctx):
    z = ctx.zygote()
    env.seed_all(3)
    models = [zoo.make(d["spec"], d["seed"], dtype=d.get("dtype")) for d in trace["models"]]
    dts = [d.get("dtype") for d in trace["models"]]
    specs = [d["spec"] for d in trace["models"]]
    for m, s, dt in zip(models, specs, dts):
        zoo.call(m, s, zoo.cast(zoo.make_input(s, trace["pre"]), dt))
        if dt:
            ctx.count("f64")
    st0 = [clone_state(m) for m in models]
    fl0 = [[(n, p.requires_grad, p.grad) for n, p in m.named_parameters()] + [x.training for x in m.modules()] for m in models]
    shared = {}
    jobs = []
    used = {}
    for ti, th in enumerate(trace["threads"]):
        lst = []
        for op in th["ops"]:
            if op["m"] >= len(models):
                continue
            ctx.count("op." + op["op"])
            if used.setdefault(op["m"], ti) != ti:
                ctx.count("shared_model")
            m, s = models[op["m"]], specs[op["m"]]
            j = dict(op=op, m=m, spec=s)
            if op["op"] == "call":
                key = (op["m"], op["inp"]["seed"], op["inp"]["b"])
                if op["shared"]:
                    if key in shared:
                        ctx.count("shared_input")
                    j["args"] = shared.setdefault(key, zoo.cast(zoo.make_input(s, op["inp"]), dts[op["m"]]))
                else:
                    j["args"] = zoo.cast(zoo.make_input(s, op["inp"]), dts[op["m"]])
                j["before"] = [a.clone() if torch.is_tensor(a) else a for a in j["args"]]
            elif op["op"] == "refine":
                j["target"] = zoo.make(op["target"], op["seed"], dtype=dts[op["m"]])
                j["tst"] = clone_state(j["target"])
            lst.append(j)
        jobs.append(lst)
    jobs = [l for l in jobs if l]
    if not jobs:
        return
    env.seed_all(17)
    amb0 = seams.ambient()

    def body(lst):
        def f():
            out = []
            for j in lst:
                a = (torch.is_grad_enabled(), str(torch.get_default_dtype()))
                k = j["op"]["op"]
                if k == "call":
                    r = life.do_call(j["m"], j["spec"], j["args"], j["op"]["kind"], j["op"]["seed"])
                elif k == "refine":
                    life.refine(j["op"]["how"], j["spec"], j["m"], j["target"])
                    r = clone_state(j["target"])
                elif k == "deepcopy":
                    c = copy.deepcopy(j["m"])
                    r = clone_state(c)
                else:
                    r = clone_state(j["m"])
                b = (torch.is_grad_enabled(), str(torch.get_default_dtype()))
                out.append((r, a, b))
            return out
        return f

    sc = sched.Scheduler(trace["plan"], trace["opcodes"])
    with env.quiet():
        env.quiet.held = True
        try:
            res = sc.run([body(l) for l in jobs])
        finally:
            env.quiet.held = False
    ctx.count("mode." + trace["plan"]["mode"])
    if trace["opcodes"]:
        ctx.count("opcodes")
    ctx.count("switches", len(sc.switches))
    ctx.count("steps", sc.step)
    if sc.points:
        ctx.count("preempted")
        ctx.nontrivial = True
    for p in sc.points:
        ctx.reach("preemption points", "%s:%d" % p)
    ctx.reach("schedules", sc.trace_hash)
    patch = dict(plan=dict(mode="list", sw=sc.switches))

    def viol(cls, msg):
        raise Violation(cls, msg, patch=patch)

    for i, (lst, r) in enumerate(zip(jobs, res)):
        if r is None or r[0] == "deadlock":
            viol("deadlock", "thread %d can never proceed: %s" % (i, r and r[1]))
        if r[0] == "exc":
            viol("thread-exception", "thread %d: %s" % (i, r[1]))
        for n, (j, (v, a, b)) in enumerate(zip(lst, r[1])):
            op = j["op"]
            what = "thread %d operation %d (%s on %s/%s)" % (i, n, op["op"], j["spec"]["fam"], j["spec"].get("lt", j["spec"].get("kind")))
            good = (True, "torch.float32")
            if a != good or b != good:
                viol("ambient", "%s saw grad mode/default dtype %s before and %s after" % (what, a, b))
            st = st0[op["m"]]
            if op["op"] == "call":
                e = z.call(life.pristine_call, j["spec"], st, j["before"], op["kind"], op["seed"], dts[op["m"]])
                d = life.compare_call(v, e)
                for x, y in zip(j["args"], j["before"]):
                    if torch.is_tensor(x) and exact(x.detach(), y):
                        viol("input-changed", "%s: an input was modified" % what)
                if "outs" in v:
                    ctx.note(i, n, digest(v["outs"]))
            elif op["op"] == "refine":
                d = near(v, z.call(life.pristine_refine, op["how"], j["spec"], st, op["target"], j["tst"], dts[op["m"]]))
            else:
                d = exact(v, st)
            if d:
                viol("interference", "%s got a different answer than alone: %s" % (what, d))
    for m, s0, f0, s in zip(models, st0, fl0, specs):
        d = exact(s0, clone_state(m))
        f1 = [(n, p.requires_grad, p.grad) for n, p in m.named_parameters()] + [x.training for x in m.modules()]
        if d or f1 != f0:
            viol("model-changed", "a model was changed by concurrent callers: %s" % (d or "flags"))
    bad = seams.ambient_diff(amb0, seams.ambient())
    if bad:
        viol("ambient", "process-wide %s changed" % bad)
    ctx.note("sched", sc.trace_hash, sc.step)


def simplify(trace):
    yield from generic_simplify(trace, {"b": 1, "hl": 0, "hw": 1})
