"""C06: calls are cut short by injected exceptions (allocation failure, runtime
error, interrupt) at arbitrary tensor operations and source lines; afterwards
nothing may have changed, and later calls must equal those of a process in
which the failure never happened."""
import copy

import torch

from .. import env, life, seams, zoo
from ..cmp import clone_state, digest, exact, near
from ..main import Violation, generic_simplify
from ..rng import derive
from .c08 import has_bn

ID = "C06"
LEVEL = "fault_enumeration"
PRISTINE = True
RUNS = dict(quick=1800, thorough=30000)
LISTS = ("ops", "models")
RULE = ("seeded histories of calls over 1-2 models in which most calls are interrupted at a seeded tensor operation or "
        "source line and then repeated; non-trivial if at least one injected fault fired and a later result was compared")
PROBES = ("fault.op", "fault.line", "fault.oom", "fault.mem", "fault.intr", "fault.rt", "op.refine", "op.init", "op.deepcopy",
          "kind.grad", "kind.backward", "compared")
SIMULATED = "allocation failures, runtime errors and interrupts at any tensor operation or source line"
ASSUMPTIONS = ("models have been used once (lazily created parameters exist)",
               "after an interrupted backward() the .grad fields are unspecified")


def gen_fault(rng):
    return dict(at=rng.choice(["op", "op", "line"]), f=rng.random(), exc=rng.choice(sorted(seams.EXC)), after=rng.chance(0.4))


def gen(rng, tier):
    models = []
    for _ in range(rng.wchoice([(3, 1), (2, 2)])):
        if models and rng.chance(0.6):
            s = life.sibling(rng, models[0]["spec"])
        elif rng.chance(0.3):
            s = life.sample_refinable(rng)
        elif rng.chance(0.1):
            s = zoo.sample_mlp(rng, dropout=True)
        elif rng.chance(0.08):
            s = dict(zoo.sample_att(rng, ["rel"]), dropout=0.3)
        else:
            s = zoo.sample(rng)
        models.append(dict(spec=s, seed=rng.seed31(), scale=rng.choice([1.0, 0.5])))
    ops = []
    for _ in range(rng.choice([2, 3, 5, 7])):
        m = rng.randrange(len(models))
        k = rng.wchoice([(10, "call"), (1, "deepcopy"), (1.2, "refine"), (1.2, "init"), (1, "step")])
        o = dict(op=k, m=m, seed=rng.seed31(), inp=zoo.sample_input(rng), fault=gen_fault(rng) if rng.chance(0.75) else None,
                 retry=rng.chance(0.75))
        if k == "call":
            o["kind"] = rng.choice(["plain", "nograd", "grad", "grad", "backward"])
        if k == "refine":
            sp = models[m]["spec"]
            o["how"] = rng.choice(["p", "h", "hp"])
            if sp.get("lt") not in ("continuous", "continuous_prod", "switch_continuous"):
                o["how"] = "p"
            if refinable(sp):
                o["target"] = life.refined_spec(rng, sp, o["how"])
            if not refinable(sp) or life.refine_cost(o["target"]) > 1200:
                o.pop("target", None)
                o["op"] = "call"
                o["kind"] = "plain"
        if k == "init":
            o["init"] = dict(slope=rng.choice([0.3, 1.0]), offset=rng.choice([0.0, 0.5]), scale=rng.choice([None, "inv", "sqrt"]))
        if o["op"] != "call":
            o["train"] = rng.chance(0.5)
        elif not has_bn(models[m]["spec"]):
            o["train"] = rng.chance(0.7 if models[m]["spec"].get("dropout") else 0.2)
        ops.append(o)
        if o["fault"] and rng.chance(0.4):
            # a later call of another shape or mode on the same model
            f = dict(op="call", m=m, seed=rng.seed31(), inp=zoo.sample_input(rng), fault=None, retry=False, kind=rng.choice(["plain", "nograd", "grad"]))
            if not has_bn(models[m]["spec"]):
                f["train"] = rng.chance(0.4)
            ops.append(f)
    return dict(models=models, ops=ops)


def refinable(s):
    return s["fam"] in ("fc", "mlp") and s.get("lt") in (
        "continuous", "discontinuous", "continuous_prod", "discontinuous_prod", "switch_continuous",
        "switch_discontinuous") and not s.get("lti") and s.get("norm") in (None,) + zoo.FREE_NORMS


def guarded(fn, f, cnt):
    """Runs fn under fault f (position f['f'] of cnt[...] events)."""
    if f is None:
        return fn(), None
    n = max(1, cnt[f["at"]])
    d = dict(at=f["at"], k=min(n - 1, int(f["f"] * n)), exc=f["exc"], after=f["after"])
    fa = seams.fault(d)
    try:
        with fa:
            r = fn()
    except (Exception, KeyboardInterrupt) as e:
        if fa.fired is None or "injected" not in str(e):
            raise
        return None, fa
    if fa.fired is not None:
        raise Violation("swallowed", "an exception injected at %s was swallowed and the call returned" % fa.fired)
    return r, None


def op_fn(models, op, spec):
    """The operation on the given models as a thunk (no exception handling)."""
    m = models[0]
    k = op["op"]
    args = zoo.make_input(spec, op["inp"]) if k in ("call",) else None
    if k == "call":
        kind = op["kind"]
        if kind == "grad":
            return lambda: zoo.grads_of(m, spec, args, op["seed"])
        if kind == "backward":
            def f():
                outs = zoo.call(m, spec, args)
                l = zoo.loss_of(outs, op["seed"])
                if torch.is_tensor(l) and l.requires_grad:
                    l.backward()
                return [o.detach() for o in outs], None
            return f
        if kind == "nograd":
            def f():
                with torch.no_grad():
                    return zoo.call(m, spec, args), None
            return f
        return lambda: ([o.detach() for o in zoo.call(m, spec, args)], None)
    if k == "deepcopy":
        return lambda: copy.deepcopy(m)
    if k == "refine":
        return lambda: life.refine(op["how"], spec, m, models[1])
    if k == "init":
        return lambda: life.initialize(m, op["init"])


def count_events(spec, state, op, tstate):
    """In a pristine process: how many tensor operations and lines it has."""
    out = {}
    for at in ("op", "line"):
        ms = [life.load_into(spec, state)]
        if op["op"] == "refine":
            ms.append(life.load_into(op["target"], tstate))
        fa = seams.fault(dict(at=at, k=10 ** 9, exc="rt"))
        with fa:
            op_fn(ms, op, spec)()
        out[at] = fa.n
    return out


def flags(m):
    return ([(n, id(p), p.requires_grad) for n, p in m.named_parameters()], [(n, id(b)) for n, b in m.named_buffers()],
            [(n, x.training, type(x).__name__) for n, x in m.named_modules()])


def check_same(m, st0, fl0, amb0, what, ignore=()):
    d = exact(st0, clone_state(m))
    if d:
        raise Violation("weights-changed", "%s changed the model: %s" % (what, d))
    if flags(m) != fl0:
        raise Violation("flags-changed", "%s changed parameters, flags or modes of the model" % what)
    bad = seams.ambient_diff(amb0, seams.ambient(), ignore)
    if bad:
        raise Violation("ambient-changed", "%s changed process-wide %s" % (what, bad))


def run(trace, ctx):
    z = ctx.zygote()
    env.seed_all(11)
    live = [zoo.make(d["spec"], d["seed"], d["scale"]) for d in trace["models"]]
    compared = 0
    for t, op in enumerate(trace["ops"]):
        if op["m"] >= len(live):
            continue
        m, spec = live[op["m"]], trace["models"][op["m"]]["spec"]
        k = op["op"]
        ctx.count("op." + k)
        if k == "step":
            opt = None
            m.eval()
            if any(p.requires_grad for p in m.parameters()):
                opt = life.make_opt(dict(name="sgd", lr=0.01), m.parameters())
                life.train_step(m, spec, zoo.make_input(spec, op["inp"]), opt, op["seed"])
                if any(not torch.isfinite(p).all() for p in m.parameters()):
                    return
            for p in m.parameters():
                p.grad = None
            continue
        m.train(bool(op.get("train")))
        if op.get("train"):
            ctx.count("train")
        st0 = clone_state(m)
        tgt, tst0 = None, None
        if k == "refine":
            tgt = zoo.make(op["target"], op["seed"])
            tst0 = clone_state(tgt)
        cnt = z.call(count_events, spec, st0, op, tst0) if op["fault"] else None
        what = "%s %d of %s/%s" % (k, t, spec["fam"], spec.get("lt", spec.get("kind")))
        models = [m] + ([tgt] if tgt is not None else [])
        attempts = [op["fault"], None] if op["fault"] and op["retry"] else [op["fault"]]
        fl0 = flags(m)
        grads0 = {n: p.grad for n, p in m.named_parameters()}
        expect = None
        for ai, f in enumerate(attempts):
            if k == "call":
                args0 = zoo.make_input(spec, op["inp"])
            fn = op_fn(models, op, spec)
            inputs = None
            if k == "call":
                inputs = fn.__closure__ and [c.cell_contents for c in fn.__closure__ if isinstance(c.cell_contents, tuple)
                                             and c.cell_contents and torch.is_tensor(c.cell_contents[0])]
            env.seed_all(derive(op["seed"], "r") % (2 ** 31))
            amb0 = seams.ambient()
            r, fa = guarded(fn, f, cnt)
            if fa is not None:
                ctx.count("fault." + f["at"])
                ctx.count("fault." + f["exc"])
                ctx.reach("fault sites", "%s" % fa.fired)
                w = "%s, cut short by %s at %s," % (what, f["exc"], fa.fired)
            else:
                w = what
            rng_keys = ("torch_rng", "py_rng", "np_rng") if k == "init" or op.get("train") else ()
            if k != "init":
                check_same(m, st0, fl0, amb0, w, rng_keys)
            else:
                bad = seams.ambient_diff(amb0, seams.ambient(), rng_keys)
                if bad or flags(m) != fl0:
                    raise Violation("ambient-changed", "%s changed %s" % (w, bad or "flags"))
            if k == "call" and inputs:
                for a, b in zip(inputs[0], args0):
                    if torch.is_tensor(a) and exact(a.detach(), b):
                        raise Violation("input-changed", "%s modified its input" % w)
            if k == "call" and op["kind"] != "backward":
                for n, p in m.named_parameters():
                    if p.grad is not grads0[n]:
                        raise Violation("grad-changed", "%s changed .grad of %s" % (w, n))
            if fa is not None:
                for p in m.parameters():
                    p.grad = None
                grads0 = {n: None for n, p in m.named_parameters()}
                continue
            # completed: must be what a process without failures computes
            compared += 1
            ctx.count("compared")
            if k == "call":
                ctx.count("kind." + op["kind"])
                kind = op["kind"]
                if expect is None:
                    expect = z.call(life.pristine_call, spec, st0, zoo.make_input(spec, op["inp"]), kind, op["seed"], None,
                                    bool(op.get("train")), derive(op["seed"], "r") % (2 ** 31))
                outs, g = r
                if kind == "backward":
                    g = {n: (None if p.grad is None else p.grad.detach().clone()) for n, p in m.named_parameters()}
                    for p in m.parameters():
                        p.grad = None
                got = dict(outs=outs, grads=g)
                d = life.compare_call(got, expect)
                if d and f is not None and f["at"] == "op":
                    # under the interposition torch may pick other kernels: rounding only
                    if life.excused(got, expect, z.call(life.deviation, spec, st0, zoo.make_input(spec, op["inp"]), kind, op["seed"], None,
                                                           bool(op.get("train")), rng_seed=derive(op["seed"], "r") % (2 ** 31))):
                        ctx.count("excused")
                        d = None
                if d:
                    raise Violation("later-call-wrong", "%s (attempt %d) differs from a process without failures: %s" % (w, ai, d))
                ctx.note(t, digest(outs))
            elif k == "deepcopy":
                d = exact(st0, clone_state(r))
                if d:
                    raise Violation("later-call-wrong", "%s gives a different model: %s" % (w, d))
                live[op["m"]] = r
            elif k == "refine":
                e = z.call(life.pristine_refine, op["how"], spec, st0, op["target"], tst0)
                d = near(clone_state(tgt), e)
                if d:
                    raise Violation("later-call-wrong", "%s (attempt %d) gives another target than without failures: %s" % (w, ai, d))
                ctx.note(t, digest(e))
            elif k == "init":
                e = z.call(life.pristine_init, spec, st0, op["init"], derive(op["seed"], "r") % (2 ** 31))
                d = near(clone_state(m), e)
                if d:
                    raise Violation("later-call-wrong", "%s (attempt %d) gives another network than without failures: %s" % (w, ai, d))
    ctx.nontrivial = compared >= 1 and any(k.startswith("fault.") for k in ctx.c)


def simplify(trace):
    yield from generic_simplify(trace, {"b": 1, "hl": 0, "hw": 1})
