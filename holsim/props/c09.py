"""C09: training histories with refinements in between, some cut short by
injected exceptions and run again; after every refinement the new network is
compared with its source on inputs in and outside the domain."""
import copy

import torch

from .. import env, life, seams, zoo
from ..cmp import clone_state, digest, exact, maxabs, near
from ..main import Violation, generic_simplify
from ..rng import Rng, derive

ID = "C09"
LEVEL = "exploration"
PRISTINE = False
RUNS = dict(quick=2400, thorough=40000)
LISTS = ("ops",)
RULE = ("a seeded trained network or layer and a history of training steps, evaluations, saves and restores and up to four "
        "refinements (p, h, hp) into new, used or once half-refined targets, some interrupted at a random instruction and run "
        "again; after each one source and target are compared on inputs inside, on the boundaries of and outside the domain, and "
        "the source bit for bit with its copy; non-trivial if at least one refinement was compared")
PROBES = ("fault.exception", "refine.p", "refine.h", "refine.hp", "compared", "outside", "prod", "switch", "discontinuous", "resnet",
          "periodic", "norm", "fc", "mlp", "chain", "target.used", "isolated")
SIMULATED = "training history, exceptions inside refinement, restart of the refinement"
ASSUMPTIONS = ("outputs may differ by 3e-5 of the largest one, or by 20 times what 2e-6 relative changes of the source's or the target's weights and inputs do",)


def gen(rng, tier):
    kind = rng.choice(["p", "h", "hp"])
    spec = life.sample_refinable(rng, kind)
    if rng.chance(0.1):
        spec = wide(rng, spec)
    elif rng.chance(0.06):
        spec = tall(rng, spec)
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        k = rng.wchoice([(4, "train"), (5, "refine"), (0.6, "restore"), (0.6, "eval"), (0.4, "init"), (0.3, "smooth")])
        ops.append(gen_op(rng, k, spec))
    if not any(o["op"] == "refine" for o in ops):
        ops.append(gen_op(rng, "refine", spec))
    return dict(spec=spec, seed=rng.seed31(), scale=rng.choice([1.0, 1.0, 0.5, 2.0]), opt=life.sample_opt(rng), ops=ops,
                dtype=None)


def wide(rng, s):
    """Many links of low order."""
    s["n"] = min(s["n"], 3)
    for k in ("n_in", "n_out", "n_hidden"):
        if s.get(k):
            s[k] = min(s[k], 3)
    for k in ("seg", "iseg", "hseg", "oseg"):
        if k in s:
            s[k] = min(s[k], 2)
    k = rng.choice(["in", "out", "both"])
    big = rng.choice([8, 9, 10, 17, 33] if k != "both" else [8, 9, 10])
    if s["fam"] == "fc":
        s["in"], s["out"] = big if k != "out" else s["in"], big if k != "in" else s["out"]
    elif k == "in":
        s["in"] = big
    else:
        s["hw"], s["hl"] = big, min(s["hl"], 1)
        s["resnet"] = False
    return s


def tall(rng, s):
    """Few links of high order or with many segments."""
    for k in ("in", "out", "hw"):
        if k in s:
            s[k] = min(s[k], 2)
    if rng.chance(0.5):
        for k in ("n", "n_in", "n_out", "n_hidden"):
            if s.get(k):
                s[k] = rng.choice([6, 7, 8])
    else:
        for k in ("seg", "iseg", "hseg", "oseg"):
            if k in s:
                s[k] = rng.choice([7, 9, 12])
    return s


def gen_op(rng, k, spec):
    o = dict(op=k, seed=rng.seed31())
    if k == "refine":
        disc = "discontinuous" in spec["lt"]
        o["kind"] = "p" if disc else rng.choice(["p", "h", "hp"])
        o["used"] = rng.chance(0.3)
        o["move"] = rng.chance(0.7)
        o["faults"] = []
        while rng.chance(0.35) and len(o["faults"]) < 2:
            o["faults"].append(dict(at=rng.choice(["op", "op", "line"]), k=int(10 ** rng.uniform(0.3, 3.2)), exc=rng.choice(sorted(seams.EXC)),
                                    after=rng.chance(0.5)))
        o["inputs"] = [dict(b=rng.choice([4, 8, 16]), style=s, seed=rng.seed31()) for s in
                       [rng.choice(["uniform", "pos"]), rng.choice(["boundary", "mixed"]), rng.choice(["wide", "far", "normal"])]]
    elif k == "train":
        o["steps"] = rng.choice([1, 2, 4])
        o["in"] = zoo.sample_input(rng)
    elif k == "eval":
        o["in"] = zoo.sample_input(rng)
    elif k == "init":
        o.update(slope=1.0, offset=0.3, scale=None)
    elif k == "smooth":
        o["factor"] = rng.choice([0.25, 0.5])
    return o


def too_big(spec):
    segs = zoo.segs_of(spec) + [spec.get("oseg", 1)]
    ns = [spec["n"]] + [spec.get(k) or 0 for k in ("n_in", "n_out", "n_hidden")]
    return max(segs) > 36 or max(ns) > 10 or life.refine_cost(life.with_orders(spec)) > 2500


def compare(a, sa, b, sb, o, dtype, ctx, what):
    for d in o["inputs"]:
        # probe the boundaries of both
        x = zoo.cast(zoo.make_input(sb if d["seed"] % 2 else sa, d), dtype)
        with torch.no_grad():
            ya = zoo.call(a, sa, x)[0]
            yb = zoo.call(b, sb, x)[0]
        ctx.count("compared", x[0].shape[0])
        if float(x[0].abs().max()) > 1:
            ctx.count("outside")
        if ya.shape == yb.shape:
            sc = max(1e-3, maxabs(ya))
            bad = ~((ya - yb).abs() <= 3e-5 * sc + 1e-6)
            bad &= torch.isfinite(ya)
            if not bool(bad.any()):
                continue
            if sc > 1e6 or not torch.isfinite(ya).all():
                ctx.count("illconditioned")
                continue
            da = life.deviation(sa, clone_state(a), x, "nograd", derive(o["seed"], "a"), dtype, k=24)
            db = life.deviation(sb, clone_state(b), x, "nograd", derive(o["seed"], "b"), dtype, k=24)
            # a jump moves all outputs of a sample
            dev = (da["outs"][0] + db["outs"][0]).amax(-1, keepdim=True).expand_as(ya)
            if life.within(ya, yb, dev, 3e-5, 1e-6, 20.0):
                ctx.count("excused")
                continue
            i = int(((ya - yb).abs() - 20 * dev).amax(-1).argmax())
            raise Violation("function-changed", "%s changed the function: at input %s the source gives %s, the refined one %s" % (
                what, x[0][i].tolist(), ya[i].tolist(), yb[i].tolist()))
        raise Violation("shape", "%s: outputs of shape %s and %s" % (what, tuple(ya.shape), tuple(yb.shape)))


def run(trace, ctx):
    spec, dtype = trace["spec"], trace["dtype"]
    m = zoo.make(spec, trace["seed"], trace["scale"], dtype=dtype)
    ctx.count(spec["fam"])
    lt = spec["lt"]
    for k, c in (("prod", "prod" in lt), ("switch", lt in zoo.SWITCH), ("discontinuous", "discontinuous" in lt),
                 ("resnet", spec.get("resnet")), ("periodic", spec.get("per")), ("norm", spec.get("norm"))):
        if c:
            ctx.count(k)
    opt = life.make_opt(trace["opt"], m.parameters())
    nref = 0
    for t, o in enumerate(trace["ops"]):
        k = o["op"]
        if k == "train":
            x = zoo.cast(zoo.make_input(spec, o["in"]), dtype)
            for i in range(o["steps"]):
                life.train_step(m, spec, x, opt, derive(o["seed"], i))
            if not all(torch.isfinite(p).all() for p in m.parameters()) or max(maxabs(p) for p in m.parameters()) > 50:
                return
        elif k == "eval":
            with torch.no_grad():
                zoo.call(m, spec, zoo.cast(zoo.make_input(spec, o["in"]), dtype))
        elif k == "restore":
            m = life.load_into(spec, clone_state(m), dtype)
            opt = life.make_opt(trace["opt"], m.parameters())
        elif k == "init":
            env.seed_all(o["seed"])
            life.initialize(m, o)
        elif k == "smooth":
            life.smooth(m, spec, o["factor"])
        elif k == "refine":
            rs = life.refined_spec(Rng(o["seed"], "spec"), spec, o["kind"])
            if too_big(rs):
                continue
            tgt = zoo.make(rs, derive(o["seed"], "t"), 1.0, dtype=dtype)
            if o["used"]:
                ctx.count("target.used")
                x = zoo.cast(zoo.make_input(rs, dict(b=3, style="wide", seed=o["seed"])), dtype)
                life.train_step(tgt, rs, x, life.make_opt(dict(name="adam", lr=0.01), tgt.parameters()), o["seed"])
            before = clone_state(m)
            what = "%s refinement (operation %d) of %s/%s" % (o["kind"], t, spec["fam"], lt)
            for fd in o["faults"]:
                f = seams.fault(fd)
                try:
                    with f:
                        life.refine(o["kind"], spec, m, tgt)
                except (Exception, KeyboardInterrupt) as e:
                    if "injected" not in str(e):
                        raise
                    ctx.count("fault.exception")
                d = exact(before, clone_state(m))
                if d:
                    raise Violation("source-changed", "%s, interrupted, changed its source: %s" % (what, d))
            life.refine(o["kind"], spec, m, tgt)
            d = exact(before, clone_state(m))
            if d:
                raise Violation("source-changed", "%s changed its source: %s" % (what, d))
            compare(m, spec, tgt, rs, o, dtype, ctx, what)
            ctx.count("refine." + o["kind"])
            ctx.nontrivial = True
            nref += 1
            if nref > 1:
                ctx.count("chain")
            # the two lead separate lives from here on
            c = copy.deepcopy(tgt)
            x = zoo.cast(zoo.make_input(rs, dict(b=3, style="uniform", seed=o["seed"])), dtype)
            life.train_step(tgt, rs, x, life.make_opt(dict(name="sgd", lr=0.1), tgt.parameters()), o["seed"])
            d = exact(before, clone_state(m))
            if d:
                raise Violation("not-separate", "%s: training the refined network changed its source: %s" % (what, d))
            ctx.count("isolated")
            if o["move"]:
                m, spec = c, rs
                opt = life.make_opt(trace["opt"], m.parameters())
        ctx.note(t, k, digest(clone_state(m)))


def simplify(trace):
    yield from generic_simplify(trace, {"b": 1, "hl": 0, "hw": 1, "steps": 1})
