"""C13: networks with a seeded history (training, smoothing, reloads, refinement,
half-finished initialisations) are re-initialised to lines; every link function is
sampled and the outcome compared with a new network in a new process."""
import copy

import torch

from .. import env, life, links, seams, zoo
from ..cmp import clone_state, digest, exact, maxabs, near
from ..main import Violation, generic_simplify
from ..rng import Rng, derive

ID = "C13"
LEVEL = "exploration"
PRISTINE = True
RUNS = dict(quick=2400, thorough=30000)
LISTS = ("ops",)
RULE = ("a seeded network and a history of training steps, smoothing, saves, restores, copies, p-refinements and initialisations, "
        "some of them cut short by injected exceptions; after each complete initialisation every link is sampled across the domain "
        "and the state compared with the one a new network gets in a new process from the same seed; non-trivial if at least one "
        "link was checked")
PROBES = ("fault.exception", "init", "links", "op.train", "op.restore", "op.refine", "op.smooth", "switch", "resnet", "mixed", "prod",
          "scale.inv", "scale.sqrt", "fc", "mlp", "tmlp", "untouched", "again")
SIMULATED = "training history, exceptions inside initialisation, random number generators"
ASSUMPTIONS = ("link functions are observed through the layer's own evaluation in double precision; lines to 1e-5 of their largest value",
               "the random seed is the one of Python's, NumPy's and torch's generators together")


def gen(rng, tier):
    r = rng.random()
    if r < 0.2:
        spec = zoo.sample_fc(rng, ["continuous", "discontinuous", "discontinuous_prod", "continuous_prod", "switch_continuous",
                                   "switch_discontinuous", "polynomial", "product"])
    elif r < 0.8:
        spec = zoo.sample_mlp(rng, lts=[(4, "continuous"), (4, "discontinuous"), (1, "continuous_prod"), (1, "discontinuous_prod"),
                                        (1.5, "switch_continuous"), (1.5, "switch_discontinuous"), (0.5, "polynomial")])
        if rng.chance(0.3):
            spec["lti"] = rng.choice(["continuous", "discontinuous", "polynomial", "switch_discontinuous", "switch_continuous", "baseline"])
    elif r < 0.9:
        spec = zoo.sample_tmlp(rng)
    else:
        spec = zoo.sample(rng, [(1, "fcn"), (0.5, "emb"), (1, "lit"), (0.5, "mlplist"), (0.3, "vae"), (0.5, "low")])
    if rng.chance(0.04):
        zoo.large(rng, spec)
        for k in ("seg", "iseg", "hseg", "oseg"):  # links are observed to 1e-4 up to here
            if isinstance(spec.get(k), int):
                spec[k] = min(spec[k], 20)
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        k = rng.wchoice([(3, "train"), (5, "init"), (1, "restore"), (1, "save"), (0.7, "refine"), (0.4, "copy"), (0.7, "smooth"), (0.5, "eval"), (0.6, "freeze")])
        ops.append(gen_op(rng, k))
    if not any(o["op"] == "init" for o in ops):
        ops.append(gen_op(rng, "init"))
    return dict(spec=spec, seed=rng.seed31(), scale=rng.choice([1.0, 2.0]), opt=life.sample_opt(rng), ops=ops)


def gen_op(rng, k):
    o = dict(op=k, seed=rng.seed31())
    if k == "init":
        o.update(slope=rng.choice([1.0, 1.0, 0.5, 2.0, 0.0, 3.7]), offset=rng.choice([0.0, 0.0, 0.5, 1.0, 2.3]),
                 scale=rng.choice([None, None, "inv", "sqrt"]), fault=None)
        if rng.chance(0.35):
            o["fault"] = dict(at=rng.choice(["op", "line"]), k=int(10 ** rng.uniform(0.2, 3.2)), exc=rng.choice(sorted(seams.EXC)), after=rng.chance(0.5))
    elif k in ("train", "eval"):
        o["steps"] = rng.choice([1, 2])
        o["in"] = zoo.sample_input(rng, rng.choice([1, 2, 4, 8]))
    elif k == "smooth":
        o["factor"] = rng.choice([0.25, 0.5])
    return o


def scale_of(kind, k):
    return 1.0 / k if kind == "inv" else 1.0 / k ** 0.5 if kind == "sqrt" else 1.0


def check_lines(m, o, what, ctx):
    done = 0
    for name, q, kind in links.pieces(m):
        if kind == "cp" or links.order(q, kind)[0] < 2:
            continue
        f = links.evaluator(q, kind)
        seg = links.order(q, kind)[1]
        # inside every segment and at both ends of the domain
        u = torch.tensor([0.001, 0.21, 0.5, 0.77, 0.999], dtype=torch.float64)
        t = (-1 + 2 * (torch.arange(seg, dtype=torch.float64)[:, None] + u[None]) / seg).reshape(-1)
        t = torch.cat([torch.tensor([-1.0], dtype=torch.float64), t, torch.tensor([1.0], dtype=torch.float64)])
        v = f(t)
        a, b = (v[-1] - v[0]) / 2, (v[-1] + v[0]) / 2
        line = t[:, None] * a[None] + b[None]
        tol = 1e-5 * max(1e-2, maxabs(v))
        d = (v - line).abs()
        if not bool((d <= tol).all()):
            i, l = [int(z) for z in (~(d <= tol)).nonzero()[0]]
            raise Violation("not-a-line", "%s: link %d of layer %s is not a straight line: %.7g at %.4f where the line through its ends has %.7g" % (
                what, l, name, float(v[i, l]), float(t[i]), float(line[i, l])))
        smax = o["slope"] * scale_of(o["scale"], q.w.shape[1])
        if float(a.abs().max()) > smax + 2 * tol:
            raise Violation("slope-bound", "%s: layer %s: slope %.6g exceeds the bound %.6g" % (what, name, float(a.abs().max()), smax))
        if float(b.abs().max()) > o["offset"] + 2 * tol:
            raise Violation("offset-bound", "%s: layer %s: offset %.6g exceeds the bound %.6g" % (what, name, float(b.abs().max()), o["offset"]))
        # each link draws its own line
        if a.numel() > 1 and (smax > 0 or o["offset"] > 0):
            same = (a[1:] == a[:-1]) & (b[1:] == b[:-1])
            if smax > 0 and bool(same.all()):
                raise Violation("one-line-for-all", "%s: all %d links of layer %s are the same line" % (what, a.numel(), name))
        done += a.numel()
    return done


def run(trace, ctx):
    spec = trace["spec"]
    z = ctx.zygote()
    m = zoo.make(spec, trace["seed"], trace["scale"])
    ctx.count(spec["fam"])
    lt = str(spec.get("lt"))
    for k, c in (("prod", "prod" in lt), ("switch", lt in zoo.SWITCH), ("mixed", spec.get("lti")), ("resnet", spec.get("resnet"))):
        if c:
            ctx.count(k)

    def new_opt():
        return life.make_opt(trace["opt"], m.parameters()) if any(p.requires_grad for p in m.parameters()) else None

    opt = new_opt()
    disk = clone_state(m)
    n_init = 0
    for t, o in enumerate(trace["ops"]):
        k = o["op"]
        ctx.count("op." + k)
        if k in ("train", "eval"):
            x = zoo.make_input(spec, o["in"])
            for i in range(o["steps"]):
                if k == "eval" or opt is None:
                    with torch.no_grad():
                        zoo.call(m, spec, x)
                else:
                    try:
                        life.train_step(m, spec, x, opt, derive(o["seed"], i))
                    except RuntimeError as e:
                        if "does not require grad" not in str(e):
                            raise
            if not all(torch.isfinite(p).all() for p in m.parameters()):
                return
        elif k == "freeze":
            for i, p in enumerate(m.parameters()):
                if o["seed"] % 4 == 0 or (o["seed"] >> (i % 20)) & 1:
                    if p.is_floating_point():
                        p.requires_grad_(False)
            opt = new_opt()
        elif k == "save":
            disk = clone_state(m)
        elif k == "restore":
            m = life.load_into(spec, disk)
            opt = new_opt()
        elif k == "copy":
            m = copy.deepcopy(m)
            opt = new_opt()
        elif k == "smooth":
            if spec["fam"] in ("fc", "mlp"):
                life.smooth(m, spec, o["factor"])
        elif k == "refine":
            if spec["fam"] not in ("fc", "mlp") or spec.get("lti") or lt not in (
                    "continuous", "discontinuous", "continuous_prod", "discontinuous_prod", "switch_continuous", "switch_discontinuous"):
                continue
            rs = life.refined_spec(Rng(o["seed"], "spec"), spec, "p")
            if max([rs["n"]] + [rs.get(q) or 0 for q in ("n_in", "n_out", "n_hidden")]) > 8:
                continue
            tgt = zoo.make(rs, o["seed"], 1.0)
            life.refine("p", spec, m, tgt)
            m, spec = tgt, rs
            disk = clone_state(m)
            opt = new_opt()
        elif k == "init":
            what = "initialisation (operation %d) of %s/%s with slope %g, offset %g, scaling %s" % (
                t, spec["fam"], lt, o["slope"], o["offset"], o["scale"])
            if o["fault"]:
                env.seed_all(derive(o["seed"], "half") % (2 ** 31))
                try:
                    with seams.fault(o["fault"]):
                        life.initialize(m, o)
                except (Exception, KeyboardInterrupt) as e:
                    if "injected" not in str(e):
                        raise
                    ctx.count("fault.exception")
            before = clone_state(m)
            flags = [(p.requires_grad, tuple(p.shape), p.dtype) for p in m.parameters()]
            env.seed_all(o["seed"])
            life.initialize(m, o)
            n_init += 1
            ctx.count("init")
            if n_init > 1:
                ctx.count("again")
            if o["scale"]:
                ctx.count("scale." + o["scale"])
            after = clone_state(m)
            n = check_lines(m, o, what, ctx)
            ctx.count("links", n)
            if n:
                ctx.nontrivial = True
            # everything else is untouched
            byid = {id(q.w) for _, q, kind in links.pieces(m) if kind != "cp"}
            for key, p in m.state_dict(keep_vars=True).items():
                if id(p) not in byid:
                    d = exact(before[key], after[key])
                    ctx.count("untouched")
                    if d:
                        raise Violation("other-layer-changed", "%s changed %s: %s" % (what, key, d))
            if flags != [(p.requires_grad, tuple(p.shape), p.dtype) for p in m.parameters()]:
                raise Violation("flags", "%s changed parameter flags" % what)
            # a network without any history gets the same
            want = z.call(fresh_init, spec, o, o["seed"])
            for key, p in m.state_dict(keep_vars=True).items():
                if id(p) in byid:
                    d = near(after[key], want[key], 1e-6, 1e-7)
                    if d:
                        raise Violation("history-dependent", "%s: %s differs from what the same seed gives a new network: %s" % (what, key, d))
            # and the network computes what its weights say
            x = zoo.make_input(spec, dict(b=3, style="uniform", seed=o["seed"]))
            ref = life.load_into(spec, after)
            m.eval()
            with torch.no_grad():
                d = near(zoo.call(m, spec, x), zoo.call(ref, spec, x), 2e-6, 1e-7)
            if d:
                raise Violation("stale", "%s: outputs differ from those of a network with the same weights: %s" % (what, d))
        ctx.note(t, k, digest(clone_state(m)))


def fresh_init(spec, o, seed):
    m = zoo.make(spec, 4242, 1.0)
    env.seed_all(seed)
    life.initialize(m, o)
    return clone_state(m)


def simplify(trace):
    yield from generic_simplify(trace, {"b": 1, "hl": 0, "hw": 1, "steps": 1})
