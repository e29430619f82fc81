"""C12: histories of training, smoothing with varying factors, saves, crashes
(also in the middle of smoothing) and restores, refinement; after each smoothing
call the one-sided limits and node values of every link are compared."""
import copy

import torch

from .. import env, life, links, seams, zoo
from ..cmp import clone_state, digest, exact, maxabs, near
from ..main import Violation, generic_simplify
from ..rng import Rng, derive

ID = "C12"
LEVEL = "exploration"
PRISTINE = False
RUNS = dict(quick=3000, thorough=40000)
LISTS = ("ops",)
RULE = ("a seeded network or layer and a history of training steps, smoothing calls, evaluations, saves, crashes in the middle of "
        "smoothing with restart from the last save, hot reloads, copies and p-refinements; after each smoothing call the link "
        "functions, evaluated strictly inside the segments and continued to their ends, are compared with those before; "
        "non-trivial if at least one discontinuous layer with two or more segments was smoothed and compared")
PROBES = ("fault.crash", "smooth", "jumps", "op.train", "op.restore", "op.refine", "consecutive", "switch", "prod", "mixed", "noop",
          "fc", "mlp", "between.backward.and.step", "emb", "f64", "reg", "op.freeze")
SIMULATED = "training history, crash and restart, exceptions inside smoothing"
ASSUMPTIONS = ("link functions are observed through the layer's own evaluation in double precision; comparison to 1e-4 of the largest link value",)


def gen(rng, tier):
    r = rng.random()
    if r < 0.3:
        spec = zoo.sample_fc(rng, ["discontinuous", "discontinuous", "discontinuous_prod", "switch_discontinuous"])
    elif r < 0.8:
        spec = zoo.sample_mlp(rng, lts=[(5, "discontinuous"), (2, "discontinuous_prod"), (2, "switch_discontinuous"), (1, "continuous")])
        if rng.chance(0.3):
            spec["lti"] = rng.choice(["continuous", "discontinuous", "polynomial", "switch_discontinuous", "switch_continuous"])
    elif r < 0.87:
        spec = zoo.sample_emb(rng)
        spec = dict(spec, kind="pd") if spec["kind"] == "pp" else spec
    elif r < 0.94:
        spec = zoo.sample(rng, [(1, "fcn"), (1, "mlplist"), (0.5, "tail"), (1, "low")])
    else:
        spec = zoo.sample_lightning(rng)
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        k = rng.wchoice([(3, "train"), (6, "smooth"), (1, "restore"), (0.7, "eval"), (1, "save"), (0.7, "refine"), (0.4, "copy"), (0.3, "init"), (0.3, "freeze")])
        ops.append(gen_op(rng, k))
    if rng.chance(0.04):
        zoo.large(rng, spec)
        for k in ("seg", "iseg", "hseg", "oseg"):  # links are observed to 1e-4 up to here
            if isinstance(spec.get(k), int):
                spec[k] = min(spec[k], 20)
    if rng.chance(0.03):  # many calls in a row
        ops += [gen_op(rng, "smooth") for _ in range(30)]
    if not any(o["op"] == "smooth" for o in ops):
        ops.append(gen_op(rng, "smooth"))
    return dict(spec=spec, seed=rng.seed31(), scale=rng.choice([1.0, 1.0, 3.0]), opt=life.sample_opt(rng), ops=ops,
                dtype="f64" if rng.chance(0.15) else None)


def gen_op(rng, k):
    o = dict(op=k, seed=rng.seed31())
    if k == "smooth":
        o["factor"] = rng.choice([0.5, 0.5, 0.25, 0.1, 0.9, 1.0, 0.0, 1.5, round(rng.random(), 3)])
        o["crash"] = None
        if rng.chance(0.25):
            o["crash"] = dict(at=rng.choice(["op", "line"]), k=int(10 ** rng.uniform(0.2, 2.2)), exc=rng.choice(sorted(seams.EXC)), after=rng.chance(0.5))
        o["mode"] = rng.wchoice([(4, "plain"), (1, "nograd"), (1.5, "midstep")])
        o["in"] = zoo.sample_input(rng, rng.choice([1, 3]))
    elif k in ("train", "eval"):
        o["steps"] = rng.choice([1, 2, 4])
        o["in"] = zoo.sample_input(rng, rng.choice([1, 2, 4, 8]))
    elif k == "init":
        o.update(slope=1.0, offset=0.3, scale=None)
    return o


def smooth(m, factor):
    if hasattr(m, "model"):
        with env.quiet():
            env.mod("networks").smooth_discontinuous_network(m, factor)
    else:
        life.smooth(m, dict(fam="fc"), factor)


def snapshot(m):
    return {name: links.nodal(q, "d") for name, q, kind in links.pieces(m) if kind == "d" and links.order(q, "d")[0] >= 2}


def check(name, before, after, factor, what, first=None, total=None):
    """before/after: [links, segments, n]"""
    sc = max(1e-3, maxabs(before))
    tol = 1e-4 * sc

    def bad(a, b, rule):
        d = (a - b).abs()
        if not bool((d <= tol).all()):
            i = [int(v) for v in (~(d <= tol)).nonzero()[0]]
            raise Violation(rule, "%s: layer %s: %s at [link, boundary/node] %s: %.7g instead of %.7g" % (
                what, name, rule, i, float(a[tuple(i)]), float(b[tuple(i)])))

    jb = before[:, 1:, 0] - before[:, :-1, -1]
    ja = after[:, 1:, 0] - after[:, :-1, -1]
    bad(ja, (1 - factor) * jb, "jump-not-scaled")
    bad(after[:, 1:, 0] + after[:, :-1, -1], before[:, 1:, 0] + before[:, :-1, -1], "mean-moved")
    bad(after[:, 0, 0], before[:, 0, 0], "left-end-moved")
    bad(after[:, -1, -1], before[:, -1, -1], "right-end-moved")
    bad(after[:, :, 1:-1], before[:, :, 1:-1], "inner-node-moved")
    if first is not None:
        j0 = first[:, 1:, 0] - first[:, :-1, -1]
        bad(ja, total * j0, "jump-not-geometric")
    return jb.numel()


def run(trace, ctx):
    spec, dtype = trace["spec"], trace["dtype"]
    if dtype and not zoo.f64_ok(spec):
        dtype = None
    m = zoo.make(spec, trace["seed"], trace["scale"], dtype=dtype)
    ctx.count(spec["fam"] if spec["fam"] != "cls" else "reg")
    lt = str(spec.get("lt"))
    for k, c in (("prod", "prod" in lt), ("switch", lt in zoo.SWITCH), ("mixed", spec.get("lti")), ("f64", dtype)):
        if c:
            ctx.count(k)
    opt = life.make_opt(trace["opt"], m.parameters()) if any(p.requires_grad for p in m.parameters()) else None
    disk = clone_state(m)
    first, total = None, 1.0
    for t, o in enumerate(trace["ops"]):
        k = o["op"]
        ctx.count("op." + k)
        if k != "smooth":
            first, total = None, 1.0
        if k in ("train", "eval"):
            x = zoo.cast(zoo.make_input(spec, o["in"]), dtype)
            for i in range(o["steps"]):
                if k == "eval" or opt is None:
                    with torch.no_grad():
                        zoo.call(m, spec, x)
                else:
                    try:
                        life.train_step(m, spec, x, opt, derive(o["seed"], i))
                    except RuntimeError as e:
                        if "does not require grad" not in str(e):
                            raise
            if not all(torch.isfinite(p).all() and maxabs(p) < 1e6 for p in m.parameters()):
                return
        elif k == "freeze":
            ps = [p for p in m.parameters() if p.is_floating_point()]
            if ps:
                p = ps[o["seed"] % len(ps)]
                p.requires_grad_(not p.requires_grad)
                p.grad = None
                opt = life.make_opt(trace["opt"], m.parameters()) if any(q.requires_grad for q in ps) else None
        elif k == "save":
            disk = clone_state(m)
        elif k == "restore":
            m.load_state_dict(disk)
        elif k == "copy":
            m = copy.deepcopy(m)
            opt = life.make_opt(trace["opt"], m.parameters()) if any(q.requires_grad for q in m.parameters()) else None
        elif k == "init":
            env.seed_all(o["seed"])
            life.initialize(m, o)
        elif k == "refine":
            if dtype or spec["fam"] not in ("fc", "mlp") or spec.get("lti") or spec.get("norm") == "bn":
                continue
            if lt not in ("discontinuous", "discontinuous_prod", "switch_discontinuous", "continuous"):
                continue
            rs = life.refined_spec(Rng(o["seed"], "spec"), spec, "p")
            if max([rs["n"]] + [rs.get(q) or 0 for q in ("n_in", "n_out", "n_hidden")]) > 8:
                continue
            tgt = zoo.make(rs, o["seed"], 1.0)
            life.refine("p", spec, m, tgt)
            m, spec = tgt, rs
            disk = clone_state(m)
            opt = life.make_opt(trace["opt"], m.parameters())
        elif k == "smooth":
            if o["crash"]:
                f = seams.fault(o["crash"])
                died = False
                try:
                    with f:
                        smooth(m, o["factor"])
                except (Exception, KeyboardInterrupt) as e:
                    if "injected" not in str(e):
                        raise
                    died = True
                ctx.count("fault.crash")
                # the process is gone; a new one starts from the last save
                m = life.load_into(spec, disk, dtype)
                opt = life.make_opt(trace["opt"], m.parameters()) if any(q.requires_grad for q in m.parameters()) else None
                first, total = None, 1.0
            before, sb = snapshot(m), clone_state(m)
            kinds = {name: q for name, q, kind in links.pieces(m) if kind == "d"}
            if first is None:
                first, total = before, 1.0
            else:
                ctx.count("consecutive")
            total *= 1 - o["factor"]
            what = "smoothing by %g (operation %d) of %s/%s" % (o["factor"], t, spec["fam"], lt)
            grads = None
            if o["mode"] == "midstep" and opt is not None:
                ctx.count("between.backward.and.step")
                opt.zero_grad()
                l = zoo.loss_of(zoo.call(m, spec, zoo.cast(zoo.make_input(spec, o["in"]), dtype)), o["seed"])
                if torch.is_tensor(l) and l.requires_grad:
                    l.backward()
                grads = {n: p.grad.clone() for n, p in m.named_parameters() if p.grad is not None}
            sb = clone_state(m)
            flags = [p.requires_grad for p in m.parameters()]
            if o["mode"] == "nograd":
                with torch.no_grad():
                    smooth(m, o["factor"])
            else:
                smooth(m, o["factor"])
            ctx.count("smooth")
            after, sa = snapshot(m), clone_state(m)
            if flags != [p.requires_grad for p in m.parameters()]:
                raise Violation("flags", "%s froze or released parameters" % what)
            if sorted(sa) != sorted(sb):
                raise Violation("state", "%s: the network's state changed its entries" % what)
            for name in before:
                n = check(name, before[name], after[name], o["factor"], what, first[name], total)
                ctx.count("jumps", n)
                if n:
                    ctx.nontrivial = True
            if not before:
                ctx.count("noop")
            byid = {id(q.w): q for q in kinds.values()}
            own = {key: byid[id(p)] for key, p in m.state_dict(keep_vars=True).items() if id(p) in byid}
            for key in sb:
                if key in own:
                    n, seg = links.order(own[key], "d")
                    if n < 2:
                        continue
                    lim = 2 * (seg - 1) * (sb[key].shape[0] * sb[key].shape[1]) if o["factor"] else 0
                    # by 0 the two sides of a jump may still be rewritten, to rounding
                    moved = (sb[key].double() - sa[key].double()).abs() > (0 if o["factor"] else 2e-6 * max(1e-3, maxabs(sb[key])))
                    c = int(moved.sum())
                    if c > lim:
                        raise Violation("other-nodes-changed", "%s: %d values of %s changed; its discontinuous nodes are %d" % (what, c, key, lim))
                else:
                    d = exact(sb[key], sa[key])
                    if d:
                        raise Violation("other-layer-changed", "%s: %s changed: %s" % (what, key, d))
            # what the network computes is what its nodes say
            x = zoo.cast(zoo.make_input(spec, o["in"]), dtype)
            ref = life.load_into(spec, sa, dtype)
            m.eval()
            with torch.no_grad():
                d = near(zoo.call(m, spec, x), zoo.call(ref, spec, x), 2e-6, 1e-7)
            if d:
                raise Violation("stale", "%s: outputs differ from those of a network with the same weights: %s" % (what, d))
            if grads is not None:
                g2 = {n: p.grad for n, p in m.named_parameters() if p.grad is not None}
                d = exact(grads, g2)
                if d:
                    raise Violation("gradient-changed", "%s changed accumulated gradients: %s" % (what, d))
                if grads:
                    first = None
                    opt.step()
                    if not all(torch.isfinite(p).all() and maxabs(p) < 1e6 for p in m.parameters()):
                        return
        ctx.note(t, k, digest(clone_state(m)))


def simplify(trace):
    yield from generic_simplify(trace, {"b": 1, "hl": 0, "hw": 1, "steps": 1})
