"""C03: the sparse optimizer is stepped through simulated training histories
(several optimizers and groups, missing/zero/sparse gradients, hyper-parameter
changes, crash + restore of optimizer state, rollbacks, raising closures) and
compared after every step with a float64 reference model of the rule."""
import copy
import io

import torch

from .. import env, zoo
from ..main import Violation, generic_simplify
from ..rng import Rng, derive

ID = "C03"
LEVEL = "exploration"
LIGHTNING = False
RUNS = dict(quick=3200, thorough=60000)
LISTS = ("ops", "opts", "groups", "params")
RULE = ("seeded histories over 1-2 optimizers x 1-3 groups x 1-4 parameters (random shapes, dtypes, layouts, or the "
        "parameters of a real piecewise layer fed with real gradients); a run is non-trivial if it contains at least "
        "two effective steps and one of: restart, rollback, hyper-parameter change, missing gradient, raising closure")
PROBES = ("op.accumulate", "op.keep", "balanced_checked", "fault.restart", "fault.closure_raise", "inactive_checked", "active_checked", "op.real", "op.addgroup")
SIMULATED = "gradient stream, process restarts (state_dict through torch.save bytes), closure failures"
ASSUMPTIONS = ("gradients are finite", "where momentum and gradient cancel to within 1e-5 either sign is accepted")

SHAPES = [[], [1], [3], [7], [2, 3], [4, 1, 3], [2, 2, 2, 2], [33], [5, 9]]
LARGE = [[5000], [70, 70], [3, 2, 900]]


def gen_group(rng, real):
    d = dict(lr=rng.choice([1e-4, 1e-3, 0.01, 0.1, 0.5]), wd=rng.choice([0.0, 0.0, 0.01, 0.1, 0.5, 1.0]),
             betas=rng.choice([[0.9, 0.99], [0.9, 0.99], [0.95, 0.98], [0.0, 0.9], [0.5, 0.5], [1.0, 0.5], [0.9, 1.0], [0.0, 0.0], [0.5, 0.0]]),
             params=[])
    if real:
        d["layer"] = zoo.sample_fc(rng, ["continuous", "discontinuous", "switch_continuous", "polynomial", "product"])
        d["seed"] = rng.seed31()
    else:
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            d["params"].append(dict(shape=rng.choice(SHAPES) if rng.chance(0.97) else rng.choice(LARGE), dtype=rng.choice(["f32", "f32", "f32", "f64"]),
                                    lay=rng.choice(["c", "c", "c", "t"]), seed=rng.seed31(),
                                    scale=rng.choice([1.0, 1.0, 100.0, 1e-3])))
    return d


def gen_step(rng, o):
    modes = []
    for _ in range(12):
        modes.append(rng.wchoice([(4, "dense"), (5, "sparse"), (1.5, "none"), (1, "zero"), (1, "one"), (0.5, "negzero"),
                                  (0.5, "tiny"), (0.5, "huge"), (1, "same"), (1, "oppose"), (0.8, "rows")]))
    return dict(op="step", o=o, seed=rng.seed31(), modes=modes,
                closure=rng.wchoice([(6, None), (2, "ok"), (1, "raise"), (0.5, "none")]),
                nograd=rng.chance(0.2), keep=rng.chance(0.15), glay=rng.wchoice([(7, None), (1, "t"), (1, "x"), (1, "graph")]), acc=rng.chance(0.12), scale=rng.choice([1.0, 1.0, 1e-3, 1e3]))


def gen(rng, tier):
    opts = []
    for _ in range(rng.wchoice([(3, 1), (1, 2)])):
        ng = rng.wchoice([(3, 1), (2, 2), (1, 3)])
        opts.append(dict(groups=[gen_group(rng, rng.chance(0.25)) for _ in range(ng)],
                         dlr=rng.choice([1e-4, 0.3]), dwd=rng.choice([0.0, 0.2])))
    ops = []
    n = rng.choice([3, 5, 8, 12, 20] if tier == "quick" else [3, 5, 8, 12, 20, 40])
    for _ in range(n):
        o = rng.randrange(len(opts))
        k = rng.wchoice([(10, "step"), (1, "lr"), (1, "wd"), (0.7, "betas"), (1.3, "restart"), (0.8, "save"), (0.8, "rollback"),
                         (0.6, "addgroup"), (0.3, "edit"), (0.3, "freeze")])
        if k == "step":
            ops.append(gen_step(rng, o))
            if rng.chance(0.004):  # a long stretch of plain training
                for _ in range(rng.choice([40, 110])):
                    ops.append(dict(gen_step(rng, o), closure=None))
        elif k == "lr":
            ops.append(dict(op=k, o=o, g=rng.randrange(3), v=rng.choice([1e-3, 0.02, 0.2, 0.0])))
        elif k == "wd":
            ops.append(dict(op=k, o=o, g=rng.randrange(3), v=rng.choice([0.0, 0.05, 0.4])))
        elif k == "betas":
            ops.append(dict(op=k, o=o, g=rng.randrange(3), v=rng.choice([[0.8, 0.9], [0.0, 0.5], [0.9, 0.99], [0.5, 0.0], [1.0, 0.0]])))
        elif k == "restart":
            ops.append(dict(op=k, o=o, cold=rng.chance(0.6), via=rng.choice(["bytes", "bytes", "mem"])))
        elif k == "addgroup":
            ops.append(dict(op=k, o=o, group=gen_group(rng, False)))
        elif k in ("edit", "freeze"):
            ops.append(dict(op=k, o=o, p=rng.randrange(6), seed=rng.seed31()))
        else:
            ops.append(dict(op=k, o=o))
    return dict(opts=opts, ops=ops)


def mkparam(d):
    g = torch.Generator().manual_seed(d["seed"])
    dt = torch.float64 if d["dtype"] == "f64" else torch.float32
    sh = list(d["shape"])
    t = (torch.rand(sh, generator=g, dtype=torch.float64) * 2 - 1) * d.get("scale", 1.0)
    t = t.to(dt)
    if d["lay"] == "t" and len(sh) >= 2:
        t = t.transpose(0, -1).contiguous().transpose(0, -1)
    return torch.nn.Parameter(t)


class Opt:
    """An optimizer together with its reference model."""

    def __init__(self, d):
        self.cls = env.mod("sparse_lion").SparseLion
        self.dlr, self.dwd = d["dlr"], d["dwd"]
        self.groups = []
        self.ref = []  # per group: dict(lr, wd, betas, params=[dict(m, mag)])
        gs = []
        for g in d["groups"]:
            gs.append(self._mk(g))
        self.opt = self.cls(gs, lr=self.dlr, weight_decay=self.dwd)
        self.saved = None
        self.grads = {}  # id(parameter) -> what the harness put into its .grad
        self.prev = {}

    def _mk(self, g):
        layer = None
        if "layer" in g:
            layer = zoo.make(g["layer"], g["seed"], train=True)
            ps = [p for p in layer.parameters()]
        else:
            ps = [mkparam(p) for p in g["params"]]
        self.groups.append(dict(layer=layer, spec=g.get("layer")))
        self.ref.append(dict(lr=g["lr"], wd=g["wd"], betas=tuple(g["betas"]),
                             ps=[dict(m=None, mag=None, ex=None) for _ in ps]))
        return dict(params=ps, lr=g["lr"], weight_decay=g["wd"], betas=tuple(g["betas"]))

    def params(self):
        return [p for g in self.opt.param_groups for p in g["params"]]

    def snapshot(self):
        return [p.detach().clone() for p in self.params()]


def make_grad(p, mode, seed, scale, prev):
    g = torch.Generator().manual_seed(seed % (2 ** 31))
    if mode == "none":
        return None
    if mode == "zero":
        return torch.zeros_like(p)
    r = ((torch.rand(p.shape, generator=g, dtype=torch.float64) * 2 - 1) * scale).to(p.dtype)
    r = torch.where(r == 0, torch.ones_like(r), r)
    if mode == "sparse":
        return r * (torch.rand(p.shape, generator=g) < 0.4).to(p.dtype)
    if mode == "one":
        f = torch.zeros(p.numel(), dtype=p.dtype)
        if p.numel():
            f[int(torch.randint(p.numel(), (1,), generator=g))] = r.reshape(-1)[0]
        return f.reshape(p.shape)
    if mode == "negzero":
        return torch.where(torch.rand(p.shape, generator=g) < 0.5, torch.full_like(r, -0.0), r)
    if mode == "rows" and p.dim():
        return r[:1].expand(p.shape).clone()
    if mode == "tiny":
        return r * 1e-30
    if mode == "huge":
        return r * 1e20
    if mode == "same" and prev is not None:
        return prev.clone()
    if mode == "oppose" and prev is not None:
        return -prev
    return r


def laid_out(w, how):
    """A gradient as autograd may leave it: other strides, broadcast memory, part of a graph."""
    if how == "t" and w.dim() >= 2:
        return w.transpose(0, -1).contiguous().transpose(0, -1)
    if how == "x" and w.dim() >= 1 and w.shape[0] > 1 and bool((w == w[:1]).all()):
        return w[:1].clone().expand(w.shape)
    if how == "graph":
        with torch.enable_grad():
            return w.clone().requires_grad_(True) * 1.0
    return w.clone()


def momentum(opt, p):
    """The momentum, if the optimizer keeps exactly one tensor of the parameter's shape."""
    st = [v for v in opt.state.get(p, {}).values() if torch.is_tensor(v) and v.shape == p.shape and v.is_floating_point()]
    return st[0].detach().clone() if len(st) == 1 and p.dim() else None


def ref_step(ref, p0, grad):
    """Expected new value, slack, and inactive mask; updates the momentum."""
    b1, b2 = ref["g"]["betas"]
    lr, wd = ref["g"]["lr"], ref["g"]["wd"]
    m, mag = ref["p"]["m"], ref["p"]["mag"]
    if m is None:
        m = torch.zeros_like(p0, dtype=torch.float64)
        mag = torch.zeros_like(m)
    ex = ref["p"]["ex"]  # momentum free of rounding in every arithmetic
    if ex is None:
        ex = torch.ones_like(m, dtype=torch.bool)
    g = grad.double()
    act = g != 0
    blend = m * b1 + g * (1 - b1)
    tol = 1e-5 * (mag * b1 + g.abs() * (1 - b1))
    # an exact balance of momentum and gradient has no sign: no move
    balanced = ex & (blend == 0) & (g.abs() > 1e-30) if b1 in (0.5, 1.0) else torch.zeros_like(ex)
    amb = (blend.abs() <= tol) & ~balanced
    if b2 == 0.0:
        ex2 = torch.ones_like(ex)
    elif b2 == 1.0:
        ex2 = ex
    elif b2 == 0.5:
        ex2 = ex & (m == 0) & (g.abs() > 1e-30)
    else:
        ex2 = torch.zeros_like(ex)
    ref["p"]["ex"] = torch.where(act, ex2, ex)
    exp = p0.double() * (1 - lr * wd) - lr * torch.sign(blend)
    lo = p0.double() * (1 - lr * wd) - lr
    hi = p0.double() * (1 - lr * wd) + lr
    ref["p"]["m"] = torch.where(act, m * b2 + g * (1 - b2), m)
    ref["p"]["mag"] = torch.where(act, mag * b2 + g.abs() * (1 - b2), mag)
    return exp, lo, hi, amb, act, bool((balanced & act).any())


def do_step(o, op, ctx):
    opt = o.opt
    ps = o.params()
    acc = op.get("acc") and not op["keep"]
    if not op["keep"] and not acc:
        for p in ps:
            p.grad = None
    held = [None if p.grad is None else o.grads.get(id(p)) for p in ps]
    want = []
    k = 0
    # gradients of this step
    for gi, (grp, info) in enumerate(zip(opt.param_groups, o.groups)):
        if info["layer"] is not None and not op["keep"]:
            ctx.count("op.real")
            spec = info["spec"]
            args = zoo.make_input(spec, dict(b=3, style="mixed", seed=derive(op["seed"], gi) % (2 ** 31)))
            outs, gd = zoo.grads_of(info["layer"], spec, args, seed=op["seed"])
            names = [n for n, p in info["layer"].named_parameters()]
            for n, p in zip(names, grp["params"]):
                want.append(gd.get(n))
                k += 1
            continue
        for p in grp["params"]:
            if op["keep"]:
                want.append(held[k])
            elif not p.requires_grad:
                want.append(None)
            else:
                want.append(make_grad(p, op["modes"][k % 12], derive(op["seed"], k), op["scale"], o.prev.get(k)))
            k += 1
    o.prev = {i: w for i, w in enumerate(want)}
    new = list(want)
    if acc:  # gradients accumulate over what is there
        ctx.count("op.accumulate")
        want = [h if w is None else w if h is None else h + w for h, w in zip(held, want)]
    if op["keep"]:
        ctx.count("op.keep")
    if any(w is not None and not torch.isfinite(w).all() for w in want):
        ctx.count("skipped_nonfinite")
        for p in ps:
            p.grad = None
        return
    calls = []

    def setg():
        for p, w, n, h in zip(ps, want, new, held):
            if op["keep"]:
                pass
            elif acc and h is not None:
                if n is not None:
                    with torch.no_grad():
                        if 0 in p.grad.stride():
                            p.grad = p.grad + n
                        else:
                            p.grad.add_(n)
            else:
                p.grad = None if w is None else laid_out(w, op.get("glay"))
            o.grads[id(p)] = None if w is None else w.clone()

    closure = None
    if op["closure"] == "none":
        setg()
    elif op["closure"] is None:
        setg()
    else:
        token = torch.tensor(float(op["seed"] % 97))

        def closure():
            calls.append(torch.is_grad_enabled())
            setg()
            if op["closure"] == "raise":
                raise ArithmeticError("injected in closure")
            return token

    before = [p.detach().clone() for p in ps]
    mom = [momentum(opt, p) for p in ps]
    gm = torch.is_grad_enabled()
    st0 = copy.deepcopy(opt.state_dict()) if op["closure"] == "raise" else None
    raised = None
    ret = None
    cm = torch.no_grad() if op["nograd"] else torch.enable_grad()
    with cm:
        gm_in = torch.is_grad_enabled()
        try:
            ret = opt.step(closure) if closure is not None else opt.step()
        except ArithmeticError as e:
            raised = e
        if torch.is_grad_enabled() != gm_in:
            raise Violation("grad-mode", "grad mode changed by step()")
    if op["closure"] == "raise":
        ctx.count("fault.closure_raise")
        if raised is None:
            raise Violation("closure-swallowed", "exception of the closure did not reach the caller")
        for i, (a, p) in enumerate(zip(before, ps)):
            if not torch.equal(a, p.detach()):
                raise Violation("closure-raise-changed", "parameter %d changed although the closure raised" % i)
        from ..cmp import exact

        if exact(_plain(st0), _plain(opt.state_dict())):
            raise Violation("closure-raise-state", "optimizer state changed although the closure raised")
        if len(calls) != 1 or not calls[0]:
            raise Violation("closure-calls", "closure called %d times, grad enabled %s" % (len(calls), calls))
        return
    if closure is not None:
        ctx.count("closure_ok")
        if len(calls) != 1 or not calls[0]:
            raise Violation("closure-calls", "closure called %d times, grad enabled %s" % (len(calls), calls))
        if not (torch.is_tensor(ret) and float(ret) == float(token)):
            raise Violation("closure-return", "step() returned %r instead of the closure's value" % (ret,))
    ctx.count("steps")
    i = 0
    for gi, (grp, rg) in enumerate(zip(opt.param_groups, o.ref)):
        for pi, p in enumerate(grp["params"]):
            w = want[i]
            a, b = before[i], p.detach()
            if w is None:
                m1 = momentum(opt, p)
                if mom[i] is not None and m1 is not None and not torch.equal(mom[i], m1):
                    raise Violation("inactive-momentum", "group %d parameter %d has no gradient but its momentum changed" % (gi, pi))
                if not torch.equal(a, b):
                    raise Violation("no-grad-changed", "group %d parameter %d has no gradient but changed" % (gi, pi))
                ctx.count("inactive_checked")
                i += 1
                continue
            exp, lo, hi, amb, act, bal = ref_step(dict(g=rg, p=rg["ps"][pi]), a, w)
            if (~act).any():
                ctx.count("inactive_checked")
                bad = (~act) & (a != b)
                if bool(bad.any()):
                    raise Violation("inactive-changed",
                                    "group %d parameter %d: %d weights with zero gradient changed" % (gi, pi, int(bad.sum())))
                m1 = momentum(opt, p)
                if mom[i] is not None and m1 is not None and bool(((~act) & (mom[i] != m1)).any()):
                    raise Violation("inactive-momentum", "group %d parameter %d: the momentum of weights with zero gradient changed" % (gi, pi))
            if bal:
                ctx.count("balanced_checked")
            if act.any():
                ctx.count("active_checked")
                eps = 3e-7 if a.dtype == torch.float32 else 1e-13
                tol = eps * (a.double().abs() + rg["lr"]) + 1e-40
                bd = b.double()
                ok = (bd - exp).abs() <= tol
                okamb = amb & (bd >= lo - tol) & (bd <= hi + tol)
                bad = act & ~(ok | okamb)
                if bool(bad.any()):
                    j = int(bad.reshape(-1).nonzero()[0])
                    raise Violation("active-wrong",
                                    "group %d parameter %d weight %d: %.9g -> %.9g, rule gives %.9g (lr=%g wd=%g betas=%s)" % (
                                        gi, pi, j, float(a.reshape(-1)[j]), float(bd.reshape(-1)[j]),
                                        float(exp.reshape(-1)[j]), rg["lr"], rg["wd"], rg["betas"]))
            i += 1


def _plain(sd):
    return {"state": {str(k): {kk: vv for kk, vv in v.items()} for k, v in sd["state"].items()},
            "groups": [{kk: (list(vv) if isinstance(vv, (list, tuple)) else vv) for kk, vv in g.items()} for g in sd["param_groups"]]}


def state_of(o, via):
    sd = o.opt.state_dict()
    if via == "bytes":
        f = io.BytesIO()
        torch.save(sd, f)
        return f.getvalue()
    return copy.deepcopy(sd)


def load_state(x):
    if isinstance(x, bytes):
        return torch.load(io.BytesIO(x), weights_only=True)
    return copy.deepcopy(x)


def run(trace, ctx):
    env.seed_all(1)
    if not all(d["groups"] and all("layer" in g or g["params"] for g in d["groups"]) for d in trace["opts"]):
        return  # only while minimising
    opts = [Opt(d) for d in trace["opts"]]
    nsteps, special = 0, 0
    for op in trace["ops"]:
        if op["o"] >= len(opts):
            continue
        o = opts[op["o"]]
        k = op["op"]
        ctx.count("op." + k)
        if k == "step":
            do_step(o, op, ctx)
            nsteps += 1
            if op["closure"] == "raise" or "none" in op["modes"][:4]:
                special += 1
        elif k in ("lr", "wd", "betas"):
            gi = op["g"] % len(o.ref)
            key = {"lr": "lr", "wd": "weight_decay", "betas": "betas"}[k]
            v = tuple(op["v"]) if k == "betas" else op["v"]
            o.opt.param_groups[gi][key] = v
            o.ref[gi][k] = v
            special += 1
        elif k == "restart":
            ctx.count("fault.restart")
            special += 1
            sd = state_of(o, op["via"])
            if op["cold"]:
                gs = []
                o.grads = {}
                for grp, info in zip(o.opt.param_groups, o.groups):
                    if info["layer"] is not None:
                        lay = copy.deepcopy(info["layer"])
                        info["layer"] = lay
                        ps = [p for p in lay.parameters()]
                    else:
                        ps = []
                        for p in grp["params"]:
                            q = torch.nn.Parameter(p.detach().clone(), requires_grad=p.requires_grad)
                            ps.append(q)
                    gs.append(dict(params=ps))
            else:
                gs = [dict(params=grp["params"]) for grp in o.opt.param_groups]
            o.opt = o.cls(gs, lr=o.dlr * 1.7, weight_decay=o.dwd + 0.05)
            o.opt.load_state_dict(load_state(sd))
        elif k == "save":
            o.saved = (state_of(o, "bytes"), o.snapshot(), copy.deepcopy(o.ref), len(o.opt.param_groups))
        elif k == "rollback":
            if o.saved and o.saved[3] == len(o.opt.param_groups):
                ctx.count("fault.rollback")
                special += 1
                with torch.no_grad():
                    for p, s in zip(o.params(), o.saved[1]):
                        p.copy_(s)
                o.opt.load_state_dict(load_state(o.saved[0]))
                o.ref = copy.deepcopy(o.saved[2])
        elif k == "addgroup":
            o.opt.add_param_group(o._mk(op["group"]))
            special += 1
        elif k == "edit":
            p = o.params()[op["p"] % len(o.params())]
            with torch.no_grad():
                p.add_(0.125)
        elif k == "freeze":
            p = o.params()[op["p"] % len(o.params())]
            p.requires_grad_(not p.requires_grad)
            if p.grad is not None:
                p.grad = None
    ctx.nontrivial = nsteps >= 2 and special >= 1
    for o in opts:
        from ..cmp import digest

        ctx.note("params", digest(o.snapshot()))


def simplify(trace):
    yield from generic_simplify(trace, {})
