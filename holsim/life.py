"""Operations on models shared by the property simulations, usable both on the
live objects of a run and (by name) in a pristine process."""
import torch

from . import env, zoo
from .cmp import clone_state, maxabs, near
from .rng import derive

KINDS = ("plain", "nograd", "inference", "grad", "backward")


def do_call(model, spec, args, kind, seed=0, stochastic=False):
    """-> dict(outs=[...], grads={...}|None) or dict(exc=name)."""
    try:
        if kind == "grad":
            o, g = zoo.grads_of(model, spec, args, seed, stochastic=stochastic)
            return dict(outs=o, grads=g)
        if kind == "backward":
            saved = [(p, p.grad) for p in model.parameters()]
            for p, _ in saved:
                p.grad = None
            try:
                outs = zoo.call(model, spec, args, stochastic)
                l = zoo.loss_of(outs, seed)
                if torch.is_tensor(l) and l.requires_grad:
                    l.backward()
                g = {n: (None if p.grad is None else p.grad.detach().clone()) for n, p in model.named_parameters()}
            finally:
                for p, q in saved:
                    p.grad = q
            return dict(outs=[o.detach() for o in outs], grads=g)
        if kind == "nograd":
            with torch.no_grad():
                outs = zoo.call(model, spec, args, stochastic)
        elif kind == "inference":
            with torch.inference_mode():
                outs = [o.clone() for o in zoo.call(model, spec, args, stochastic)]
            outs = [torch.from_numpy(o.numpy().copy()) for o in outs]
        else:
            outs = zoo.call(model, spec, args, stochastic)
        return dict(outs=[o.detach() for o in outs], grads=None)
    except Exception as e:
        return dict(exc=type(e).__name__, text=str(e)[:300])


def load_into(spec, state, dtype=None, train=False):
    env.seed_all(99)
    m = zoo.build(spec)
    zoo.warm(m, spec)
    if dtype == "f64":
        m = m.double()
    if state is not None:
        m.load_state_dict(state, strict=True)
    m.train(train)
    return m


def pristine_call(spec, state, args, kind, seed, dtype=None, train=False, rng_seed=None, stochastic=False):
    """In a fresh process: build, load the weights, make one call."""
    m = load_into(spec, state, dtype, train)
    if rng_seed is not None:
        env.seed_all(rng_seed)
    r = do_call(m, spec, args, kind, seed, stochastic)
    r["after"] = clone_state(m)
    return r


def pristine_make_call(spec, mseed, scale, dtype, args, kind, seed, train=False):
    m = zoo.make(spec, mseed, scale, train=train, dtype=dtype)
    return do_call(m, spec, args, kind, seed)


def perturb_state(model, eps, seed):
    with torch.no_grad():
        for n, p in sorted(model.named_parameters()):
            if not p.requires_grad:
                continue
            g = torch.Generator().manual_seed(derive(seed, n) % (2 ** 31))
            p.add_((torch.rand(p.shape, generator=g, dtype=torch.float64) * 2 - 1).to(p.dtype) * eps * max(maxabs(p), 1e-3))


def perturb_args(args, eps, seed):
    out = []
    for i, a in enumerate(args):
        if torch.is_tensor(a) and a.is_floating_point():
            g = torch.Generator().manual_seed(derive(seed, "a", i) % (2 ** 31))
            # a function of value and place in the sample: equal samples stay equal
            ph = torch.rand(a.shape[1:], generator=g, dtype=torch.float64) * 6.28
            noise = torch.sin(a.double() * 7919.0 + ph)
            a = a + (noise * eps).to(a.dtype) * a.abs().clamp(min=0.1)
        out.append(a)
    return tuple(out)


def deviation(spec, state, args, kind, seed, dtype=None, train=False, eps=2e-6, k=12, rng_seed=None,
              stochastic=False):
    """How much rounding-sized changes of weights and inputs move the results:
    {'outs': [per-entry abs deviation], 'grads': {...}}."""
    base = pristine_call(spec, state, args, kind, seed, dtype, train, rng_seed, stochastic)
    dev = None

    def upd(a, b, d):
        if a is None or b is None:
            return d
        x = (a.double() - b.double()).abs() if a.shape == b.shape else torch.full(a.shape, float("inf"))
        x = torch.where(torch.isnan(x), torch.full_like(x, float("inf")), x)
        return x if d is None else torch.maximum(d, x)

    outs = [None] * len(base.get("outs", []))
    gr = {}
    for j in range(k):
        m = load_into(spec, state, dtype, train)
        perturb_state(m, eps, derive(seed, "s", j))
        if rng_seed is not None:
            env.seed_all(rng_seed)
        r = do_call(m, spec, perturb_args(args, eps, derive(seed, j)), kind, seed, stochastic)
        if "exc" in r or "exc" in base:
            return None
        outs = [upd(a, b, d) for a, b, d in zip(base["outs"], r["outs"], outs)]
        if base["grads"]:
            for n in base["grads"]:
                gr[n] = upd(base["grads"][n], r["grads"][n], gr.get(n))
    return dict(outs=outs, grads=gr)


def within(a, b, dev, rtol=2e-6, atol=1e-7, factor=4.0):
    """near(), with per-entry slack `factor*dev` (tensors only)."""
    if near(a, b, rtol, atol) is None:
        return True
    if a is None or b is None or dev is None or a.shape != b.shape:
        return False
    a, b = a.double(), b.double()
    tol = rtol * max(maxabs(a), maxabs(b)) + atol
    same = (a == b) | (torch.isnan(a) & torch.isnan(b))
    slack = torch.full_like(a, float(dev.max())) if dev.shape != a.shape else dev
    ok = same | ((a - b).abs() <= tol + factor * slack) | torch.isinf(slack)
    return bool(ok.all())


def compare_call(r, e, rtol=2e-6, atol=1e-7):
    """Outcome of a live call vs expected; None or text."""
    if ("exc" in r) != ("exc" in e):
        return "live %s, expected %s" % (r.get("exc", "ok") + " " + r.get("text", ""), e.get("exc", "ok") + " " + e.get("text", ""))
    if "exc" in r:
        return None
    d = near(r["outs"], e["outs"], rtol, atol)
    if d:
        return "outputs " + d
    if r["grads"] is not None or e["grads"] is not None:
        d = near(r["grads"], e["grads"], rtol, atol)
        if d:
            return "gradient " + d
    return None


def excused(r, e, dev):
    """True if every difference is explained by rounding-size sensitivity."""
    if dev is None or "exc" in r or "exc" in e:
        return False
    for a, b, d in zip(r["outs"], e["outs"], dev["outs"]):
        if not within(a, b, d):
            return False
    if r["grads"]:
        for n in r["grads"]:
            if not within(r["grads"][n], e["grads"].get(n), dev["grads"].get(n)):
                return False
    return True


def storages(obj):
    out = set()

    def go(o):
        if torch.is_tensor(o):
            if o.numel():
                out.add(o.untyped_storage().data_ptr())
        elif isinstance(o, dict):
            for v in o.values():
                go(v)
        elif isinstance(o, (list, tuple)):
            for v in o:
                go(v)

    go(obj)
    return out


def train_step(model, spec, args, opt, seed, before_step=None, stochastic=False):
    """One ordinary training step (sum-type loss scaled by the batch)."""
    opt.zero_grad()
    outs = zoo.call(model, spec, args, stochastic)
    l = zoo.loss_of(outs, seed) / max(1, args[0].shape[0])
    if not l.requires_grad and any(not p.requires_grad for p in model.parameters()):
        return float(l)  # everything the output depends on is frozen
    l.backward()
    if before_step:
        before_step()
    opt.step()
    return float(l.detach())


def make_opt(d, params):
    """d: dict(name, lr, wd)."""
    params = [p for p in params if p.requires_grad]
    n, lr, wd = d["name"], d["lr"], d.get("wd", 0.0)
    if n == "sgd":
        return torch.optim.SGD(params, lr=lr, weight_decay=wd)
    if n == "momentum":
        return torch.optim.SGD(params, lr=lr, momentum=0.9, weight_decay=wd)
    if n == "adam":
        return torch.optim.Adam(params, lr=lr, weight_decay=wd)
    if n == "sparse_lion":
        return env.mod("sparse_lion").SparseLion(params, lr=lr, weight_decay=wd)
    if n == "lion":
        from lion_pytorch import Lion

        return Lion(params, lr=lr, weight_decay=wd)
    raise ValueError(n)


def sample_opt(rng, names=None):
    n = rng.choice(names or ["sgd", "momentum", "adam", "sparse_lion", "sparse_lion"])
    return dict(name=n, lr=rng.choice([1e-3, 1e-2, 0.05]), wd=rng.choice([0.0, 0.0, 0.1]))


def sibling(rng, spec):
    """The same configuration with one detail changed (caches keyed on too
    little confuse the two)."""
    import json

    s = json.loads(json.dumps(spec))
    keys = [k for k in ("n", "seg", "per", "in", "out", "hw", "iseg", "hseg", "oseg", "hl", "norm", "alpha", "rescale",
                        "stride", "pad", "n_in", "h", "t", "nl", "resnet", "rot", "lt", "dropout", "smooth", "nil", "len", "dil") if k in s]
    if spec["fam"] in ("fc", "conv") and any(x in spec["lt"] for x in ("polynomial", "fourier")):
        keys += ["len", "len"]
    f = s["fam"]
    for _ in range(20 if keys else 0):
        k = rng.choice(keys)
        v = s.get(k)
        if k == "per":
            if f == "fc" and s["lt"] in ("fourier", "baseline", "baseline_relu", "switch_continuous", "switch_discontinuous", "product"):
                continue
            if "fourier" in str(s.get("lt")):
                continue
            s[k] = rng.choice([x for x in (None, 2.0, 1.5, 1.0) if x != v])
        elif k in ("n", "seg", "n_in", "iseg", "hseg", "oseg"):
            if isinstance(v, list):
                s[k] = [rng.choice([2, 3]) if rng.chance(0.5) else x for x in v]
            elif v is None:
                continue
            else:
                s[k] = max(2, v + rng.choice([-1, 1, 2]))
                if "fourier2d" == s.get("lt") and k == "n":
                    s[k] = rng.choice([1, 3, 4, 5])
        elif k == "lt" and f in ("fc", "mlp"):
            g = [x for x in ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod") if x != v]
            if v not in g and v not in ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod"):
                continue
            s[k] = rng.choice(g)
        elif k == "lt" and f == "conv":
            if v.startswith("cont"):
                s[k] = "dis" + v
            elif v.startswith("discont"):
                s[k] = v[3:]
            else:
                continue
        elif k in ("in", "out", "hw") and f in ("fc", "mlp", "conv", "low") and s.get("lt") not in zoo.ND:
            s[k] = max(1, v + rng.choice([-1, 1]))
            if f == "fc" and k == "out" and False:
                continue
        elif k == "len":
            s[k] = rng.choice([x for x in (None, 1.0, 3.0, 4.0) if x != s.get("len")])
        elif k == "dil":
            s.pop(k)
        elif k in ("rescale", "smooth"):
            s[k] = not v
        elif k == "norm" and f == "mlp":
            s[k] = rng.choice([x for x in (None, "max_abs", "max_center", "l2") if x != v])
        elif k == "resnet" and s.get("hl", 0) >= 2:
            s[k] = not v
        elif k == "hl":
            s[k] = v + 1
        elif k == "t" and f == "att":
            s[k] = v + 1
        elif k == "rot" and f in ("tmlp", "tlow"):
            s[k] = v + 1
        else:
            continue
        return s
    return s


# -- refinement, smoothing, initialisation ----------------------------------


def sample_refinable(rng, kind=None, single=0.25):
    """A spec that supports refinement of `kind` (p, h or hp)."""
    p_only = ["discontinuous", "switch_discontinuous", "discontinuous_prod"]
    cont = ["continuous", "continuous", "switch_continuous", "continuous_prod"]
    lts = cont + (p_only if kind in (None, "p") else [])
    if rng.chance(single):
        s = zoo.sample_fc(rng, lts)
        s["in"], s["out"] = min(s["in"], 3), min(s["out"], 3)
        s["seg"] = min(s["seg"], 5)
        s["n"] = min(s["n"], 5)
        return s
    lt = rng.choice(lts)
    s = zoo.sample_mlp(rng, lts=[(1, lt)], norms=[None, None, "max_abs", "max_center", "l2", "max_abs_nd", "max_abs_last"],
                       small=True)
    s.pop("lti", None)
    for k in ("iseg", "hseg", "oseg"):
        s[k] = min(s[k], 4)
    s["n"] = min(s["n"], 5)
    for k in ("n_in", "n_out", "n_hidden"):
        if s.get(k):
            s[k] = min(s[k], 5)
    s["in"] = min(s["in"], 3)
    s["out"] = min(s["out"], 2)
    s["hw"] = min(s["hw"], 3)
    s["hl"] = min(s["hl"], 2)
    s["resnet"] = s["resnet"] and s["hl"] >= 2
    return s


def refined_spec(rng, spec, kind):
    import json

    s = json.loads(json.dumps(spec))
    dn = (lambda: rng.choice([0, 1, 1, 1, 2, 2, 4])) if "p" in kind else (lambda: 0)
    fm = (lambda: rng.choice([1, 2, 2, 2, 3, 3, 5])) if "h" in kind else (lambda: 1)
    if s["fam"] == "fc":
        s["n"] = s["n"] + dn()
        s["seg"] = s["seg"] * fm()
    else:
        for k in ("n_in", "n_out", "n_hidden"):
            s[k] = (s.get(k) or s["n"]) + dn()
        for k in ("iseg", "hseg", "oseg"):
            s[k] = s[k] * fm()
    return s


def with_orders(s):
    return dict(s, **{k: s.get(k) or s["n"] for k in ("n_in", "n_out", "n_hidden")}) if s["fam"] != "fc" else s


def refine_cost(t):
    """Number of nodes of the target (refinement visits them one by one)."""
    if t["fam"] == "fc":
        return t["in"] * t["out"] * t["seg"] * t["n"] * (t.get("nil", 2) if t["lt"] in zoo.SWITCH else 1)
    a = t["in"] * t["hw"] * t["iseg"] * t["n_in"] + t["hl"] * t["hw"] ** 2 * t["hseg"] * t["n_hidden"] + \
        t["hw"] * t["out"] * t["oseg"] * t["n_out"]
    return a * (2 if t["lt"] in zoo.SWITCH else 1)


def refine(kind, spec, src, dst):
    N = env.mod("networks")
    with env.quiet():
        if spec["fam"] == "fc":
            if kind == "p":
                src.interpolate(dst)
            else:
                src.refine(dst)
        elif kind == "p":
            N.interpolate_high_order_mlp(src, dst)
        else:
            N.hp_refine_high_order_mlp(src, dst)


def initialize(model, d):
    N = env.mod("networks")
    kw = dict(max_slope=d["slope"], max_offset=d["offset"])
    if d.get("scale") == "inv":
        kw["scale_slope"] = lambda k: 1.0 / k
    elif d.get("scale") == "sqrt":
        kw["scale_slope"] = lambda k: 1.0 / k ** 0.5
    with env.quiet():
        N.initialize_network_polynomial_layers(model, **kw)


def smooth(model, spec, factor):
    with env.quiet():
        if spec["fam"] == "fc":
            P = env.mod("poly")
            for q in [q for q in model.modules() if isinstance(q, P.PiecewiseDiscontinuous)]:
                P.smooth_discontinuous_layer(q, factor)
        else:
            env.mod("networks").smooth_discontinuous_network(model, factor)


def pristine_refine(kind, spec, state, tspec, tstate, dtype=None):
    a = load_into(spec, state, dtype)
    b = load_into(tspec, tstate, dtype)
    refine(kind, spec, a, b)
    return clone_state(b)


def pristine_init(spec, state, d, seed, dtype=None):
    m = load_into(spec, state, dtype)
    env.seed_all(seed)
    initialize(m, d)
    return clone_state(m)
