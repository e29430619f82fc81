"""C04: a single piecewise layer is trained through seeded histories (several
optimizers, failing and abandoned steps, restarts) on inputs in chosen
segments; probes in segments never touched must not move by a single bit."""
import copy
import math

import torch

from .. import env, life, seams, zoo
from ..cmp import digest
from ..main import Violation, generic_simplify
from ..rng import Rng, derive

ID = "C04"
LEVEL = "exploration"
PRISTINE = False
RUNS = dict(quick=6000, thorough=80000)
LISTS = ("ops",)
RULE = ("a seeded layer and a history of training steps, each confined to random segments per input coordinate (inside, beyond "
        "or mirrored into the domain, sometimes on boundaries), some cut short by injected exceptions, with optimizer restarts "
        "and hot reloads; after every step probes confined to untouched segments are compared bit for bit with a copy of the "
        "untrained layer; non-trivial if at least one step changed the weights and at least one probe was compared after it")
PROBES = ("fc", "conv", "convt", "nd", "switch", "prod", "fault.exception", "op.reload", "op.reopt", "probed", "periodic",
          "opt.sparse_lion", "changed")
SIMULATED = "training history, exceptions inside steps, optimizer restarts"
ASSUMPTIONS = ("optimizers leave weights with exactly zero gradient alone (no weight decay except SparseLion's)",
               "an input within 1e-4 of a boundary (in units of segments) counts as touching both sides")

LTS = [(4, "continuous"), (4, "discontinuous"), (1.5, "continuous_prod"), (1.5, "discontinuous_prod"), (1.5, "switch_continuous"),
       (1.5, "switch_discontinuous"), (2, "continuous_nd")]


def gen(rng, tier):
    fam = rng.wchoice([(6, "fc"), (4, "conv"), (1.5, "convt")])
    if fam == "fc":
        s = zoo.sample_fc(rng, [rng.wchoice(LTS)])
        s["norm"] = None
        if s["lt"] == "continuous_nd":
            s["seg"] = [rng.choice([2, 3, 4]) for _ in s["seg"]]
        else:
            s["seg"] = rng.choice([2, 3, 4, 5, 6, 8, 12] + ([40, 100] if rng.chance(0.2) else []))
            if rng.chance(0.03):
                s["in"] = rng.choice([20, 33])
    elif fam == "conv":
        s = zoo.sample_conv(rng, ["continuous2d", "continuous1d", "discontinuous2d", "discontinuous1d"])
        s["seg"] = rng.choice([2, 3, 4, 5, 6, 8])
    else:
        s = zoo.sample_convt(rng)
        s["seg"] = rng.choice([3, 4, 5, 6, 8])
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        k = rng.wchoice([(8, "train"), (1, "reload"), (1, "reopt"), (0.5, "copy")])
        o = dict(op=k, seed=rng.seed31(), b=rng.choice([1, 2, 3, 6]) if rng.chance(0.95) else rng.choice([33, 70]))
        if k == "reopt":
            o["opt"] = gen_opt(rng)
        if k == "train":
            o["frac"] = rng.choice([0.2, 0.34, 0.5])
            o["fault"] = None
            if rng.chance(0.25):
                o["fault"] = dict(at=rng.choice(["op", "line"]), k=rng.choice([0, 4, 12, 30, 60]) + rng.randrange(20),
                                  exc=rng.choice(sorted(seams.EXC)), after=rng.chance(0.5))
        ops.append(o)
    return dict(spec=s, seed=rng.seed31(), opt=gen_opt(rng), ops=ops)


def gen_opt(rng):
    d = life.sample_opt(rng, ["sgd", "momentum", "adam", "sparse_lion", "sparse_lion"])
    if d["name"] != "sparse_lion":
        d["wd"] = 0.0
    d["lr"] = rng.choice([1e-3, 1e-2, 0.1])
    return d


# -- reference: which segments does a coordinate belong to ---------------------


def mirror(x, p):
    if p is None:
        return x
    t = math.fmod(x + 0.5 * p, 2 * p)
    if t < 0:
        t += 2 * p
    if t > p:
        t = 2 * p - t
    return t - 0.5 * p


def segments_of(x, seg, per, eps=1e-4):
    u = (mirror(x, per) + 1.0) * 0.5 * seg
    k = min(max(int(math.floor(u)), 0), seg - 1)
    out = {k}
    r = round(u)
    if abs(u - r) < eps:
        out |= {min(max(r - 1, 0), seg - 1), min(max(r, 0), seg - 1)}
    return out


class Model:
    """Per coordinate group: which cells are touched; how to draw inputs."""

    def __init__(self, spec):
        self.s = spec
        self.nd = spec["lt"] == "continuous_nd"
        self.cont = spec["lt"].startswith(("continuous", "switch_continuous")) and not self.nd
        self.per = spec.get("per") if spec.get("lt") not in zoo.SWITCH else None
        if self.nd:
            self.per = None
        self.groups = spec["in"]
        self.cells = []
        if self.nd:
            import itertools

            self.allcells = [tuple(c) for c in itertools.product(*[range(q) for q in spec["seg"]])]
        else:
            self.allcells = list(range(spec["seg"]))
        self.touched = [set() for _ in range(self.groups)]

    def draw(self, cells, rng, probe):
        """A coordinate (float, or list of floats for ND) in one of the cells."""
        c = rng.choice(cells)
        if self.nd:
            return [self.draw1(ci, q, rng, probe) for ci, q in zip(c, self.s["seg"])]
        return self.draw1(c, self.s["seg"], rng, probe)

    def draw1(self, c, seg, rng, probe):
        r = rng.random()
        margin = 0.01
        f = margin + (1 - 2 * margin) * rng.random()
        if not probe and r < 0.08:
            f = rng.choice([0.0, 1.0])       # exactly on a boundary
        x = -1.0 + 2.0 * (c + f) / seg
        if self.per is None:
            if r > 0.9 and c == 0:
                x = -1.0 - rng.random() * 1.5 - 1e-3
            elif r > 0.9 and c == seg - 1:
                x = 1.0 + rng.random() * 1.5 + 1e-3
            return x
        p = self.per
        if abs(x) > 0.5 * p - 1e-3:
            # with this periodicity the cell may not be reachable from here
            return x
        if r > 0.8:
            k = rng.choice([-2, -1, 1, 2])
            x = x + k * p if k % 2 == 0 else -(x) + k * p
        return x

    def cells_of(self, v):
        if self.nd:
            import itertools

            return set(itertools.product(*[segments_of(x, q, None) for x, q in zip(v, self.s["seg"])]))
        return segments_of(v, self.s["seg"], self.per)

    def expand(self, cells):
        if not self.cont:
            return set(cells)
        return {k for c in cells for k in (c - 1, c, c + 1) if 0 <= k < self.s["seg"]}

    def shape_tail(self):
        s = self.s
        return (s["size"],) * s["dim"] if s["fam"] in ("conv", "convt") else ()

    def batch(self, b, allowed, rng, probe):
        """Tensor [b, groups, ...] with group g's coordinates in allowed[g]."""
        n = 1
        for q in self.shape_tail():
            n *= q
        rows = []
        for _ in range(b):
            row = []
            for g in range(self.groups):
                row.append([self.draw(allowed[g], rng, probe) for _ in range(n)])
            rows.append(row)
        t = torch.tensor(rows, dtype=torch.float32)
        if self.nd:
            return t[:, :, 0, :]
        return t.reshape((b, self.groups) + self.shape_tail()) if self.shape_tail() else t[:, :, 0]

    def touch(self, x):
        """Records the cells the float32 inputs belong to."""
        for g in range(self.groups):
            v = x[:, g]
            vals = v.reshape(-1, len(self.s["seg"])).tolist() if self.nd else v.reshape(-1).tolist()
            for a in vals:
                self.touched[g] |= self.cells_of(a)
        if self.nd:  # the N-dimensional layer shares its weights between all links
            self.touched = [set().union(*self.touched) for _ in range(self.groups)]


def run(trace, ctx):
    spec = trace["spec"]
    M = Model(spec)
    layer = zoo.make(spec, trace["seed"], train=True)
    base = copy.deepcopy(layer)
    ctx.count("nd" if M.nd else "switch" if spec["lt"] in zoo.SWITCH else "prod" if "prod" in spec["lt"] else spec["fam"])
    if M.per is not None:
        ctx.count("periodic")
    opt = life.make_opt(trace["opt"], layer.parameters())
    ctx.count("opt." + trace["opt"]["name"])
    compared = changed = 0
    for t, op in enumerate(trace["ops"]):
        k = op["op"]
        ctx.count("op." + k)
        rng = Rng(op["seed"], "c04")
        if k == "reload":
            layer.load_state_dict({n: v.clone() for n, v in layer.state_dict().items()})
        elif k == "reopt":
            opt = life.make_opt(op["opt"], layer.parameters())
        elif k == "copy":
            layer = copy.deepcopy(layer)
            opt = life.make_opt(trace["opt"], layer.parameters())
        else:
            allowed = []
            for g in range(M.groups):
                n = max(1, int(len(M.allcells) * op["frac"]))
                pool = sorted(M.touched[g]) if M.touched[g] and rng.chance(0.6) else M.allcells
                allowed.append(rng.sample(pool, min(n, len(pool))))
            x = M.batch(op["b"], allowed, rng, False)
            M.touch(x)
            f = seams.fault(op["fault"])
            w0 = [p.detach().clone() for p in layer.parameters()]
            try:
                with f:
                    life.train_step(layer, spec, (x,), opt, op["seed"])
            except (Exception, KeyboardInterrupt) as e:
                if "injected" not in str(e):
                    raise
                ctx.count("fault.exception")
            if any(not torch.equal(a, p.detach()) for a, p in zip(w0, layer.parameters())):
                changed += 1
                ctx.count("changed")
            if any(not torch.isfinite(p).all() for p in layer.parameters()):
                return
        # probes
        free = []
        for g in range(M.groups):
            dirty = M.expand(M.touched[g])
            free.append([c for c in M.allcells if c not in dirty])
        if any(not f for f in free):
            ctx.count("saturated")
            break
        px = M.batch(4, free, rng, True)
        # keep only probes that our own reference places in untouched cells
        ok = []
        for i in range(px.shape[0]):
            good = True
            for g in range(M.groups):
                v = px[i, g]
                vals = v.reshape(-1, len(spec["seg"])).tolist() if M.nd else v.reshape(-1).tolist()
                if any(M.cells_of(a) - set(free[g]) for a in vals):
                    good = False
                    break
            ok.append(good)
        if not any(ok):
            continue
        px = px[torch.tensor(ok)]
        with torch.no_grad():
            a = zoo.call(base, spec, (px,))[0]
            b = zoo.call(layer, spec, (px,))[0]
        compared += 1
        ctx.count("probed", px.shape[0])
        if not torch.equal(a, b):
            j = int((a != b).reshape(a.shape[0], -1).any(1).nonzero()[0])
            raise Violation("untouched-changed",
                            "after operation %d the output of an input in untouched segments changed by %.3g; input %s, touched %s" % (
                                t, float((a - b).abs().max()), px[j].reshape(-1).tolist()[:6], [sorted(s)[:8] for s in M.touched][:3]))
        ctx.note(t, digest(b))
    ctx.nontrivial = compared >= 1 and changed >= 1


def simplify(trace):
    yield from generic_simplify(trace, {"b": 1})
