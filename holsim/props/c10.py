"""C10: interleaved life of several models in one process; every call is
compared with the same call made in a process that never did anything else."""
import torch

from .. import env, life, seams, zoo
from ..cmp import clone_state, exact, near, digest
from ..main import Violation, generic_simplify
from ..rng import derive

ID = "C10"
LEVEL = "exploration"
PRISTINE = True
RUNS = dict(quick=2600, thorough=40000)
LISTS = ("ops", "models")
RULE = ("seeded histories of calls, weight edits, reloads, dtype and mode switches, model creation and destruction over "
        "1-4 models (half of them one-detail siblings of each other); each call is compared with a pristine process; a "
        "run is non-trivial if it has at least two calls compared and at least one other operation or two models")
PROBES = ("op.call", "op.edit", "op.reload", "op.rebuild", "op.dtype", "op.clobber", "layout.transposed", "layout.sliced", "layout.expanded",
          "kind.grad", "kind.backward", "kind.inference", "reuse_input")
SIMULATED = "call history, caller's mutations, memory layout of inputs; reference results come from freshly forked processes"
ASSUMPTIONS = ("results of identical calls may differ by 2e-6 of the largest entry (memory-layout dependent summation)",)

MIX = zoo.DEFAULT_MIX


def gen(rng, tier):
    models = []
    for i in range(rng.wchoice([(3, 1), (4, 2), (2, 3), (1, 4)])):
        if models and rng.chance(0.6):
            s = life.sibling(rng, rng.choice(models)["spec"])
        else:
            s = zoo.sample(rng, MIX)
        models.append(dict(spec=s, seed=rng.seed31(), scale=rng.choice([1.0, 1.0, 0.5, 2.0]),
                           dtype=rng.wchoice([(5, None), (1, "f64")]) if zoo.f64_ok(s) else None))
    ops = []
    inputs = [zoo.sample_input(rng) for _ in range(3)]
    for _ in range(rng.choice([60, 150]) if rng.chance(0.01) else rng.choice([3, 5, 8, 12] if tier == "quick" else [5, 8, 12, 20])):
        m = rng.randrange(len(models))
        k = rng.wchoice([(12, "call"), (2, "edit"), (1.2, "reload"), (1, "rebuild"), (0.7, "dtype"), (0.7, "step"), (0.7, "copy")])
        if k == "call":
            ops.append(dict(op="call", m=m, inp=rng.choice(inputs) if rng.chance(0.7) else zoo.sample_input(rng),
                            lay=rng.wchoice([(6, "contig"), (1, "transposed"), (1, "batchlast"), (1, "sliced"), (1, "offset"), (0.5, "expanded")]),
                            kind=rng.choice(life.KINDS), train=rng.chance(0.25), seed=rng.seed31(),
                            clobber=rng.chance(0.35), reuse=rng.wchoice([(7, False), (2, True), (1, rng.choice(["perm", "row", "elem"]))]), rg=rng.chance(0.3)))
        elif k == "edit":
            ops.append(dict(op=k, m=m, how=rng.choice(["inplace", "data", "scale", "one"]), seed=rng.seed31()))
        elif k in ("reload", "rebuild"):
            ops.append(dict(op=k, m=m, seed=rng.seed31()))
        elif k == "step":
            ops.append(dict(op=k, m=m, opt=life.sample_opt(rng), inp=zoo.sample_input(rng), seed=rng.seed31()))
        else:
            ops.append(dict(op=k, m=m))
    return dict(models=models, ops=ops)


class Live:
    def __init__(self, d):
        self.spec, self.dtype = d["spec"], d["dtype"]
        self.m = zoo.make(d["spec"], d["seed"], d["scale"], dtype=d["dtype"])


def _args(L, op):
    return zoo.cast(zoo.make_input(L.spec, op["inp"]), L.dtype)


def run(trace, ctx):
    z = ctx.zygote()
    env.seed_all(5)
    live = [Live(d) for d in trace["models"]]
    kept = []      # results handed out earlier, with their value then
    inputs = {}    # tensors the caller reuses
    ncalls = 0
    for t, op in enumerate(trace["ops"]):
        if op["m"] >= len(live):
            continue
        L = live[op["m"]]
        k = op["op"]
        ctx.count("op." + k)
        if k == "call":
            ncalls += 1
            do_call(L, op, ctx, z, kept, inputs, t)
        elif k == "edit":
            ps = [p for p in L.m.parameters() if p.requires_grad]
            if not ps:
                continue
            if op["how"] == "inplace":
                zoo.randomize(L.m, op["seed"])
            elif op["how"] == "scale":
                with torch.no_grad():
                    for p in ps:
                        p.mul_(0.75)
            elif op["how"] == "data":
                p = ps[op["seed"] % len(ps)]
                p.data = (p.data * -0.5 + 0.125).clone()
            else:
                p = ps[op["seed"] % len(ps)]
                with torch.no_grad():
                    p.view(-1)[op["seed"] % p.numel()] += 0.375
        elif k == "reload":
            env.seed_all(op["seed"])
            other = zoo.randomize(_built(L), op["seed"])
            L.m.load_state_dict(other.state_dict(), strict=True)
        elif k == "rebuild":
            L.m = None
            L.m = zoo.make(L.spec, op["seed"], dtype=L.dtype)
        elif k == "dtype":
            if not zoo.f64_ok(L.spec):
                continue
            L.dtype = None if L.dtype == "f64" else "f64"
            L.m = L.m.double() if L.dtype == "f64" else L.m.float()
        elif k == "copy":
            import copy

            L.m = copy.deepcopy(L.m)
        elif k == "step":
            L.m.train(False)
            opt = life.make_opt(op["opt"], L.m.parameters()) if any(p.requires_grad for p in L.m.parameters()) else None
            if opt is not None:
                try:
                    life.train_step(L.m, L.spec, _args(L, op), opt, op["seed"])
                except RuntimeError:
                    pass
                for p in L.m.parameters():
                    p.grad = None
    for r, v, t in kept:
        if exact(r, v):
            raise Violation("result-changed", "a result handed out by call %d changed afterwards" % t)
    ctx.nontrivial = ncalls >= 2 and (len(live) > 1 or len(trace["ops"]) > ncalls)


def _built(L):
    m = zoo.warm(zoo.build(L.spec), L.spec)
    return m.double() if L.dtype == "f64" else m


def do_call(L, op, ctx, z, kept, inputs, t):
    spec = L.spec
    train, kind = op["train"], op["kind"]
    L.m.train(train)
    key = (op["m"], op["inp"]["b"], L.dtype)
    if op["reuse"] and key in inputs:
        # the caller overwrites a tensor it used before and calls again
        args = inputs[key]
        new = _args(L, op)
        with torch.no_grad():
            for a, b in zip(args, new):
                if torch.is_tensor(a) and a.shape == b.shape:
                    if op["reuse"] == "perm":
                        a.copy_(a.flip(0))
                    elif op["reuse"] == "row":
                        a[op["seed"] % a.shape[0]].copy_(b[op["seed"] % a.shape[0]])
                    elif op["reuse"] == "elem" and a.is_floating_point():
                        i = tuple(op["seed"] // (q + 1) % n for q, n in enumerate(a.shape))
                        a[i] = b[i]
                    else:
                        a.copy_(b)
        ctx.count("reuse_input")
    else:
        args = zoo.layout(_args(L, op), op["lay"])
        ctx.count("layout." + op["lay"])
        if op["lay"] != "expanded":
            inputs[key] = args
    ctx.count("kind." + kind)
    if kind in ("plain", "nograd", "backward") and op["rg"]:
        args = tuple(a.detach().requires_grad_(True) if torch.is_tensor(a) and a.is_floating_point() else a for a in args)
    before = [a.detach().clone() if torch.is_tensor(a) else a for a in args]
    state0 = clone_state(L.m)
    grads0 = {n: p.grad for n, p in L.m.named_parameters()}
    flags0 = {n: p.requires_grad for n, p in L.m.named_parameters()}
    rs = derive(op["seed"], "rng") % (2 ** 31)
    env.seed_all(rs)
    amb0 = seams.ambient()
    sto = spec["fam"] == "vae" and op["seed"] % 2 == 0
    r = life.do_call(L.m, spec, args, kind, op["seed"], sto)
    amb1 = seams.ambient()
    cl = [a.contiguous() if torch.is_tensor(a) else a for a in before]
    e = z.call(life.pristine_call, spec, state0, cl, kind, op["seed"], L.dtype, train, rs, sto)
    after = e.pop("after")
    what = "call %d (%s, %s%s)" % (t, spec["fam"] + "/" + str(spec.get("lt", spec.get("kind"))), kind, ", train" if train else "")
    d = life.compare_call(r, e)
    if d and "exc" not in r and "exc" not in e:
        # summation order may depend on the layout (a reused tensor keeps the
        # layout it was made with); look at the sensitivity
        dev = z.call(life.deviation, spec, state0, cl, kind, op["seed"], L.dtype, train, rng_seed=rs, stochastic=sto)
        if life.excused(r, e, dev):
            ctx.count("excused")
            d = None
    if d:
        raise Violation("history-dependent", "%s differs from the same call in a fresh process: %s" % (what, d))
    if "exc" in r:
        ctx.count("both_raise")
        ctx.reach("raise", "%s %s %s %s %s" % (spec["fam"], spec.get("lt", spec.get("kind")), op["lay"] , L.dtype, r["text"][:80]))
        return
    ctx.count("compared")
    for i, (a, b) in enumerate(zip(args, before)):
        if torch.is_tensor(a) and exact(a.detach(), b):
            raise Violation("input-changed", "%s modified its input %d" % (what, i))
    st1 = clone_state(L.m)
    if not train:
        x = exact(state0, st1)
        if x:
            raise Violation("weights-changed", "%s in evaluation changed the model: %s" % (what, x))
        bad = seams.ambient_diff(amb0, amb1, ignore=("torch_rng",) if sto else ())
        if bad:
            raise Violation("ambient-changed", "%s in evaluation changed %s" % (what, bad))
    else:
        x = near(st1, after)
        if x:
            raise Violation("history-dependent", "%s leaves the model in another state than in a fresh process: %s" % (what, x))
        bad = seams.ambient_diff(amb0, amb1, ignore=("torch_rng", "py_rng", "np_rng"))
        if bad:
            raise Violation("ambient-changed", "%s changed %s" % (what, bad))
    for n, p in L.m.named_parameters():
        if p.grad is not grads0[n] or p.requires_grad != flags0[n]:
            raise Violation("grad-changed", "%s changed .grad or requires_grad of %s" % (what, n))
    ctx.note("call", t, digest(r["outs"]))
    own = life.storages([p for p in L.m.parameters()] + [b for b in L.m.buffers()] + list(args))
    for o in r["outs"]:
        if o.untyped_storage().data_ptr() in own:
            continue
        if op["clobber"] and kind != "inference":
            # the caller owns the result and may overwrite it
            ctx.count("op.clobber")
            with torch.no_grad():
                if o.numel() and o.is_floating_point():
                    try:
                        o.fill_(777.0)
                    except RuntimeError:
                        pass
        else:
            kept.append((o, o.clone(), t))


def simplify(trace):
    yield from generic_simplify(trace, {"b": 1, "hl": 0, "hw": 1})
