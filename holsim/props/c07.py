"""C07: a dynamic batching service in virtual time: requests are delayed,
dropped, retried, duplicated and reordered on the simulated network, some carry
poison values, and the server groups whatever has arrived into batches.  Every
answer is compared with the one the request gets alone in a fresh process."""
import heapq

import torch

from .. import env, life, zoo
from ..cmp import clone_state, digest, maxabs, near
from ..main import Violation, generic_simplify
from ..rng import Rng, derive

ID = "C07"
LEVEL = "exploration"
PRISTINE = True
RUNS = dict(quick=2600, thorough=40000)
LISTS = ("reqs",)
RULE = ("seeded request streams (1-300 requests, some NaN/Inf/huge, duplicates) through a network with drops, retries, "
        "duplication, delay and reordering into a batching server; every answer of every batch is compared; non-trivial if "
        "at least one batch had two or more different requests")
PROBES = ("fault.drop", "fault.dup", "fault.delay", "fault.lost_reply", "fault.poison", "answers", "batch.2", "batch.big", "masked",
          "fault.stall", "grad")
SIMULATED = "network (drop, duplicate, delay, reorder), clock, batching server, clients with retry"
MEASURE = "distinct traces; distinct (family, batch size) pairs reached"
ASSUMPTIONS = ("answers may differ by 1e-5 of the largest entry (summation order depends on the batch)",
               "where 1e-6 changes of weights or input move the answer more than that (jumps of discontinuous links) the answer may differ as much")

MIX = [(6, "fc"), (6, "mlp"), (4, "conv"), (1.5, "convt"), (2, "fcn"), (1, "fdn"), (1.5, "tail"), (1, "vae"), (1, "tmlp"), (0.7, "low"),
       (0.5, "mlplist"), (6, "att"), (3, "norm"), (0.8, "emb"), (1, "lit")]
POISON = ["nan", "inf", "huge", "onenan", "oneinf", "zeros", "mask"]


def gen(rng, tier):
    spec = zoo.sample(rng, MIX)
    if rng.chance(0.2) and spec["fam"] == "mlp":
        spec = zoo.sample_mlp(rng, norms=["max_abs", "max_center", "l2", "max_abs_last", "max_center_last", "max_abs_nd", "max_center_nd",
                                          "layer_norm", "bn"])
    n = rng.wchoice([(4, 3), (4, 6), (3, 12), (2, 25), (0.7, 70)] + ([(0.25, 300)] if spec["fam"] in ("fc", "mlp", "norm", "emb", "low") else []))
    reqs = []
    burst = rng.chance(0.04) and n < 70
    if burst:  # everybody at once
        if rng.chance(0.5):
            spec = zoo.sample(rng, [(4, "fc"), (2, "mlp"), (1, "att"), (1, "norm"), (0.5, "conv"), (0.5, "emb")])
        n = rng.choice([70, 140, 300])
    for i in range(n):
        r = dict(t=round(rng.random() * (0.05 if burst else n * 0.3), 3), style=rng.wchoice(zoo.STYLES), seed=rng.seed31())
        if rng.chance(0.12):
            r["poison"] = rng.choice(POISON)
        if reqs and rng.chance(0.1):
            r["seed"], r["style"] = reqs[-1]["seed"], reqs[-1]["style"]  # identical content
        if rng.chance(0.1):
            r["drop"] = rng.choice([1, 1, 2])
        if rng.chance(0.15):
            r["dup"] = round(rng.random() * 3, 3)
        if rng.chance(0.3):
            r["delay"] = round(rng.expovariate(1.0) * 2, 3)
        if rng.chance(0.08):
            r["lost_reply"] = 1
        reqs.append(r)
    return dict(spec=spec, seed=rng.seed31(), scale=rng.choice([1.0, 1.0, 0.5, 2.0]), reqs=reqs, max=300 if burst else rng.choice([2, 3, 5, 8, 16, 64, 300]),
                window=rng.choice([0.3, 1.0, 4.0]), stall=[round(rng.random() * n * 0.3, 2), round(rng.random() * 5, 2)] if rng.chance(0.3) else None,
                order=rng.choice(["fifo", "fifo", "lifo", "shuffle"]), grad=rng.chance(0.3))


def request_input(spec, r):
    a = zoo.make_input(spec, dict(b=1, style=r["style"], seed=r["seed"]))
    p = r.get("poison")
    if p:
        x = a[0].clone()
        if p == "nan":
            x.fill_(float("nan"))
        elif p == "inf":
            x.fill_(float("inf"))
        elif p == "huge":
            x.mul_(1e18)
        elif p == "zeros":
            x.zero_()
        elif p == "onenan":
            x.view(-1)[r["seed"] % x.numel()] = float("nan")
        elif p == "oneinf":
            x.view(-1)[r["seed"] % x.numel()] = float("-inf")
        a = (x,) + a[1:]
        if p == "mask" and a[-1] is not None and a[-1].dtype == torch.bool:  # a client that hides every key (of one query)
            k = a[-1].clone()
            k[(slice(None), r["seed"] % k.shape[1]) if r["seed"] % 3 else slice(None)] = True
            a = a[:-1] + (k,)
    return a


def alone(spec, seed, scale, reqs, grad):
    """In a fresh process: each request by itself."""
    m = zoo.make(spec, seed, scale)
    out = []
    for r in reqs:
        out.append(serve(m, spec, [r], grad)[0])
    return out


def serve(m, spec, reqs, grad):
    parts = [request_input(spec, r) for r in reqs]
    args = []
    for i in range(len(parts[0])):
        args.append(None if parts[0][i] is None else torch.cat([p[i] for p in parts]))
    if grad:
        args = [a.requires_grad_(True) if torch.is_tensor(a) and a.is_floating_point() else a for a in args]
    b = len(reqs)
    if grad:
        outs = zoo.call(m, spec, tuple(args))
    else:
        with torch.no_grad():
            outs = zoo.call(m, spec, tuple(args))
    outs = zoo.attn_outputs_batch_first(spec, outs, b)
    res = [[o.detach()[j].clone() for o in outs] for j in range(b)]
    for o in outs:
        if o.shape[0] != b:
            raise Violation("shape", "a batch of %d gives an output of shape %s" % (b, tuple(o.shape)))
    return res


def sensitivity(spec, seed, scale, r, grad, eps=2e-6, k=24):
    """Largest movement of each result under rounding-size perturbations."""
    m = zoo.make(spec, seed, scale)
    base = serve(m, spec, [r], grad)[0]
    st = clone_state(m)
    dev = [0.0 if x is None else torch.zeros_like(x, dtype=torch.float64) for x in base]
    orig = request_input
    for j in range(k):
        m.load_state_dict(st)
        e = eps * (1.0 if j % 2 else 4.0)
        life.perturb_state(m, e, derive(j, r["seed"]))
        a = life.perturb_args(orig(spec, r), e, derive(j, "i", r["seed"]))
        out = _serve_args(m, spec, a, grad)
        for i, (x, y) in enumerate(zip(base, out)):
            if x is not None and y is not None and x.is_floating_point():
                d = (x.double() - y.double()).abs()
                dev[i] = torch.maximum(dev[i], torch.where(torch.isnan(d), torch.full_like(d, float("inf")), d))
    return dev


def _serve_args(m, spec, a, grad):
    args = [x.clone().requires_grad_(True) if grad and torch.is_tensor(x) and x.is_floating_point() else x for x in a]
    outs = zoo.attn_outputs_batch_first(spec, zoo.call(m, spec, tuple(args)), 1)
    res = [o.detach()[0].clone() for o in outs]
    return res


def schedule(trace, ctx):
    """Network and server in virtual time -> list of batches of request indices."""
    ev = []
    for i, r in enumerate(trace["reqs"]):
        t = r["t"]
        for _ in range(r.get("drop", 0)):
            ctx.count("fault.drop")
            t += 2.5                      # client timeout, then retry
        d = r.get("delay", 0.0)
        if d:
            ctx.count("fault.delay")
        heapq.heappush(ev, (t + 0.1 + d, len(ev), i))
        if "dup" in r:
            ctx.count("fault.dup")
            heapq.heappush(ev, (t + 0.1 + r["dup"], len(ev), i))
        if r.get("lost_reply"):
            ctx.count("fault.lost_reply")
            heapq.heappush(ev, (t + 0.1 + d + 5.0, len(ev), i))
        if r.get("poison"):
            ctx.count("fault.poison")
    q, batches, now = [], [], 0.0
    rng = Rng(trace["seed"], "order")
    opened = None
    stall = trace["stall"]

    def close():
        nonlocal q, opened
        while q:
            b, q = q[: trace["max"]], q[trace["max"]:]
            b = list(b)
            if trace["order"] == "lifo":
                b.reverse()
            elif trace["order"] == "shuffle":
                rng.shuffle(b)
            batches.append(b)
        opened = None

    while ev:
        t, _, i = heapq.heappop(ev)
        now = t
        if opened is not None and (t - opened > trace["window"] or len(q) >= trace["max"]):
            if not (stall and stall[0] <= t < stall[0] + stall[1]):
                close()
            else:
                ctx.count("fault.stall")
        q.append(i)
        if opened is None:
            opened = t
    close()
    ctx.sim_time += now
    return batches


def run(trace, ctx):
    spec = trace["spec"]
    if not trace["reqs"]:
        return
    z = ctx.zygote()
    m = zoo.make(spec, trace["seed"], trace["scale"])
    batches = schedule(trace, ctx)
    want = z.call(alone, spec, trace["seed"], trace["scale"], trace["reqs"], trace["grad"])
    if trace["grad"]:
        ctx.count("grad")
    if spec.get("mask"):
        ctx.count("masked")
    for bi, b in enumerate(batches):
        rs = [trace["reqs"][i] for i in b]
        got = serve(m, spec, rs, trace["grad"])
        if len(set(b)) > 1:
            ctx.nontrivial = True
        if len(b) == 2:
            ctx.count("batch.2")
        if len(b) > 12:
            ctx.count("batch.big")
        ctx.reach("batch", "%s %d" % (spec["fam"], len(b)))
        for pos, i in enumerate(b):
            r = trace["reqs"][i]
            ctx.count("answers")
            if r.get("poison") in ("nan", "inf", "huge", "onenan", "oneinf"):
                continue
            for oi, (x, y) in enumerate(zip(got[pos], want[i])):
                if x is None or y is None:
                    d = near(x, y)
                else:
                    d = near(x, y, 1e-5, 1e-6)
                if not d:
                    continue
                dev = z.call(sensitivity, spec, trace["seed"], trace["scale"], r, trace["grad"])[oi]
                if x is not None and y is not None and torch.is_tensor(dev) and life.within(x, y, dev, 1e-5, 1e-6, 10.0):
                    ctx.count("excused")
                    continue
                raise Violation("batch-dependent", "request %d (position %d in batch %d of %d requests, %s/%s): answer part %d differs from the answer it gets alone: %s" % (
                    i, pos, bi, len(b), spec["fam"], spec.get("lt", spec.get("kind")), oi, d))
        ctx.note(bi, len(b), digest([[y for y in x if y is not None] for x in got]))


def simplify(trace):
    yield from generic_simplify(trace, {"hl": 0, "hw": 1})
