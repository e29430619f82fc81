"""C08: data-parallel gradient accumulation: shards of a batch are computed on
replicas that crash, rejoin, recompute and deliver twice; a parameter server
counts every shard once.  The sum must be the full-batch gradient."""
import copy
import heapq

import torch

from .. import env, life, zoo
from ..cmp import clone_state, digest, exact, maxabs, near
from ..main import Violation, generic_simplify
from ..rng import Rng, derive

ID = "C08"
LEVEL = "exploration"
PRISTINE = True
RUNS = dict(quick=2200, thorough=30000)
LISTS = ("shards", "rounds")
RULE = ("seeded rounds: a batch is split into shards (in any proportion), shards are assigned to replicas that may crash and be "
        "replaced, be slow, and deliver twice or out of order; the sums (server side, and accumulated in one model by backward()) "
        "are compared with the full batch in a fresh process; non-trivial if a round had two or more non-empty shards")
PROBES = ("fault.crash", "fault.dup", "fault.slow", "shards", "accumulate", "applied", "split", "fam.fc", "fam.mlp", "fam.conv", "fam.att")
SIMULATED = "replicas, parameter server, message delivery, replica crash and rejoin"
ASSUMPTIONS = ("sums may differ by 2e-5 of the gradient's largest entry (summation order)",
               "where 1e-6 changes of weights or input move the gradient more (kinks and jumps), it may differ as much")

MIX = [(7, "fc"), (6, "mlp"), (4, "conv"), (1.5, "convt"), (2, "fcn"), (1, "fdn"), (1.5, "tail"), (0.7, "vae"), (1, "tmlp"), (0.7, "low"),
       (0.5, "mlplist"), (4, "att"), (0.7, "norm"), (0.5, "emb"), (0.7, "lit")]


def has_bn(spec):
    return spec.get("norm") == "bn" or spec.get("kind") == "bn" or spec.get("bn") or (
        spec["fam"] in ("reg", "cls") and spec.get("mt") not in ("high_order", "high_order_input")) or (
        spec["fam"] == "vae" and (spec["enc"].get("norm") == "bn" or spec["dec"].get("norm") == "bn"))


def gen(rng, tier):
    spec = zoo.sample(rng, MIX)
    rounds = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        shards = []
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            d = dict(b=rng.wchoice([(2, 1), (1, 2), (1, 3), (1, 5), (1, 9), (0.3, 17), (0.2, 40)]), style=rng.wchoice(zoo.STYLES), seed=rng.seed31(), rep=rng.randrange(3),
                     t=round(rng.random() * 3, 3))
            if rng.chance(0.2):
                d["crash"] = rng.choice(["before", "mid", "after"])
            if rng.chance(0.2):
                d["dup"] = round(rng.random() * 4, 3)
            if rng.chance(0.2):
                d["slow"] = round(rng.random() * 10, 3)
            if shards and rng.chance(0.12):  # the same content again in another shard
                d.update({q: shards[-1][q] for q in ("b", "style", "seed")})
            shards.append(d)
        rounds.append(dict(shards=shards, seed=rng.seed31(), lr=rng.choice([0.0, 1e-3, 1e-2]), split=rng.chance(0.3)))
    return dict(spec=spec, seed=rng.seed31(), scale=rng.choice([1.0, 0.5]), rounds=rounds,
                train=rng.chance(0.4) and not has_bn(spec) and spec.get("dropout", 0.0) == 0.0, loss=rng.seed31(), ing=rng.chance(0.3))


def cat_args(parts):
    return tuple(None if parts[0][i] is None else torch.cat([p[i] for p in parts]) for i in range(len(parts[0])))


def shard_args(spec, d):
    return zoo.make_input(spec, dict(b=d["b"], style=d["style"], seed=d["seed"]))


def grads(m, spec, args, seed, ing=False):
    if ing:
        args = tuple(a.requires_grad_(True) if torch.is_tensor(a) and a.is_floating_point() else a for a in args)
    b = next(a for a in args if a is not None).shape[0]
    ps = [(n, p) for n, p in m.named_parameters() if p.requires_grad]
    outs = zoo.attn_outputs_batch_first(spec, zoo.call(m, spec, args), b)
    l = zoo.loss_of(outs, seed)
    if not ps or not torch.is_tensor(l) or not l.requires_grad:
        return {n: torch.zeros_like(p) for n, p in ps}, float(l)
    gs = torch.autograd.grad(l, [p for _, p in ps], allow_unused=True)
    return {n: (torch.zeros_like(p) if g is None else g.detach()) for (n, p), g in zip(ps, gs)}, float(l.detach())


def full(spec, state, shards, seed, train):
    m = life.load_into(spec, state, train=train)
    return grads(m, spec, cat_args([shard_args(spec, d) for d in shards]), seed)


def split(spec, state, shards, seed, train, cut):
    """The same batch cut somewhere else: into single samples or pairs."""
    m = life.load_into(spec, state, train=train)
    args = cat_args([shard_args(spec, d) for d in shards])
    b = next(a for a in args if a is not None).shape[0]
    tot, mag = {}, {}
    for i in range(0, b, cut):
        g, _ = grads(m, spec, tuple(None if a is None else a[i:i + cut].clone() for a in args), seed)
        for n in g:
            tot[n] = tot.get(n, 0) + g[n]
            mag[n] = mag.get(n, 0.0) + maxabs(g[n])
    return tot, mag


def sens(spec, state, shards, seed, train):
    """How much rounding-size perturbations move the gradient, sample by sample
    (so that nothing the code does to a batch as a whole counts)."""
    args = cat_args([shard_args(spec, d) for d in shards])
    b = next(a for a in args if a is not None).shape[0]
    m = life.load_into(spec, state, train=train)
    one = [tuple(None if a is None else a[i:i + 1].clone() for a in args) for i in range(b)]
    base = [grads(m, spec, a, seed)[0] for a in one]
    tot = None
    for j in range(24 if b < 12 else 10):
        m = life.load_into(spec, state, train=train)
        e = 2e-6 * (1.0 if j % 2 else 4.0)
        life.perturb_state(m, e, derive(seed, j))
        if tot is None:
            tot = [{n: torch.zeros_like(v, dtype=torch.float64) for n, v in x.items()} for x in base]
        for a, x, t in zip(one, base, tot):
            g, _ = grads(m, spec, life.perturb_args(a, e, derive(seed, "a", j)), seed)
            for n in t:
                d = (g[n].double() - x[n].double()).abs()
                t[n] = torch.maximum(t[n], torch.where(torch.isnan(d), torch.full_like(d, float("inf")), d))
    return {n: sum(t[n] for t in tot) for n in tot[0]}


def replica_step(spec, state, d, seed, train):
    """A replica that has just been (re)started: one shard."""
    m = life.load_into(spec, state, train=train)
    return grads(m, spec, shard_args(spec, d), seed)


def check(total, want, mag, what, z, spec, state, shards, seed, train, ctx):
    bad = []
    for n in want:
        a, b = total.get(n), want[n]
        if a is None:
            a = torch.zeros_like(b)
        d = near(a, b, 2e-5, 1e-6 + 4e-6 * mag.get(n, 0.0))
        if d:
            bad.append((n, a, b, d))
    if not bad:
        return
    dev = z.call(sens, spec, state, shards, seed, train)
    # a kink or jump hit in one place moves many entries: judge by the largest
    for n, a, b, d in bad:
        if not life.within(a, b, torch.full_like(dev[n], float(dev[n].max())), 2e-5, 1e-6 + 4e-6 * mag.get(n, 0.0), 10.0):
            raise Violation("sum-differs", "%s: gradient of %s: %s" % (what, n, d))
    ctx.count("excused")


def run(trace, ctx):
    spec, train, seed = trace["spec"], trace["train"], trace["loss"]
    if not trace["rounds"] or any(not r["shards"] for r in trace["rounds"]):
        return
    z = ctx.zygote()
    ctx.count("fam." + spec["fam"])
    base = zoo.make(spec, trace["seed"], trace["scale"], train=train)
    reps = [copy.deepcopy(base) for _ in range(3)]
    acc = copy.deepcopy(base)
    for ri, rd in enumerate(trace["rounds"]):
        state = clone_state(base)
        want, lw = z.call(full, spec, state, rd["shards"], seed, train)
        if not all(torch.isfinite(v).all() for v in want.values()):
            return
        # -- simulated cluster
        ev = []
        for i, d in enumerate(rd["shards"]):
            heapq.heappush(ev, (d["t"] + d.get("slow", 0.0), len(ev), "compute", i, d.get("crash")))
            if "slow" in d:
                ctx.count("fault.slow")
        got, order, now, mag = {}, [], 0.0, {}
        losses = 0.0
        while ev:
            now, _, kind, i, crash = heapq.heappop(ev)
            d = rd["shards"][i]
            if kind == "compute":
                if crash:
                    ctx.count("fault.crash")
                    if crash in ("mid", "after"):
                        grads(reps[d["rep"]], spec, shard_args(spec, d), seed, trace.get("ing"))   # work is lost
                    # the replica restarts from the broadcast weights and recomputes
                    g = z.call(replica_step, spec, state, d, seed, train)
                    heapq.heappush(ev, (now + 2.0, len(ev) + 1000, "deliver", i, g))
                    reps[d["rep"]] = life.load_into(spec, state, train=train)
                else:
                    g = grads(reps[d["rep"]], spec, shard_args(spec, d), seed, trace.get("ing"))
                    heapq.heappush(ev, (now + 0.5, len(ev) + 1000, "deliver", i, g))
                    if "dup" in d:
                        ctx.count("fault.dup")
                        g2 = grads(reps[(d["rep"] + 1) % 3], spec, shard_args(spec, d), seed, trace.get("ing"))
                        heapq.heappush(ev, (now + 0.5 + d["dup"], len(ev) + 1000, "deliver", i, g2))
            else:
                if i in got:
                    # counted once; a second delivery must carry the same content
                    for n in got[i]:
                        e = near(got[i][n], crash[0][n], 1e-6, 1e-7)
                        if e:
                            raise Violation("replica-differs", "round %d: shard %d recomputed elsewhere gives another gradient of %s: %s" % (ri, i, n, e))
                    continue
                got[i] = crash[0]
                losses += crash[1]
                order.append(i)
        ctx.sim_time += now
        ctx.count("shards", len(order))
        total = {}
        for i in order:
            for n, g in got[i].items():
                total[n] = total.get(n, 0) + g
                mag[n] = mag.get(n, 0.0) + maxabs(g)
        if len(rd["shards"]) > 1:
            ctx.nontrivial = True
        what = "round %d (%s/%s, shards %s)" % (ri, spec["fam"], spec.get("lt", spec.get("kind")), [d["b"] for d in rd["shards"]])
        check(total, want, mag, what + " summed on the server", z, spec, state, rd["shards"], seed, train, ctx)
        if rd.get("split") and sum(d["b"] for d in rd["shards"]) <= 60:
            cut = 1 + rd["seed"] % 2
            tot2, mag2 = z.call(split, spec, state, rd["shards"], seed, train, cut)
            ctx.count("split")
            check(tot2, want, mag2, what + " cut into pieces of %d" % cut, z, spec, state, rd["shards"], seed, train, ctx)
        # -- shard by shard into one model
        for p in acc.parameters():
            p.grad = None
        for i in order:
            args = shard_args(spec, rd["shards"][i])
            outs = zoo.attn_outputs_batch_first(spec, zoo.call(acc, spec, args), rd["shards"][i]["b"])
            l = zoo.loss_of(outs, seed)
            if torch.is_tensor(l) and l.requires_grad:
                l.backward()
        ctx.count("accumulate")
        check({n: p.grad for n, p in acc.named_parameters() if p.requires_grad}, want, mag, what + " accumulated by backward()", z,
              spec, state, rd["shards"], seed, train, ctx)
        ctx.note(ri, digest(total))
        # -- everybody applies the server's sum
        if rd["lr"] and total:
            for m in [base, acc] + reps:
                with torch.no_grad():
                    for n, p in m.named_parameters():
                        if n in total:
                            p.sub_(rd["lr"] * total[n].clamp(-1, 1))
            s0 = clone_state(base)
            for m in [acc] + reps:
                e = exact(s0, clone_state(m))
                if e:
                    raise Violation("replicas-diverge", "round %d: replicas that applied the same sum differ: %s" % (ri, e))
            ctx.count("applied")


def simplify(trace):
    yield from generic_simplify(trace, {"b": 1, "hl": 0, "hw": 1})
