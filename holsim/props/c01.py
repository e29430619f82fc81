"""C01: a trainer lives on a simulated disk: it trains, evaluates, edits, copies
and saves its model, loses power at arbitrary moments (not yet durable writes
are lost, kept or torn) and is restarted in a new process from what survived."""
import copy
import io
import pickle

import torch

from .. import env, life, zoo
from ..cmp import clone_state, digest, exact, near
from ..disk import DiskFull, SimDisk
from ..main import Violation, generic_simplify
from ..rng import Rng, derive

ID = "C01"
LEVEL = "exploration"
PRISTINE = True
RUNS = dict(quick=2200, thorough=30000)
LISTS = ("ops",)
RULE = ("seeded lives of one model (train, evaluate, edit, freeze, save, copy, pickle, hot reload, crash and restart) on a disk "
        "that loses, keeps or tears unsynced writes; non-trivial if at least one save was restored after training or editing")
PROBES = ("fault.crash", "fault.torn", "fault.lost", "fault.full", "op.train", "op.copy", "op.pickle", "op.hot", "restored_cold",
          "restored_lightning", "registered")
SIMULATED = "disk (volatile cache, fsync, torn and lost writes, full disk), power loss, process restart"
ASSUMPTIONS = ("the checkpoint file format is torch.save/torch.load; a torn file is one torch.load rejects",)


def gen(rng, tier):
    spec = zoo.sample_mlp(rng, dropout=True) if rng.chance(0.15) else zoo.sample_lightning(rng) if rng.chance(0.1) else zoo.sample(rng)
    ops = []
    for _ in range(rng.choice([3, 4, 6, 9])):
        k = rng.wchoice([(4, "train"), (1, "eval"), (1, "edit"), (5, "save"), (2.5, "crash"), (1, "copy"), (1, "pickle"),
                         (1.2, "hot"), (0.4, "freeze"), (0.6, "init")])
        o = dict(op=k, seed=rng.seed31(), inp=zoo.sample_input(rng, b=rng.choice([2, 3, 5])))
        if k == "train":
            o["opt"] = life.sample_opt(rng)
            o["steps"] = rng.choice([1, 1, 2, 4])
        if k == "save":
            o["sync"] = rng.chance(0.7)
            o["full"] = round(rng.random(), 3) if rng.chance(0.1) else None
            o["via"] = rng.choice(["state", "state", "nested"])
        if k == "crash":
            o["warm"] = rng.chance(0.5)
        if k in ("copy", "pickle"):
            o["switch"] = rng.chance(0.5)
        ops.append(o)
    ops.append(dict(op="save", seed=rng.seed31(), inp=zoo.sample_input(rng, b=2), sync=True, full=None, via="state"))
    ops.append(dict(op="crash", seed=rng.seed31(), inp=zoo.sample_input(rng, b=2), warm=rng.chance(0.5)))
    return dict(spec=spec, seed=rng.seed31(), ops=ops, probe=[zoo.sample_input(rng, b=rng.choice([1, 3])) for _ in range(2)])


def answers(m, spec, probe):
    """Everything the model computes on the probe inputs: evaluated without
    and with gradients, in inference mode, and (given the random state) in
    training mode.  Begins and ends without gradients, so that nothing derived
    from the weights for serving is refreshed on the way in."""
    modes = [(x, x.training) for x in m.modules()]
    stateful = any(True for _ in m.buffers())
    m.eval()
    args = [zoo.make_input(spec, d) for d in probe]
    with torch.no_grad():
        out = [[zoo.call(m, spec, a)] for a in args]
    for i, a in enumerate(args):
        o, g = zoo.grads_of(m, spec, a, seed=i)
        out[i][0] += o
        out[i] += [{k: v for k, v in g.items() if k.startswith("@")}, {k: v for k, v in g.items() if not k.startswith("@")}]
    with torch.inference_mode():
        out[0][0] += [o.clone() for o in zoo.call(m, spec, args[0])]
    if not stateful:
        m.train()
        amb = torch.get_rng_state()
        torch.manual_seed(77)
        try:
            with torch.no_grad():
                out[-1][0] += zoo.call(m, spec, args[-1])
        finally:
            torch.set_rng_state(amb)
        m.eval()
    with torch.no_grad():
        out[-1][0] += zoo.call(m, spec, args[-1])
    for x, f in modes:
        x.training = f
    return out


def restore_cold(data, spec, probe, warm, seed, via):
    """In a new process: build with another seed, load strictly, answer."""
    env.seed_all(seed)
    sd = load_bytes(data)
    if via == "lightning":
        cls = getattr(env.mod("modules"), "RegressionNet" if spec["fam"] == "reg" else "ClassificationNet")
        with env.quiet():
            m = cls.load_from_checkpoint(io.BytesIO(data), map_location="cpu", weights_only=False)
        sd = sd["state_dict"]
    else:
        m = zoo.build(spec)
        if warm:
            zoo.warm(m, spec)
        if via == "nested":
            sd = sd["model"]
        m.load_state_dict(sd, strict=True)
    return dict(a=answers(m, spec, probe), st=clone_state(m))


def load_bytes(b):
    return torch.load(io.BytesIO(b), weights_only=False)


def to_bytes(o):
    f = io.BytesIO()
    torch.save(o, f)
    return f.getvalue()


def check_registered(m, spec, probe, ctx):
    """Everything learnable that influences an output is a parameter and is in
    the saved state."""
    mode = m.training
    m.eval()
    args = zoo.make_input(spec, probe)
    outs = zoo.call(m, spec, args)
    seen, stack, leaves = set(), [o.grad_fn for o in outs if o.grad_fn is not None], {}
    while stack:
        f = stack.pop()
        if f is None or f in seen:
            continue
        seen.add(f)
        if hasattr(f, "variable"):
            leaves[id(f.variable)] = f.variable
        stack += [x for x, _ in f.next_functions]
    params = {id(p): n for n, p in m.named_parameters()}
    for i, v in leaves.items():
        if i not in params:
            raise Violation("unregistered", "a learnable tensor of shape %s influences the output but is not among parameters()" % (tuple(v.shape),))
    sd = m.state_dict(keep_vars=True)
    have = {id(t) for t in sd.values()}
    for n, p in m.named_parameters():
        if id(p) not in have and n not in sd:
            raise Violation("not-saved", "parameter %s is missing from the saved state" % n)
    m.train(mode)
    ctx.count("registered")


def same(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        d = near(x[0], y[0]) or near(x[1], y[1])
        if d:
            return "probe %d: %s" % (i, d)
        # gradients of parameters trainable on both sides
        for n in x[2]:
            if n in y[2]:
                d = near(x[2][n], y[2][n])
                if d:
                    return "probe %d: gradient of %s: %s" % (i, n, d)
    return None


def finite(m):
    return all(torch.isfinite(p).all() for p in list(m.parameters()) + [b for b in m.buffers() if b.is_floating_point()])


def run(trace, ctx):
    z = ctx.zygote()
    spec, probe = trace["spec"], trace["probe"]
    m = zoo.make(spec, trace["seed"])
    disk = SimDisk()
    files = []     # newest last: (path, via, answers, state)
    changed = restored = 0
    n = 0
    opt, optd = None, None
    for t, op in enumerate(trace["ops"]):
        k = op["op"]
        ctx.count("op." + k)
        rng = Rng(op["seed"], "op")
        if k == "train":
            m.train()
            ps = [p for p in m.parameters() if p.requires_grad]
            if not ps:
                continue
            if opt is None or optd != op["opt"]:
                opt, optd = life.make_opt(op["opt"], m.parameters()), op["opt"]
            env.seed_all(op["seed"])
            for s in range(op["steps"]):
                life.train_step(m, spec, zoo.make_input(spec, op["inp"]), opt, derive(op["seed"], s))
            if not finite(m):
                return
            changed += 1
        elif k == "eval":
            m.eval()
            life.do_call(m, spec, zoo.make_input(spec, op["inp"]), life.KINDS[op["seed"] % len(life.KINDS)], op["seed"])
        elif k == "edit":
            zoo.randomize(m, op["seed"])
            changed += 1
        elif k == "init":
            env.seed_all(op["seed"])
            life.initialize(m, dict(slope=1.0, offset=0.3))
        elif k == "freeze":
            ps = list(m.parameters())
            if ps:
                p = ps[op["seed"] % len(ps)]
                if p.is_floating_point():
                    p.requires_grad_(not p.requires_grad)
                    opt = None
        elif k == "save":
            n += 1
            via = op["via"]
            if spec["fam"] in ("reg", "cls") and op["seed"] % 2:
                via = "lightning"
            check_registered(m, spec, probe[0], ctx)
            if via == "lightning":
                import pytorch_lightning as pl

                payload = {"pytorch-lightning_version": pl.__version__, "state_dict": m.state_dict(), "hyper_parameters": m.hparams,
                           "hparams_name": m._hparams_name, "hparams_type": type(m.hparams)}
            elif via == "nested":
                payload = {"model": m.state_dict(), "t": t}
            else:
                payload = m.state_dict()
            data = to_bytes(payload)
            path = "ckpt%d" % n
            entry = (path, via, answers(m, spec, probe), clone_state(m), len(data))
            try:
                disk.write(path, data, fail_at=op["full"])
            except DiskFull:
                ctx.count("fault.full")
                continue
            files.append(entry)
            if op["sync"]:
                disk.fsync(path)
        elif k == "hot":
            # restore an earlier save into the live, used model
            good = [f for f in files if disk.read(f[0]) is not None and len(disk.read(f[0])) == f[4]]
            if not good:
                continue
            path, via, ans, st, _ = good[op["seed"] % len(good)]
            sd = load_bytes(disk.read(path))
            sd = sd["state_dict"] if via == "lightning" else sd["model"] if via == "nested" else sd
            m.load_state_dict(sd, strict=True)
            a = answers(m, spec, probe)
            d = same(ans, a) or exact(st, clone_state(m))
            if d:
                raise Violation("hot-reload", "reloading a save into a used model (operation %d) does not restore it: %s" % (t, d))
            restored += 1
        elif k in ("copy", "pickle"):
            before = answers(m, spec, probe)
            st = clone_state(m)
            c = copy.deepcopy(m) if k == "copy" else pickle.loads(pickle.dumps(m))
            if life.storages([list(m.parameters()), list(m.buffers())]) & life.storages([list(c.parameters()), list(c.buffers())]):
                raise Violation("copy-shares", "a %s shares storage with its original" % k)
            d = exact(st, clone_state(c)) or same(before, answers(c, spec, probe))
            if d:
                raise Violation("copy-differs", "a %s computes something else than its original: %s" % (k, d))
            zoo.randomize(c, op["seed"])
            d = exact(st, clone_state(m)) or same(before, answers(m, spec, probe))
            if d:
                raise Violation("copy-shares", "changing a %s changed the original: %s" % (k, d))
            zoo.randomize(m, derive(op["seed"], 2))
            zoo.randomize(c, derive(op["seed"], 2))
            d = same(answers(c, spec, probe), answers(m, spec, probe))
            if d:
                raise Violation("copy-shares", "after the same edit a %s and its original differ: %s" % (k, d))
            (c if op["switch"] else m).load_state_dict(st)
            if op["switch"]:
                m, opt = c, None
        elif k == "crash":
            disk.crash(rng)
            ctx.count("fault.crash")
            opt = None
            alive = None
            for f in reversed(files):
                data = disk.read(f[0])
                if data is None:
                    continue
                try:
                    load_bytes(data)
                except Exception:
                    if len(data) == f[4]:
                        raise Violation("unreadable", "a complete save cannot be read back")
                    ctx.count("fault.torn")
                    continue
                alive = (f, data)
                break
            files = [f for f in files if disk.read(f[0]) is not None and len(disk.read(f[0])) == f[4]]
            env.seed_all(derive(op["seed"], "fresh") % (2 ** 31))
            if alive is None:
                m = zoo.make(spec, trace["seed"])
                continue
            (path, via, ans, st, _), data = alive
            r = z.call(restore_cold, data, spec, probe, op["warm"], derive(op["seed"], "b") % (2 ** 31), via)
            d = exact(st, r["st"])
            if d:
                raise Violation("state-differs", "state loaded in a new process differs from the saved model: %s" % d)
            d = same(ans, r["a"])
            if d:
                raise Violation("restore-differs", "the model restored in a new process computes something else than the saved one: %s" % d)
            restored += 1
            ctx.count("restored_lightning" if via == "lightning" else "restored_cold")
            # the restarted trainer goes on in this process with a new instance
            m = zoo.build(spec)
            if op["warm"]:
                zoo.warm(m, spec)
            sd = load_bytes(data)
            sd = sd["state_dict"] if via == "lightning" else sd["model"] if via == "nested" else sd
            m.load_state_dict(sd, strict=True)
            d = same(ans, answers(m, spec, probe))
            if d:
                raise Violation("restore-differs", "a new instance loaded from the save computes something else: %s" % d)
            ctx.note("restore", t, digest(ans[0][0]))
    for kk in ("torn", "lost"):
        if disk.stats[kk]:
            ctx.count("fault." + kk, disk.stats[kk])
    ctx.nontrivial = restored > 0 and changed > 0


def simplify(trace):
    yield from generic_simplify(trace, {"b": 1, "hl": 0, "hw": 1, "steps": 1})
