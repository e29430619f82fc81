"""C02: a training run on a simulated disk is killed and resumed again and
again; every executed step and the final model must be those of the run that
was never interrupted."""
import io
import random

import torch

from .. import env, life, seams, zoo
from ..cmp import clone_state, digest, exact, near
from ..disk import DiskFull, SimDisk
from ..main import Violation, generic_simplify
from ..rng import Rng, derive

ID = "C02"
LEVEL = "exploration"
PRISTINE = True
RUNS = dict(quick=1500, thorough=20000)
LISTS = ("lives", "events")
RULE = ("a seeded training program (model, optimizer, schedule, dropout, mid-run refinement/smoothing/initialisation) and a "
        "seeded list of lives, each ended by a crash inside or between steps or checkpoint writes, or by an injected exception; "
        "restarts are cold (new process), semi-warm (new objects) or warm (live objects rolled back); non-trivial if at least "
        "one checkpoint was resumed and at least two steps were executed after it")
PROBES = ("resume.cold", "resume.semi", "resume.warm", "fault.crash", "fault.exception", "fault.torn", "fault.lost", "fault.full",
          "event.refine", "event.smooth", "event.init", "lightning", "sched.plateau", "sched.exp", "opt.sparse_lion", "dropout", "vae")
SIMULATED = "disk, power loss, process restart, allocation failures and interrupts inside a step"
ASSUMPTIONS = ("the checkpoint holds model, optimizer, scheduler and random state and the step number",)


def gen(rng, tier):
    r = rng.random()
    events = []
    lit = False
    if r < 0.2:
        spec = zoo.sample_lightning(rng)
        lit = True
    elif r < 0.5:
        spec = life.sample_refinable(rng, single=0.15)
    elif r < 0.65:
        spec = zoo.sample_mlp(rng, dropout=True)
    else:
        spec = zoo.sample(rng, [(5, "fc"), (4, "mlp"), (3, "conv"), (1, "convt"), (2, "fcn"), (1, "fdn"), (1, "tail"), (1, "tmlp"),
                                (0.7, "low"), (2, "att"), (1.5, "vae")])
    steps = rng.choice([3, 5, 8, 12]) if rng.chance(0.98) else 45
    from .c06 import refinable

    if not lit and rng.chance(0.7):
        cur = spec
        for s in sorted({rng.randrange(steps) for _ in range(rng.choice([1, 1, 2]))}):
            k = rng.choice(["refine", "refine", "smooth", "init", "reopt"])
            if k == "refine" and refinable(cur) and len(events) < 2 and life.refine_cost(life.with_orders(cur)) < 1500:
                how = rng.choice(["p", "h", "hp"]) if cur["lt"] in ("continuous", "switch_continuous") else "p"
                t = life.refined_spec(rng, cur, how)
                events.append(dict(at=s, k=k, how=how, target=t))
                cur = t
            elif k == "smooth" and cur["fam"] in ("mlp", "fc") and cur["lt"] == "discontinuous":
                events.append(dict(at=s, k=k, factor=rng.choice([0.5, 0.9])))
            elif k == "init":
                events.append(dict(at=s, k=k, init=dict(slope=0.5, offset=0.2)))
            elif k == "reopt":
                events.append(dict(at=s, k=k))
    prog = dict(spec=spec, seed=rng.seed31(), steps=steps, lit=lit, events=events, opt=life.sample_opt(rng),
                sched=rng.choice([None, None, "exp", "plateau", "step"]), epoch=rng.choice([1, 2, 3]),
                every=rng.choice([1, 2, 2, 3]), sync=rng.choice(["proper", "proper", "sloppy"]), b=rng.choice([2, 3, 6]),
                keep=rng.choice([2, 3]))
    lives = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        d = dict(kind=rng.choice(["cold", "cold", "semi", "warm"]), budget=rng.choice([3, 8, 14, 20, 30, 45]) + rng.randrange(5),
                 seed=rng.seed31(), full=rng.chance(0.12))
        if rng.chance(0.35):
            d["exc"] = dict(step=rng.randrange(6), at="op", k=rng.choice([0, 3, 10, 30, 80, 200]) + rng.randrange(10),
                            exc=rng.choice(sorted(seams.EXC)), after=rng.chance(0.5))
        lives.append(d)
    return dict(prog=prog, lives=lives)


class Crash(BaseException):
    pass


class Trainer:
    def __init__(self, prog, shared=None):
        self.p = prog
        self.step = 0
        self.shared = {} if shared is None else shared
        self.build(0)

    # -- construction ------------------------------------------------------

    def spec_at(self, phase):
        s = self.p["spec"]
        n = 0
        for e in self.p["events"]:
            if e["k"] == "refine":
                n += 1
                if n <= phase:
                    s = e["target"]
        return s

    def build(self, phase):
        self.phase = phase
        self.spec = self.spec_at(phase)
        if self.p["lit"]:
            # the configuration is one object for the life of the process
            if "cfg" not in self.shared:
                from omegaconf import OmegaConf

                self.shared["cfg"] = OmegaConf.create(zoo.lightning_cfg(self.spec))
            self.m = zoo.build(dict(self.spec, cfg=self.shared["cfg"]))
        else:
            self.m = zoo.build(self.spec)
        zoo.warm(self.m, self.spec)
        self.m.train()
        self.make_opt()

    def make_opt(self):
        p = self.p
        self.sched = None
        self.plateau = False
        self.opt = None
        if p["lit"]:
            with env.quiet():
                r = self.m.configure_optimizers()
            if isinstance(r, tuple):
                self.opt = r[0][0]
                self.sched = r[1][0]["scheduler"]
                self.plateau = bool(r[1][0]["reduce_on_plateau"])
            else:
                self.opt = r
            return
        if not any(q.requires_grad for q in self.m.parameters()):
            return
        self.opt = life.make_opt(p["opt"], self.m.parameters())
        L = torch.optim.lr_scheduler
        if p["sched"] == "exp":
            self.sched = L.ExponentialLR(self.opt, gamma=0.7)
        elif p["sched"] == "step":
            self.sched = L.StepLR(self.opt, step_size=2, gamma=0.5)
        elif p["sched"] == "plateau":
            self.sched = L.ReduceLROnPlateau(self.opt, patience=0, factor=0.5)
            self.plateau = True

    # -- checkpoints -------------------------------------------------------

    def save(self):
        d = dict(step=self.step, phase=self.phase, model=self.m.state_dict(), rng=torch.get_rng_state(), py=random.getstate(),
                 opt=self.opt.state_dict() if self.opt else None, sched=self.sched.state_dict() if self.sched else None)
        f = io.BytesIO()
        torch.save(d, f)
        return f.getvalue()

    def load(self, d, rebuild, reopt=False):
        if rebuild or self.phase != d["phase"]:
            self.build(d["phase"])
        elif reopt:
            self.make_opt()
        self.m.load_state_dict(d["model"], strict=True)
        if self.opt:
            self.opt.load_state_dict(d["opt"])
        if self.sched:
            self.sched.load_state_dict(d["sched"])
        self.m.train()
        self.step = d["step"]
        torch.set_rng_state(d["rng"])
        random.setstate(d["py"])

    # -- one step ----------------------------------------------------------

    def events(self, counts):
        for e in self.p["events"]:
            if e["at"] != self.step:
                continue
            counts["event." + e["k"]] = counts.get("event." + e["k"], 0) + 1
            if e["k"] == "refine":
                old, ospec = self.m, self.spec
                self.build(self.phase + 1)
                life.refine(e["how"], ospec, old, self.m)
            elif e["k"] == "smooth":
                life.smooth(self.m, self.spec, e["factor"])
            elif e["k"] == "init":
                life.initialize(self.m, e["init"])
            elif e["k"] == "reopt":
                self.make_opt()

    def one(self, tick, counts, fault):
        self.events(counts)
        tick()
        s = self.step
        d = dict(b=self.p["b"], style="uniform", seed=derive(self.p["seed"], "x", s) % (2 ** 31))
        args = zoo.make_input(self.spec, d)
        with fault:
            if self.opt:
                self.opt.zero_grad()
            if self.p["lit"]:
                g = torch.Generator().manual_seed(d["seed"])
                if self.spec["fam"] == "cls":
                    y = torch.randint(0, self.spec["out"], (self.p["b"],), generator=g)
                else:
                    y = torch.rand(self.p["b"], self.spec["out"], generator=g)
                with env.quiet():
                    loss = self.m.training_step((args[0], y), s)
            else:
                outs = zoo.call(self.m, self.spec, args, True)
                loss = zoo.loss_of(outs, 1) / self.p["b"]
            tick()
            lr = self.opt.param_groups[0]["lr"] if self.opt else 0.0
            if self.opt:
                loss.backward()
                tick()
                self.opt.step()
        tick()
        lv = float(loss.detach()) if torch.is_tensor(loss) else float(loss)
        self.step += 1
        if self.sched and self.step % self.p["epoch"] == 0:
            if self.plateau:
                self.sched.step(lv)
            else:
                self.sched.step()
        return s, lv, lr


def readable(data):
    try:
        return torch.load(io.BytesIO(data), weights_only=True)
    except Exception:
        return None


def newest(disk, counts):
    best = None
    for p in sorted(disk.cache):
        if not p.startswith("ck"):
            continue
        d = readable(disk.cache[p])
        if d is None:
            counts["fault.torn"] = counts.get("fault.torn", 0) + 1
            continue
        if best is None or d["step"] > best["step"]:
            best = d
    return best


def life_of(prog, disk, life_d, live=None, shared=None):
    """One incarnation of the training process.  Returns a dict; `live` is the
    Trainer to continue with (warm) or None."""
    counts = {}
    log = []
    ticks = [0]
    budget = None if life_d is None else life_d["budget"]

    def tick():
        ticks[0] += 1
        if budget is not None and ticks[0] >= budget:
            raise Crash()

    crashed = None
    rng = Rng("life", life_d["seed"] if life_d else 0)
    resumed = None
    env.seed_all(prog["seed"] if not disk.cache else derive(prog["seed"], "other", rng.random()) % (2 ** 31))
    d = newest(disk, counts)
    tr = live
    try:
        if d is None:
            env.seed_all(prog["seed"])
            tr = Trainer(prog, shared)
        else:
            resumed = d["step"]
            if tr is None:
                tr = Trainer(prog, shared)
                tr.load(d, True)
            else:
                tr.load(d, False, life_d["seed"] % 2)
        nfull = [life_d and life_d["full"]]
        first = tr.step
        while tr.step < prog["steps"]:
            f = seams.NoFault()
            e = life_d and life_d.get("exc")
            if e and tr.step == first + e["step"]:
                f = seams.fault(e)
            log.append(tr.one(tick, counts, f))
            if tr.step % prog["every"] == 0 or tr.step == prog["steps"]:
                checkpoint(tr, prog, disk, tick, nfull, counts)
        done = True
    except Crash:
        crashed, done = "crash", False
        counts["fault.crash"] = counts.get("fault.crash", 0) + 1
    except (Exception, KeyboardInterrupt) as ex:
        if "injected" not in str(ex):
            raise
        crashed, done = "exception", False
        counts["fault.exception"] = counts.get("fault.exception", 0) + 1
    out = dict(log=log, done=done, crashed=crashed, resumed=resumed, counts=counts)
    if done:
        out["final"] = dict(m=clone_state(tr.m), lr=tr.opt.param_groups[0]["lr"] if tr.opt else 0.0, opt=opt_state(tr.opt),
                            rng=torch.get_rng_state(), phase=tr.phase)
    elif crashed == "crash" and (life_d and life_d.get("kind_next") != "warm"):
        disk.crash(rng)
    out["disk"] = disk
    out["tr"] = tr
    return out


def opt_state(opt):
    if opt is None:
        return {}
    sd = opt.state_dict()
    return {str(k): {n: t for n, t in v.items() if torch.is_tensor(t)} for k, v in sd["state"].items()}


def checkpoint(tr, prog, disk, tick, nfull, counts):
    data = tr.save()
    slot = (tr.step // prog["every"]) % prog["keep"]
    fail = None
    if nfull[0]:
        nfull[0] = False
        fail = 0.6
        counts["fault.full"] = counts.get("fault.full", 0) + 1
    try:
        if prog["sync"] == "proper":
            disk.write("tmp", data, fail_at=fail)
            tick()
            disk.fsync("tmp")
            tick()
            disk.rename("tmp", "ck%d" % slot)
            tick()
            disk.fsync_dir()
        else:
            disk.write("ck%d" % slot, data, fail_at=fail)
            tick()
    except DiskFull:
        return


def life_remote(prog, disk, d):
    r = life_of(prog, disk, d)
    r.pop("tr")
    return r


def run(trace, ctx):
    z = ctx.zygote()
    prog = trace["prog"]
    ref = z.call(life_remote, prog, SimDisk(), None)
    exp = {s: (l, lr) for s, l, lr in ref["log"]}
    if any(l != l or abs(l) > 1e12 for l, _ in exp.values()):
        ctx.count("diverged")
        return
    if prog["lit"]:
        ctx.count("lightning")
        if prog["spec"]["opt"]["sched"] == "plateau":
            ctx.count("sched.plateau")
        elif prog["spec"]["opt"]["sched"] == "exponential":
            ctx.count("sched.exp")
    else:
        if prog["sched"]:
            ctx.count("sched." + prog["sched"])
        ctx.count("opt." + prog["opt"]["name"])
    if prog["spec"]["fam"] == "vae":
        ctx.count("vae")
    if prog["spec"].get("dropout"):
        ctx.count("dropout")
    disk = SimDisk()
    live = None
    shared = {}
    steps_after = 0
    lives = [dict(x) for x in trace["lives"]] + [dict(kind="semi" if prog["seed"] % 2 else "cold", budget=10 ** 9, seed=1, full=False)]
    for i, d in enumerate(lives):
        d["kind_next"] = lives[i + 1]["kind"] if i + 1 < len(lives) else None
        kind = d["kind"]
        if kind == "cold":
            r = z.call(life_remote, prog, disk, d)
            disk, live = r["disk"], None
        else:
            r = life_of(prog, disk, d, live if kind == "warm" else None, shared)
            live = r["tr"]
        for a, b in r["counts"].items():
            ctx.count(a, b)
        if r["resumed"] is not None:
            ctx.count("resume." + kind)
            steps_after += len(r["log"])
        for s, l, lr in r["log"]:
            el, elr = exp[s]
            if not (l == el or abs(l - el) <= 1e-6 * max(1e-3, abs(el))):
                raise Violation("loss-differs", "life %d (%s, resumed at step %s): loss of step %d is %.9g, uninterrupted run had %.9g" % (
                    i, kind, r["resumed"], s, l, el))
            if abs(lr - elr) > 1e-9 * abs(elr):
                raise Violation("lr-differs", "life %d (%s): learning rate of step %d is %g, uninterrupted run had %g" % (i, kind, s, lr, elr))
        if r["done"]:
            a, b = r["final"], ref["final"]
            for what in ("m", "opt", "rng", "lr", "phase"):
                e = near(a[what], b[what], 1e-6, 1e-9)
                if e:
                    raise Violation("final-differs", "life %d (%s, resumed at step %s): final %s differs from the uninterrupted run: %s" % (
                        i, kind, r["resumed"], dict(m="parameters", opt="optimizer state").get(what, what), e))
            ctx.note("final", digest(a["m"]))
            break
    for k in ("torn", "lost"):
        if disk.stats[k]:
            ctx.count("fault." + k, disk.stats[k])
    ctx.nontrivial = steps_after >= 2


def simplify(trace):
    yield from generic_simplify(trace, {"b": 1, "hl": 0, "hw": 1, "steps": 1, "budget": 1})
