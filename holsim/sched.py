"""Deterministic thread scheduler: real threads, exactly one runs at a time,
and which one is decided by the simulator at every source line (or bytecode) of
the package under test."""
import random
import sys
import threading

from . import env, seams

_Sem = threading.Semaphore


class Scheduler:
    """plan: {"mode": "list", "sw": [[step, tid], ...]}  (replay / minimised)
          or {"mode": "rand", "seed": s, "p": prob}
          or {"mode": "stall", "seed": s}   one thread is parked at a random step
                                            while another runs to completion
          or {"mode": "pct", "seed": s, "d": changes, "len": expected steps}
    `opcodes`: preemption points at bytecodes instead of lines."""

    MAX_STEPS = 150000

    def __init__(self, plan, opcodes=False):
        self.plan = plan
        self.opcodes = opcodes
        self.step = 0
        self.switches = []  # what was actually done, in list form
        self.trace_hash = 0
        self.deadlock = False
        self.points = set()
        m = plan["mode"]
        self.mode = m
        if m == "list":
            self.sw = {float(a): b for a, b in plan["sw"]}
        else:
            self.r = random.Random(plan["seed"])
        self.blocked = {}

    # -- running -----------------------------------------------------------

    def run(self, fns):
        n = len(fns)
        self.n = n
        self.sems = [_Sem(0) for _ in range(n)]
        self.done = [False] * n
        self.results = [None] * n
        self.finished = _Sem(0)
        self.tls = threading.local()
        if self.mode == "pct":
            order = list(range(n))
            self.r.shuffle(order)
            self.prio = {t: n - i for i, t in enumerate(order)}
            self.change = sorted(self.r.randrange(1, max(2, self.plan["len"])) for _ in range(self.plan["d"]))
            self.low = 0
        if self.mode == "stall":
            self.stall_at = self.r.randrange(0, max(1, self.plan.get("len", 300)))
        ths = [threading.Thread(target=self._main, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        seams._current = self
        try:
            for t in ths:
                t.start()
            first = self._pick_first()
            self.cur = first
            self.sems[first].release()
            self.finished.acquire()
        finally:
            seams._current = None
        for t in ths:
            t.join(10)
        return self.results

    def _main(self, i, fn):
        self.sems[i].acquire()
        self.tls.id = i
        sys.settrace(self._gtrace)
        try:
            try:
                self.results[i] = ("ok", fn())
            finally:
                sys.settrace(None)
        except seams.SimDeadlock as e:
            self.results[i] = ("deadlock", str(e))
        except BaseException as e:
            self.results[i] = ("exc", type(e).__name__ + ": " + str(e)[:200])
        self.done[i] = True
        self._exit(i)

    def _gtrace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(env.PKG):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._ltrace
        return None

    def _ltrace(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.point(frame)
        return self._ltrace

    # -- decisions ---------------------------------------------------------

    def runnable(self):
        return [t for t in range(self.n) if not self.done[t] and (t not in self.blocked or self.blocked[t]())]

    def _pick_first(self):
        if self.mode == "list":
            return min(self.sw.get(-1.0, 0), self.n - 1)
        t = self.r.randrange(self.n)
        if t != 0:
            self.switches.append([-1, t])
        return t

    def point(self, frame=None):
        me = self.tls.id
        k = self.step
        self.step += 1
        if k > self.MAX_STEPS:
            # long run: fair round robin only, so that everything can finish
            if k > 20 * self.MAX_STEPS:
                raise seams.SimDeadlock("no progress within the step limit")
            o = self.runnable() if k % 5000 == 0 else []
            nxt = next((t for t in o if t > me), o[0]) if o else None
        else:
            nxt = self._decide(me, k)
        if nxt is not None and nxt != me:
            self.switches.append([k, nxt])
            if frame is not None:
                self.points.add((frame.f_code.co_name, frame.f_lineno))
                self.trace_hash = (self.trace_hash * 1000003 + frame.f_lineno * 31 + nxt) & 0xFFFFFFFFFFFF
            self._switch(me, nxt)

    def _decide(self, me, k):
        m = self.mode
        if m == "list":
            t = self.sw.get(k)
            if t is None or t >= self.n or self.done[t] or (t in self.blocked and not self.blocked[t]()):
                return None
            return t
        if m == "rand":
            if self.r.random() >= self.plan["p"]:
                return None
            o = [t for t in self.runnable() if t != me]
            return self.r.choice(o) if o else None
        if m == "stall":
            if k != self.stall_at:
                return None
            o = [t for t in self.runnable() if t != me]
            return self.r.choice(o) if o else None
        if m == "pct":
            if self.change and k >= self.change[0]:
                self.change.pop(0)
                self.low -= 1
                self.prio[me] = self.low
            o = self.runnable()
            return max(o, key=lambda t: self.prio[t]) if o else None

    def _switch(self, me, nxt):
        self.cur = nxt
        self.sems[nxt].release()
        self.sems[me].acquire()
        if self.deadlock:
            raise seams.SimDeadlock("no thread can proceed")

    def _exit(self, me):
        o = self.runnable()
        if not o:
            left = [t for t in range(self.n) if not self.done[t]]
            if left:  # deadlock: wake every blocked thread with an error
                self.deadlock = True
                self.blocked.pop(left[0], None)
                self.sems[left[0]].release()
                return
            self.finished.release()
            return
        nxt = o[0]  # default order; deviations are recorded at a half step
        if self.mode == "list":
            t = self.sw.get(self.step - 0.5)
            if t in o:
                nxt = t
        elif self.mode == "pct":
            nxt = max(o, key=lambda t: self.prio[t])
        if nxt != o[0]:
            self.switches.append([self.step - 0.5, nxt])
        self.cur = nxt
        self.sems[nxt].release()

    def block(self, cond):
        """Called by SimLock.acquire in a scheduled thread."""
        me = self.tls.id
        while not cond():
            self.blocked[me] = cond
            o = [t for t in self.runnable() if t != me]
            if not o:
                self.blocked.pop(me, None)
                raise seams.SimDeadlock("no thread can proceed")
            self._switch(me, o[0])
            self.blocked.pop(me, None)
        self.blocked.pop(me, None)
