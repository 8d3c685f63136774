"""
Deterministic scheduling of real threads

Every actor is a real thread, but only one runs at any time: at each
scheduling point (a seam, or a line of the package under test) the running
actor asks the scheduler, which decides from the scenario who continues.
"""

import random
import sys
import threading
import os

from . import world


class Scheduler:
    """
    policy: dict
        {"kind": "random", "seed": s, "p": prob, "hot": {"solver.py": prob}}
        {"kind": "pct", "seed": s, "d": number of switches, "n": horizon}
        {"kind": "rr", "every": k}
        {"kind": "script", "switches": [[step, actor], ...], "finish": [actor, ...]}
    """

    STALL_S = 10.0

    def __init__(self, policy):
        self.policy = dict(policy)
        self.kind = policy["kind"]
        self.rng = random.Random(policy.get("seed", 0))
        self.step = 0
        self.cur = None
        self.switches = []
        self.finishes = []
        self.stalls = 0
        self.n_switch = 0
        self.free_run = False
        self.lock = threading._allocate_lock_orig() if hasattr(threading, "_allocate_lock_orig") else threading.Lock()
        self.hot = policy.get("hot", {})
        self.p = policy.get("p", 0.0)
        self.names = {}
        self.where = []
        if self.kind == "pct":
            n = policy.get("n", 2000)
            self.points = sorted(
                {int(n ** self.rng.random()) for _ in range(policy.get("d", 3))}
            )
        elif self.kind == "script":
            self.script = {int(s): int(a) for s, a in policy.get("switches", [])}
            self.fin_script = list(policy.get("finish", []))

    # ---------------------------------------------------------------- running
    def run(self, bodies, timeout=240.0):
        sim = world.CUR
        n = len(bodies)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.errors = [None] * n
        done = threading.Event()
        self._done = done

        def main(i):
            world.TL.ctx = world.Ctx(i)
            self.sems[i].acquire()
            try:
                bodies[i]()
            except BaseException as exc:  # reported by the caller
                self.errors[i] = exc
            finally:
                world.TL.ctx = None
                self._finish(i)

        threads = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        self.cur = 0
        self.sems[0].release()
        waited, last = 0.0, -1
        quantum = 0.5
        total = 0.0
        while not done.wait(quantum):
            total += quantum
            if self.step == last:
                waited += quantum
            else:
                waited, last = 0.0, self.step
            if waited >= self.STALL_S:
                # the granted actor is blocked outside the simulator
                self.stalls += 1
                if self.stalls > 6 or total > timeout:
                    raise world.HarnessError(
                        f"simulation stalled at step {self.step} (actor {self.cur})")
                others = [a for a in self.alive if a != self.cur]
                if others:
                    self.cur = others[self.stalls % len(others)]
                    self.sems[self.cur].release()
                waited = 0.0
        for t in threads:
            t.join(30)
        for exc in self.errors:
            if exc is not None:
                raise exc

    def _finish(self, i):
        if i in self.alive:
            self.alive.remove(i)
        if not self.alive:
            self._done.set()
            return
        if self.cur == i:
            nxt = None
            if self.kind == "script":
                if self.fin_script:
                    nxt = self.fin_script.pop(0)
            elif self.kind in ("random", "pct"):
                nxt = self.alive[self.rng.randrange(len(self.alive))]
            if nxt not in self.alive:
                nxt = self.alive[0]
            self.finishes.append(nxt)
            self.cur = nxt
            self.sems[nxt].release()

    # -------------------------------------------------------------- decisions
    def _decide(self, me, kind, what):
        s = self.step
        if len(self.alive) < 2:
            return me
        k = self.kind
        if k == "script":
            return self.script.get(s, me)
        if k == "random":
            p = self.p
            if self.hot:
                if kind == "line":
                    name = self.names.get(what)
                    if name is None:
                        base = os.path.basename(what.co_filename)
                        name = self.names[what] = (base, what.co_name)
                    p = self.hot.get(name[1], self.hot.get(name[0], p))
                else:
                    p = self.hot.get("seam", p)
            if self.rng.random() < p:
                others = [a for a in self.alive if a != me]
                return others[self.rng.randrange(len(others))]
            return me
        if k == "pct":
            if self.points and s >= self.points[0]:
                self.points.pop(0)
                others = [a for a in self.alive if a != me]
                return others[self.rng.randrange(len(others))]
            return me
        if k == "rr":
            if s % self.policy["every"] == 0:
                order = sorted(self.alive)
                return order[(order.index(me) + 1) % len(order)]
        return me

    def point(self, kind, what):
        ctx = getattr(world.TL, "ctx", None)
        if ctx is None:
            return
        me = ctx.actor
        if self.cur != me:
            # resumed from an external block: wait for a turn
            self.sems[me].acquire()
        self.step += 1
        nxt = self._decide(me, kind, what)
        if nxt != me and nxt in self.alive:
            self._switch(me, nxt, kind, what)

    def _switch(self, me, nxt, kind, what):
        self.n_switch += 1
        self.switches.append([self.step, nxt])
        sim = world.CUR
        if kind == "line":
            loc = (os.path.basename(what.co_filename), what.co_name)
        else:
            loc = (kind, str(what))
        self.where.append(loc)
        if sim is not None:
            sim.event("sw", self.step, me, nxt, loc)
        self.cur = nxt
        self.sems[nxt].release()
        self.sems[me].acquire()

    def blocked(self):
        """The running actor waits for a lock: let somebody else run"""
        ctx = getattr(world.TL, "ctx", None)
        if ctx is None:
            return False
        others = [a for a in self.alive if a != ctx.actor]
        if not others:
            return False
        self.step += 1
        self._switch(ctx.actor, others[self.step % len(others)], "lock", "lock")
        return True

    def script_policy(self):
        return {"kind": "script", "switches": self.switches, "finish": self.finishes}
