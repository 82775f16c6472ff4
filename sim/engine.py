"""Runs one case inside the simulator: actors, schedule, crash and power-loss events, fault bookkeeping.

A case is a plain JSON object; running it is a pure function of the case and of the code under test.
  {"scn","prop","rng","knobs","vals":[spec..],"init":{path:val},"epochs":[{"actors":[{"proc","ops":[op..]}],"sched":[..],"events":[[step,kind,..]]}],
   "faults":[[op id,kind,nth,param,count]]}
"""
import threading


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, cls, msg)
        self.cls, self.msg = cls, msg


class Ctx:
    def __init__(self, case, P, k):
        self.case, self.P, self.k = case, P, k
        self.profile = []          # [op id, {kind: count}, fired]
        self.probes = {}           # rare conditions reached
        self.actor_of = {}         # op id -> actor id
        self.steps = 0
        self.switches = 0
        self.ep_steps = []
        self.n_actors = 0
        self.on_step = None
        self.failure = None
        self.threads = []

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def viol(self, cls, msg):
        raise Violation(cls, msg)

    def need(self, cond, cls, msg):
        if not cond:
            raise Violation(cls, msg)

    def start(self):
        c = self.case
        kn = c.get("knobs", {})
        self.k.reset(seed=c.get("rng", 1), bufsize=kn.get("bufsize", 0), split=kn.get("split", 0), fill=kn.get("fill", 7), shortmax=kn.get("shortmax", 0), tlog=1, user=kn.get("user", 0))

    def check_anomaly(self):
        a = self.k.anomaly()
        if a:
            if a.startswith("harness"):
                raise RuntimeError(a)
            raise Violation("anomaly", a)

    def call(self, op, fn, *args, **kw):
        """one armed operation -> (ok, value or exception, fault fired in it)"""
        st, val, counts, fired = self.k.call(op["id"], fn, args, kw or None)
        self.profile.append([op["id"], counts, fired])
        self.check_anomaly()
        if st == 1 and isinstance(val, SystemError) and fired and ("<function " in str(val) or str(val) == "error return without exception set") and any(f[0] == op["id"] and f[1] == "pyalloc" for f in self.case.get("faults", [])):
            # the interpreter's own evaluation of a function of the caller gave up without saying so
            val = MemoryError()
        if st == 1 and isinstance(val, SystemError):
            raise Violation("systemerror", "operation %s: %s" % (op["t"], val))
        if fired:
            self.probe("fault_in_%s" % op["t"])
            if st == 0:
                self.probe("fault_absorbed")
        return st == 0, val, fired > 0

    # -------------------------------------------------------------- actors

    def add_faults_for(self, actor, ops):
        for op in ops:
            self.actor_of[op["id"]] = actor
            for f in self.case.get("faults", []):
                if f[0] == op["id"]:
                    self.k.add_fault(actor, f[0], f[1], f[2], f[3], f[4])

    def run_direct(self, ops, body, proc=0):
        """a single actor in the calling thread, without scheduling points"""
        a = self.k.actor_new(proc, 0)
        self.n_actors += 1
        self.add_faults_for(a, ops)
        self.k.enter(a)
        try:
            body(a)
        finally:
            self.k.exit_()
        self.check_anomaly()

    def run_epoch(self, ep, body):
        """threads under the schedule of the epoch; body(actor id, actor spec). Returns 'done', 'power'"""
        k = self.k
        ids = {}
        fails = []

        def main(aid, spec):
            try:
                k.enter(aid)
                body(aid, spec)
            except BaseException as e:
                fails.append(e)
            finally:
                k.exit_()

        for spec in ep["actors"]:
            aid = k.actor_new(spec["proc"], 1)
            self.n_actors += 1
            ids[aid] = spec
            self.add_faults_for(aid, spec["ops"])
            t = threading.Thread(target=main, args=(aid, spec), daemon=True)
            t.start()
            self.threads.append(t)
            k.await_()
        sched = ep.get("sched", [])
        events = sorted(ep.get("events", []), key=lambda e: e[0])
        last = -1
        pos = 0
        step = 0
        ei = 0
        dead = set()
        hook = self.on_step
        self.ep_steps.append(0)
        while True:
            while ei < len(events) and events[ei][0] <= step:
                e = events[ei]
                ei += 1
                if e[1] == "crash":
                    alive = [a for a in ids if ids[a]["proc"] == e[2] and k.state(a)[0] == 2]
                    if not alive:
                        continue
                    for a in alive:
                        dead.add(a)
                    k.crash(e[2])
                    self.probe("crash_during_run")
                    if hook:
                        hook(None, ("crash", alive))
                elif e[1] == "power":
                    alive = [a for a in ids if a not in dead and k.state(a)[0] == 2]
                    if alive:
                        self.probe("power_loss_during_run")
                    k.power_loss(e[2], e[3])
                    if hook:
                        hook(None, ("power", alive))
                    return "power"
                elif e[1] == "replace" or e[1] == "cb":
                    if hook:
                        hook(None, e[1:])
            run = k.runnable()
            if not run:
                break
            if len(run) == 1:
                a = run[0]
            else:
                ch = sched[pos] if pos < len(sched) else -1
                pos += 1
                if ch < 0:
                    a = last if last in run else run[0]
                else:
                    a = run[ch % len(run)]
            if last != -1 and a != last:
                self.switches += 1
            last = a
            k.resume(a)
            step += 1
            self.steps += 1
            self.ep_steps[-1] = step
            if fails:
                raise fails[0]
            self.check_anomaly()
            if hook:
                hook(a, None)
            if step > 30000:
                raise Violation("no-progress", "the actors did not finish within 30000 steps")
        waiting = [a for a in ids if a not in dead and k.state(a)[0] not in (4, 5)]
        if waiting:
            raise Violation("deadlock", "actors %r wait for each other" % waiting)
        # events scheduled after everything finished
        for e in events[ei:]:
            if e[1] == "power":
                k.power_loss(e[2], e[3])
                if hook:
                    hook(None, ("power", []))
                return "power"
        return "done"

    class _Quiet:
        def __init__(self, k):
            self.k = k

        def __enter__(self):
            self.a = self.k.pause()
            self.c = self.k.crit(1)

        def __exit__(self, *x):
            self.k.crit(self.c)
            self.k.unpause(self.a)

    def quiet(self):
        """no faults and no scheduling points inside"""
        return Ctx._Quiet(self.k)
