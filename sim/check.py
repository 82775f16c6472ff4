#!/usr/bin/env python3
"""Decides one property by seeded search over simulated runs.

  check.py --prop C01 [--tier quick|thorough] [--seconds S] [--workers N]      search
  check.py --prop C01 --replay FILE                                            replay one recorded case

Exit 0: the property held on everything explored; 1: VIOLATION (replayed and confirmed in fresh processes); 2: error of the check.
"""
import sys, os, json, time, argparse, hashlib, random, threading, queue, copy, re

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, zyg, props, mutate, shrink

KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS")


def hseed(*a):
    return int.from_bytes(hashlib.sha256("/".join(map(str, a)).encode()).digest()[:6], "big")


def known_findings(prop):
    """lines 'finding: property=<id> case=<hash of the minimised case> <what fails>'; lines 'fixed: ...' suppress nothing"""
    out = {}
    try:
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out


def vclass(r):
    return r["v"][0] if r.get("v") else None


def nontrivial(r, case):
    p = r.get("probes") or {}
    return bool(sum((r.get("fired") or {}).values()) or r.get("switches") or any(k.startswith(("crash", "power")) for k in p) or (r.get("steps") or 0) + (r.get("ev") or 0) >= 20)


class Stats:
    def __init__(self):
        self.runs = self.base = self.ev = self.steps = self.switches = self.nontrivial = self.rechecks = self.mismatch = 0
        self.fired, self.seen, self.probes, self.dist = {}, {}, {}, set()
        self.samples = []
        self.maxrun = 0.0
        self.ops = {}

    def add(self, r, case, dt):
        self.runs += 1
        self.ev += r.get("ev") or 0
        self.steps += r.get("steps") or 0
        self.switches += r.get("switches") or 0
        self.maxrun = max(self.maxrun, dt)
        for a, b in ((self.fired, r.get("fired")), (self.seen, r.get("seen")), (self.probes, r.get("probes"))):
            for k, v in (b or {}).items():
                a[k] = a.get(k, 0) + v
        h = r.get("trace")
        if h is not None and h not in self.dist:
            self.dist.add(h)
            if nontrivial(r, case):
                self.nontrivial += 1
        for l in shrink.ops_of(case):
            for op in l:
                self.ops[op["t"]] = self.ops.get(op["t"], 0) + 1


class Search:
    def __init__(self, prop, so, seconds, workers, vseed, prof):
        self.prop, self.so, self.seconds, self.workers, self.vseed, self.prof = prop, so, seconds, workers, vseed, prof
        self.lock = threading.Lock()
        self.st = Stats()
        self.next = 0
        self.found = []
        self.harness = []
        self.stop = False
        self.t0 = time.time()

    def note(self, r, case, dt):
        """True when this run ends the worker's current seed"""
        with self.lock:
            if r.get("harness"):
                self.harness.append((r["harness"], case))
                if len(self.harness) > 3:
                    self.stop = True
                return True
            self.st.add(r, case, dt)
            if len(self.st.samples) < 4 and r.get("probes") and not r.get("v") and self.st.runs % 7 == 3:
                self.st.samples.append({"case": trim(case), "trace": "%016x" % (r["trace"] & (2**64 - 1)), "steps": r["steps"], "fired": r["fired"], "probes": r["probes"]})
            if r.get("v"):
                self.found.append((case, r))
                # another worker's candidate may be needed when this one does not reproduce
                if len(self.found) >= 3 or self.found and time.time() - self.t0 > 5:
                    self.stop = True
                return True
        return False

    def run(self, z, req, case=None):
        t = time.time()
        r = z.ask(req)
        case = case or r.get("case")
        if case is None:
            case = {"seed": req.get("seed"), "prop": self.prop}
        return r, case, time.time() - t

    def worker(self, w):
        z = None
        try:
            z = zyg.Zygote(self.so)
            while not self.stop and time.time() - self.t0 < self.seconds:
                with self.lock:
                    i = self.next
                    self.next += 1
                seed = hseed(self.vseed, self.prop, i)
                r, case, dt = self.run(z, {"prop": self.prop, "seed": seed})
                with self.lock:
                    self.st.base += 1
                if self.note(r, case, dt):
                    continue
                if i % 40 == 7:
                    r2, _, _ = self.run(z, {"prop": self.prop, "case": case})
                    with self.lock:
                        self.st.rechecks += 1
                        if r2.get("trace") != r.get("trace") or vclass(r2) != vclass(r):
                            self.st.mismatch += 1
                rr = random.Random(hseed(seed, "variants"))
                n = self.prof.get("variants", 10)
                for c in mutate.variants(rr, case, r, self.prof, n):
                    if self.stop or time.time() - self.t0 > self.seconds:
                        break
                    r2, _, dt = self.run(z, {"prop": self.prop, "case": c}, c)
                    if self.note(r2, c, dt):
                        break
        except Exception as e:
            import traceback
            with self.lock:
                self.harness.append((traceback.format_exc(), None))
                self.stop = True
        finally:
            if z:
                z.close()

    def go(self):
        ts = [threading.Thread(target=self.worker, args=(w,)) for w in range(self.workers)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.wall = time.time() - self.t0


def trim(o, n=400):
    s = json.dumps(o)
    return o if len(s) < 4000 else s[:n] + "..."


def confirm(prop, so, case, cls, hang):
    """the same case in two fresh processes, and under another hash seed"""
    res = []
    env = os.environ.get("SIM_CPU")
    if hang:
        os.environ["SIM_CPU"] = "40"
    try:
        for hs in ("0", "0"):
            z = zyg.Zygote(so, hashseed=hs)
            try:
                r = z.ask({"prop": prop, "case": case, "log": 1})
            finally:
                z.close()
            res.append(r)
            if vclass(r) != cls:
                return None, res
    finally:
        if hang:
            if env is None:
                del os.environ["SIM_CPU"]
            else:
                os.environ["SIM_CPU"] = env
    return res[0], res


def sig(case, r):
    return hashlib.sha256((json.dumps(case, sort_keys=True) + vclass(r)).encode()).hexdigest()[:16]


def write_replay(prop, so, case, r, orig, tries):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, sig(case, r)))
    with open(p, "w") as f:
        json.dump({"property": prop, "seed": orig.get("seed"), "violation": r["v"], "case": case, "trace_hash": r.get("trace"), "event_log": (r.get("log") or "").split("\n")[-400:], "shrink_runs": tries,
                   "replay": "python3 sim/check.py --prop %s --replay %s" % (prop, os.path.relpath(p, VERIF))}, f, indent=1)
    return p


def evidence(prop, tier, vseed, s, wall, viol, extra):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    prof = props.PROFILES[prop]
    st = s.st
    hours = max(s.wall, 0.001) / 3600
    cov = {"evaluations": st.runs, "distinct_nontrivial": st.nontrivial,
           "rule": "A run is one seeded case (operations, values, tuning knobs, schedule, faults, crash and power-loss instants) executed from a freshly forked process. Distinct: the hash of its complete event trace was not seen before in this search. Non-trivial: a fault actually fired, or the scheduler switched between actors, or a crash or power loss happened while something was running, or at least 20 simulated events were executed.",
           "samples": st.samples or [{"note": "no sample collected"}],
           "base_seeds": st.base, "runs_per_hour": int(st.runs / hours), "seeds_per_hour": int(st.base / hours),
           "simulated_time": {"unit": "simulated events (system calls, lock hand-overs, allocations; the library has no clocks or timers)", "events": st.ev, "scheduler_steps": st.steps, "actor_switches": st.switches},
           "faults_fired": st.fired, "events_seen_by_kind": st.seen, "conditions_reached": dict(sorted(st.probes.items())), "operations": dict(sorted(st.ops.items())),
           "distinct_traces": len(st.dist), "determinism": {"runs_repeated": st.rechecks, "mismatches": st.mismatch}, "longest_run_s": round(st.maxrun, 2),
           "components": {"real": ["/repo/src/*.c", "/repo/python/*.c", "/repo/judy-1.0.5 (allocations through the same seam)", "glibc stdio buffering", "CPython 3.12 interpreter"],
                          "simulated": ["file system (volatile and durable state)", "mmap", "malloc and the interpreter's allocators (fault injection over the real ones)", "thread scheduling and the interpreter lock hand-over", "process crash and power loss"]},
           "scenario": prof["scn"]}
    cov.update(extra)
    e = {"property": prop, "tier": tier, "seed": vseed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2), "violations": viol,
         "assumptions": ["The simulated disk follows POSIX: rename is atomic, directory changes may reach the disk before file data unless fsync was called.",
                         "Interpreter-lock hand-over happens only where the library releases the lock or calls back into Python."]}
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp%d" % os.getpid())
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seconds", type=float, default=None)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("--replay")
    ap.add_argument("--no-shrink", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.prop not in props.PROFILES:
        print("unknown property", a.prop)
        return 2
    prof = props.PROFILES[a.prop]
    so = build.build()
    if a.replay:
        rec = json.load(open(a.replay))
        r, _ = confirm(a.prop, so, rec["case"], rec["violation"][0], rec["violation"][0] == "hang")
        if r is None:
            z = zyg.Zygote(so)
            r = z.ask({"prop": a.prop, "case": rec["case"], "log": 1})
            z.close()
            print("the recorded violation (%s) does not occur; this run: %s" % (rec["violation"][0], r.get("v") or r.get("harness") or "property held"))
            if not r.get("v"):
                return 0
        print("\n".join((r.get("log") or "").split("\n")[-60:]))
        print("%s: %s" % tuple(r["v"]))
        if r.get("trace") is not None and rec.get("trace_hash") is not None:
            print("trace %s the recorded one" % ("equals" if r["trace"] == rec["trace_hash"] else "differs from"))
        print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1
    seconds = a.seconds or (prof.get("quick_s", 60) if a.tier != "thorough" else prof.get("thorough_s", 600))
    known = known_findings(a.prop)
    deadline = t0 + (840 if a.tier != "thorough" else 3000)
    tot = None
    unrepro = []
    knownhits = set()
    start = 0
    while True:
        s = Search(a.prop, so, seconds - (0 if tot is None else tot.wall), a.workers, vseed, prof)
        s.next = start
        if tot is not None:
            s.st, w0 = tot.st, tot.wall
        s.go()
        if tot is not None:
            s.wall += w0
        tot = s
        start = s.next
        if s.harness:
            print("error of the check:", s.harness[0][0])
            print(json.dumps(s.harness[0][1])[:3000])
            evidence(a.prop, a.tier, vseed, s, time.time() - t0, 0, {"error": s.harness[0][0][-500:]})
            return 2
        again = False
        for case, r in s.found:
            cls = vclass(r)
            if "epochs" not in case and "ops" not in case:
                unrepro.append(r["v"])
                continue
            ok, _ = confirm(a.prop, so, case, cls, cls == "hang")
            if ok is None:
                unrepro.append(r["v"])
                print("not reproduced:", r["v"])
                again = True
                continue
            best, tries = case, 0
            if not a.no_shrink:
                z = zyg.Zygote(so)

                def ask(c):
                    return vclass(z.ask({"prop": a.prop, "case": c}))
                left = max(5.0, min(60.0 if cls != "hang" else 90, deadline - time.time() - 100))
                best, tries = shrink.minimise(case, cls, ask, left)
                z.close()
                ok2, _ = confirm(a.prop, so, best, cls, cls == "hang")
                if ok2 is None:
                    best = case
                else:
                    ok = ok2
            if sig(best, ok) in known:
                knownhits.add(sig(best, ok))
                again = True
                continue
            path = write_replay(a.prop, so, best, ok, case, tries)
            evidence(a.prop, a.tier, vseed, s, time.time() - t0, 1, {"violation": ok["v"], "replay": path})
            print("%s: %s" % (ok["v"][0], ok["v"][1]))
            print("seed %s; %d operations, %d faults after minimisation in %d runs" % (case.get("seed"), shrink.n_ops(best), len(best.get("faults", [])), tries))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            return 1
        if not again or tot.wall >= seconds - 1 or time.time() > deadline - 120:
            break
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, known[k]))
    evidence(a.prop, a.tier, vseed, tot, time.time() - t0, 0, {"unreproduced": len(unrepro)} if unrepro else {})
    st = tot.st
    print("%s held: %d runs from %d seeds, %d distinct non-trivial, %d simulated events, faults fired %s, determinism %d/%d repeats equal, longest run %.2fs" % (
        a.prop, st.runs, st.base, st.nontrivial, st.ev, {k: v for k, v in st.fired.items() if v}, st.rechecks - st.mismatch, st.rechecks, st.maxrun))
    if unrepro:
        print("error of the check: %d violations did not reproduce: %s" % (len(unrepro), unrepro[:3]))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
