"""From one base run (its case and the profile of what it did) to variants: placed faults, schedules, crash and power-loss instants."""
import copy, random

ERRNO = {"write": [5, 28, 28, 122, 27], "fsync": [5, 28], "close": [5, 28], "rename": [5, 28, 1, 13], "fchmod": [1, 5], "mkstemp": [24, 28, 13, 17], "open": [24, 13, 5, 23],
         "fdopen": [12, 24], "fopen": [24, 12, 13], "seek": [5, 29], "fstat": [5, 75], "mmap": [12, 19], "read": [5], "unlink": [5, 13], "truncate": [5, 28]}


def spots(profile, weights):
    """[(weight, op, kind, count)] for every kind of event some operation produced"""
    out = []
    for op, counts, fired in profile:
        for k, n in counts.items():
            if k in weights and n:
                out.append((weights[k] * (1 + min(n, 40) / 8.0), op, k, n))
    return out


def place(r, spot):
    _, op, kind, n = spot
    x = r.random()
    nth = 0 if x < 0.08 else n - 1 if x < 0.16 else r.randrange(n)
    param = 0
    if kind in ERRNO:
        param = r.choice(ERRNO[kind])
        if kind == "write" and r.random() < 0.5:
            param |= r.randrange(1, 256) << 16
    return [op, kind, nth, param, 1]


def pick(r, sp):
    t = r.random() * sum(s[0] for s in sp)
    for s in sp:
        t -= s[0]
        if t <= 0:
            return s
    return sp[-1]


def variants(r, case, reply, prof, n):
    """yields up to n mutated cases"""
    w = prof.get("faults") or {}
    sp = spots(reply.get("profile", []), w)
    evs = prof.get("events") or {}
    multi = any(len(e["actors"]) > 1 for e in case.get("epochs", []))
    eps = reply.get("ep_steps") or []
    out = 0
    if sp and r.random() < prof.get("sweep", 0.1):
        # every n-th call of one kind within one operation
        s = pick(r, sp)
        start = 0 if s[3] <= n else r.randrange(s[3] - n + 1)
        for nth in range(start, min(s[3], start + n)):
            c = copy.deepcopy(case)
            f = place(r, s)
            f[2] = nth
            if r.random() < prof.get("persist", 0.05):
                f[4] = -1
            c["faults"] = [f]
            if multi:
                schedule(r, c, eps)
            yield c
        return
    while out < n:
        out += 1
        c = copy.deepcopy(case)
        changed = False
        if sp:
            nf = r.choice(prof.get("nfaults", [1]))
            fs = []
            for _ in range(nf):
                f = place(r, pick(r, sp))
                if r.random() < prof.get("persist", 0.05):
                    f[4] = -1
                elif r.random() < 0.05:
                    f[4] = r.choice([2, 3, 5])
                if not any(g[:3] == f[:3] for g in fs):
                    fs.append(f)
            c["faults"] = fs
            changed = bool(fs)
        if multi and schedule(r, c, eps):
            changed = True
        for kind, p in evs.items():
            if r.random() < p and event(r, c, kind, eps):
                changed = True
        if not changed:
            if not sp and not multi and not evs:
                return
            continue
        yield c


def schedule(r, c, eps):
    done = False
    for i, e in enumerate(c["epochs"]):
        if len(e["actors"]) < 2:
            continue
        steps = eps[i] if i < len(eps) else 50
        p = r.choice([0.02, 0.05, 0.2, 0.5, 1.0])
        n = min(steps + 20, 3000)
        if r.random() < 0.3:
            # long runs of one actor with a few switches placed anywhere
            s = [-1] * n
            for _ in range(r.choice([1, 2, 3, 5])):
                s[r.randrange(n)] = r.randrange(8)
        else:
            s = [r.randrange(8) if r.random() < p else -1 for _ in range(n)]
        while s and s[-1] == -1:
            s.pop()
        e["sched"] = s
        done = done or bool(s)
    return done


def event(r, c, kind, eps):
    i = r.randrange(len(c["epochs"]))
    e = c["epochs"][i]
    steps = eps[i] if i < len(eps) else 50
    at = r.randrange(steps + 2)
    if r.random() < 0.15:
        at = max(0, steps - r.randrange(4))
    if kind == "crash":
        procs = sorted(set(a["proc"] for a in e["actors"]))
        e["events"] = e.get("events", []) + [[at, "crash", r.choice(procs)]]
    elif kind == "power":
        e["events"] = e.get("events", []) + [[at, "power", r.randrange(1 << 32), r.choice([0, 0, 1, 2, 3])]]
    else:
        return False
    return True
