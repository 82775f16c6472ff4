"""Minimisation: smaller cases which still fail in the same class."""
import copy, json, time


def ops_of(case):
    for e in case.get("epochs", []):
        for a in e["actors"]:
            yield a["ops"]
    if "ops" in case:
        yield case["ops"]


def n_ops(case):
    return sum(len(o) for o in ops_of(case))


def clean(case):
    """drop what nothing refers to any more"""
    ids = set(op["id"] for l in ops_of(case) for op in l)
    if case.get("faults"):
        case["faults"] = [f for f in case["faults"] if f[0] in ids]
    return case


def without(case, path, lo, hi):
    c = copy.deepcopy(case)
    x = c
    for p in path:
        x = x[p]
    del x[lo:hi]
    return clean(c)


def setp(case, path, v):
    c = copy.deepcopy(case)
    x = c
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = v
    return clean(c)


def list_paths(case):
    """lists whose elements may be dropped"""
    out = [["faults"]] if case.get("faults") else []
    for i, e in enumerate(case.get("epochs", [])):
        if e.get("events"):
            out.append(["epochs", i, "events"])
    if "epochs" in case:
        out.append(["epochs"])
        for i, e in enumerate(case["epochs"]):
            out.append(["epochs", i, "actors"])
            for j, a in enumerate(e["actors"]):
                out.append(["epochs", i, "actors", j, "ops"])
    if "ops" in case:
        out.append(["ops"])
    for k in case.get("lists", []):
        out.append(k)
    return out


def get(case, path):
    x = case
    for p in path:
        x = x[p]
    return x


def spec_smaller(s):
    """simpler value specifications"""
    t = s[0]
    if t == "n":
        return
    if t in ("def",):
        yield s[2]
        for x in spec_smaller(s[2]):
            yield ["def", s[1], x]
        return
    if t in ("L", "T", "S", "F") and s[1]:
        n = len(s[1])
        k = n
        while k >= 1:
            for i in range(0, n, k):
                yield [t, s[1][:i] + s[1][i + k:]]
            k //= 2
        if t in ("L", "T"):
            for x in s[1]:
                yield x
            for i, x in enumerate(s[1]):
                for y in spec_smaller(x):
                    yield [t, s[1][:i] + [y] + s[1][i + 1:]]
        return
    if t == "D" and s[1]:
        n = len(s[1])
        k = n
        while k >= 1:
            for i in range(0, n, k):
                yield [t, s[1][:i] + s[1][i + k:]]
            k //= 2
        for i, (a, b) in enumerate(s[1]):
            for y in spec_smaller(b):
                yield [t, s[1][:i] + [[a, y]] + s[1][i + 1:]]
        return
    if t == "PV" and s[2]:
        n = len(s[2])
        yield [t, s[1], s[2][:n // 2]]
        yield [t, s[1], s[2][1:]]
        yield [t, s[1], s[2][:-1]]
        return
    if t in ("s", "BV") and s[1]:
        yield [t, s[1][:len(s[1]) // 2]]
        yield [t, s[1][:-1]]
        return
    if t in ("i", "f") and s[1] not in (0, 1):
        yield [t, type(s[1])(1)]
        return
    if t in ("L", "T", "D", "S", "F", "PV", "BA", "s", "BV", "f", "i", "b"):
        yield ["n"]


def candidates(case):
    for p in list_paths(case):
        l = get(case, p)
        n = len(l)
        k = n
        least = 1 if p[-1] in ("epochs", "actors") else 0
        while k >= 1:
            for i in range(0, n, k):
                if n - min(k, n - i) >= least:
                    yield without(case, p, i, i + k)
            k //= 2
    for i, e in enumerate(case.get("epochs", [])):
        s = e.get("sched", [])
        if s:
            yield setp(case, ["epochs", i, "sched"], [])
            yield setp(case, ["epochs", i, "sched"], s[:len(s) // 2])
            yield setp(case, ["epochs", i, "sched"], s[:-1])
            n = len(s)
            k = n // 2
            while k >= 1 and n // k <= 64:
                for j in range(0, n, k):
                    if any(x != -1 for x in s[j:j + k]):
                        yield setp(case, ["epochs", i, "sched"], s[:j] + [-1] * len(s[j:j + k]) + s[j + k:])
                k //= 2
    for k, v in sorted(case.get("knobs", {}).items()):
        d = {"fill": 7}.get(k, 0)
        if v != d:
            yield setp(case, ["knobs", k], d)
    for i, f in enumerate(case.get("faults", [])):
        if f[4] != 1:
            yield setp(case, ["faults", i, 4], 1)
        if f[3] > 0xffff:
            yield setp(case, ["faults", i, 3], f[3] & 0xffff)
        if f[3]:
            yield setp(case, ["faults", i, 3], 0)
    for k in sorted(case.get("init", {})):
        c = copy.deepcopy(case)
        del c["init"][k]
        yield c
    for i, v in enumerate(case.get("vals", [])):
        for s in spec_smaller(v):
            yield setp(case, ["vals", i], s)
    for l in ops_of(case):
        pass
    for pth in [["ops"]] if "ops" in case else [["epochs", i, "actors", j, "ops"] for i, e in enumerate(case.get("epochs", [])) for j, a in enumerate(e["actors"])]:
        for i, op in enumerate(get(case, pth)):
            for k, v in op.items():
                if isinstance(v, list) and v and k not in ("r",):
                    yield setp(case, pth + [i, k], v[:len(v) // 2])
                    if len(v) > 1:
                        yield setp(case, pth + [i, k], v[1:])
                elif isinstance(v, dict) and k == "opt":
                    c = copy.deepcopy(case)
                    del get(c, pth)[i][k]
                    yield c


def sched_trim(case):
    for e in case.get("epochs", []):
        s = e.get("sched", [])
        while s and s[-1] == -1:
            s.pop()
    return case


def minimise(case, cls, ask, seconds=60.0, limit=1500):
    """ask(case) -> class of the violation or None"""
    t0 = time.time()
    n = 0
    seen = set()
    best = copy.deepcopy(case)
    progress = True
    while progress and time.time() - t0 < seconds and n < limit:
        progress = False
        for c in candidates(best):
            if time.time() - t0 > seconds or n >= limit:
                break
            c = sched_trim(c)
            key = json.dumps(c, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            n += 1
            try:
                got = ask(c)
            except Exception:
                got = None
            if got == cls:
                best = c
                progress = True
                break
    return best, n
