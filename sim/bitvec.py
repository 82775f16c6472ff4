"""bitvec: histories over shared bit vectors, primitive and stored, by one or several threads, against a model that is a list of booleans.

Sequences misbehave while a vector is being built from them (raise, deliver what is no bit, change or rebuild the vector, let another thread run); allocations fail."""
import sys
import operator
from primvec import brief, Boom

NV = 4
CMP = {"lt": operator.lt, "le": operator.le, "eq": operator.eq, "ne": operator.ne, "gt": operator.gt, "ge": operator.ge}


# ------------------------------------------------------------------ generation

def g_bits(r, n=None):
    if n is None:
        n = r.choice([0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 27, 31, 32, 33, 40, 63, 64, 65, 100, 129])
        if r.random() < 0.003:
            # around the limits of the compressed forms (16-bit run lengths)
            a, b, z = r.choice([3, 65535, 65536]), r.choice([5, 65535, 65536]), r.randrange(2)
            return [z] * a + [1 - z] * b
    k = r.randrange(6)
    if k == 0:
        return [0] * n
    if k == 1:
        return [1] * n
    if k == 2:
        c = r.randrange(n + 1)
        return [0] * c + [1] * (n - c)
    if k == 3:
        c = r.randrange(n + 1)
        return [1] * c + [0] * (n - c)
    if k == 4:
        b = [0] * n
        if n:
            b[r.choice([0, n - 1, r.randrange(n)])] = 1
        return b
    return [r.randrange(2) for _ in range(n)]


def g_bit(r, bad=0.1):
    if r.random() < bad:
        return r.choice([2, -1, "x", None, 2**70, 1.0, -2**70])
    return r.choice([0, 1, True, False])


def g_src(r):
    bits = [(bool(b) if r.random() < 0.5 else b) for b in g_bits(r)]
    k = r.random()
    if k < 0.25:
        return {"k": r.choice(["list", "tuple", "iter"]), "items": bits}
    if k < 0.4:
        if bits:
            bits[r.randrange(len(bits))] = g_bit(r, 1.0)
        return {"k": r.choice(["list", "iter"]), "items": bits}
    if k < 0.75:
        m = r.choice(["raise", "bad", "yield", "yield", "mutate", "mutate", "reinit", "drop"])
        return {"k": "iter", "items": bits, "mis": [r.randrange(len(bits) + 1), m, r.choice(["pop", "pops", "append", "ext", "bulkself", "set"]), r.choice(["none", "none", "raise", "bad"])]}
    if k < 0.95:
        return {"k": "slot", "s": r.randrange(NV)}
    return {"k": "notiter"}


def gen(r, prof):
    case = {"scn": "bitvec", "rng": r.randrange(1, 2**32), "knobs": {"fill": r.choice([0, 7, 9, 11])}, "faults": []}
    nact = r.choice(prof.get("actors", [1, 1, 2, 3]))
    n = r.choice(prof.get("nops", [6, 12, 25]))
    nid = [0]
    acts = []
    for a in range(nact):
        ops = [g_op(r, nid) for _ in range(n)]
        if a == 0:
            ops[:0] = [{"id": nid[0], "t": "new", "s": 0, "how": "seq", "src": {"k": "list", "items": g_bits(r)}, "ap": True, "n": 0},
                       {"id": nid[0] + 1, "t": "store", "s": 1, "bits": g_bits(r), "norm": r.random() < 0.7, "how": "bytearray", "from": None}]
            nid[0] += 2
        acts.append({"proc": 0, "ops": ops})
    case["epochs"] = [{"actors": acts, "sched": []}]
    return case


def g_op(r, nid):
    i = nid[0]
    nid[0] += 1
    op = {"id": i, "s": r.randrange(NV) if r.random() < 0.5 else 0}
    w = r.choices(["new", "reinit", "append", "bulk", "ext", "set", "del", "pop", "get", "iter", "next", "copy", "cmp", "hash", "counts", "str", "store", "misc"],
                  [2, 1, 4, 5, 4, 4, 0.7, 5, 2, 2, 4, 3, 3, 3, 4, 2, 4, 1])[0]
    op["t"] = w
    if w in ("new", "reinit"):
        op["how"] = r.choice(["seq", "seq", "seq", "size", "size", "none", "both", "badsize"])
        op["n"] = r.choice([0, 1, 7, 8, 9, 31, 32, 33, 64, 100, 1000]) if op["how"] != "badsize" else r.choice([-1, 2**32, 2**64, "x", None, 1.5, -2**70])
        op["src"] = g_src(r)
        op["ap"] = r.random() < 0.9
    elif w == "append":
        op["x"] = r.choice([True, False]) if r.random() < 0.85 else r.choice([0, 1, None, "x", 2])
    elif w == "bulk":
        op["o"] = r.randrange(NV) if r.random() < 0.8 else r.choice([op["s"], "x"])
    elif w == "ext":
        op["x"] = r.random() < 0.5
        op["n"] = r.choice([0, 1, 2, 7, 8, 9, 15, 16, 31, 33, 64, 100, 300]) if r.random() < 0.85 else r.choice([-1, 2**31, -2**40, 2**33, "x"])
    elif w in ("set", "get", "del"):
        op["i"] = r.choice([0, -1, 1, -2, 2, 7, 8, 9, -8, 5, -5, 31, 32, 100, -100, 2**31, 2**32, -2**40, 2**70])
        op["ix"] = r.choice(["int", "int", "int", "obj", "mut", "raise", "str"])
        op["x"] = g_bit(r, 0.15)
        op["what"] = r.choice(["pop", "pops", "append", "ext"])
    elif w == "pop":
        op["n"] = r.choice([1, 1, 1, 2, 8, 20])
    elif w == "iter":
        op["it"] = r.randrange(3)
    elif w == "next":
        op["it"] = r.randrange(3)
        op["n"] = r.choice([1, 1, 2, 8, 50, 150])
    elif w == "copy":
        op["to"] = r.randrange(NV)
    elif w in ("cmp",):
        op["o"] = r.randrange(NV)
        op["alike"] = r.random() < 0.5
        op["bit"] = r.randrange(200) if r.random() < 0.5 else None
    elif w == "store":
        op["bits"] = g_bits(r)
        op["norm"] = r.random() < 0.7
        op["how"] = r.choice(["buffer", "bytearray", "file"])
        op["from"] = r.randrange(NV) if r.random() < 0.7 else None
        op["in"] = r.choice(["root", "root", "vec", "key"])
    elif w == "misc":
        op["m"] = r.choice(["len", "sizeof", "list", "bool", "noargs", "key", "slice"])
    return op


# ------------------------------------------------------------------ model

def bit(x):
    if isinstance(x, bool) or isinstance(x, int) and x in (0, 1):
        return True, bool(x)
    return False, None


class M:
    def __init__(self, v, items, ap=True, stored=False):
        self.v, self.items, self.ap, self.stored = v, items, ap, stored
        self.ver = 0
        self.active = 0
        self.building = 0
        self.lost = False


class World:
    def __init__(self, ctx):
        self.ctx, self.P, self.k = ctx, ctx.P, ctx.k
        self.vec = [None] * NV
        self.its = [None] * 3
        self.busy = []             # vectors some operation is in progress on
        self.deep = 0

    def same(self, m, why):
        ctx, v = self.ctx, m.v
        ctx.need(len(v) == len(m.items), "wrong-data", "%s: length %d, expected %d" % (why, len(v), len(m.items)))
        got = list(v)
        ctx.need(got == m.items, "wrong-data", "%s: holds %s, expected %s" % (why, sb(got), sb(m.items)))
        ctx.need(v.IsAnySet() == any(m.items), "wrong-data", "%s: IsAnySet() is %r for %s" % (why, v.IsAnySet(), sb(m.items)))

    def resync(self, m):
        m.items = list(m.v)
        m.ver += 1

    def settle(self):
        """another actor's operation is in progress, stopped where it calls back: what the vector holds then is what counts"""
        for m in self.busy:
            if m.building:
                m.stored = False
                m.ap = None
            self.resync(m)
            self.ctx.probe("amid_another_operation")

    def run_op(self, op):
        self.k.yield_()
        with self.ctx.quiet():
            self.settle()
            m = self.vec[op["s"]]
            f = getattr(self, sys.intern("op_" + op["t"]))
            if m is None and op["t"] not in ("new", "next", "store"):
                return
            f(op, m)
            m = None

    def attempt(self, op, m, fn, *a, **kw):
        ctx, k = self.ctx, self.k
        ver = m.ver if m else 0
        others = m.active if m else 0
        if m:
            m.active += 1
            self.busy.append(m)
        k.pause(), k.crit(1)
        k.unpause(0)
        k.crit(2)      # from here to the operation nothing may intervene: its expectation is computed
        try:
            ok, val, fired = ctx.call(op, fn, *a, **kw)
        finally:
            k.pause()
            k.crit(1)
            if m:
                m.active -= 1
                self.busy.remove(m)
        return ok, val, fired, bool(m) and (m.ver != ver or others > 0 or m.active > 0)

    def expect(self, op, m, ok, val, fired, want, after=None, may_os=False):
        ctx = self.ctx
        name = op["t"]
        if ok:
            ctx.need(want, "accepted", "%s succeeded (%s) where a list of booleans would refuse it" % (name, brief(val)))
            if after is not None and m is not None:
                m.items = after
                m.ver += 1
        elif fired:
            ctx.need(isinstance(val, (MemoryError, Boom)) or not want or may_os and isinstance(val, OSError) or "iterable" in str(val), "wrong-error", "%s: after a failed allocation %r" % (name, val))
        else:
            ctx.need(not want, "refused", "%s raised %r although nothing failed" % (name, val))
        if m is not None:
            self.same(m, "after %s%s" % (name, "" if ok else " failed"))

    # ---- construction

    def source(self, spec, m):
        k = spec["k"]
        items = spec.get("items")
        if k == "list":
            return list(items), items, False
        if k == "tuple":
            return tuple(items), items, False
        if k == "slot":
            o = self.vec[spec["s"]]
            if o is None:
                return [], [], False
            return o.v, list(o.items), False
        if k == "notiter":
            return 5, None, False
        mis = spec.get("mis")
        it = It(self, items, mis, m)
        if not mis:
            return it, items, False
        pos, kind, what, then = mis
        if kind in ("raise", "bad") or then != "none":
            return it, None, not (m is None or kind in ("raise", "bad", "yield"))
        return it, items, m is not None and kind != "yield"

    def ctor(self, op, m):
        kw = {} if op["ap"] else {"allow_print": False}
        how = op["how"]
        if how == "none":
            return kw, True, [], False
        if how in ("size", "badsize"):
            return dict(kw, size=op["n"]), how == "size", [False] * op["n"] if how == "size" else None, False
        o, deliver, meddle = self.source(op["src"], m)
        if how == "both":
            return dict(kw, size=3, sequence=o), False, None, False
        exp = None
        if deliver is not None:
            exp = [bit(x) for x in deliver]
            exp = [x for _, x in exp] if all(g for g, _ in exp) else None
        return dict(kw, sequence=o), exp is not None, exp, meddle

    def op_new(self, op, m):
        kw, want, exp, meddle = self.ctor(op, None)
        ok, v, fired, _ = self.attempt(op, None, self.P.PointlessBitvector, **kw)
        kw = None
        self.expect(op, None, ok, v, fired, want)
        if ok:
            m = M(v, exp, op["ap"])
            self.vec[op["s"]] = m
            self.same(m, "after construction")

    def op_reinit(self, op, m):
        ctx = self.ctx
        self_src = op["how"] in ("seq", "both") and op["src"].get("s") is not None and self.vec[op["src"]["s"]] is m
        kw, want, exp, meddle = self.ctor(op, m)
        before = list(m.items)
        m.ver += 1
        m.items = None
        m.building += 1
        ok, v, fired, inter = self.attempt(op, m, m.v.__init__, **kw)
        m.building -= 1
        kw = None
        if m.items is None:
            m.items = before
        m.stored = False
        if self_src or inter or meddle or m.building:
            # what it holds then is not specified, but it has to stay usable
            ctx.probe("rebuild_interfered")
            m.ap = None
            self.resync(m)
            self.usable(m)
            return
        if ok:
            ctx.need(want, "accepted", "__init__ accepted %s" % op["how"])
            m.items, m.ap = exp, op["ap"]
            m.ver += 1
            self.same(m, "after __init__")
            return
        ctx.need(fired or not want, "refused", "__init__ raised %r" % v)
        ctx.need(not fired or isinstance(v, (MemoryError, Boom)) or not want or "iterable" in str(v), "wrong-error", "__init__: after a failed allocation %r" % v)
        m.ap = None
        self.resync(m)
        self.usable(m)

    def usable(self, m):
        """agrees with itself"""
        v = m.v
        n = len(m.items)
        self.same(m, "after interference")
        v.append(True)
        v.extend_false(9)
        self.ctx.need(list(v) == m.items + [True] + [False] * 9, "wrong-data", "appending to %s gave %s" % (sb(m.items), sb(list(v))))
        for _ in range(10):
            v.pop()
        self.same(m, "after interference and ten pops")
        self.ctx.need(v == self.P.PointlessBitvector(sequence=m.items) and hash(v) == hash(self.P.PointlessBitvector(sequence=m.items)), "wrong-data", "differs from a fresh vector of the same bits")

    def meddle(self, m, what):
        with self.ctx.quiet():
            m.ver += 1
            self.ctx.probe("meddled_" + what)
            v = m.v
            try:
                if what == "pop":
                    v.pop()
                elif what == "pops":
                    while len(v):
                        v.pop()
                elif what == "append":
                    v.append(True)
                elif what == "ext":
                    v.extend_true(200)
                elif what == "bulkself":
                    v.append_bulk(v)
                elif what == "set":
                    v[0] = 1
            except (IndexError, ValueError):
                pass
            if m.items is not None:
                m.items = list(v)

    # ---- operations

    def op_append(self, op, m):
        want = isinstance(op["x"], bool) and not m.stored
        ok, v, fired, _ = self.attempt(op, m, m.v.append, op["x"])
        self.expect(op, m, ok, v, fired, want, m.items + [op["x"]] if ok else None)

    def op_bulk(self, op, m):
        if op["o"] == "x":
            o, items = [True], None
        else:
            x = self.vec[op["o"]]
            if x is None:
                return
            o, items = x.v, list(x.items)
        want = items is not None and not m.stored
        ok, v, fired, _ = self.attempt(op, m, m.v.append_bulk, o)
        self.expect(op, m, ok, v, fired, want, m.items + items if ok and want else None)

    def op_ext(self, op, m):
        n = op["n"]
        if isinstance(n, int) and n == 2**31:
            n = 2**31 + 5
        want = isinstance(n, int) and 0 <= n < 2**31 and not m.stored
        ok, v, fired, _ = self.attempt(op, m, m.v.extend_true if op["x"] else m.v.extend_false, n)
        self.expect(op, m, ok, v, fired, want, m.items + [op["x"]] * n if ok and want else None)

    def index(self, op, m):
        w, i, kind = self, op["i"], op["ix"]
        if kind == "int":
            return i, i
        if kind == "str":
            return "x", None

        class Ix:
            def __index__(self_):
                if kind == "raise":
                    raise Boom("index")
                if kind == "mut":
                    w.meddle(m, op["what"])
                return i
        return Ix(), (None if kind == "raise" else i)

    def op_set(self, op, m):
        ix, i = self.index(op, m)
        good, y = bit(op["x"])
        ok, v, fired, _ = self.attempt(op, m, m.v.__setitem__, ix, op["x"])
        n = len(m.items)
        want = good and i is not None and -n <= i < n and not m.stored
        after = None
        if ok and want:
            after = list(m.items)
            after[i] = y
        self.expect(op, m, ok, v, fired, want, after)

    def op_del(self, op, m):
        ix, i = self.index(op, m)
        ok, v, fired, _ = self.attempt(op, m, m.v.__delitem__, ix)
        n = len(m.items)
        if ok:
            self.ctx.need(i is not None and -n <= i < n and not m.stored, "accepted", "a bit that is not there was deleted")
            m.items = list(m.items)
            del m.items[i]
            m.ver += 1
        self.same(m, "after deletion")

    def op_get(self, op, m):
        ix, i = self.index(op, m)
        ok, v, fired, _ = self.attempt(op, m, m.v.__getitem__, ix)
        n = len(m.items)
        inr = i is not None and -n <= i < n
        if ok and inr:
            self.ctx.need(v is m.items[i], "wrong-data", "bit %d is %r, expected %r" % (i, v, m.items[i]))
        self.expect(op, m, ok, v, fired, inr)

    def op_pop(self, op, m):
        for _ in range(op["n"]):
            want = bool(m.items) and not m.stored
            ok, v, fired, _ = self.attempt(op, m, m.v.pop)
            if ok and want:
                self.ctx.need(v is m.items[-1], "wrong-data", "pop() gave %r, expected %r" % (v, m.items[-1]))
            self.expect(op, m, ok, v, fired, want, m.items[:-1] if ok else None)

    def op_iter(self, op, m):
        ok, v, fired, _ = self.attempt(op, m, iter, m.v)
        self.expect(op, m, ok, v, fired, True)
        if ok:
            self.its[op["it"]] = {"it": v, "m": m, "i": 0, "over": False}

    def op_next(self, op, m_):
        s = self.its[op["it"]]
        if s is None:
            return
        m = s["m"]
        end = object()
        for _ in range(op["n"]):
            ok, v, fired, _ = self.attempt(op, m, next, s["it"], end)
            if not ok:
                self.ctx.need(fired, "refused", "an iterator raised %r" % v)
                continue
            if s["over"]:
                self.ctx.need(v is end, "iterator", "an exhausted iterator delivered %r" % (v,))
                return
            n = len(m.items)
            if v is end:
                s["over"] = True
                self.ctx.need(s["i"] >= n, "iterator", "an iterator stopped after %d of %d bits" % (s["i"], n))
                return
            self.ctx.need(s["i"] < n, "iterator", "an iterator delivered more than the %d bits" % n)
            self.ctx.need(v is m.items[s["i"]], "iterator", "bit %d was delivered as %r" % (s["i"], v))
            s["i"] += 1

    def op_copy(self, op, m):
        ok, v, fired, _ = self.attempt(op, m, m.v.copy)
        self.expect(op, m, ok, v, fired, True)
        if ok:
            ctx = self.ctx
            n = M(v, list(m.items), m.ap)
            self.same(n, "a copy")
            ctx.need(v == m.v and hash(v) == hash(m.v), "wrong-data", "a copy differs from its original")
            if n.ap is not None:
                self.printed(n)
            self.vec[op["to"]] = n
            # it shares nothing with the original
            v.append(True)
            v[0] = not v[0]
            self.same(m, "after its copy was changed")
            self.resync(n)

    def fresh(self, items):
        return self.P.PointlessBitvector(sequence=items)

    def op_cmp(self, op, m):
        ctx = self.ctx
        o = self.vec[op["o"]]
        if op["alike"] or o is None:
            items = list(m.items)
            if op["bit"] is not None:
                if op["bit"] < len(items):
                    items[op["bit"]] = not items[op["bit"]]
                elif op["bit"] % 2:
                    items.append(bool(op["bit"] % 3))
                elif items:
                    items.pop()
            o = M(self.fresh(items), items)
        for name, f in CMP.items():
            ok, v, fired, _ = self.attempt(op, m, f, m.v, o.v)
            self.expect(op, m, ok, v, fired, True)
            if ok:
                w = f(m.items, o.items)
                ctx.need(v is w, "wrong-data", "%s(%s, %s) is %r" % (name, sb(m.items), sb(o.items), v))
        c = self.P.pointless_cmp(m.v, o.v)
        ctx.need(c == (m.items > o.items) - (m.items < o.items), "wrong-data", "pointless_cmp(%s, %s) is %r" % (sb(m.items), sb(o.items), c))
        ctx.need(self.P.pointless_is_eq(m.v, o.v) == (m.items == o.items), "wrong-data", "pointless_is_eq(%s, %s)" % (sb(m.items), sb(o.items)))

    def op_hash(self, op, m):
        ctx, P = self.ctx, self.P
        for what, f in (("hash", hash), ("pyobject_hash", P.pyobject_hash), ("pyobject_hash_32", P.pyobject_hash_32)):
            ok, v, fired, _ = self.attempt(op, m, f, m.v)
            self.expect(op, m, ok, v, fired, True)
            if ok:
                w = f(self.fresh(m.items))
                ctx.need(v == w, "wrong-data", "%s of %s is %r, that of a fresh vector of the same bits %r" % (what, sb(m.items), v, w))

    def op_counts(self, op, m):
        v, it = m.v, m.items
        n = len(it)
        want = (runlen(it, 0), runlen(it[::-1], 0), runlen(it, 1), runlen(it[::-1], 1), any(it))
        ok, x, fired, _ = self.attempt(op, m, lambda: (v.NumZeroPrefix(), v.NumZeroPostfix(), v.NumOnePrefix(), v.NumOnePostfix(), v.IsAnySet()))
        if ok:
            self.ctx.need(x == want, "wrong-data", "prefix and postfix counts and any-set of %s are %r, expected %r" % (sb(it), x, want))
        self.expect(op, m, ok, x, fired, True)

    def printed(self, m, s=None):
        s = str(m.v) if s is None else s
        if m.ap:
            w = "".join("1" if b else "0" for b in reversed(m.items)) + "b"
            self.ctx.need(s == w, "wrong-data", "printed as %s, expected %s" % (s[:200], w[:200]))
        elif m.ap is not None:
            self.ctx.need(s.startswith("<"), "wrong-data", "a vector that must not be printed was: %s" % s[:80])

    def op_str(self, op, m):
        for f in (str, repr):
            ok, v, fired, _ = self.attempt(op, m, f, m.v)
            self.expect(op, m, ok, v, fired, True)
            if ok:
                self.printed(m, v)

    def op_store(self, op, m):
        """export a vector, read it back, keep the stored one"""
        P, ctx = self.P, self.ctx
        src = self.vec[op["from"]] if op["from"] is not None else None
        if src is None:
            items = [bool(b) for b in op["bits"]]
            obj = P.PointlessBitvector(sequence=items)
        else:
            items, obj = list(src.items), src.v
        inn = op.get("in", "root")
        o = obj if inn == "root" else [obj, obj] if inn == "vec" else {obj: 1}
        kw = {"normalize_bitvector": op["norm"]}
        if op["how"] == "file":
            ok, v, fired, _ = self.attempt(op, src, lambda: P.serialize(o, "/sim/bv.map", **kw))
        else:
            ok, v, fired, _ = self.attempt(op, src, lambda: (P.serialize_to_buffer if op["how"] == "buffer" else P.serialize_to_bytearray)(o, **kw))
        self.expect(op, src, ok, v, fired, True, None, True)
        if not ok:
            return
        h = P.Pointless("/sim/bv.map" if op["how"] == "file" else v)
        root = h.GetRoot()
        if inn == "vec":
            ctx.need(len(root) == 2, "wrong-data", "a vector of two bit vectors has %d elements" % len(root))
            root = root[1]
        elif inn == "key":
            root = P.Pointless(v if op["how"] != "file" else "/sim/bv.map").GetRoot()
            ctx.need(obj in root and len(root) == 1 and root[obj] == 1, "wrong-data", "a map does not find its bit vector key %s" % sb(items))
            root = list(root.keys())[0]
        n = M(root, items, True, True)
        self.same(n, "after export and import")
        ctx.need(root == obj and obj == root and hash(root) == hash(obj), "wrong-data", "the stored vector differs from the exported one")
        it, v = items, root
        want = (runlen(it, 0), runlen(it[::-1], 0), runlen(it, 1), runlen(it[::-1], 1), any(it), len(it))
        x = (v.NumZeroPrefix(), v.NumZeroPostfix(), v.NumOnePrefix(), v.NumOnePostfix(), v.IsAnySet(), len(v))
        ctx.need(x == want, "wrong-data", "prefix and postfix counts and any-set of a stored %s are %r, expected %r" % (sb(it), x, want))
        self.vec[op["s"]] = n

    def op_misc(self, op, m):
        v, k = m.v, op["m"]

        def key():
            d = {v: 1}
            return d[self.fresh(m.items)] == 1

        def slice_():
            try:
                v[0:1]
            except TypeError:
                return True
        fn = {"len": lambda: len(v), "sizeof": lambda: v.__sizeof__(), "list": lambda: list(v), "bool": lambda: bool(v), "noargs": lambda: self.noargs(v), "key": key, "slice": slice_}[k]
        ok, x, fired, _ = self.attempt(op, m, fn)
        self.expect(op, m, ok, x, fired, True)
        if ok:
            want = {"len": len(m.items), "list": m.items, "bool": bool(m.items), "key": True, "slice": True}
            if k in want:
                self.ctx.need(x == want[k], "wrong-data", "%s gave %s" % (k, brief(x)))
            if k == "sizeof":
                self.ctx.need(m.stored or x >= len(m.items) // 8, "wrong-data", "__sizeof__ is smaller than the bits")

    def noargs(self, v):
        for n in ("append", "append_bulk", "extend_true", "extend_false"):
            try:
                getattr(v, n)()
            except (TypeError, ValueError):
                pass


def runlen(items, b):
    n = 0
    for x in items:
        if x != bool(b):
            break
        n += 1
    return n


def sb(items):
    return "%d:%s" % (len(items), "".join("1" if b else "0" for b in items[:150]))


class It:
    def __init__(self, w, items, mis, m):
        self.w, self.items, self.i, self.mis, self.m = w, items, 0, mis, m

    def __iter__(self):
        if self.mis and self.mis[0] == 0 and self.mis[1] in ("mutate", "reinit"):
            self.act()
        return self

    def act(self):
        w, m = self.w, self.m
        pos, kind, what, then = self.mis
        w.ctx.probe("sequence_" + kind)
        if kind == "mutate" and m is not None:
            w.meddle(m, what)
        elif kind == "reinit" and m is not None:
            with w.ctx.quiet():
                m.ver += 1
                m.v.__init__(sequence=[True, False, True])

    def __next__(self):
        w = self.w
        if self.mis and self.i == self.mis[0]:
            self.act()
            pos, kind, what, then = self.mis
            self.mis = None
            if kind == "raise":
                raise Boom("sequence")
            if kind == "bad":
                return "x"
            if kind == "yield":
                w.k.yield_()
            if kind == "drop" and self.m is not None:
                with w.ctx.quiet():
                    for s in range(NV):
                        if w.vec[s] is self.m:
                            w.vec[s] = None
            if then == "raise":
                raise Boom("sequence")
            if then == "bad":
                return 7
        if self.i >= len(self.items):
            raise StopIteration
        x = self.items[self.i]
        self.i += 1
        return x


def run(ctx, prof):
    w = World(ctx)

    def body(aid, spec):
        for op in spec["ops"]:
            w.run_op(op)
    for ep in ctx.case["epochs"]:
        ctx.run_epoch(ep, body)
    for m in w.vec:
        if m is not None:
            w.same(m, "at the end")
    w.its = [None] * 3
    w.vec = [None] * NV
    ctx.check_anomaly()
