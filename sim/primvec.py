"""primvec: histories over shared primitive vectors by one or several threads, against a model that is a list restricted to the element type.

Caller-supplied iterators misbehave (raise, deliver what does not fit, change the vector, take a view of it, let another thread run); allocations fail."""
import sys
import struct, math
import vals
from vals import PV_TYPES, PV_CODE, PV_RANGE, f32, g_pv_item

SIZE = {t: struct.calcsize("=" + c) for t, c in PV_CODE.items()}
NV = 4


class Boom(Exception):
    pass


# ------------------------------------------------------------------ generation

def g_item(r, t, bad=0.0):
    if r.random() < bad:
        return r.choice([None, "x", [], 2**64, -2**63 - 1, 2**200, -1, 256, 65536, 2**32, 2**63, -129, -32769, 1.5, 7, True, float("nan")])
    x = g_pv_item(r, t)
    return x


def g_items(r, t, n=None, bad=0.0):
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 40]) if n is None else n
    if r.random() < 0.5:
        pool = [g_item(r, t) for _ in range(r.choice([1, 2, 3]))]
        return [r.choice(pool) for _ in range(n)]
    return [g_item(r, t, bad) for _ in range(n)]


def g_src(r, t, big):
    k = r.random()
    n = r.choice([0, 1, 2, 3, 5, 8, 9, 16, 17]) if not big else r.choice([30, 64, 100])
    items = g_items(r, t, n)
    if k < 0.3:
        return {"k": r.choice(["list", "tuple", "iter"]), "items": items}
    if k < 0.4:
        if items:
            items[r.randrange(len(items))] = g_item(r, t, 1.0)
        return {"k": r.choice(["list", "iter"]), "items": items}
    if k < 0.62:
        m = r.choice(["raise", "bad", "view", "yield", "yield", "mutate", "mutate", "reinit", "drop"])
        return {"k": "iter", "items": items, "mis": [r.randrange(n + 1), m, r.choice(["pop", "append", "clear", "pop_bulk", "append_bulk"]), r.choice(["none", "raise", "bad"])]}
    if k < 0.75:
        return {"k": "vec", "s": r.randrange(NV)}
    if k < 0.9:
        return {"k": "stored", "items": g_items(r, t, n), "t": t, "cut": [r.randrange(0, n + 1), r.randrange(0, n + 1)] if r.random() < 0.5 else None}
    if k < 0.95:
        return {"k": "bv", "items": [r.randrange(2) for _ in range(n)]}
    return {"k": "notiter"}


def gen(r, prof):
    case = {"scn": "primvec", "rng": r.randrange(1, 2**32), "knobs": {"fill": r.choice([0, 7, 9, 11])}, "faults": []}
    t0 = r.choice(PV_TYPES)
    types = [t0, t0, t0, r.choice(PV_TYPES)]
    nact = r.choice(prof.get("actors", [1, 1, 2, 3]))
    n = r.choice(prof.get("nops", [6, 12, 25]))
    nid = [0]
    acts = []
    for a in range(nact):
        ops = [g_op(r, types, nid) for _ in range(n)]
        if a == 0:
            ops[:0] = [{"id": nid[0] + i, "t": "new", "s": i, "ty": types[i], "src": {"k": "list", "items": g_items(r, types[i])}, "how": "seq", "ap": True} for i in range(2)]
            nid[0] += 2
        acts.append({"proc": 0, "ops": ops})
    case["epochs"] = [{"actors": acts, "sched": []}]
    return case


def g_op(r, types, nid):
    i = nid[0]
    nid[0] += 1
    s = r.randrange(NV) if r.random() < 0.5 else 0
    t = types[s]
    op = {"id": i, "s": s}
    w = r.choices(["new", "reinit", "append", "bulk", "set", "del", "pop", "popn", "remove", "fremove", "index", "contains", "get", "slice", "iter", "next", "sort", "proj",
                   "ser", "clear", "minmax", "str", "view", "vwrite", "vdrop", "remap", "export", "drop", "misc"],
                  [2, 1, 5, 8, 4, 1, 3, 3, 2, 2, 2, 1, 2, 3, 2, 6, 3, 3, 2, 1, 2, 1, 3, 2, 3, 3, 1.5, 0.5, 1])[0]
    op["t"] = w
    if w in ("new", "reinit"):
        if r.random() < 0.15:
            t = types[s] = r.choice(PV_TYPES)
        op["ty"] = t if r.random() < 0.93 else r.choice(["", "x", "i128", "u"])
        op["how"] = r.choice(["seq", "seq", "seq", "empty", "buf", "buf", "badbuf", "both", "neither"])
        op["src"] = g_src(r, t, r.random() < 0.1)
        op["ap"] = r.random() < 0.9
        if op["how"] == "badbuf":
            op["bad"] = [r.choice(["cut", "grow", "type", "n", "bytes"]), r.randrange(1, 40)]
    elif w == "append":
        op["x"] = g_item(r, t, 0.25)
    elif w == "bulk":
        op["src"] = g_src(r, t, r.random() < 0.1)
    elif w in ("set", "get", "del"):
        op["i"] = r.choice([0, -1, 1, -2, 2, 5, -5, 100, -100, 2**31, 2**32, -2**40, 2**70])
        op["ix"] = r.choice(["int", "int", "int", "obj", "mut", "raise", "str"])
        op["x"] = g_item(r, t, 0.25)
    elif w == "popn":
        op["n"] = r.choice([0, 1, 2, 3, 5, 100, -1, 2**40, -2**40, "len", "len-1", "len+1"])
    elif w in ("remove", "fremove", "index", "contains"):
        op["pick"] = r.randrange(64) if r.random() < 0.6 else None
        op["x"] = g_item(r, t, 0.3)
    elif w == "slice":
        op["ab"] = [r.choice([None, 0, 1, 2, 3, -1, -2, 5, 100, -100, 2**70, -2**70, "n", "-n", "-n-1", "n+1", "n-1"]) for _ in range(2)]
        op["step"] = r.choice([None, None, None, 1, 1, 2, -1])
        op["to"] = r.randrange(NV)
    elif w == "iter":
        op["rev"] = r.random() < 0.4
        op["it"] = r.randrange(3)
    elif w == "next":
        op["it"] = r.randrange(3)
        op["n"] = r.choice([1, 1, 2, 5, 50])
    elif w == "proj":
        op["keys"] = [r.choice(["vec", "stored", "prim", "prim"]) for _ in range(r.choice([1, 1, 2, 3, 16]))]
        op["kt"] = [r.choice(PV_TYPES) for _ in op["keys"]]
        op["n"] = n = r.choice([0, 1, 2, 5, 8, 20, 50])
        op["kv"] = [g_items(r, kt, n + (1 if r.random() < 0.03 else 0)) for kt in op["kt"]]
        op["pt"] = r.choice(PV_TYPES)
        lim = r.choice([n, n, n, n + 1])
        if r.random() < 0.5:
            p = list(range(min(n, 120)))
            r.shuffle(p)
        else:
            p = [r.randrange(0, lim) if lim else 0 for _ in range(r.choice([0, 1, 3, 9, 30]))]
        if p and r.random() < 0.15:
            p[r.randrange(len(p))] = r.choice([-1, n, n + 5, 127, -100])
        op["p"] = p
        op["vs"] = r.randrange(NV)
    elif w == "vwrite":
        op["o"] = r.randrange(1 << 16)
        op["b"] = r.randrange(256)
    elif w == "remap":
        op["to"] = r.randrange(NV)
        op["kt"] = r.choice([x for x in PV_TYPES if x != "f"] + ["f"] * (r.random() < 0.3))
        op["ix"] = [r.choice([0, 1, 2, 3, 4, 0, 1, 2]) for _ in range(r.choice([0, 1, 4, 9, 20]))]
        if op["ix"] and r.random() < 0.25:
            op["ix"][r.randrange(len(op["ix"]))] = r.choice([-1, 120, 100])
        op["stored"] = r.random() < 0.4
        op["cut"] = r.choice([0, 0, 1, 2])
    elif w == "export":
        op["how"] = r.choice(["buffer", "bytearray", "file"])
    elif w == "misc":
        op["m"] = r.choice(["len", "typecode", "sizeof", "bytes", "list", "cmp", "bool", "noargs"])
    return op


# ------------------------------------------------------------------ model

def conv(t, x):
    """(fits, value) for one element"""
    if t == "f":
        return (True, f32(x)) if isinstance(x, float) else (False, None)
    if not isinstance(x, int):
        return False, None
    lo, hi = PV_RANGE[t]
    return (lo <= x <= hi), int(x)


def pack(t, items):
    return struct.pack("=%d%s" % (len(items), PV_CODE[t]), *items)


def bits(t, items):
    return [struct.pack("=" + PV_CODE[t], x) for x in items]


class M:
    """one vector and its model"""

    def __init__(self, v, t, items, ap=True):
        self.v, self.t, self.items, self.ap = v, t, items, ap
        self.views = []            # ap: whether it may be printed, None if not known
        self.ver = 0
        self.building = 0
        self.active = 0            # bulk operations in progress on it
        self.lost = False          # its contents became unspecified


class World:
    def __init__(self, ctx):
        self.ctx, self.P, self.k = ctx, ctx.P, ctx.k
        self.vec = [None] * NV
        self.its = [None] * 3
        self.busy = []             # vectors some operation is in progress on
        self.handles = []

    # ---- access

    def stored(self, t, items, cut=None):
        """a vector that lives in an export"""
        b = self.P.serialize_to_bytearray(self.P.PointlessPrimVector(t, sequence=[x for x in items]))
        h = self.P.Pointless(b)
        v = h.GetRoot()
        if cut:
            v = v[cut[0]:cut[1]]
        return v

    def same(self, m, why):
        """the vector holds exactly what the model holds"""
        ctx = self.ctx
        v = m.v
        ctx.need(len(v) == len(m.items), "wrong-data", "%s: length %d, expected %d" % (why, len(v), len(m.items)))
        got = list(v)
        if m.t == "f":
            ok = bits("f", got) == bits("f", m.items) or all(a == b or a != a and b != b for a, b in zip(got, m.items))
        else:
            ok = got == m.items
        ctx.need(ok, "wrong-data", "%s: holds %s, expected %s" % (why, brief(got), brief(m.items)))
        if m.views:
            w = pack(m.t, got)
            for mv in m.views:
                ctx.need(mv.nbytes == len(w), "view", "%s: a live memory view has %d bytes, the vector %d" % (why, mv.nbytes, len(w)))
                ctx.need(bytes(mv) == w or m.t == "f" and all(a == b or a != a and b != b for a, b in zip(struct.unpack("=%df" % len(got), bytes(mv)), got)), "view", "%s: a live memory view does not show the vector's bytes" % why)

    def resync(self, m):
        m.items = list(m.v)
        m.ver += 1

    def views_ok(self, m):
        """after interference: still safe and consistent with itself"""
        got = list(m.v)
        self.ctx.need(len(got) == len(m.v), "wrong-data", "length %d but %d elements" % (len(m.v), len(got)))
        for x in got:
            ok, y = conv(m.t, x)
            self.ctx.need(ok, "wrong-data", "element %r does not belong in a vector of %s" % (x, m.t))
        for mv in m.views:
            bytes(mv)

    def drop_vec(self, s):
        self.vec[s] = None

    def settle(self):
        """another actor's operation is in progress, stopped where it calls back: what the vector holds then is what counts"""
        for m in self.busy:
            if m.building:
                m.t = m.v.typecode
                m.ap = None
            self.resync(m)
            self.ctx.probe("amid_another_operation")

    # ---- one operation

    def run_op(self, op):
        ctx, k = self.ctx, self.k
        k.yield_()
        with ctx.quiet():
            self.settle()
            m = self.vec[op["s"]]
            f = getattr(self, sys.intern("op_" + op["t"]))
            if m is None and op["t"] not in ("new", "proj", "next"):
                return
            f(op, m)
            m = None

    def attempt(self, op, m, fn, *a, **kw):
        """the armed call -> (ok, value, fired, interference)"""
        ctx, k = self.ctx, self.k
        ver = m.ver if m else 0
        others = m.active if m else 0
        if m:
            m.active += 1
            self.busy.append(m)
        p, c = k.pause(), k.crit(1)
        k.unpause(0)
        k.crit(2)      # from here to the operation nothing may intervene: its expectation is computed
        try:
            ok, val, fired = ctx.call(op, fn, *a, **kw)
        finally:
            k.pause()
            k.crit(1)
            if m:
                m.active -= 1
                self.busy.remove(m)
        return ok, val, fired, bool(m) and (m.ver != ver or others > 0 or m.active > 0)

    def expect(self, op, m, ok, val, fired, want, exc=None, wantval=None, after=None):
        """want: whether it should succeed; after: the items it then holds"""
        ctx = self.ctx
        name = op["t"]
        if ok:
            ctx.need(want, "accepted", "%s succeeded (%s) where a list of %s would refuse it" % (name, brief(val), m.t if m else "?"))
            if after is not None:
                m.items = after
                m.ver += 1
        else:
            if fired:
                ctx.need(isinstance(val, (MemoryError, Boom)) or not want or name == "export" and isinstance(val, OSError), "wrong-error", "%s: after a failed allocation %r" % (name, val))
            else:
                ctx.need(not want, "refused", "%s raised %r although nothing failed" % (name, val))
                if exc:
                    ctx.need(isinstance(val, exc), "wrong-error", "%s raised %r" % (name, val))
        if m is not None:
            self.same(m, "after %s%s" % (name, "" if ok else " failed"))

    # ---- sources

    def source(self, op, spec, m, t):
        """-> (python object, what it delivers or None if it is expected to fail, meddles)"""
        P, w = self.P, self
        k = spec["k"]
        items = spec.get("items")
        if k == "list":
            return list(items), items, False
        if k == "tuple":
            return tuple(items), items, False
        if k == "vec":
            o = self.vec[spec["s"]]
            if o is None:
                return [], [], False
            return o.v, list(o.items), False
        if k == "stored":
            v = self.stored(spec["t"], items, spec.get("cut"))
            it = [conv(spec["t"], x)[1] for x in items]
            if spec.get("cut"):
                it = it[spec["cut"][0]:spec["cut"][1]]
            return v, it, False
        if k == "bv":
            return P.PointlessBitvector(sequence=items), [bool(x) for x in items], False
        if k == "notiter":
            return 5, None, False
        mis = spec.get("mis")
        it = It(self, items, mis, m)
        if not mis:
            return it, items, False
        pos, kind, what, then = mis
        if kind in ("raise", "bad") or then != "none":
            return it, None, False if m is None or kind in ("raise", "bad", "yield") else True
        return it, items, m is not None and kind != "yield"

    def bulk(self, t, deliver):
        """[values] or None if some element does not fit"""
        if deliver is None:
            return None
        out = []
        for x in deliver:
            ok, y = conv(t, x)
            if not ok:
                return None
            out.append(y)
        return out

    # ---- operations

    def op_new(self, op, m):
        P, ctx = self.P, self.ctx
        t = op["ty"]
        args, want, exp, meddle = self.ctor(op, None, t)
        if op["how"] in ("buf", "badbuf") and t not in SIZE:
            t = "u8"
        ok, v, fired, _ = self.attempt(op, None, P.PointlessPrimVector, *args[0], **args[1])
        args = None
        if not ok:
            self.expect(op, None, ok, v, fired, want)
            return
        ctx.need(want, "accepted", "a vector was constructed from %s" % op["how"])
        m = M(v, t, exp, op["ap"])
        self.vec[op["s"]] = m
        self.same(m, "after construction")
        ctx.need(v.typecode == t, "wrong-data", "typecode %r of a %s vector" % (v.typecode, t))

    def ctor(self, op, m, t):
        P = self.P
        kw = {"allow_print": op["ap"]} if not op["ap"] else {}
        good = t in SIZE
        how = op["how"]
        if how == "empty":
            return ((t,), kw), good, [], False
        if how == "seq":
            o, deliver, meddle = self.source(op, op["src"], m, t)
            exp = self.bulk(t, deliver) if good else None
            return ((t,), dict(kw, sequence=o)), good and exp is not None, exp, meddle
        tt = t if good else "u8"
        items = [conv(tt, x)[1] for x in op["src"].get("items", []) if conv(tt, x)[0]]
        code = {"i8": 0, "u8": 1, "i16": 2, "u16": 3, "i32": 4, "u32": 5, "f": 6, "i64": 7, "u64": 8}[tt]
        b = bytes(P.PointlessPrimVector(tt, sequence=items).serialize())
        self.ctx.need(b == struct.pack("<II", code, len(items)) + pack(tt, items), "wrong-data", "serialize() of %s" % brief(items))
        if how == "buf":
            return ((), dict(kw, buffer=b)), True, items, False
        if how == "badbuf":
            kind, n = op["bad"]
            x = {"cut": b[:-1 - n % len(b)], "grow": b + bytes(n), "type": struct.pack("<I", 8 + n) + b[4:], "n": b[:4] + struct.pack("<I", len(items) + n) + b[8:], "bytes": bytes(n % 8)}[kind]
            return ((), dict(kw, buffer=x)), False, None, False
        if how == "both":
            return ((t,), dict(kw, buffer=b)), False, None, False
        return ((), kw), False, None, False

    def op_reinit(self, op, m):
        ctx = self.ctx
        t = op["ty"]
        args, want, exp, meddle = self.ctor(op, m, t)
        if op["how"] in ("buf", "badbuf") and t not in SIZE:
            t = "u8"
        if m.views:
            want, exc = False, BufferError
        else:
            exc = None
        before = list(m.items)
        viewed = bool(m.views)
        m.ver += 1
        m.items = None
        m.building += 1
        ok, v, fired, inter = self.attempt(op, m, m.v.__init__, *args[0], **args[1])
        m.building -= 1
        args = None
        m.items = before
        if ok and want and not inter and not meddle and op["src"].get("s") != op["s"]:
            m.t, m.items, m.ap = t, exp, op["ap"]
            m.ver += 1
            self.same(m, "after __init__")
            return
        if not ok and viewed:
            ctx.need(isinstance(v, (BufferError, MemoryError)), "wrong-error", "__init__ under a live view raised %r" % v)
            self.same(m, "after a refused __init__")
            return
        if not ok and not fired and not inter and not meddle:
            ctx.need(not want or op["src"].get("s") == op["s"], "refused", "__init__ raised %r" % v)
        if ok and not inter and not meddle:
            ctx.need(want or op["src"].get("s") == op["s"], "accepted", "__init__ succeeded")
        # what a failed second construction leaves is not specified, but it has to be usable
        self.recover(op, m)

    def recover(self, op, m):
        """the vector is in an unspecified state: use it, then replace it"""
        v = m.v
        len(v), list(v), repr(v)
        for mv in m.views:
            bytes(mv)
        for x in (1, 1.5):
            try:
                v.append(x)
                list(v)
                v.pop()
            except Exception:
                pass
        try:
            t = v.typecode
        except SystemError:
            t = None
        if t is None or not m.views and not m.active:
            m.views = []
            m.items = list(v)
            m.lost = True
            m.ver += 1
            self.vec[op["s"]] = None
            return
        m.t = t
        m.ap = None
        self.resync(m)

    def op_append(self, op, m):
        ok_, y = conv(m.t, op["x"])
        want = ok_ and not m.views
        ok, v, fired, _ = self.attempt(op, m, m.v.append, op["x"])
        self.expect(op, m, ok, v, fired, want, None, None, m.items + [y] if ok else None)

    def op_bulk(self, op, m):
        ctx = self.ctx
        o, deliver, meddle = self.source(op, op["src"], m, m.t)
        exp = self.bulk(m.t, deliver)
        locked = bool(m.views)
        before = list(m.items)
        ok, v, fired, inter = self.attempt(op, m, m.v.append_bulk, o)
        if inter or meddle:
            o = None
            ctx.probe("bulk_interfered")
            self.views_ok(m)
            if ok and not locked and deliver is not None and inter is False:
                pass
            self.resync(m)
            return
        want = exp is not None and (not locked or not exp)
        if locked and ok and not exp:
            want = True
        elif locked and not ok:
            want = False
        o = None
        self.expect(op, m, ok, v, fired, want, None, None, before + exp if ok and exp is not None else None)

    def index(self, op, m):
        w = self
        i = op["i"]
        kind = op["ix"]
        if kind == "int":
            return i, i, False
        if kind == "str":
            return "x", None, False

        class Ix:
            def __index__(self_):
                if kind == "raise":
                    raise Boom("index")
                if kind == "mut":
                    w.meddle(m, "pop")
                return i
        return Ix(), (None if kind == "raise" else i), kind == "mut"

    def meddle(self, m, what):
        with self.ctx.quiet():
            m.ver += 1
            self.ctx.probe("meddled_" + what)
            v = m.v
            try:
                if what == "pop":
                    v.pop()
                elif what == "append":
                    v.append(1.5 if m.t == "f" else 1)
                elif what == "clear":
                    v.clear()
                elif what == "pop_bulk":
                    v.pop_bulk(len(v))
                elif what == "append_bulk":
                    v.append_bulk([1.5 if m.t == "f" else 1] * 40)
            except (IndexError, BufferError, ValueError):
                pass
            if m.items is not None:
                m.items = list(v)

    def op_set(self, op, m):
        ix, i, mut = self.index(op, m)
        ok_, y = conv(m.t, op["x"])
        ok, v, fired, _ = self.attempt(op, m, m.v.__setitem__, ix, op["x"])
        n = len(m.items)
        inr = i is not None and -n <= i < n
        want = ok_ and inr
        after = None
        if ok and want:
            after = list(m.items)
            after[i] = y
        self.expect(op, m, ok, v, fired, want, None, None, after)

    def op_del(self, op, m):
        ix, i, mut = self.index(op, m)
        ok, v, fired, _ = self.attempt(op, m, m.v.__delitem__, ix)
        n = len(m.items)
        if ok:
            # deleting an element is not offered; if it were, it would have to do what a list does
            self.ctx.need(i is not None and -n <= i < n and not m.views, "accepted", "an element that is not there was deleted")
            m.items = list(m.items)
            del m.items[i]
            m.ver += 1
        self.same(m, "after deletion")

    def op_get(self, op, m):
        ix, i, mut = self.index(op, m)
        ok, v, fired, _ = self.attempt(op, m, m.v.__getitem__, ix)
        n = len(m.items)
        inr = i is not None and -n <= i < n
        if ok and inr:
            w = m.items[i]
            self.ctx.need(v == w or v != v and w != w, "wrong-data", "element %d is %r, expected %r" % (i, v, w))
        self.expect(op, m, ok, v, fired, inr)

    def op_pop(self, op, m):
        want = bool(m.items) and not m.views
        ok, v, fired, _ = self.attempt(op, m, m.v.pop)
        if ok and want:
            w = m.items[-1]
            self.ctx.need(v == w or v != v and w != w, "wrong-data", "pop() returned %r, expected %r" % (v, w))
        self.expect(op, m, ok, v, fired, want, None, None, m.items[:-1] if ok else None)

    def op_popn(self, op, m):
        n = op["n"]
        if isinstance(n, str):
            n = len(m.items) + int(n[3:] or 0)
        ok, v, fired, _ = self.attempt(op, m, m.v.pop_bulk, n)
        want = n <= len(m.items) and not (m.views and n > 0)
        if n <= 0:
            # popping nothing may be accepted or refused
            want = ok
        self.expect(op, m, ok, v, fired, want, None, None, m.items[:len(m.items) - n] if ok and n > 0 else None)

    def find(self, op, m):
        x = op["x"]
        if op.get("pick") is not None and m.items:
            x = m.items[op["pick"] % len(m.items)]
        if m.t == "f":
            if isinstance(x, (int, float)):
                try:
                    y = f32(float(x))
                except OverflowError:
                    return x, None
                for i, z in enumerate(m.items):
                    if z == y:
                        return x, i
            return x, None
        if isinstance(x, float):
            return x, None
        for i, z in enumerate(m.items):
            if isinstance(x, int) and z == x:
                return x, i
        return x, None

    def op_remove(self, op, m):
        x, i = self.find(op, m)
        want = i is not None and not m.views
        ok, v, fired, _ = self.attempt(op, m, m.v.remove if op["t"] == "remove" else m.v.fast_remove, x)
        after = None
        if ok and want:
            after = list(m.items)
            if op["t"] == "remove":
                del after[i]
            else:
                after[i] = after[-1]
                after.pop()
        self.expect(op, m, ok, v, fired, want, None, None, after)

    op_fremove = op_remove

    def op_index(self, op, m):
        x, i = self.find(op, m)
        ok, v, fired, _ = self.attempt(op, m, m.v.index, x)
        if ok and i is not None:
            self.ctx.need(v == i, "wrong-data", "index(%r) is %r, expected %d" % (x, v, i))
        self.expect(op, m, ok, v, fired, i is not None)

    def op_contains(self, op, m):
        x, i = self.find(op, m)
        ok, v, fired, _ = self.attempt(op, m, m.v.__contains__, x)
        if ok:
            self.ctx.need(bool(v) == (i is not None), "wrong-data", "%r in %s is %r" % (x, brief(m.items), v))
        elif not fired:
            self.ctx.viol("refused", "membership of %r raised %r" % (x, v))
        self.same(m, "after membership")

    def op_slice(self, op, m):
        n = len(m.items)
        a, b = [{"n": n, "-n": -n, "-n-1": -n - 1, "n+1": n + 1, "n-1": n - 1}.get(q, q) for q in op["ab"]]
        sl = slice(a, b, op["step"])
        ok, v, fired, _ = self.attempt(op, m, m.v.__getitem__, sl)
        want = op["step"] in (None, 1)
        self.expect(op, m, ok, v, fired, want)
        if ok:
            n = M(v, m.t, m.items[a:b], m.ap)
            self.same(n, "a slice")
            self.ctx.need(v.typecode == m.t, "wrong-data", "typecode of a slice")
            if m.ap:
                self.printed(n, str(v))
            self.vec[op["to"]] = n

    def printed(self, m, s):
        want = "[" + ", ".join("%f" % x if m.t == "f" else "%d" % x for x in m.items) + "]"
        self.ctx.need(s.replace("-nan", "nan") == want.replace("-nan", "nan"), "wrong-data", "printed as %s, expected %s" % (s[:200], want[:200]))

    def op_str(self, op, m):
        ok, v, fired, _ = self.attempt(op, m, str, m.v)
        self.expect(op, m, ok, v, fired, True)
        if ok:
            if m.ap:
                self.printed(m, v)
            elif m.ap is not None:
                self.ctx.need(not v.startswith("["), "wrong-data", "a vector that must not be printed was")

    def op_iter(self, op, m):
        ok, v, fired, _ = self.attempt(op, m, (lambda: m.v.__reversed__()) if op["rev"] else (lambda: iter(m.v)))
        self.expect(op, m, ok, v, fired, True)
        if ok:
            self.its[op["it"]] = {"it": v, "m": m, "i": 0, "rev": op["rev"], "n": len(m.items), "over": False, "odd": False}

    def op_next(self, op, m_):
        s = self.its[op["it"]]
        if s is None:
            return
        m = s["m"]
        for _ in range(op["n"]):
            end = object()
            ok, v, fired, inter = self.attempt(op, m, next, s["it"], end)
            n = len(m.items)
            if m.lost or s["rev"] and n != s["n"]:
                s["odd"] = True
            if not ok:
                self.ctx.need(fired, "refused", "an iterator raised %r" % v)
                continue
            if s["over"]:
                self.ctx.need(v is end, "iterator", "an exhausted iterator delivered %r" % (v,))
                return
            if v is end:
                s["over"] = True
                if not s["odd"]:
                    self.ctx.need(s["i"] >= n, "iterator", "an iterator stopped after %d of %d elements" % (s["i"], n))
                return
            if s["odd"]:
                continue
            self.ctx.need(s["i"] < n, "iterator", "an iterator delivered more than the %d elements" % n)
            w = m.items[n - 1 - s["i"] if s["rev"] else s["i"]]
            self.ctx.need(v == w or v != v and w != w, "iterator", "element %d was delivered as %r, expected %r" % (s["i"], v, w))
            s["i"] += 1

    def op_sort(self, op, m):
        ok, v, fired, _ = self.attempt(op, m, m.v.sort)
        if ok:
            got = list(m.v)
            nan = any(x != x for x in m.items)
            self.ctx.need(sorted(bits(m.t, got)) == sorted(bits(m.t, m.items)), "wrong-data", "sorting %s gave %s" % (brief(m.items), brief(got)))
            if not nan:
                self.ctx.need(all(a <= b for a, b in zip(got, got[1:])), "wrong-data", "not sorted: %s" % brief(got))
            m.items = got
            m.ver += 1
        self.expect(op, m, ok, v, fired, True)

    def op_proj(self, op, m):
        P, ctx = self.P, self.ctx
        keys, kv = [], []
        for kind, kt, items in zip(op["keys"], op["kt"], op["kv"]):
            items = [conv(kt, x)[1] for x in items]
            if kind == "stored":
                o = self.stored(kt, items)
            elif kind == "vec" and self.vec[op["vs"]] is not None:
                x = self.vec[op["vs"]]
                o, items = x.v, list(x.items)
            else:
                o = P.PointlessPrimVector(kt, sequence=items)
            keys.append(o)
            kv.append(items)
        pt = op["pt"]
        p = [x for x in op["p"] if conv(pt, x)[0]] if pt != "f" else [float(x) for x in op["p"]]
        pv = P.PointlessPrimVector(pt, sequence=p)
        t = M(pv, pt, p)
        n = len(kv[0])
        want = pt != "f" and all(len(x) == n for x in kv) and all(0 <= x < n for x in p)
        ok, v, fired, _ = self.attempt(op, t, pv.sort_proj, *keys)
        if ok and want:
            got = list(pv)
            ctx.need(sorted(got) == sorted(p), "wrong-data", "sort_proj turned %s into %s" % (brief(p), brief(got)))
            ks = [tuple(x[i] for x in kv) for i in got]
            if not any(z != z for x in kv for z in x):
                ctx.need(all(a <= b for a, b in zip(ks, ks[1:])), "wrong-data", "sort_proj by %s gave %s" % (brief(kv), brief(got)))
            t.items = got
        self.expect(op, t, ok, v, fired, want)
        for o, x, kt in zip(keys, kv, op["kt"]):
            ctx.need(bits("f" if x and isinstance(x[0], float) else "i64" if not x or min(x) < 0 else "u64", list(o)) == bits("f" if x and isinstance(x[0], float) else "i64" if not x or min(x) < 0 else "u64", x), "wrong-data", "sort_proj changed its key vector")

    def op_ser(self, op, m):
        ok, v, fired, _ = self.attempt(op, m, m.v.serialize)
        self.expect(op, m, ok, v, fired, True)
        if ok:
            w = self.P.PointlessPrimVector(buffer=v)
            self.ctx.need(w.typecode == m.t, "wrong-data", "typecode after serialize()")
            self.same(M(w, m.t, m.items), "after serialize() and back")

    def op_clear(self, op, m):
        ok, v, fired, _ = self.attempt(op, m, m.v.clear)
        self.expect(op, m, ok, v, fired, not m.views, None, None, [] if ok else None)

    def op_minmax(self, op, m):
        ok, v, fired, _ = self.attempt(op, m, lambda: (m.v.min(), m.v.max(), m.v.range()))
        self.expect(op, m, ok, v, fired, bool(m.items))
        if ok and not any(x != x for x in m.items):
            lo, hi = min(m.items), max(m.items)
            self.ctx.need(v == (lo, hi, (lo, hi)), "wrong-data", "min, max and range are %r, expected %r" % (v, (lo, hi)))

    def op_view(self, op, m):
        if len(m.views) > 3:
            return
        ok, v, fired, _ = self.attempt(op, m, memoryview, m.v)
        if ok:
            m.views.append(v)
        self.expect(op, m, ok, v, fired, True)

    def op_vwrite(self, op, m):
        if not m.views or not m.items:
            return
        mv = m.views[-1]
        o = op["o"] % mv.nbytes
        try:
            mv[o] = op["b"]
        except (TypeError, ValueError):
            return
        b = bytearray(pack(m.t, m.items))
        b[o] = op["b"]
        m.items = list(struct.unpack("=%d%s" % (len(m.items), PV_CODE[m.t]), bytes(b)))
        m.ver += 1
        got = list(m.v)
        self.ctx.need(all(a == b or a != a and b != b for a, b in zip(got, m.items)) and len(got) == len(m.items), "view", "a byte written through a view did not reach the vector")
        m.items = got

    def op_vdrop(self, op, m):
        if m.views:
            m.views.pop(op["id"] % len(m.views)).release()
        self.same(m, "after a view was released")

    def op_remap(self, op, m):
        P = self.P
        kt = op["kt"]
        ix = [x for x in op["ix"] if conv(kt, x)[0]] if kt != "f" else [float(x) for x in op["ix"]]
        if op["stored"]:
            o = self.stored(kt, ix)
            # an all-small vector may be stored as another type
            c = min(op["cut"], len(ix))
            if c:
                o = o[c:]
                ix = ix[c:]
        else:
            o = P.PointlessPrimVector(kt, sequence=ix)
        n = len(m.items)
        ok, v, fired, _ = self.attempt(op, m, P.PointlessPrimVector.FromRemap, m.v, o)
        want = (kt != "f" or not ix) and all(0 <= x < n for x in ix)
        self.expect(op, m, ok, v, fired, want)
        if ok and want:
            t = M(v, m.t, [m.items[int(x)] for x in ix])
            self.same(t, "FromRemap")
            self.printed(t, str(v))
            self.vec[op["to"]] = t

    def op_export(self, op, m):
        P = self.P
        if op["how"] == "file":
            ok, v, fired, _ = self.attempt(op, m, P.serialize, m.v, "/sim/pv.map")
            src = "/sim/pv.map"
        else:
            ok, v, fired, _ = self.attempt(op, m, P.serialize_to_buffer if op["how"] == "buffer" else P.serialize_to_bytearray, m.v)
            src = v
        self.expect(op, m, ok, v, fired, True)
        if ok:
            h = P.Pointless(src)
            root = h.GetRoot()
            got = list(root)
            self.ctx.need(len(got) == len(m.items) and all(a == b or a != a and b != b for a, b in zip(got, m.items)), "wrong-data", "exported as %s, expected %s" % (brief(got), brief(m.items)))

    def op_drop(self, op, m):
        # the views keep the vector alive
        if op["id"] % 2:
            self.vec[op["s"]] = None
            for mv in m.views:
                bytes(mv)

    def op_misc(self, op, m):
        k = op["m"]
        v = m.v
        fn = {"len": lambda: len(v), "typecode": lambda: v.typecode, "sizeof": lambda: v.__sizeof__(), "bytes": lambda: bytes(v), "list": lambda: list(v), "bool": lambda: bool(v),
              "cmp": lambda: v == v, "noargs": lambda: self.noargs(v)}[k]
        ok, x, fired, _ = self.attempt(op, m, fn)
        self.expect(op, m, ok, x, fired, True)
        if ok:
            want = {"len": len(m.items), "typecode": m.t, "bytes": pack(m.t, m.items), "bool": bool(m.items)}
            if k in want and m.t != "f":
                self.ctx.need(x == want[k], "wrong-data", "%s gave %s" % (k, brief(x)))
            if k == "sizeof":
                self.ctx.need(x >= len(m.items) * SIZE[m.t], "wrong-data", "__sizeof__ is smaller than the elements")

    def noargs(self, v):
        for n in ("append", "append_bulk", "pop_bulk", "index", "remove", "fast_remove", "sort_proj"):
            try:
                getattr(v, n)()
            except (TypeError, ValueError, BufferError):
                pass


class It:
    """an iterator that misbehaves at one position"""

    def __init__(self, w, items, mis, m):
        self.w, self.items, self.i, self.mis, self.m = w, items, 0, mis, m
        self.keep = None

    def __iter__(self):
        return self

    def __next__(self):
        w = self.w
        if self.mis and self.i == self.mis[0] and self.mis[1]:
            pos, kind, what, then = self.mis
            self.mis = None
            w.ctx.probe("iterator_" + kind)
            if kind == "raise":
                raise Boom("iterator")
            if kind == "bad":
                return "x"
            if kind == "yield":
                w.k.yield_()
            m = self.m
            if m is not None:
                if kind == "mutate":
                    w.meddle(m, what)
                elif kind == "view" and len(m.views) < 4:
                    with w.ctx.quiet():
                        m.views.append(memoryview(m.v))
                        m.ver += 1
                elif kind == "reinit":
                    with w.ctx.quiet():
                        m.ver += 1
                        try:
                            m.v.__init__("i8" if m.t != "i8" else "u64", sequence=[1, 2, 3])
                        except BufferError:
                            pass
                        m.t = m.v.typecode
                        m.ap = None
                        if m.items is not None:
                            m.items = list(m.v)
                elif kind == "drop":
                    with w.ctx.quiet():
                        for s in range(NV):
                            if w.vec[s] is m:
                                w.vec[s] = None
                                m.ver += 1
            if then == "raise":
                raise Boom("iterator")
            if then == "bad":
                return "x"
        if self.i >= len(self.items):
            raise StopIteration
        x = self.items[self.i]
        self.i += 1
        return x


def brief(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def run(ctx, prof):
    w = World(ctx)

    def body(aid, spec):
        for op in spec["ops"]:
            w.run_op(op)
    for ep in ctx.case["epochs"]:
        ctx.run_epoch(ep, body)
    for m in w.vec:
        if m is not None:
            w.same(m, "at the end")
    for s in range(len(w.its)):
        w.its[s] = None
    w.vec = [None] * NV
    ctx.check_anomaly()
