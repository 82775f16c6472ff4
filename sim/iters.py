"""iters: any number of iterators over stored and in-memory containers, private and shared between threads, advanced in any interleaving, with
lookups and other traversals in between and allocations failing while elements are delivered.

Reference model: the order of a container is what one undisturbed traversal gives (checked against what was stored); an iterator is a position in it."""
import sys
import vals, acts
from vals import build, canon, read_canon, spec_defs, check, Mismatch, PV_TYPES

NI = 5
HOW = {"V": ["iter", "iter", "riter", "getiter"], "B": ["iter", "getiter"], "S": ["iter"], "M": ["iter", "keys", "values", "items", "items"], "P": ["iter", "iter", "riter", "getiter"]}


def g_cont(r, vp):
    k = r.random()
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 11, 16, 23, 40, 90])
    if k < 0.15:
        return ["L", [vals.g_value(r, dict(vp, depth=1, n=3), 2) for _ in range(n)]]
    if k < 0.3:
        t = r.choice(PV_TYPES)
        return ["PV", t, [vals.g_pv_item(r, t) for _ in range(n)]]
    if k < 0.45:
        return ["BV", vals.g_bits(r, vp)]
    if k < 0.65:
        return ["S", vals.g_keys(r, vp, n)]
    if k < 0.9:
        ks = vals.g_keys(r, vp, n)
        return ["D", [[k_, vals.g_value(r, dict(vp, depth=1, n=3), 2)] for k_ in ks]]
    if k < 0.95:
        return ["L", [["s", "s%d" % i] for i in range(n)]]
    return ["BA", bytes(r.randrange(256) for _ in range(n)).hex()]


def gen(r, prof):
    vp = dict(prof.get("val", {}))
    case = {"scn": "iters", "rng": r.randrange(1, 2**32), "knobs": {"fill": r.choice([0, 7, 9, 11])}, "faults": []}
    cs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        c = {"spec": g_cont(r, vp), "mem": 0, "sl": None}
        t = c["spec"][0]
        if t in ("PV", "BV") and r.random() < 0.35:
            c["mem"] = 1
        elif t in ("L", "PV", "BA") and r.random() < 0.3:
            c["sl"] = [r.randrange(100), r.randrange(100)]
        cs.append(c)
    case["conts"] = cs
    nid = [0]
    actors = []
    for a in range(r.choice(prof.get("actors", [1, 2, 2, 3, 4]))):
        ops = []
        for _ in range(r.choice(prof.get("nops", [5, 10, 18]))):
            ops.append(g_op(r, case, nid))
        if a == 0 or r.random() < 0.5:
            ops[:0] = [g_op(r, case, nid, "new")]
        actors.append({"proc": 0, "ops": ops})
    case["epochs"] = [{"actors": actors, "sched": [], "events": []}]
    return case


def g_op(r, case, nid, t=None):
    t = t or r.choices(["new", "next", "full", "look", "drop", "refetch", "part"], [4, 9, 1.5, 3, 0.7, 0.7, 1])[0]
    op = {"id": nid[0], "t": t}
    nid[0] += 1
    if t == "new":
        op.update(it=r.randrange(NI), c=r.randrange(len(case["conts"])), how=r.randrange(60))
    elif t == "next":
        op.update(it=r.randrange(NI), n=r.choice([1, 1, 1, 2, 3, 5, 10, 40, 400]))
    elif t == "drop":
        op.update(it=r.randrange(NI))
    elif t == "part":
        op.update(it=r.randrange(NI), how=r.choice(["list", "for", "zip"]), n=r.choice([1, 2, 3, 8]))
    elif t == "look":
        op.update(c=r.randrange(len(case["conts"])), act=r.randrange(1000), r=[r.randrange(1000), r.randrange(1000)])
    else:
        op.update(c=r.randrange(len(case["conts"])), how=r.randrange(60))
    return op


class Cont:
    pass


class World:
    def __init__(self, ctx):
        self.ctx, self.k, self.P = ctx, ctx.k, ctx.P
        P = ctx.P
        self.C = []
        self.it = [None] * NI
        stored = [c["spec"] for c in ctx.case["conts"]]
        self.h = P.Pointless(P.serialize_to_bytearray([build(s, P) for s in stored]))
        for i, c in enumerate(ctx.case["conts"]):
            w = Cont()
            w.i, w.spec, w.sl, w.mem = i, c["spec"], c["sl"], c["mem"]
            w.kind = acts.kind_of(w.spec)
            self.fetch(w)
            if w.mem:
                w.kind = "P"
                items = [["b", int(ch)] for ch in w.spec[1]] if w.spec[0] == "BV" else acts.items_of(w.spec)
                w.order = {"iter": [canon(x) for x in items]}
                if w.spec[0] == "BV":
                    w.order["iter"] = [read_canon(bool(int(ch)), P) for ch in w.spec[1]]
                w.full = None
            else:
                if w.sl:
                    it = acts.items_of(w.spec)
                    i0, j0 = w.sl[0] % (len(it) + 1), w.sl[1] % (len(it) + 2)
                    w.full = ["PV", w.spec[1], w.spec[2][i0:j0]] if w.spec[0] == "PV" else ["BA", bytes.fromhex(w.spec[1])[i0:j0].hex()] if w.spec[0] == "BA" else ["L", it[i0:j0]]
                else:
                    w.full = w.spec
                try:
                    check(w.o, w.full, P)
                except Mismatch as e:
                    ctx.viol("wrong-data", str(e))
                rd = self.rd
                w.order = {"iter": [rd(x) for x in w.o]}
                if w.kind == "M":
                    w.order["keys"] = w.order["iter"]
                    w.order["values"] = [rd(x) for x in w.o.values()]
                    w.order["items"] = [("kv", a, b) for a, b in zip(w.order["keys"], w.order["values"])]
                    # a traversal of the items agrees with one of the keys and one of the values
                    got = [("kv", rd(a), rd(b)) for a, b in w.o.items()]
                    ctx.need(got == w.order["items"], "iterator", "items() is not keys() with values()")
            w.order["riter"] = w.order["iter"][::-1]
            w.order["getiter"] = w.order["iter"]
            self.C.append(w)

    def rd(self, x):
        return read_canon(x, self.P, 0, 3)

    def fetch(self, w):
        P = self.P
        if w.mem:
            w.o = P.PointlessBitvector(sequence=[ch == "1" for ch in w.spec[1]]) if w.spec[0] == "BV" else P.PointlessPrimVector(w.spec[1], sequence=w.spec[2])
            return
        o = self.h.GetRoot()[w.i]
        if w.sl:
            n = len(o)
            o = o[w.sl[0] % (n + 1):w.sl[1] % (n + 2)]
        w.o = o

    def make(self, w, how):
        o = w.o
        if how == "riter":
            return reversed, (o,)
        if how == "getiter":
            return type(o).__iter__, (o,)
        if how in ("keys", "values", "items"):
            return getattr(type(o), how), (o,)
        return iter, (o,)

    def attempt(self, op, fn, *a):
        ctx, k = self.ctx, self.k
        k.pause()
        k.unpause(0)
        k.crit(2)
        try:
            return ctx.call(op, fn, *a)
        finally:
            k.pause()
            k.crit(1)

    def run_op(self, op):
        k = self.k
        k.yield_()
        with self.ctx.quiet():
            getattr(self, sys.intern("op_" + op["t"]))(op)
            self.ctx.check_anomaly()

    def how(self, w, op):
        hs = HOW[w.kind]
        h = hs[op["how"] % len(hs)]
        if h == "riter" and w.spec[0] == "BV":
            h = "iter"
        if h == "getiter" and not hasattr(type(w.o), "__iter__"):
            h = "iter"
        return h

    def norm(self, v, how):
        if how == "items":
            if not isinstance(v, tuple) or len(v) != 2:
                self.ctx.viol("iterator", "items() delivered %r" % (v,))
            return ("kv", self.rd(v[0]), self.rd(v[1]))
        return self.rd(v)

    def op_new(self, op):
        w = self.C[op["c"]]
        how = self.how(w, op)
        fn, a = self.make(w, how)
        ok, v, fired = self.attempt(op, fn, *a)
        if not ok:
            self.ctx.need(fired and isinstance(v, MemoryError), "iterator", "%s raised %r" % (how, v))
            return
        self.it[op["it"]] = {"it": v, "how": how, "order": w.order[how], "pos": 0, "over": False, "by": set()}

    def one(self, op, x, aid):
        """-> False at the end"""
        ctx = self.ctx
        end = x
        ok, v, fired = self.attempt(op, next, x["it"], end)
        if not ok:
            ctx.need(fired and isinstance(v, MemoryError), "iterator", "an iterator raised %r" % (v,))
            ctx.probe("delivery_failed")
            return True
        order, pos = x["order"], x["pos"]
        if v is end:
            ctx.need(pos == len(order), "iterator", "an iterator (%s) ended after %d of %d elements%s" % (x["how"], pos, len(order), ", a fault was injected" if fired else ""))
            if x["over"]:
                ctx.probe("exhausted_again")
            x["over"] = True
            return False
        ctx.need(not x["over"], "iterator", "an exhausted iterator delivered something")
        g = self.norm(v, x["how"])
        v = None
        ctx.need(pos < len(order), "iterator", "an iterator (%s) delivered more than the %d elements there are" % (x["how"], len(order)))
        if g != order[pos]:
            what = "lost" if g in order[pos + 1:] else "repeated" if g in order[:pos] else "invented"
            ctx.viol("iterator", "an iterator (%s) delivered %s as element %d, expected %s (%s)" % (x["how"], str(g)[:80], pos, str(order[pos])[:80], what))
        x["pos"] += 1
        x["by"].add(aid)
        if len(x["by"]) > 1:
            ctx.probe("shared_iterator")
        return True

    def op_next(self, op):
        x = self.it[op["it"]]
        if x is None:
            return
        for _ in range(op["n"]):
            if not self.one(op, x, self.aid()):
                # once more: it stays exhausted
                self.one(op, x, self.aid())
                break
            self.k.crit(0)
            self.k.yield_()
            self.k.crit(1)

    def aid(self):
        import threading
        return threading.get_ident()

    def op_part(self, op):
        """the rest of an iterator in one go, by list(), for, or zip() with itself"""
        ctx = self.ctx
        x = self.it[op["it"]]
        if x is None:
            return
        order, pos = x["order"], x["pos"]
        got = []

        def some(it, n):
            for v in it:
                got.append(v)
                if len(got) == n:
                    break

        def pairs(it, n):
            for p in zip(it, it):
                got.extend(p)
                if len(got) >= n:
                    break
        fn, a = {"list": (got.extend, (x["it"],)), "for": (some, (x["it"], op["n"])), "zip": (pairs, (x["it"], op["n"]))}[op["how"]]
        ok, v, fired = self.attempt(op, fn, *a)
        if not ok:
            ctx.need(fired and isinstance(v, MemoryError), "iterator", "iterating raised %r" % (v,))
        if x["over"]:
            ctx.need(not got, "iterator", "an exhausted iterator delivered something")
        # what was consumed when storing it failed is gone
        lost = 0 if ok else 1
        g = [self.norm(v, x["how"]) for v in got]
        ctx.need(g == order[pos:pos + len(g)], "iterator", "an iterator (%s) delivered %s after %d elements, expected %s" % (x["how"], str(g)[:100], pos, str(order[pos:pos + len(g)])[:100]))
        pos += len(g)
        if ok:
            if op["how"] == "list":
                ctx.need(pos == len(order), "iterator", "an iterator (%s) ended after %d of %d elements" % (x["how"], pos, len(order)))
                x["over"] = True
            elif op["how"] == "for" and len(got) < op["n"]:
                ctx.need(pos == len(order), "iterator", "an iterator (%s) ended after %d of %d elements" % (x["how"], pos, len(order)))
                x["over"] = True
            elif op["how"] == "zip" and len(got) < op["n"]:
                # the first of an incomplete pair is consumed
                ctx.need(len(order) - pos <= 1, "iterator", "an iterator (%s) ended after %d of %d elements" % (x["how"], pos, len(order)))
                pos = len(order)
                x["over"] = True
        x["pos"] = pos
        if lost and not x["over"]:
            self.resync(op, x)

    def resync(self, op, x):
        """whoever consumed the element may have lost it: look where the iterator is"""
        order, pos = x["order"], x["pos"]
        end = x
        v = next(x["it"], end)
        if v is end:
            self.ctx.need(pos >= len(order) - 2, "iterator", "an iterator ended after %d of %d elements" % (pos, len(order)))
            x["pos"], x["over"] = len(order), True
            return
        g = self.norm(v, x["how"])
        for d in (0, 1, 2):
            if pos + d < len(order) and order[pos + d] == g:
                x["pos"] = pos + d + 1
                # with equal neighbours the position is not known; such an iterator is not used any further
                if any(order[pos + e] == g for e in (0, 1, 2) if e != d and pos + e < len(order)):
                    for i, y in enumerate(self.it):
                        if y is x:
                            self.it[i] = None
                return
        self.ctx.viol("iterator", "an iterator (%s) delivered %s, expected %s" % (x["how"], str(g)[:80], str(order[pos:pos + 1])[:80]))

    def op_full(self, op):
        w = self.C[op["c"]]
        how = self.how(w, op)
        fn, a = self.make(w, how)
        ok, v, fired = self.attempt(op, lambda: list(fn(*a)))
        if not ok:
            self.ctx.need(fired and isinstance(v, MemoryError), "iterator", "a traversal raised %r" % (v,))
            return
        g = [self.norm(x, how) for x in v]
        self.ctx.need(g == w.order[how], "iterator", "a traversal (%s) gave %s, expected %s%s" % (how, str(g)[:150], str(w.order[how])[:150], " (a fault was injected)" if fired else ""))

    def op_look(self, op):
        w = self.C[op["c"]]
        if w.mem:
            n = len(w.order["iter"])
            if n:
                i = op["r"][0] % n
                ok, v, fired = self.attempt(op, lambda o: o[i], w.o)
                if ok:
                    self.ctx.need(self.rd(v) == w.order["iter"][i], "wrong-data", "element %d is %r" % (i, v))
                else:
                    self.ctx.need(fired and isinstance(v, MemoryError), "wrong-data", "element %d raised %r" % (i, v))
            return
        acts.perform(self.ctx, op, w.o, w.full, op["act"], op["r"], {}, "wrong-data")

    def op_drop(self, op):
        x = self.it[op["it"]]
        self.it[op["it"]] = None
        x = None

    def op_refetch(self, op):
        """the container object is let go of: its iterators keep what they need"""
        w = self.C[op["c"]]
        w.o = None
        self.fetch(w)


def run(ctx, prof):
    with ctx.quiet():
        w = World(ctx)

    def body(aid, spec):
        for op in spec["ops"]:
            w.run_op(op)
    for ep in ctx.case["epochs"]:
        ctx.run_epoch(ep, body)
    # faults have stopped: every iterator gets to its end, and a fresh traversal gives everything
    for c in w.C:
        c.o = None
    w.h = None
    for x in w.it:
        if x is None:
            continue
        n = 0
        for v in x["it"]:
            ctx.need(x["pos"] < len(x["order"]) and w.norm(v, x["how"]) == x["order"][x["pos"]], "iterator", "an iterator (%s) resumed at the end delivered something else" % x["how"])
            x["pos"] += 1
        ctx.need(x["pos"] == len(x["order"]), "iterator", "an iterator (%s) resumed at the end delivered %d of %d elements" % (x["how"], x["pos"], len(x["order"])))
        ctx.need(next(x["it"], ctx) is ctx, "iterator", "an exhausted iterator delivered something")
    ctx.check_anomaly()
