"""handles: threads of one process opening, re-opening, sharing and dropping handles and everything obtained from them, while other
processes replace and remove the files and other threads change the buffers they were opened from.

Reference model: every handle refers to one complete content (or none); everything obtained from it is a token that pins that content.
"""
import sys
import struct
import vals, acts
from vals import build, canon, read_canon, cut_eq, spec_defs, check, Mismatch

PATHS = ["/sim/a.map", "/sim/b.map"]
NH, NO, NB = 3, 8, 2
KINDS = {"V": "n_vector_refs", "S": "n_set_refs", "M": "n_map_refs", "B": "n_bitvector_refs"}


def gen(r, prof):
    vp = dict(prof.get("val", {}))
    vp["depth"] = r.choice([1, 2, 3])
    vp["n"] = r.choice([3, 6])
    case = {"scn": "handles", "rng": r.randrange(1, 2**32), "knobs": {"fill": r.choice([0, 7, 9]), "user": r.randrange(2)}}
    vs = [vals.g_top(r, vp, r.choice([15, 40])) for _ in range(3)]
    # something of every kind, so that there is something to hold on to
    extra = [["L", [["BV", "0110100111010010" * r.choice([1, 3])], g_pv5(r), ["S", [["i", 1], ["s", "x"], ["i", 7]]],
                    ["D", [[["i", 1], ["L", [["i", 5], ["s", "five"]]]], [["s", "k"], ["BV", "111"]], [["n"], ["n"]]]], ["L", [["s", "q"], ["n"], ["L", []]]]]]]
    vs += extra
    r.shuffle(vs)
    case["vals"] = vs
    case["init"] = {p: r.randrange(len(vs)) for p in PATHS}
    nid = [0]
    ops0 = []
    epochs = []
    for e in range(r.choice(prof.get("epochs", [1]))):
        na = r.choice(prof.get("actors", [1, 2]))
        actors = []
        for a in range(na):
            n = r.choice(prof.get("nops", [6, 10, 16]))
            ops = []
            # a thread begins by getting hold of something
            if r.random() < 0.8:
                ops.append(g_op(r, case, "open", nid))
                ops.append(g_op(r, case, "root", nid))
                ops[-1]["s"] = ops[-2]["s"]
            ops += [g_op(r, case, None, nid, prof) for _ in range(n)]
            actors.append({"proc": 0, "ops": ops})
        epochs.append({"actors": actors, "sched": [], "events": []})
    case["epochs"] = epochs
    case["faults"] = []
    return case


def g_pv5(r):
    t = r.choice(["u8", "i32", "f", "u64"])
    return ["PV", t, [1.0, 2.0, 3.5, 4.0, 5.0] if t == "f" else [1, 2, 3, 4, 5]]


def g_src(r, case):
    k = r.random()
    if k < 0.62:
        return ["file", r.choice(PATHS)]
    if k < 0.88:
        return ["buf", r.randrange(NB)]
    return r.choice([["file", "/sim/none.map"], ["file", "/sim/bad.map"], ["badbuf"], ["type"]])


def g_op(r, case, t, nid, prof=None):
    if t is None:
        w = prof["ops"]
        ts = list(w)
        t = r.choices(ts, [w[x] for x in ts])[0]
    op = {"id": nid[0], "t": t}
    nid[0] += 1
    if t in ("open", "reopen"):
        op.update(s=r.randrange(NH), src=g_src(r, case), ap=r.random() < 0.8, val=r.random() < 0.8)
    elif t == "root":
        op.update(s=r.randrange(NH), to=r.randrange(NO), nav=acts.g_nav(r, [0, 0, 1, 1, 2, 3]))
    elif t == "derive":
        op.update(o=r.randrange(NO), to=r.randrange(NO), how=r.choice(["child", "child", "slice", "slice", "iter", "iter", "riter", "keys", "values", "items", "mv", "mv"]), r=[r.randrange(1000), r.randrange(1000)])
    elif t == "read":
        op.update(o=r.randrange(NO), act=r.randrange(1000), r=[r.randrange(1000), r.randrange(1000)])
    elif t == "step":
        op.update(o=r.randrange(NO), n=r.choice([1, 1, 2, 5, 50]))
    elif t == "odrop":
        op.update(o=r.randrange(NO))
    elif t in ("hdrop", "refs", "info", "bare"):
        op.update(s=r.randrange(NH))
    elif t == "alias":
        op.update(s=r.randrange(NH), to=r.randrange(NH))
    elif t == "buf":
        op.update(b=r.randrange(NB), v=r.randrange(len(case["vals"])), how=r.choice(["new", "new", "resize", "fill", "clear", "drop", "kind"]), x=r.randrange(256))
    elif t == "replace":
        op.update(path=r.choice(PATHS), v=r.randrange(len(case["vals"])))
    elif t == "unlink":
        op.update(path=r.choice(PATHS))
    return op


class Tok:
    """one object of the library that refers to a handle"""

    def __init__(self, E, kind):
        self.E, self.kind, self.n = E, kind, 0
        self.over = 0             # those holders that are exhausted iterators: they may have let go of it already


BARE = ("PointlessVector", "PointlessVectorIter", "PointlessVectorRevIter", "PointlessSet", "PointlessSetIter", "PointlessMap", "PointlessMapKeyIter", "PointlessMapValueIter", "PointlessMapItemIter", "PointlessBitvectorIter",
        "PointlessPrimVectorIter", "PointlessPrimVectorRevIter")


class HE:
    """one handle"""

    def __init__(self, h):
        self.h = h
        self.cands = {None}       # contents it may refer to: (value, from a file) or None when it is not open
        self.hold = 0             # slots and operations holding the handle
        self.toks = {}            # token -> holders
        self.reopens = []
        self.ops = 0              # operations in progress on it

    def n(self):
        return len(self.toks)

    def low(self):
        return sum(1 for t in self.toks if t.n > t.over)


class OE:
    """an object slot: a container, an iterator over one, or a memory view of one"""

    def __init__(self, obj, kind, spec, defs, tok, it=None):
        self.cell = [obj]
        self.kind, self.spec, self.defs, self.tok, self.it = kind, spec, defs, tok, it
        self.busy = 0


class World:
    def __init__(self, ctx):
        self.ctx, self.k, self.P = ctx, ctx.k, ctx.P
        case = ctx.case
        self.data = []
        for s in case["vals"]:
            self.data.append(bytes(self.P.serialize_to_bytearray(build(s, self.P))))
        self.defs = [spec_defs(s) for s in case["vals"]]
        self.hist = {}
        self.now = 0
        for p, i in case["init"].items():
            self.k.fs_write(p, self.data[i])
            self.hist[p] = [(0, i)]
        self.k.fs_write("/sim/bad.map", self.data[0][:max(20, len(self.data[0]) // 2)])
        self.hist["/sim/bad.map"] = [(0, "bad")]
        self.hist["/sim/none.map"] = [(0, "bad")]
        self.H = [None] * NH
        self.O = [None] * NO
        self.B = [None] * NB
        self.live = []            # handles that something refers to
        self.running = 0          # operations in progress

    # ---- model

    def versions(self, path, start):
        """the contents the name had from start until now"""
        h = self.hist[path]
        out = []
        for i, (t, c) in enumerate(h):
            end = h[i + 1][0] if i + 1 < len(h) else self.now + 1
            if end > start:
                out.append(c)
        return out

    def hold(self, E):
        E.hold += 1

    def unhold(self, E):
        E.hold -= 1
        self.reap(E)

    def reap(self, E):
        if E.hold == 0 and not E.toks and E in self.live:
            self.live.remove(E)
            E.h = None

    def inc(self, tok):
        tok.n += 1
        tok.E.toks[tok] = tok.n
        self.moved(tok.E)

    def dec(self, tok, over=False):
        tok.n -= 1
        tok.over -= over
        if tok.n == 0:
            del tok.E.toks[tok]
            self.moved(tok.E)
            self.reap(tok.E)
        else:
            tok.E.toks[tok] = tok.n
            self.moved(tok.E)

    def moved(self, E):
        for r in E.reopens:
            r["zero"] = r["zero"] or E.low() == 0
            r["pos"] = r["pos"] or E.n() > 0

    def cands(self, E):
        c = set(E.cands)
        for r in E.reopens:
            c |= set((x, r["file"]) for x in self.new_contents(r) if x != "bad")
        return c

    def new_contents(self, rec):
        return self.versions(rec["path"], rec["start"]) if rec["file"] else [rec["content"]]

    # ---- operations

    def run_op(self, op):
        ctx, k = self.ctx, self.k
        k.yield_()
        with ctx.quiet():
            self.now += 1
            self.running += 1
            try:
                getattr(self, sys.intern("op_" + op["t"]))(op)
            finally:
                self.running -= 1
                self.now += 1
            ctx.check_anomaly()
            if self.running == 0:
                self.idle_checks(op["t"])

    def idle_checks(self, why):
        """nothing is in progress: descriptors and mappings are those of the live handles"""
        k, ctx = self.k, self.ctx
        lo = hi = 0
        for E in self.live:
            f = set(c is not None and c[1] for c in E.cands)
            lo += f == {True} and (E.hold > 0 or E.low() > 0)
            hi += True in f
        fds, maps = k.open_handles(-1)
        ctx.need(lo <= fds <= hi, "fd-leak" if fds > hi else "released-early", "after %s: %d descriptors are open for %d live handles on files" % (why, fds, lo))
        ctx.need(lo <= maps <= hi, "map-leak" if maps > hi else "released-early", "after %s: %d mappings exist for %d live handles on files" % (why, maps, lo))

    def attempt(self, op, fn, *a, **kw):
        ctx, k = self.ctx, self.k
        k.pause()
        k.unpause(0)
        k.crit(2)
        try:
            return ctx.call(op, fn, *a, **kw)
        finally:
            k.pause()
            k.crit(1)

    def release(self, op, cell):
        """drops what the cell holds, as an operation of its own"""
        if cell:
            ok, v, fired = self.attempt(op, cell.clear)
            self.ctx.need(ok or fired, "drop-failed", "dropping an object raised %r" % (v,))

    def source(self, op):
        """-> (argument, is a file, path, content)"""
        s = op["src"]
        if s[0] == "file":
            return s[1], True, s[1], None
        if s[0] == "buf":
            b = self.B[s[1]]
            if b is None:
                return bytearray(b"none"), False, None, "bad"
            # whoever holds the buffer may change it while it is being opened
            return b["b"], False, None, b["c"]
        if s[0] == "badbuf":
            return bytearray(self.data[0][:20]), False, None, "bad"
        return 12345, False, None, "bad"

    def validate(self, op):
        """validation may be left out for what is known to be an export"""
        s = op["src"]
        if s[0] == "file":
            sure = s[1] in PATHS
        else:
            sure = s[0] == "buf" and self.B[s[1]] is not None and self.B[s[1]]["c"] not in ("bad", "any")
        return not sure or op["val"]

    def op_open(self, op):
        ctx = self.ctx
        src, isfile, path, content = self.source(op)
        start = self.now
        ok, v, fired = self.attempt(op, self.P.Pointless, src, op["ap"], self.validate(op))
        src = None
        self.now += 1
        cs = self.versions(path, start) if isfile else [content]
        if not ok:
            self.failed_open(op, v, fired, "bad" in cs or content == "any")
            return
        if content == "any":
            # the buffer was overwritten by other bytes: whether these are accepted is not the question here
            v = [v]
            self.release(op, v)
            return
        ctx.need(any(c != "bad" for c in cs), "accepted", "something that is no export was opened")
        E = HE(v)
        v = None
        E.cands = set((c, isfile) for c in cs if c != "bad")
        if len(cs) > 1:
            ctx.probe("open_raced_with_replace")
        self.live.append(E)
        self.hold(E)
        self.settle(E)
        old = self.H[op["s"]]
        self.H[op["s"]] = {"E": E, "cell": [E.h]}
        E.h = None
        self.drop_h(op, old)

    def failed_open(self, op, v, fired, bad):
        if fired and isinstance(v, (MemoryError, OSError)):
            return
        self.ctx.need(bad and isinstance(v, (OSError, ValueError)), "open-failed", "opening %s failed: %r%s" % (op["src"], v, " (a fault was injected)" if fired else ""))

    def drop_h(self, op, slot):
        if slot is None:
            return
        E = slot["E"]
        self.unhold(E)
        self.release(op, slot["cell"])

    def handle(self, E):
        """the handle object, from some slot that has it"""
        for s in self.H:
            if s is not None and s["E"] is E:
                return s["cell"][0]
        return None

    def settle(self, E, h=None):
        """find out which of the possible contents the handle has"""
        if len(E.cands) < 2 or E.reopens or E.ops > 1:
            return
        h = h or E.h or self.handle(E)
        if h is None:
            return
        try:
            root = h.GetRoot()
        except ValueError:
            self.ctx.need(None in E.cands, "not-open", "a handle that was opened is not open")
            E.cands = {None}
            return
        got = self.match(root, E.cands)
        root = None
        try:
            h.GetFileNo()
            f = True
        except ValueError:
            f = False
        E.cands = set(c for c in got if c[1] == f)
        self.ctx.need(E.cands, "mixture", "a handle has a content nothing opened through it had")

    def match(self, root, cands):
        """those contents whose every value reads the same"""
        out = set()
        why = None
        for c in sorted(c for c in cands if c is not None):
            try:
                check(root, self.ctx.case["vals"][c[0]], self.P, defs=self.defs[c[0]])
                out.add(c)
            except Mismatch as e:
                why = str(e)
        self.ctx.need(out, "mixture", "a handle reads as none of the versions it may have opened: %s" % why)
        return out

    def op_bare(self, op):
        """a handle that was never opened"""
        ctx = self.ctx
        ok, h, fired = self.attempt(op, self.P.Pointless.__new__, self.P.Pointless)
        if not ok:
            ctx.need(fired, "bare", "Pointless.__new__ raised %r" % h)
            return
        for n in ("GetRoot", "GetINode", "GetFileNo"):
            try:
                getattr(h, n)()
            except ValueError:
                continue
            ctx.viol("bare", "%s of a handle that is not open raised no ValueError" % n)
        ctx.need(set(h.GetRefs().values()) == {0} and h.__sizeof__() > 0, "bare", "a handle that is not open has references")
        for n in BARE:
            ok, o, fired = ctx.call(op, getattr(self.P, n))
            if ok:
                # if they can be made at all, they can be used
                for f in (len, list, repr, self.P.serialize_to_buffer, self.P.pyobject_hash_32, next, memoryview, lambda x: x[0], lambda x: 1 in x):
                    try:
                        f(o)
                    except Exception:
                        pass
            else:
                ctx.need(fired or isinstance(o, (TypeError, ValueError)), "bare", "%s() raised %r" % (n, o))
            o = None
        E = HE(h)
        h = None
        self.live.append(E)
        self.hold(E)
        old = self.H[op["s"]]
        self.H[op["s"]] = {"E": E, "cell": [E.h]}
        E.h = None
        self.drop_h(op, old)

    def op_alias(self, op):
        s = self.H[op["s"]]
        if s is None:
            return
        old = self.H[op["to"]]
        self.H[op["to"]] = {"E": s["E"], "cell": [s["cell"][0]]}
        self.hold(s["E"])
        self.drop_h(op, old)

    def enter(self, slot):
        """an operation is going to use the handle of a slot: it holds it as well"""
        E = slot["E"]
        self.hold(E)
        E.ops += 1
        return E, [slot["cell"][0]]

    def leave(self, op, E, cell):
        E.ops -= 1
        self.settle(E, cell[0])
        self.unhold(E)
        self.release(op, cell)

    def op_reopen(self, op):
        ctx = self.ctx
        slot = self.H[op["s"]]
        if slot is None:
            return
        E, cell = self.enter(slot)
        slot = None
        src, isfile, path, content = self.source(op)
        if content == "any":
            src, content = bytearray(), "bad"
        rec = {"zero": E.low() == 0, "pos": E.n() > 0, "file": isfile, "path": path, "content": content, "start": self.now, "others": bool(E.reopens)}
        for r in E.reopens:
            r["others"] = True
        E.reopens.append(rec)
        ok, v, fired = self.attempt(op, cell[0].__init__, src, op["ap"], self.validate(op))
        src = None
        self.now += 1
        E.reopens.remove(rec)
        cs = self.new_contents(rec)
        good = set((c, isfile) for c in cs if c != "bad")
        if rec["others"]:
            ctx.probe("concurrent_reopens")
        if ok:
            ctx.probe("reopened")
            ctx.need(good, "accepted", "something that is no export was opened")
            ctx.need(rec["zero"], "reopened-in-use", "a handle was opened again although values obtained from it were alive all the time")
            E.cands = E.cands | good if rec["others"] else good
        else:
            if rec["others"]:
                E.cands = set(E.cands)
            busy = isinstance(v, ValueError) and "in use" in str(v)
            if busy:
                ctx.probe("reopen_refused")
                ctx.need(rec["pos"], "refused", "re-opening was refused although nothing obtained from the handle was alive")
            else:
                self.failed_open(op, v, fired, "bad" in cs)
        v = None
        self.leave(op, E, cell)

    def op_root(self, op):
        ctx = self.ctx
        slot = self.H[op["s"]]
        if slot is None:
            return
        E, cell = self.enter(slot)
        slot = None
        ok, v, fired = self.attempt(op, cell[0].GetRoot)
        cs = self.cands(E)
        if not ok:
            ctx.need(fired or None in cs and isinstance(v, ValueError), "not-open", "GetRoot() raised %r" % v)
        else:
            ctx.need(cs != {None}, "not-open", "GetRoot() of a handle that is not open gave something")
            c = sorted(self.match(v, cs))[0]
            spec = acts.deref(ctx.case["vals"][c[0]], self.defs[c[0]])
            o, spec = acts.nav(v, spec, op["nav"], self.P, self.defs[c[0]])
            v, o = None, [o]
            self.put(op, op["to"], o, spec, self.defs[c[0]], E)
        v = None
        self.leave(op, E, cell)

    def put(self, op, to, o, spec, defs, E):
        """a container (o: list of it, emptied) into an object slot"""
        o = o.pop()
        spec = acts.deref(spec, defs)
        kd = acts.kind_of(spec)
        if kd is None:
            return
        tok = Tok(E, kd)
        self.inc(tok)
        old = self.O[to]
        self.O[to] = OE(o, kd, spec, defs, tok)
        o = None
        self.drop_o(op, old)

    def drop_o(self, op, x):
        if x is None:
            return
        cell, tok = x.cell, x.tok
        if x.busy:
            # an operation of another thread is using it: that one lets go of it last
            x.cell = list(cell)
            x.late = True
            cell.clear()
            return
        self.dec(tok, bool(x.it and x.it.get("over")))
        self.release(op, cell)

    def op_odrop(self, op):
        x = self.O[op["o"]]
        self.O[op["o"]] = None
        self.drop_o(op, x)

    def op_hdrop(self, op):
        s = self.H[op["s"]]
        self.H[op["s"]] = None
        self.drop_h(op, s)

    def op_derive(self, op):
        ctx, P = self.ctx, self.P
        x = self.O[op["o"]]
        if x is None or x.kind not in "VSMB":
            return
        o, spec, defs, tok, how = x.cell[0], x.spec, x.defs, x.tok, op["how"]
        if how == "child" or x.kind == "B":
            c, s = acts.nav(o, spec, [op["r"][0] % 80], P, defs)
            same = o is c
            o, c = None, [c]
            if not same:
                self.put(op, op["to"], c, s, defs, tok.E)
            return
        if x.kind == "V":
            items = acts.items_of(spec)
            n = len(items)
            if how == "slice":
                i, j = op["r"][0] % (n + 1), op["r"][1] % (n + 2)
                ok, v, fired = self.attempt(op, type(o).__getitem__, o, slice(i, j))
                o = None
                if not self.got(op, ok, v, fired):
                    return
                s = ["PV", spec[1], spec[2][i:j]] if spec[0] == "PV" else ["BA", bytes(y[1] for y in items[i:j]).hex()] if spec[0] == "BA" else ["L", items[i:j]]
                v = [v]
                self.put(op, op["to"], v, s, defs, tok.E)
                return
            if how == "mv":
                tc = None
                try:
                    tc = o.typecode
                except ValueError:
                    pass
                ok, v, fired = self.attempt(op, memoryview, o)
                o = None
                if not tc and not (ok and n == 0):
                    ctx.need(not ok, "wrong-data", "a memory view of a vector which is not numeric")
                    return
                if not self.got(op, ok, v, fired):
                    return
                want = struct.pack("<%d%s" % (n, vals.PV_CODE[tc]), *[y[1] for y in items]) if n else b""
                v = [v]
                self.put_it(op, v, "mv", tok, {"want": want})
                return
            fn, order = (reversed, items[::-1]) if how == "riter" else (iter, items)
        elif x.kind == "S":
            fn, order = iter, spec[1]
        else:
            keys, values = [a for a, b in spec[1]], [b for a, b in spec[1]]
            fn, order = {"keys": (type(o).keys, keys), "values": (type(o).values, values), "items": (type(o).items, None)}.get(how, (iter, keys))
        ok, v, fired = self.attempt(op, fn, o)
        o = None
        if not self.got(op, ok, v, fired):
            return
        md = 3
        if order is None:
            left = [("kv", canon(a, defs, 0, md), canon(b, defs, 0, md)) for a, b in spec[1]]
        else:
            left = [canon(y, defs, 0, md) for y in order]
        v = [v]
        self.put_it(op, v, "it", tok, {"left": left, "ordered": x.kind == "V", "over": False})

    def got(self, op, ok, v, fired):
        self.ctx.need(ok or fired and isinstance(v, MemoryError), "refused", "%s raised %r" % (op.get("how", op["t"]), v))
        return ok

    def put_it(self, op, v, kind, tok, it):
        v = v.pop()
        self.inc(tok)
        old = self.O[op["to"]]
        self.O[op["to"]] = OE(v, kind, None, None, tok, it)
        v = None
        self.drop_o(op, old)

    def op_read(self, op):
        ctx = self.ctx
        x = self.O[op["o"]]
        if x is None:
            return
        if x.kind == "mv":
            ok, v, fired = self.attempt(op, bytes, x.cell[0])
            if self.got(op, ok, v, fired):
                ctx.need(v == x.it["want"], "wrong-data", "a memory view no longer shows the bytes of its vector")
            return
        if x.kind == "it":
            return
        acts.perform(ctx, op, x.cell[0], x.spec, op["act"], op["r"], x.defs, "wrong-data")

    def op_step(self, op):
        """the next elements of an iterator; others may run in between"""
        ctx = self.ctx
        x = self.O[op["o"]]
        if x is None or x.kind != "it":
            return self.op_read(dict(op, t="read", act=op["n"], r=[op["n"], 3])) if x else None
        x.busy += 1
        x.late = getattr(x, "late", False)
        self.inc(x.tok)
        it = x.it
        end = object()
        for i in range(op["n"]):
            ok, v, fired = self.attempt(op, next, x.cell[0], end)
            if not ok:
                ctx.need(fired and isinstance(v, MemoryError), "iterator", "an iterator raised %r" % v)
            elif v is end:
                ctx.need(not it["left"] or it["over"], "iterator", "an iterator ended %d elements early" % len(it["left"]))
                if not it["over"]:
                    it["over"] = True
                    x.tok.over += 1
                    self.moved(x.tok.E)
            else:
                ctx.need(not it["over"] and it["left"], "iterator", "an iterator delivered more than there is")
                g = ("kv", read_canon(v[0], self.P, 0, 3), read_canon(v[1], self.P, 0, 3)) if isinstance(v, tuple) else read_canon(v, self.P, 0, 3)
                self.take(it, g)
            v = None
            if it["over"]:
                break
            self.k.crit(0)
            self.k.yield_()
            self.k.crit(1)
        x.busy -= 1
        self.dec(x.tok)
        if x.late and not x.busy:
            x.late = False
            self.dec(x.tok, it["over"])
            self.release(op, x.cell)

    def take(self, it, g):
        left = it["left"]

        def eq(w):
            if isinstance(w, tuple) and w and w[0] == "kv":
                return isinstance(g, tuple) and g[0] == "kv" and cut_eq(w[1], g[1]) and cut_eq(w[2], g[2])
            return cut_eq(w, g)
        if it["ordered"]:
            self.ctx.need(eq(left[0]), "iterator", "an iterator delivered %s, expected %s" % (str(g)[:100], str(left[0])[:100]))
            del left[0]
            return
        for i, w in enumerate(left):
            if eq(w):
                del left[i]
                return
        self.ctx.viol("iterator", "an iterator delivered %s, which is not among the %d elements left" % (str(g)[:100], len(left)))

    def op_refs(self, op):
        ctx = self.ctx
        slot = self.H[op["s"]]
        if slot is None:
            return
        E, cell = self.enter(slot)
        slot = None
        ok, v, fired = self.attempt(op, cell[0].GetRefs)
        if self.got(op, ok, v, fired):
            self.cmp_refs(E, v)
        self.leave(op, E, cell)

    def cmp_refs(self, E, v):
        for kd, name in KINDS.items():
            want = sum(1 for t in E.toks if t.kind == kd)
            low = sum(1 for t in E.toks if t.kind == kd and t.n > t.over)
            self.ctx.need(low <= v[name] <= want, "refs", "%s is %r, but %d to %d such objects are alive" % (name, v[name], low, want))

    def op_info(self, op):
        ctx = self.ctx
        slot = self.H[op["s"]]
        if slot is None:
            return
        E, cell = self.enter(slot)
        slot = None
        h = cell[0]
        ok, v, fired = self.attempt(op, h.GetINode)
        cs = self.cands(E)
        if ok:
            ctx.need(any(c is not None and c[1] for c in cs), "wrong-data", "an inode of a handle which is not on a file")
        elif not fired:
            ctx.need(isinstance(v, ValueError) and any(c is None or not c[1] for c in cs), "refused", "GetINode() raised %r" % v)
        ok, v, fired = self.attempt(op, h.__sizeof__)
        if self.got(op, ok, v, fired):
            sizes = [len(self.data[c[0]]) if c else 0 for c in cs]
            base = 16
            ctx.need(min(sizes) + base < v < max(sizes) + 4096, "wrong-data", "__sizeof__() is %d" % v)
        h = None
        self.leave(op, E, cell)

    def op_buf(self, op):
        """somebody changes, resizes or drops a buffer handles were opened from"""
        b = self.B[op["b"]]
        how = op["how"]
        if b is None or how in ("new", "kind"):
            d = self.data[op["v"]]
            if op["x"] & 1:
                o = bytearray(d)
            else:
                o = self.P.PointlessPrimVector("u8")
                o.append_bulk(list(d))
            self.B[op["b"]] = {"b": o, "c": op["v"]}
            return
        o = b["b"]
        b["c"] = "any" if how in ("fill", "resize") else "bad"
        if how == "drop":
            self.B[op["b"]] = None
        elif how == "clear":
            if isinstance(o, bytearray):
                o.clear()
            else:
                o.clear()
        elif how == "fill":
            for i in range(0, len(o), 3):
                o[i] = op["x"]
        elif isinstance(o, bytearray):
            o += bytes([op["x"]]) * 5000
        else:
            o.append_bulk([op["x"]] * 5000)

    def op_replace(self, op):
        self.now += 1
        self.k.fs_replace(op["path"], self.data[op["v"]])
        self.hist[op["path"]].append((self.now, op["v"]))

    def op_unlink(self, op):
        self.now += 1
        if self.k.fs_unlink(op["path"]):
            self.hist[op["path"]].append((self.now, "bad"))


def run(ctx, prof):
    w = World(ctx)

    def body(aid, spec):
        for op in spec["ops"]:
            w.run_op(op)
    for ep in ctx.case["epochs"]:
        ctx.run_epoch(ep, body)
        w.idle_checks("the epoch")
        # whatever is still held reads as it should
        for E in w.live:
            h = w.handle(E)
            w.settle(E, h)
            if h is not None and E.cands != {None}:
                root = h.GetRoot()
                w.match(root, E.cands)
                root = None
                w.cmp_refs(E, h.GetRefs())
            h = None
        for x in w.O:
            if x is None:
                continue
            if x.kind == "mv":
                ctx.need(bytes(x.cell[0]) == x.it["want"], "wrong-data", "a memory view no longer shows the bytes of its vector")
            elif x.kind != "it":
                try:
                    check(x.cell[0], x.spec, w.P, defs=x.defs)
                except Mismatch as e:
                    ctx.viol("wrong-data", "a value reads differently at the end: %s" % e)
    ctx.need(ctx.k.maps_intact(), "mapping-changed", "the file behind a read-only mapping was modified")
    x = root = h = None
    # the objects go before the handles in half of the runs
    if ctx.case["rng"] & 1:
        w.O = []
        w.H = []
    else:
        w.H = []
        w.O = []
    fds, maps = ctx.k.open_handles(-1)
    ctx.need(fds == 0, "fd-leak", "%d descriptors are open after everything was dropped" % fds)
    ctx.need(maps == 0, "map-leak", "%d mappings are left after everything was dropped" % maps)
    ctx.check_anomaly()
