"""fsworld: exporters, re-creators, readers and unlinkers of one or several simulated processes on the simulated disk.

The reference model is the history of every destination name: after every simulated system call the content under each name is
compared with the complete contents that the running operations are entitled to install.
"""
import struct
import vals, acts
from vals import canon, read_canon, cut_eq, build, check, Mismatch, spec_defs, diff

PATHS = ["/sim/a.map", "/sim/b.map", "/sim/a.map2", "/sim/d/a.map", "rel.map"]
KEEP = {"/sim/keep.txt": b"bystander one", "/sim/d/other.bin": b"bystander two" * 40, "/sim/a.mapXXXXXX": b"x", "/tmp/t.tmp": b"tmp"}


def absn(p):
    return p if p.startswith("/") else "/sim/" + p


# ------------------------------------------------------------------ generation

def gen(r, prof):
    """prof: dict of weights, see PROFILES in props.py"""
    case = {"scn": "fsworld", "rng": r.randrange(1, 2**32), "knobs": gen_knobs(r, prof)}
    nv = r.randrange(2, 5)
    vp = dict(prof.get("val", {}))
    limit = None
    if r.random() < 0.12:
        vp["big"] = True
        vp["n"] = 30
        limit = r.choice([400, 1500, 4000])
    if r.random() < 0.25:
        vp["depth"] = r.choice([1, 2, 4])
    case["vals"] = [vals.g_top(r, vp, limit) for _ in range(nv)]
    if prof.get("bad") and r.random() < 0.5:
        case["vals"].append(vals.g_bad(r, vp))
    # every scheduled write is a step: keep the number of writes of one export in the hundreds
    size = max(vals.esize(v) for v in case["vals"]) * 12
    kn = case["knobs"]
    if size > 1500:
        if 0 < kn["bufsize"] < 512 and size > 6000:
            kn["bufsize"] = 512
        elif 0 < kn["bufsize"] < 64:
            kn["bufsize"] = 64
        if kn["bufsize"] == -1 and size > 6000:
            kn["bufsize"] = 0
        if kn["shortmax"]:
            kn["shortmax"] = 100 if size < 6000 else 1000
    good = [i for i, v in enumerate(case["vals"]) if not vals.has_bad(v)]
    npath = r.choice([1, 1, 2, 3])
    paths = r.sample(PATHS, npath)
    if r.random() < 0.1:
        paths[0] = "/sim/" + "n" * r.choice([60, 120, 200, 240]) + ".map"
    case["init"] = {absn(p): r.choice(good) for p in paths if r.random() < prof.get("init", 0.7)}
    if prof.get("damaged") and r.random() < 0.35:
        case["damaged"] = {"/sim/bad.map": [r.choice(good), r.randrange(6), r.randrange(1 << 16), r.randrange(256)]}
    nid = [0]
    epochs = []
    for e in range(r.choice(prof.get("epochs", [1]))):
        na = r.choice(prof.get("actors", [1]))
        actors = []
        for a in range(na):
            # separate processes mostly; sometimes two threads of one process
            proc = a if a == 0 or r.random() < 0.8 else r.randrange(a)
            n = r.choice(prof.get("nops", [1, 2, 3]))
            ops = [gen_op(r, prof, case, paths, good, nid) for _ in range(n)]
            actors.append({"proc": proc, "ops": ops})
        epochs.append({"actors": actors, "sched": [], "events": []})
    case["epochs"] = epochs
    case["faults"] = []
    return case


def gen_knobs(r, prof):
    return {"bufsize": r.choice([0, 0, -1, 1, 7, 64, 512, 4096, 65536]) if prof.get("knobs", True) else 0, "split": int(r.random() < prof.get("split", 0.5)),
            "fill": r.choice([0, 1, 7, 9, 11]), "shortmax": r.choice([0, 0, 0, 1, 5, 100]), "user": r.randrange(2)}


def gen_op(r, prof, case, paths, good, nid):
    w = prof["ops"]
    ts = list(w)
    t = r.choices(ts, [w[x] for x in ts])[0]
    op = {"id": nid[0], "t": t}
    nid[0] += 1
    vi = lambda: r.randrange(len(case["vals"])) if prof.get("bad") else r.choice(good)
    if t == "export":
        op.update(v=vi(), path=r.choice(paths), how=r.choice(prof.get("how", ["py", "py", "py", "c"])))
        o = {}
        if r.random() < 0.2:
            o["normalize_bitvector"] = r.random() < 0.5
        if r.random() < 0.2:
            o["unwiden_strings"] = r.random() < 0.7
        if o:
            op["opt"] = o
        if r.random() < 0.03:
            op["path"] = "/sim/nodir/x.map"
    elif t == "tobuf":
        op.update(v=vi(), how=r.choice(["buffer", "bytearray", "c"]))
    elif t == "v32":
        op.update(v=r.choice(good), path=r.choice(paths + [None]))
    elif t == "cdup":
        op.update(keys=acts.g_dup(r), z=r.randrange(4096))
    elif t in ("open", "reopen"):
        op.update(slot=r.randrange(3), path=r.choice(paths + (["/sim/missing.map", "/sim/bad.map"] if r.random() < 0.15 else [])))
    elif t == "openbuf":
        op.update(slot=r.randrange(3), v=r.choice(good), how=r.choice(["buffer", "bytearray"]))
    elif t in ("read", "drop", "refs"):
        op.update(slot=r.randrange(3))
    elif t == "probe":
        op.update(slot=r.randrange(3), nav=acts.g_nav(r, [0, 0, 1, 1, 2, 3]), act=r.randrange(1000), r=[r.randrange(1000), r.randrange(1000)])
    elif t == "battery":
        op.update(slot=r.randrange(3), seq=[[acts.g_nav(r, [0, 1, 1, 2, 2, 3]), r.randrange(1000), r.randrange(1000), r.randrange(1000)] for _ in range(r.choice([10, 25, 50]))])
    elif t == "reexport":
        op.update(slot=r.randrange(3), path=r.choice(paths), nav=acts.g_nav(r, [0, 0, 1, 2]))
    elif t == "recreate":
        op.update(src=r.choice(paths + (["/sim/missing.map", "/sim/bad.map"] if r.random() < 0.15 else [])), dst=r.choice(paths))
    elif t == "unlink":
        op.update(path=r.choice(paths))
    elif t == "walk":
        op.update(path=r.choice(paths))
    if t in ("export", "tobuf", "openbuf") and r.random() < 0.5:
        op["route"] = r.randrange(1, 1 << 16)
    return op


# ------------------------------------------------------------------ run

class World:
    def __init__(self, ctx, prof):
        self.ctx, self.P, self.k, self.case, self.prof = ctx, ctx.P, ctx.k, ctx.case, prof
        self.hist = {}          # path -> [(gen step, content or None)]
        self.known = {}         # content -> spec
        self.rec = {}           # content -> re-created content
        self.exp = {}           # (v, how, opts) -> expected bytes or None (refused)
        self.cur_op = {}        # actor -> running op record
        self.now = 0
        self.crashed = False
        self.slots = {}
        self.unlink_fault = False
        self.defs = [spec_defs(s) for s in self.case["vals"]]
        self.tracked = set()
        self.objs = {}

    # ---- oracles (run in the main thread or under quiet)

    def value(self, i, route=0):
        """the value; a route makes its vectors by other operations, which must not show in what is exported"""
        key = (i, route)
        if key not in self.objs:
            self.objs[key] = vals.build_by(route, self.case["vals"][i], self.P)
        return self.objs[key]

    def expected(self, i, how="py", opt=None):
        key = (i, "c" if how == "c" else "py", tuple(sorted((opt or {}).items())))
        if key in self.exp:
            return self.exp[key]
        spec = self.case["vals"][i]
        if how == "c":
            if vals.has_bad(spec):
                b = None
            else:
                ok, b = self.k.c_build(acts.to_program(spec), None)
                self.ctx.need(ok, "refused", "the C interface refuses a valid value: %s %s" % (b, str(spec)[:200]))
        else:
            kn = self.case.get("knobs", {})
            self.k.knobs(fill=0)      # another memory content than during the run
            try:
                b = bytes(memoryview(self.P.serialize_to_buffer(self.value(i), **(opt or {}))))
                if vals.has_bad(spec):
                    self.ctx.viol("accepted-bad", "an unsupported value was exported: %s" % str(spec)[:200])
            except (ValueError, OSError, TypeError, OverflowError, MemoryError) as e:
                if not vals.has_bad(spec):
                    self.ctx.viol("refused", "export of a valid value is refused: %r %s" % (e, str(spec)[:300]))
                b = None
            self.k.knobs(fill=kn.get("fill", 7))
        self.exp[key] = b
        if b is not None:
            self.learn(b, spec)
        return b

    def learn(self, b, spec):
        if b in self.known:
            return
        self.known[b] = spec
        try:
            h = self.P.Pointless(bytearray(b))
            check(h.GetRoot(), spec, self.P)
        except Mismatch as e:
            self.ctx.viol("wrong-data", "exported value reads back differently: %s" % e)
        except Exception as e:
            self.ctx.viol("wrong-data", "exported value cannot be read back: %r" % e)
        if self.prof.get("cdump"):
            e = vals.c_check(self.k, b, spec)
            self.ctx.need(e is None, "wrong-data", "C interface: %s" % e)
            self.ctx.probe("c_dump")

    def recreated(self, b):
        """the bytes re-creating content b must give, or None if it must be refused"""
        if b is None:
            return None
        if b in self.rec:
            return self.rec[b]
        k = self.k
        k.fs_write("/tmp/o.src", b)
        ok, err = k.c_recreate("/tmp/o.src", "/tmp/o.dst")
        out = k.fs_read("/tmp/o.dst") if ok else None
        if ok:
            if b in self.known:
                self.learn(out, self.known[b])
                more = [n for n, x, y in zip(("strings", "vectors", "bit vectors", "sets", "maps"), counts(b), counts(out)) if y > x]
                self.ctx.need(not more, "recreate", "re-creation turned what was shared into copies: more %s than before (%s, %s)" % (" and ".join(more), counts(b), counts(out)))
            ok2, err2 = k.c_recreate("/tmp/o.src", "/tmp/o.dst")
            self.ctx.need(ok2 and k.fs_read("/tmp/o.dst") == out, "recreate", "re-creating the same file again gives different bytes: %s" % err2)
            # keys which collide may change places, but nothing may be gained or lost
            ok2, err2 = k.c_recreate("/tmp/o.dst", "/tmp/o.dst")
            self.ctx.need(ok2, "recreate", "the result of a re-creation cannot be re-created: %s" % err2)
            self.ctx.need(len(k.fs_read("/tmp/o.dst")) == len(out), "recreate", "re-creating the result again gives another size")
        elif b in self.known:
            self.ctx.viol("recreate", "re-creation of an intact file failed: %s" % err)
        k.fs_unlink("/tmp/o.src")
        k.fs_unlink("/tmp/o.dst")
        self.rec[b] = out
        return out

    # ---- file-system observation

    def snapshot(self):
        return {n: self.k.fs_read(n) for n, ino, ln, mode in self.k.fs_list()}

    def record(self, path, content):
        self.hist.setdefault(path, []).append((self.now, content))

    def state(self, path):
        h = self.hist.get(absn(path))
        return h[-1][1] if h else None

    def states_since(self, path, t):
        h = self.hist.get(absn(path), [])
        out = []
        for i, (w, c) in enumerate(h):
            if w >= t or i == len(h) - 1 or h[i + 1][0] > t:
                out.append(c)
        return out or [None]

    def observe(self, actor, event):
        g = self.k.fs_gen()
        if g == getattr(self, "last_gen", -1) and event is None:
            return
        self.last_gen = g
        self.now += 1
        if event and event[0] == "power":
            self.after_power()
            return
        if event and event[0] == "crash":
            for a in event[1]:
                self.cur_op.pop(a, None)
            self.crashed = True
        snap = self.snapshot()
        op = self.cur_op.get(actor)
        for p, c in KEEP.items():
            if snap.get(p) != c:
                self.ctx.viol("bystander", "%s, which no operation names, was changed or removed" % p)
        for p in set(self.hist) | set(x for x in snap if x in self.tracked):
            was = self.hist.get(p, [(0, None)])[-1][1]
            now = snap.get(p)
            if was == now:
                continue
            if op is None or op.get("dst") != p:
                self.ctx.viol("interference", "%s changed while no operation on it was running in this process" % p)
            if op["t"] == "unlink":
                if now is not None:
                    self.ctx.viol("interference", "%s was replaced by an unlink" % p)
            else:
                if now is None:
                    self.ctx.viol("missing", "%s went missing during an %s" % (p, op["t"]))
                if not self.legal(op, now):
                    self.ctx.viol("partial", "%s holds %d bytes that are not a complete version during an %s" % (p, len(now), op["t"]))
                op["installed"] = self.now
                self.ctx.probe("installed")
            self.record(p, now)

    def legal(self, op, content):
        if op["t"] == "recreate":
            for c in self.states_since(op["src"], op["start"]):
                if c is not None and self.recreated(c) == content:
                    return True
            return False
        return content == op["want"]

    def after_power(self):
        snap = self.snapshot()
        self.cur_op.clear()
        self.crashed = True
        for p, c in KEEP.items():
            if snap.get(p) != c:
                self.ctx.viol("bystander", "%s was changed or removed by power loss" % p)
        for p in self.tracked:
            now = snap.get(p)
            h = self.hist.get(p, [(0, None)])
            if now not in [c for _, c in h]:
                self.ctx.viol("torn" if now else "missing", "after power loss %s %s" % (p, "does not exist although it did throughout" if now is None else "holds %d bytes that never were a complete version of it%s" % (len(now), " (all zero)" if not any(now) else "")))
            if len(h) > 1 and now != h[-1][1]:
                self.ctx.probe("power_loss_rolled_back")
            self.hist[p] = [(self.now, now)]
        self.slots.clear_all = True

    def temps(self):
        return [n for n, ino, ln, mode in self.k.fs_list() if n not in self.tracked and n not in KEEP]

    # ---- operations (in actor threads)

    def run_op(self, aid, op, slots):
        ctx, k, P = self.ctx, self.k, self.P
        t = op["t"]
        rec = {"t": t, "start": self.now, "id": op["id"]}
        temps_before = None
        with ctx.quiet():
            solo = len(self.cur_op) == 0 and not self.crashed
            self.solo = solo
            if solo:
                k.note("op %d %s" % (op["id"], t))
        if t == "export":
            with ctx.quiet():
                want = self.expected(op["v"], op["how"], op.get("opt"))
                obj = self.value(op["v"], op.get("route", 0))
            rec.update(dst=absn(op["path"]), want=want)
            self.cur_op[aid] = rec
            if op["how"] == "c" and want is not None:
                prog = acts.to_program(self.case["vals"][op["v"]])
                ok, v, fired = ctx.call(op, k.c_build, prog, op["path"])
                if not ok:
                    raise v
                ok, err = v
            else:
                ok, err, fired = ctx.call(op, P.serialize, obj, op["path"], **(op.get("opt") or {}))
            self.after_export(aid, op, rec, ok, err, fired)
        elif t == "reexport":
            h = slots.get(op["slot"])
            if not h:
                return
            with ctx.quiet():
                o, spec = acts.nav(h["h"].GetRoot(), h["spec"], op["nav"], P, h["defs"])
                spec = closed(inline(spec, h["defs"]), h["defs"])
                want = bytes(memoryview(P.serialize_to_buffer(o)))
                if not vals_cyclic(spec):
                    self.learn(want, spec)
                else:
                    self.known.setdefault(want, spec)
            rec.update(dst=absn(op["path"]), want=want)
            self.cur_op[aid] = rec
            ok, err, fired = ctx.call(op, P.serialize, o, op["path"])
            self.after_export(aid, op, rec, ok, err, fired)
            o = None
        elif t == "recreate":
            rec.update(dst=absn(op["dst"]), src=op["src"], want=None)
            self.cur_op[aid] = rec
            ok, v, fired = ctx.call(op, k.c_recreate, op["src"], op["dst"])
            if not ok:
                raise v
            ok, err = v
            self.after_recreate(aid, op, rec, ok, err, fired)
        elif t == "tobuf":
            with ctx.quiet():
                want = self.expected(op["v"], op["how"])
                obj = self.value(op["v"], op.get("route", 0))
            self.cur_op[aid] = rec
            if op["how"] == "c" and want is not None:
                ok, v, fired = ctx.call(op, k.c_build, acts.to_program(self.case["vals"][op["v"]]), None)
                if not ok:
                    if not fired:
                        raise v
                else:
                    ok, v = v
            else:
                ok, v, fired = ctx.call(op, P.serialize_to_buffer if op["how"] != "bytearray" else P.serialize_to_bytearray, obj)
                if ok:
                    v = bytes(memoryview(v))
            if ok:
                ctx.need(want is not None, "accepted-bad", "an unsupported value was exported")
                ctx.need(v == want, "nondeterministic", "exporting to a %s gives other bytes than before (%s)" % (op["how"], bdiff(v, want)))
            elif want is not None:
                ctx.need(fired, "refused", "export to a %s failed without cause: %s" % (op["how"], v))
            with ctx.quiet():
                self.source_intact(op["v"], op.get("route", 0))
        elif t == "v32":
            # a format version which can no longer be written: always refused
            rec.update(dst=op["path"] and absn(op["path"]), want=None)
            self.cur_op[aid] = rec
            ok, v, fired = ctx.call(op, k.c_build, acts.to_program(self.case["vals"][op["v"]]), op["path"], 1)
            if ok or not fired:
                ctx.need(ok and not v[0], "accepted-bad", "an export in an unsupported format version did not fail properly: %s" % (v,))
            if op["path"]:
                ctx.need(rec.get("installed") is None, "failed-but-installed", "a refused export changed %s" % op["path"])
                self.no_residue(aid, op, fired)
        elif t == "cdup":
            # a set of two keys through the C interface, possibly the same one in two forms
            a, b, dup = op["keys"]
            self.cur_op[aid] = rec
            ok, v, fired = ctx.call(op, k.c_build, acts.dup_program(a, b, op["z"]), None)
            if ok and v[0]:
                ctx.need(not dup, "accepted-bad", "a set of %s twice was exported" % a)
                with ctx.quiet():
                    m = vals.c_check(k, v[1], ["S", [a, b]]) or vals.py_check(P, v[1], ["S", [a, b]])
                    ctx.need(m is None, "wrong-data", "a set of %s and %s: %s" % (a, b, m))
            elif not fired:
                ctx.need(ok and dup, "refused", "a set of %s and %s was refused: %s" % (a, b, v))
        elif t in ("open", "reopen"):
            self.cur_op[aid] = rec
            h = slots.get(op["slot"])
            if t == "reopen" and h:
                hh = h["h"]
                del slots[op["slot"]]
                ok, v, fired = ctx.call(op, hh.__init__, op["path"])
                v = hh if ok else v
                hh = None
            else:
                slots.pop(op["slot"], None)
                ok, v, fired = ctx.call(op, P.Pointless, op["path"])
            h = None
            with ctx.quiet():
                self.opened(op, rec, ok, v, fired, slots)
        elif t == "openbuf":
            self.cur_op[aid] = rec
            with ctx.quiet():
                want = self.expected(op["v"])
                buf = P.serialize_to_buffer(self.value(op["v"], op.get("route", 0))) if op["how"] == "buffer" else bytearray(want)
            slots.pop(op["slot"], None)
            ok, v, fired = ctx.call(op, P.Pointless, buf)
            if ok:
                slots[op["slot"]] = {"h": v, "spec": self.case["vals"][op["v"]], "defs": self.defs[op["v"]]}
            else:
                ctx.need(fired, "open-failed", "opening an intact buffer failed: %r" % v)
        elif t == "read":
            h = slots.get(op["slot"])
            if h:
                self.cur_op[aid] = rec
                with ctx.quiet():
                    try:
                        check(h["h"].GetRoot(), h["spec"], P, defs=h["defs"])
                    except Mismatch as e:
                        ctx.viol("wrong-data", "a handle no longer reads the version it opened: %s" % e)
        elif t == "probe":
            h = slots.get(op["slot"])
            if h:
                self.cur_op[aid] = rec
                with ctx.quiet():
                    o, spec = acts.nav(h["h"].GetRoot(), h["spec"], op["nav"], P, h["defs"])
                acts.perform(ctx, op, o, spec, op["act"], op["r"], h["defs"], "wrong-data")
                o = None
        elif t == "battery":
            h = slots.get(op["slot"])
            if h:
                self.cur_op[aid] = rec
                for nav, act, r0, r1 in op["seq"]:
                    with ctx.quiet():
                        o, spec = acts.nav(h["h"].GetRoot(), h["spec"], nav, P, h["defs"])
                    acts.perform(ctx, op, o, spec, act, [r0, r1], h["defs"], "wrong-data")
                    o = None
        elif t == "drop":
            if op["slot"] in slots:
                self.cur_op[aid] = rec
                d = slots.pop(op["slot"])
                h = [d.pop("h")]
                d = None
                ok, v, fired = ctx.call(op, h.clear)
                if not ok and not fired:
                    raise v
        elif t == "unlink":
            rec.update(dst=absn(op["path"]))
            self.cur_op[aid] = rec
            ctx.call(op, k.fs_unlink, op["path"])
        elif t == "walk":
            self.cur_op[aid] = rec
            ok, v, fired = ctx.call(op, k.c_walk, op["path"])
            if not ok:
                raise v
            with ctx.quiet():
                cands = self.states_since(op["path"], rec["start"])
                if v[0]:
                    good = [k.c_walk(c)[1] for c in cands if c is not None]
                    ctx.need(v[1] in good, "wrong-data", "the C reader saw something that is no version of %s" % op["path"])
                else:
                    ctx.need(fired or None in cands or absn(op["path"]) not in self.tracked or any(c is not None and c not in self.known for c in cands), "open-failed", "the C reader could not open %s: %s" % (op["path"], v[1]))
        # the step in which the operation ended may have changed files
        self.observe(aid, None)
        self.cur_op.pop(aid, None)

    def after_export(self, aid, op, rec, ok, err, fired):
        ctx, k = self.ctx, self.k
        self.observe(aid, None)
        with ctx.quiet():
            k.note("export -> %s" % ("ok" if ok else str(err)[:80]))
            if ok:
                ctx.need(rec["want"] is not None, "accepted-bad", "an unsupported value was exported")
                now = self.state(rec["dst"])
                if rec.get("installed") is None:
                    # an export of the very same content over itself is invisible
                    same = rec["want"] in self.states_since(rec["dst"], rec["start"])
                    ctx.need(same, "not-installed", "an export reported success but its content never appeared under %s" % rec["dst"])
                if self.solo_now(aid, rec):
                    ctx.need(now == rec["want"], "wrong-content", "an export reported success but %s holds something else" % rec["dst"])
            else:
                ctx.need(rec.get("installed") is None, "failed-but-installed", "an export reported failure (%s) but changed %s" % (err, rec["dst"]))
                if not fired and rec["want"] is not None and "/nodir/" not in rec["dst"] and len(rec["dst"]) < 235:
                    ctx.viol("export-failed", "an export failed without cause: %r" % (err,))
            if fired:
                ctx.probe("export_fault_%s" % ("ok" if ok else "failed"))
            self.no_residue(aid, op, fired)
            if op["t"] == "export":
                self.source_intact(op["v"], op.get("route", 0))

    def solo_now(self, aid, rec):
        return self.solo and len(self.cur_op) == 1 and not self.crashed

    def no_residue(self, aid, op, fired):
        ctx, k = self.ctx, self.k
        if any(f[0] == op["id"] and f[1] in ("unlink",) for f in self.case.get("faults", [])):
            self.unlink_fault = True
        if any(f[0] == op["id"] and f[1] in ("close",) for f in self.case.get("faults", [])):
            pass
        fds = [f for f in k.open_inos()[0]]
        if self.solo_now(aid, None):
            ctx.need(k.open_handles(-1)[0] == sum(1 for s in self.live_handles()), "fd-leak", "after an %s %d descriptors are open but %d handles live" % (op["t"], k.open_handles(-1)[0], sum(1 for s in self.live_handles())))
            if not self.unlink_fault:
                tmp = self.temps()
                ctx.need(not tmp, "residue", "after an %s (%s) temporary files are left behind: %s" % (op["t"], "fault injected" if fired else "no fault", tmp))

    def live_handles(self):
        for aid, slots in self.slots.items():
            for s, h in slots.items():
                if "path" in h:
                    yield h

    def source_intact(self, i, route=0):
        if vals.has_bad(self.case["vals"][i]):
            return
        spec = self.case["vals"][i]
        try:
            same = pyeq(self.value(i, route), build(spec, self.P))
        except RecursionError:
            same = True
        self.ctx.need(same, "source-damaged", "the exported object was changed by the export")

    def after_recreate(self, aid, op, rec, ok, err, fired):
        ctx = self.ctx
        self.observe(aid, None)
        with ctx.quiet():
            cands = self.states_since(op["src"], rec["start"])
            if absn(op["src"]) == "/sim/bad.map":
                cands = [ctx.k.fs_read("/sim/bad.map")]
            if ok:
                now = self.state(rec["dst"])
                if rec.get("installed") is None:
                    outs = [self.recreated(c) for c in cands if c is not None]
                    ctx.need(any(o is not None and o in self.states_since(rec["dst"], rec["start"]) for o in outs), "not-installed", "a re-creation reported success but nothing was installed under %s" % rec["dst"])
            else:
                ctx.need(rec.get("installed") is None, "failed-but-installed", "a re-creation reported failure but changed %s" % rec["dst"])
                legit = fired or any(c is None or c not in self.known for c in cands) or len(rec["dst"]) >= 235
                ctx.need(legit, "recreate-failed", "a re-creation failed without cause: %s" % err)
            self.no_residue(aid, op, fired)

    def opened(self, op, rec, ok, v, fired, slots):
        ctx, P = self.ctx, self.P
        path = absn(op["path"])
        cands = self.states_since(path, rec["start"])
        if path == "/sim/bad.map" and path in self.case.get("damaged", {}):
            if ok:
                try:
                    read_canon(v.GetRoot(), P)
                except Exception:
                    pass
            return
        if not ok:
            ctx.need(fired or None in cands, "open-failed", "%s could not be opened although a complete version existed throughout: %r" % (path, v))
            return
        root = v.GetRoot()
        got = read_canon(root, P)
        for c in cands:
            if c is None:
                continue
            s = self.known.get(c)
            if s is not None and cut_eq(canon(s), got):
                d = spec_defs(s)
                try:
                    check(root, s, P, defs=d)
                except Mismatch as e:
                    ctx.viol("wrong-data", "%s reads differently from what was exported: %s" % (path, e))
                slots[op["slot"]] = {"h": v, "spec": s, "defs": d, "path": path}
                if len([x for x in cands if x is not None]) > 1:
                    ctx.probe("open_raced_with_replace")
                return
        if any(c is not None and c not in self.known for c in cands):
            return
        ctx.viol("wrong-version", "%s opened, but what is read is no version it had during the open: %s" % (path, str(got)[:200]))


def counts(b):
    """how many strings, vectors, bit vectors, sets and maps a file stores"""
    return struct.unpack_from("<5I", b, 8)


def bdiff(a, b):
    if b is None:
        return "expected none"
    if len(a) != len(b):
        return "%d bytes, expected %d" % (len(a), len(b))
    d = [i for i in range(len(a)) if a[i] != b[i]]
    return "%d bytes differ, first at %d" % (len(d), d[0] if d else -1)


def inline(spec, defs):
    return acts.deref(spec, defs)


def closed(spec, defs, inside=None):
    """the same value, where a reference to something defined outside defines it itself"""
    if inside is None:
        inside = set(vals.spec_defs(spec))
    t = spec[0]
    if t == "ref":
        if spec[1] in inside or spec[1] not in defs:
            return spec
        inside.add(spec[1])
        inside |= set(vals.spec_defs(defs[spec[1]]))
        return ["def", spec[1], closed(defs[spec[1]], defs, inside)]
    if t == "def":
        return ["def", spec[1], closed(spec[2], defs, inside)]
    if t in ("L", "T", "S", "F"):
        return [t, [closed(x, defs, inside) for x in spec[1]]]
    if t == "D":
        return [t, [[kk, closed(v, defs, inside)] for kk, v in spec[1]]]
    return spec


def vals_cyclic(spec):
    return "ref" in str(spec)


def pyeq(a, b, depth=0):
    """deep equality of freshly built source objects, safe for cycles and for the library's own types"""
    if depth > 8:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(pyeq(x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(pyeq(x, y, depth + 1) for x, y in zip(a, b)) and all(pyeq(x, y, depth + 1) for x, y in zip(a.values(), b.values()))
    if isinstance(a, (set, frozenset)):
        return len(a) == len(b) and (a == b)
    n = type(a).__name__
    if n.endswith(("PointlessPrimVector", "PointlessBitvector")):
        return list(a) == list(b)
    if a != a:
        return True
    return a == b


def run(ctx, prof):
    case, k, P = ctx.case, ctx.k, ctx.P
    w = World(ctx, prof)
    ctx.world = w
    for p, c in KEEP.items():
        k.fs_write(p, c)
    for p in PATHS:
        w.tracked.add(absn(p))
    for ep in case["epochs"]:
        for a in ep["actors"]:
            for op in a["ops"]:
                for f in ("path", "dst"):
                    if op.get(f) and op[f] not in ("/sim/bad.map",):
                        w.tracked.add(absn(op[f]))
    for p, i in case.get("init", {}).items():
        b = w.expected(i)
        if b is not None:
            w.tracked.add(p)
            k.fs_write(p, b)
    for p, d in case.get("damaged", {}).items():
        b = w.expected(d[0])
        k.fs_write(p, damage(b, d))
        KEEP_D = dict(KEEP)
    for p in w.tracked:
        w.hist[p] = [(0, k.fs_read(p))]
    # the damaged file is no destination and is not a leftover
    w.tracked |= set(case.get("damaged", {}))
    for p in case.get("damaged", {}):
        w.hist[p] = [(0, k.fs_read(p))]
    ctx.on_step = w.observe
    for ei, ep in enumerate(case["epochs"]):
        w.slots = Slots()
        for e in ep.get("events", []):
            pass

        def body(aid, spec):
            slots = w.slots.setdefault(aid, {})
            for op in spec["ops"]:
                w.run_op(aid, op, slots)
            with ctx.quiet():
                # what was opened must still read as it did, whatever happened to the name since
                for s in sorted(slots):
                    h = slots[s]
                    try:
                        check(h["h"].GetRoot(), h["spec"], P, defs=h["defs"])
                    except Mismatch as e:
                        ctx.viol("wrong-data", "a handle no longer reads the version it opened: %s" % e)
                h = None
                slots.clear()
        r = ctx.run_epoch(ep, body)
        if not k.maps_intact():
            ctx.viol("mapping-changed", "the file behind a read-only mapping was modified")
        if r == "done":
            w.observe(None, None)
            w.cur_op.clear()
        # a fresh process looks at every destination
        for p in sorted(w.tracked):
            c = k.fs_read(p)
            if c is None or p in case.get("damaged", {}):
                continue
            s = w.known.get(c)
            if s is None and c in w.rec.values():
                continue        # re-created from a damaged but acceptable source
            if s is None:
                ctx.viol("partial", "%s holds %d bytes that are no complete version" % (p, len(c)))
            if not vals_cyclic(s) and ei == len(case["epochs"]) - 1:
                try:
                    h = P.Pointless(p)
                    check(h.GetRoot(), s, P)
                    h = None
                except Mismatch as e:
                    ctx.viol("wrong-data", "after restart %s reads differently: %s" % (p, e))
                except Exception as e:
                    ctx.viol("open-failed", "after restart %s cannot be opened: %r" % (p, e))
        if not w.crashed:
            fds, maps = k.open_handles(-1)
            ctx.need(fds == 0, "fd-leak", "%d descriptors are still open after every handle was dropped" % fds)
            ctx.need(maps == 0, "map-leak", "%d mappings are left after every handle was dropped" % maps)
            if not w.unlink_fault and not any(f[1] == "unlink" for f in case.get("faults", [])):
                tmp = w.temps()
                ctx.need(not tmp, "residue", "when all have finished temporary files are left behind: %s" % tmp)
        ctx.check_anomaly()
    # everything works again once the faults have cleared
    if prof.get("retry", True) and case["vals"]:
        for op in [o for ep in case["epochs"] for a in ep["actors"] for o in a["ops"] if o["t"] == "export" and "/nodir/" not in o["path"]][:3]:
            want = w.expected(op["v"], op["how"], op.get("opt"))
            if want is None or len(absn(op["path"])) >= 235:
                continue
            try:
                if op["how"] == "c":
                    ok, err = k.c_build(acts.to_program(case["vals"][op["v"]]), op["path"])
                    ctx.need(ok, "retry-failed", "a retry without faults failed: %s" % err)
                else:
                    P.serialize(w.value(op["v"]), op["path"], **(op.get("opt") or {}))
            except Violation_ as e:
                raise
            except Exception as e:
                ctx.viol("retry-failed", "a retry without faults failed: %r" % e)
            ctx.need(k.fs_read(op["path"]) == want, "retry-failed", "a retry without faults produced different bytes")
            ctx.check_anomaly()


from engine import Violation as Violation_


class Slots(dict):
    clear_all = False


def damage(b, d):
    b = bytearray(b)
    _, how, x, y = d
    n = len(b)
    if how == 0:
        b[x % n] ^= (y | 1)
    elif how == 1:
        del b[x % n:]
    elif how == 2:
        b += bytes([y]) * (1 + x % 64)
    elif how == 3:
        i = x % n
        b[i:i + 16] = bytes(len(b[i:i + 16]))
    elif how == 4:
        i = (x % n) & ~3
        b[i:i + 4] = b"\xff" * len(b[i:i + 4])
    else:
        b = bytearray()
    return bytes(b)
