"""damage: whatever the simulated storage hands back (flipped bits, torn, zeroed, swapped or truncated blocks, mixtures of two versions),
opening is refused or the handle can be traversed safely. One run makes many attempts on the same stored values."""
import itertools, struct
import vals, acts
from vals import build, spec_defs

U32 = [0, 1, 2, 3, 4, 7, 8, 15, 16, 29, 30, 31, 32, 255, 256, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x1fffffff, 0x20000000, 0x3fffffff, 0x40000000, 0xfffff, 0x10000, 0xc0000000]


def gen(r, prof):
    vp = dict(prof.get("val", {}))
    vp["depth"] = r.choice([1, 2, 3, 4])
    vp["n"] = r.choice([3, 5, 8])
    case = {"scn": "damage", "rng": r.randrange(1, 2**32), "knobs": {"fill": r.choice([0, 7, 9, 11])}}
    case["vals"] = [vals.g_top(r, vp, r.choice([15, 40, 120])) for _ in range(2)]
    ops = []
    n = prof.get("tries", 40)
    style = r.random()
    deep = r.random() < prof.get("deep", 0.06)
    if deep:
        # many small containers, to be chained into nesting deeper than any limit
        k = r.choice([30, 260, 520, 620])
        leaf = r.choice([["L", [["n"]]], ["L", [["n"]]], ["L", [["L", []]]]])
        case["vals"][0] = ["L", [leaf] * k]
        n = min(n, 12)
    for i in range(n):
        muts = [g_mut(r, style) for _ in range(r.choice([1, 1, 1, 1, 2, 2, 3, 5]))]
        if deep and r.random() < 0.9:
            muts = [["chain", r.choice([2, 20, 127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 513, 600]), r.choice([0, 0, 0, 1]), r.choice(["end", "end", "loop", "zero"]), r.randrange(1 << 16)]] + (muts[:1] if r.random() < 0.2 else [])
        ops.append({"id": i, "t": "attempt", "how": r.choice(["file", "file", "buffer", "bytearray"]), "muts": muts, "r": [r.randrange(1 << 16) for _ in range(3)]})
    case["ops"] = ops
    case["faults"] = []
    return case


def g_mut(r, style):
    x = r.randrange(1 << 20)
    k = r.random()
    if style < 0.2:
        k = 0.2 + k * 0.6
    if k < 0.10:
        return ["bit", x, r.randrange(8)]
    if k < 0.15:
        return ["byte", x, r.randrange(256)]
    if k < 0.30:
        return ["hdr", r.randrange(8), r.choice(U32)]
    if k < 0.36:
        return ["hdradd", r.randrange(8), r.choice([-2, -1, 1, 2, 3, 8, 64])]
    if k < 0.50:
        return ["word", x, r.choice(U32)]
    if k < 0.58:
        return ["add", x, r.choice([-4, -2, -1, 1, 2, 4, 8, 16, 0x1000000, 0x10000])]
    if k < 0.66:
        return ["copy", x, r.randrange(1 << 20)]
    if k < 0.74:
        # a reference changes what it refers to, or what it claims it to be
        return [r.choice(["ref", "ref", "vtype", "hashable", "hashable"]), x, r.randrange(32)]
    if k < 0.82:
        # a small word (an index or a type) becomes another small word
        return ["small", x, r.randrange(32)]
    if k < 0.85:
        return ["zero", x, r.choice([4, 16, 64, 512])]
    if k < 0.87:
        return ["ones", x, r.choice([4, 16, 64])]
    if k < 0.90:
        return ["cut", x]
    if k < 0.92:
        return ["cutend", r.choice([1, 2, 3, 4, 5, 8, 12, 16, 32])]
    if k < 0.94:
        return ["grow", r.randrange(1, 65), r.randrange(256)]
    if k < 0.97:
        return ["swap", x, r.randrange(1 << 20), r.choice([4, 8, 16, 64])]
    return ["mix", x, r.choice([16, 64, 512, 1 << 20])]


def apply(b, muts, other):
    b = bytearray(b)
    for m in muts:
        n = len(b)
        t = m[0]
        if n == 0:
            break
        if t == "bit":
            b[m[1] % n] ^= 1 << m[2]
        elif t == "byte":
            b[m[1] % n] = m[2]
        elif t in ("hdr", "hdradd", "word", "add"):
            if n < 4:
                continue
            o = 4 * m[1] if t.startswith("hdr") else 4 * (m[1] % (n // 4))
            if o + 4 > n:
                continue
            v = m[2] if t in ("hdr", "word") else (struct.unpack_from("<I", b, o)[0] + m[2])
            struct.pack_into("<I", b, o, v & 0xffffffff)
        elif t == "copy":
            if n < 4:
                continue
            o, s = 4 * (m[1] % (n // 4)), 4 * (m[2] % (n // 4))
            b[o:o + 4] = b[s:s + 4]
        elif t == "small":
            c = [o for o in range(0, n - 3, 4) if b[o] < 32 and b[o + 1] == b[o + 2] == b[o + 3] == 0]
            if c:
                struct.pack_into("<I", b, c[m[1] % len(c)], m[2])
        elif t in ("ref", "vtype", "hashable"):
            kinds = (0, 1) if t == "hashable" else CONT
            c = [o for o in range(0, n - 7, 4) if b[o] in kinds and b[o + 1] == b[o + 2] == b[o + 3] == 0]
            if c:
                o = c[m[1] % len(c)]
                if t == "ref":
                    struct.pack_into("<I", b, o + 4, m[2] % 8)
                elif t == "vtype":
                    b[o] = CONT[m[2] % len(CONT)]
                else:
                    b[o] = 1 - b[o]
        elif t == "chain":
            # the vectors of one item each become one another's only item
            c = singles(b)[:m[1]]
            for i in range(len(c)):
                j = i + 1
                if j == len(c):
                    if m[3] == "end":
                        break
                    j = 0 if m[3] == "zero" else m[4] % len(c)
                struct.pack_into("<II", b, c[i][1], m[2], c[j][0])
        elif t in ("zero", "ones"):
            o = (m[1] % n) & ~3
            k = min(m[2], n - o)
            b[o:o + k] = (b"\0" if t == "zero" else b"\xff") * k
        elif t == "cut":
            del b[m[1] % n:]
        elif t == "cutend":
            del b[max(0, n - m[1]):]
        elif t == "grow":
            b += bytes([m[2]]) * m[1]
        elif t == "swap":
            k = m[3]
            if n < 2 * k:
                continue
            o, s = (m[1] % (n - k + 1)) & ~3, (m[2] % (n - k + 1)) & ~3
            x, y = bytes(b[o:o + k]), bytes(b[s:s + k])
            b[o:o + k] = y
            b[s:s + k] = x
            del b[n:]
        elif t == "mix":
            o = m[1] % n
            k = min(m[2], n - o, max(0, len(other) - o))
            b[o:o + k] = other[o:o + k]
    # a run-length encoded bit vector legitimately claims up to 2**32 bits in 8 bytes, and walking them takes as long as it takes: keep them short
    for o in range(0, len(b) - 7, 4):
        if b[o] in (12, 13) and b[o + 1] == b[o + 2] == b[o + 3] == 0 and (b[o + 6] or b[o + 7]):
            b[o + 6] = b[o + 7] = 0
    return bytes(b)


def singles(b):
    """(index, place of the item) of every vector of values with one item"""
    if len(b) < 32:
        return []
    ns, nv, nb, nset, nmap = struct.unpack_from("<5I", b, 8)
    n = ns + nv + nb + nset + nmap
    heap = 32 + 8 * n
    if n > len(b) or heap > len(b):
        return []
    out = []
    for i in range(nv):
        o = heap + struct.unpack_from("<Q", b, 32 + 8 * (ns + i))[0]
        if o + 12 <= len(b) and struct.unpack_from("<I", b, o)[0] == 1 and struct.unpack_from("<I", b, o + 4)[0] in (0, 1, 9, 24):
            out.append((i, o + 4))
    return out


CONT = (0, 1, 1, 2, 9, 10, 11, 17, 18, 29)  # types of values that refer to the heap
OKEXC = (BufferError, ValueError, KeyError, IndexError, TypeError, RecursionError, OverflowError, UnicodeError, OSError)


class Walker:
    """visits everything reachable, within a budget, through every access path"""

    def __init__(self, ctx, size, rr):
        self.ctx, self.P, self.size, self.rr = ctx, ctx.P, size, rr
        self.budget = 250
        self.n = self.heavy = 0
        self.big = None

    def do(self, what, f, *a):
        try:
            v = f(*a)
        except OKEXC as e:
            if isinstance(e, MemoryError):
                raise
            # without its traceback: that would keep the frames, and with them the values, alive
            return None, e.with_traceback(None)
        except SystemError as e:
            # a stored character beyond U+10FFFF: the interpreter's own refusal to make a string of it
            if "invalid maximum character" not in str(e):
                raise
            return None, e.with_traceback(None)
        except MemoryError:
            self.ctx.viol("unbounded-memory", "%s on an accepted damaged file of %d bytes ran out of memory" % (what, self.size))
        self.ctx.check_anomaly()
        return v, None

    def limited(self, it, limit):
        out = []
        for x in it:
            out.append(x)
            if len(out) > limit:
                self.ctx.viol("endless", "iterating an accepted damaged file of %d bytes does not end" % self.size)
        return out

    def visit(self, o, depth=0):
        P, do = self.P, self.do
        self.n += 1
        if self.n > self.budget or depth > 30:
            return
        ty = type(o)
        lim = self.size * 8 + 64
        if ty is P.PointlessVector:
            n, _ = do("len", len, o)
            items, e = do("iteration", lambda: self.limited(o, n + 2))
            if items is not None and len(items) != n:
                self.ctx.viol("wrong-length", "a vector of an accepted damaged file has length %d but %d elements" % (n, len(items)))
            self.common(o)
            if n:
                for i in (0, -1, n - 1, n // 2):
                    do("index", o.__getitem__, i)
            do("index", o.__getitem__, n)
            s, e = do("slice", o.__getitem__, slice(self.rr[0] % (n + 1), self.rr[1] % (n + 2)))
            if s is not None:
                do("slice iteration", list, s)
                do("slice repr", repr, s)
                do("slice hash", P.pyobject_hash_32, s)
            do("memoryview", lambda: bytes(memoryview(o)))
            for m in ("min", "max", "range"):
                do(m, getattr(o, m)) if hasattr(o, m) else None
            do("bisect", o.bisect_left, 5)
            for x in (0, "x", 1.5, None, (1, 2)):
                do("membership", o.__contains__, x)
            for x in (items or [])[:40]:
                self.visit(x, depth + 1)
        elif ty is P.PointlessSet:
            n, _ = do("len", len, o)
            items, e = do("set iteration", lambda: self.limited(o, n + 2))
            if items is not None and len(items) != n:
                self.ctx.viol("wrong-length", "a set of an accepted damaged file has %d elements but %d are delivered" % (n, len(items)))
            self.common(o)
            for x in (0, "x", 1.5, None, (1, 2), True):
                do("membership", o.__contains__, x)
            for x in (items or [])[:40]:
                do("membership", o.__contains__, x)
                self.visit(x, depth + 1)
        elif ty is P.PointlessMap:
            n, _ = do("len", len, o)
            items, e = do("map iteration", lambda: self.limited(o.items(), n + 2))
            if items is not None and len(items) != n:
                self.ctx.viol("wrong-length", "a map of an accepted damaged file has %d keys but %d are delivered" % (n, len(items)))
            do("keys", lambda: list(o.keys()))
            do("values", lambda: list(o.values()))
            self.common(o)
            for x in (0, "x", 1.5, None, (1, 2), True, -5, 2**31):
                do("get", o.get, x)
                do("membership", o.__contains__, x)
            for k, v in (items or [])[:40]:
                do("lookup", o.__getitem__, k)
                self.visit(k, depth + 1)
                self.visit(v, depth + 1)
        elif ty is P.PointlessBitvector:
            n, _ = do("len", len, o)
            if n > lim:
                # run-length encoded vectors may be long; they are counted, not walked
                do("any", o.IsAnySet)
                return
            items, e = do("bits", list, o)
            if items is not None and len(items) != n:
                self.ctx.viol("wrong-length", "a bit vector of an accepted damaged file has %d bits but %d are delivered" % (n, len(items)))
            for m in ("IsAnySet", "NumZeroPrefix", "NumZeroPostfix", "NumOnePrefix", "NumOnePostfix", "copy"):
                do(m, getattr(o, m))
            if n:
                do("bit", o.__getitem__, n - 1)
            do("bit", o.__getitem__, n)
            self.common(o)
        else:
            if isinstance(o, str) and len(o) > self.size:
                self.ctx.viol("wrong-length", "a string of an accepted damaged file is longer than the file")
            do("hash", P.pyobject_hash_32, o)

    def has_big(self, o, depth, budget):
        P, ty = self.P, type(o)
        budget[0] -= 1
        if budget[0] < 0 or depth > 20:
            return False
        if ty is P.PointlessBitvector:
            return len(o) > 5000
        try:
            if ty is P.PointlessVector or ty is P.PointlessSet:
                return any(self.has_big(x, depth + 1, budget) for x in itertools.islice(o, 60))
            if ty is P.PointlessMap:
                return any(self.has_big(x, depth + 1, budget) for kv in itertools.islice(o.items(), 60) for x in kv)
        except OKEXC + (SystemError,):
            pass
        return False

    def common(self, o):
        P, do = self.P, self.do
        # these take time with everything below o: of many values only some, and not with run-length encoded bit vectors of great length
        self.heavy += 1
        if self.big is None:
            self.big = self.has_big(o, 0, [400])
        if self.big:
            return
        do("hash", P.pyobject_hash_32, o)
        if self.heavy > 40 and self.heavy % 8:
            return
        do("cmp", P.pointless_cmp, o, o)
        do("eq", P.pointless_is_eq, o, o)
        do("repr", repr, o)
        do("str", str, o)
        do("sizeof", o.__sizeof__)
        do("serialize", P.serialize_to_buffer, o)


def run(ctx, prof):
    case, k, P = ctx.case, ctx.k, ctx.P
    datas = []
    for s in case["vals"]:
        datas.append(bytes(P.serialize_to_bytearray(build(s, P))))
    base, other = datas[0], datas[-1]

    def body(aid):
        for op in case["ops"]:
            attempt(ctx, op, base, other)
    ctx.run_direct(case["ops"], body)
    fds, maps = k.open_handles(-1)
    ctx.need(fds == 0 and maps == 0, "fd-leak", "%d descriptors and %d mappings are left" % (fds, maps))


def attempt(ctx, op, base, other):
    k, P = ctx.k, ctx.P
    b = apply(base, op["muts"], other)
    path = "/sim/dmg.map"
    src = path
    live0 = None
    with ctx.quiet():
        k.fs_replace(path, b)
        if op["how"] == "buffer":
            src = P.PointlessPrimVector("u8")
            src.append_bulk(list(b))
        elif op["how"] == "bytearray":
            src = bytearray(b)
        k.note("attempt %d %s" % (op["id"], op["muts"]))
        k.peak()
    before = k.live()[1]
    ok, h, fired = ctx.call(op, P.Pointless, src)
    with ctx.quiet():
        peak, total = k.peak()
        bound = before + 64 * 1024 + 24 * len(b)
        if peak > bound:
            ctx.viol("unbounded-memory", "opening a damaged file of %d bytes needed %d bytes of memory" % (len(b), peak - before))
        if not ok:
            ctx.probe("rejected")
            if not isinstance(h, (ValueError, OSError, MemoryError)):
                ctx.viol("wrong-error", "opening a damaged file raised %r" % h)
            if isinstance(h, MemoryError) and not fired:
                ctx.viol("unbounded-memory", "opening a damaged file of %d bytes ran out of memory" % len(b))
            h = None
        else:
            ctx.probe("accepted")
            if b != base:
                ctx.probe("accepted_damaged")
            # offsets are 64 bits wide in the only version that is written
            ctx.need(b[28:32] == base[28:32], "wrong-version", "a file of another format version was accepted")
        acc = h is not None
        if acc:
            w = Walker(ctx, len(b), op["r"])
            root, e = w.do("root", h.GetRoot)
            if e is None:
                w.visit(root)
            root = e = None
            w.do("refs", h.GetRefs)
            w.do("sizeof", h.__sizeof__)
        okw = k.c_walk(path)[0]
        if okw:
            ctx.probe("c_walk")
            if op["r"][0] % 3 == 0:
                # every reading function of the C interface; only that they stay inside the file and come to an end is required
                k.c_dump(path, 6, [0, 1, -1, 7, "", "a", "key"])
                ctx.probe("c_dump")
        if not fired:
            ctx.need(bool(okw) == acc, "disagree", "the C reader %s what the Python reader %s" % ("accepts" if okw else "refuses", "accepts" if acc else "refuses"))
        okr, err = k.c_recreate(path, "/sim/dmg.out")
        if okr:
            ctx.probe("recreated_damaged")
            ok2, seen2 = k.c_walk("/sim/dmg.out")[:2]
            ctx.need(ok2, "recreate", "an accepted damaged file was re-created as one that can not be opened: %s" % seen2)
        else:
            leftover = [n for n, ino, ln, mode in k.fs_list() if n.startswith("/sim/dmg.out.")]
            ctx.need(not leftover, "residue", "a failed re-creation left %s" % leftover)
        w = root = e = None
    h = None
    ctx.check_anomaly()
