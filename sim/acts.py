"""Read actions on stored objects, with their expected results, and conversion of values to C-interface programs."""
import operator
import struct
import vals
from vals import canon, read_canon, cut_eq, build, hkey, f32


def deref(spec, defs):
    n = 0
    while spec[0] in ("def", "ref") and n < 20:
        n += 1
        if spec[0] == "def":
            spec = spec[2]
        else:
            if spec[1] not in defs:
                return ["n"]
            spec = defs[spec[1]]
    return spec


def items_of(spec):
    if spec[0] == "PV":
        return [["f", x] if spec[1] == "f" else ["i", x] for x in spec[2]]
    if spec[0] == "BA":
        return [["i", x] for x in bytes.fromhex(spec[1])]
    return spec[1]


def cut(o, spec, v):
    """a slice of a vector, and what it holds"""
    n = len(items_of(spec))
    i = v % (n + 1)
    v //= n + 1
    j = i + v % (n - i + 2)
    if spec[0] == "BA":
        s2 = ["BA", spec[1][2 * i:2 * j]]
    elif spec[0] == "PV":
        s2 = ["PV", spec[1], spec[2][i:j]]
    else:
        s2 = [spec[0], spec[1][i:j]]
    return o[i:j], s2


def g_nav(r, lens):
    return [64 + r.randrange(1 << 14) if r.random() < 0.25 else r.randrange(64) for _ in range(r.choice(lens))]


def nav(o, spec, steps, P, defs):
    """walk down to some container: every step below 64 picks a child, others take a slice of a vector"""
    spec = deref(spec, defs)
    for s in steps:
        if s >= 64:
            if spec[0] in ("L", "T", "PV", "BA"):
                o, spec = cut(o, spec, s - 64)
            continue
        if spec[0] in ("L", "T") and spec[1]:
            i = s % len(spec[1])
            c = deref(spec[1][i], defs)
            if c[0] in "ifbns" and len(c[0]) == 1:
                break
            o = o[i]
            spec = c
        elif spec[0] == "D" and spec[1]:
            k, v = spec[1][s % len(spec[1])]
            c = deref(v, defs)
            if c[0] in "ifbns" and len(c[0]) == 1:
                break
            kk = vals.bkey(k, P)
            if kk is vals.NOKEY:
                break
            o = o[kk]
            spec = c
        else:
            break
    return o, spec


ACTS = {
    "V": ["list", "riter", "get", "neg", "slice", "contains", "missing", "len", "repr", "str", "hash", "cmp", "mv", "minmax", "sizeof", "tobuf", "bisect", "toobig", "tuple", "typecode", "eqpy", "cmpsl", "rich", "hasheq"],
    "S": ["list", "contains", "missing", "len", "repr", "tobuf", "sizeof", "str", "hash"],
    "M": ["list", "keys", "values", "items", "get", "sub", "contains", "missing", "getmissing", "submissing", "len", "repr", "tobuf", "dict"],
    "B": ["list", "get", "any", "counts", "repr", "copy", "len", "tobuf", "hash", "cmp", "eqpy", "rich"],
}

RICH = [("<", operator.lt), ("<=", operator.le), ("==", operator.eq), ("!=", operator.ne), (">", operator.gt), (">=", operator.ge)]


def plain(spec, defs, d=0):
    """a fresh tuple form of a vector of scalars and such vectors, or None"""
    spec = deref(spec, defs)
    t = spec[0]
    if t == "f":
        return (f32(spec[1]),)
    if t in ("i", "b", "s", "n"):
        return (build(spec, None),)
    if t in ("L", "T", "PV", "BA") and d < 12:
        out = []
        for x in items_of(spec):
            y = plain(x, defs, d + 1)
            if y is None:
                return None
            out.append(y[0])
        return (tuple(out),)
    return None


def sign(x):
    return (x > 0) - (x < 0)


def kind_of(spec):
    t = spec[0]
    if t in ("L", "T", "PV", "BA"):
        return "V"
    if t in ("S", "F"):
        return "S"
    if t == "D":
        return "M"
    if t == "BV":
        return "B"
    return None


class Read:
    """fn(*args) is the armed operation, norm() makes its result comparable, want is the expected normal form (or an exception type)"""
    __slots__ = ("name", "fn", "args", "norm", "want", "exc")

    def __init__(self, name, fn, args, norm, want=None, exc=None):
        self.name, self.fn, self.args, self.norm, self.want, self.exc = name, fn, args, norm, want, exc


def make(o, spec, act, r, P, defs):
    """the read action `act` (reduced to one that exists for this object); r: list of ints choosing arguments"""
    kd = kind_of(spec)
    md = 3

    def rc(x):
        return read_canon(x, P, 0, md)

    def cn(s):
        return canon(s, defs, 0, md)
    if kd is None:
        return None
    names = ACTS[kd]
    if isinstance(act, int):
        act = names[act % len(names)]
    if act not in names:
        act = names[r[0] % len(names)]
    a0, a1 = r[0], r[1]
    if act == "len":
        return Read(act, len, (o,), int, len(spec[1]) if kd != "V" else len(items_of(spec)))
    if act in ("repr", "str"):
        # expected: the same again, without faults
        f = repr if act == "repr" else str
        return Read(act, f, (o,), str, None)
    if act == "sizeof":
        return Read(act, type(o).__sizeof__, (o,), int, None) if hasattr(type(o), "__sizeof__") else Read("len", len, (o,), int, None)
    if act == "tobuf":
        return Read(act, P.serialize_to_buffer, (o,), lambda v: bytes(memoryview(v)), None)
    if kd == "V":
        it = items_of(spec)
        n = len(it)
        if act in ("list", "tuple"):
            return Read(act, list if act == "list" else tuple, (o,), lambda l: [rc(x) for x in l], [cn(x) for x in it])
        if act == "riter":
            return Read(act, lambda v: list(reversed(v)), (o,), lambda l: [rc(x) for x in l], [cn(x) for x in it][::-1])
        if act == "get" and n:
            i = a0 % n
            return Read(act, type(o).__getitem__, (o, i), rc, cn(it[i]))
        if act == "neg" and n:
            i = a0 % n
            return Read(act, type(o).__getitem__, (o, i - n), rc, cn(it[i]))
        if act == "toobig":
            return Read(act, type(o).__getitem__, (o, n + a0 % 3), rc, None, IndexError)
        if act == "slice":
            i, j = [None if q == 2 * n + 4 else q - n - 2 for q in (a0 % (2 * n + 5), a1 % (2 * n + 5))]
            return Read(act, type(o).__getitem__, (o, slice(i, j)), lambda l: [rc(x) for x in l], [cn(x) for x in it[i:j]])
        if act == "contains" and n:
            x = deref(it[a0 % n], defs)
            if x[0] in "ibns" and len(x[0]) == 1:
                return Read(act, lambda v, y: y in v, (o, build(x, P)), bool, True)
        if act in ("contains", "missing") and all(x[0] in ("i", "s", "n", "b", "f") for x in it):
            return Read("missing", lambda v, y: y in v, (o, "no such item " * 3), bool, False)
        if act == "hash":
            return Read(act, P.pyobject_hash_32, (o,), int, None)
        if act == "cmp":
            return Read(act, P.pointless_cmp, (o, o), int, 0 if not has_nan(spec) else None)
        if act in ("eqpy", "cmpsl", "rich", "hasheq"):
            i, j = (0, n) if a0 % 3 == 0 else (a0 % (n + 1), a1 % (n + 2))
            k, l = (i, j) if a1 % 3 == 0 else (a1 % (n + 1), (a0 + a1) % (n + 2))
            pl = plain(["L", it], defs)
            kinds = {type(x) for x in pl[0]} if pl else None
            mono = kinds is not None and (kinds <= {int, bool} or kinds <= {str})
            sl = o if (i, j) == (0, n) else o[i:j]
            if act == "hasheq" and spec[0] == "PV" and not has_nan(spec):
                # the hash of what is stored is the hash of what was exported, also where no other type can hold the items
                pv = P.PointlessPrimVector(spec[1], sequence=spec[2][i:j])
                return Read(act, lambda a, b: (P.pyobject_hash_32(a), P.pyobject_hash_32(b)), (sl, pv), lambda q: q[0] == q[1], True)
            if act == "hasheq" and pl and "64" not in str(spec[1]) and kinds.isdisjoint({None}) is not None:
                return Read(act, lambda a, b: (P.pyobject_hash_32(a), P.pyobject_hash_32(b)), (sl, pl[0][i:j]), lambda q: q[0] == q[1], True)
            if act == "cmpsl" and mono:
                a, b = pl[0][i:j], pl[0][k:l]
                return Read(act, P.pointless_cmp, (sl, list(b) if a0 & 1 else o[k:l]), sign, (a > b) - (a < b))
            if act == "rich" and mono:
                a, b = pl[0][i:j], pl[0][k:l]
                nm, f = RICH[(a0 + a1) % 6]
                return Read(act + nm, f, (sl, o[k:l]), bool, f(a, b))
            if pl:
                return Read("eqpy", P.pointless_is_eq, (sl, list(pl[0][i:j]) if a0 & 1 else pl[0][i:j]), bool, True)
        tc = None
        try:
            tc = o.typecode
        except ValueError:
            pass
        if act == "typecode":
            return Read(act, lambda v: v.typecode, (o,), str, tc, None if tc else ValueError)
        if tc and n:
            vs = [x[1] for x in it]
            if tc == "f":
                vs = [f32(x) for x in vs]
            if act == "mv":
                return Read(act, memoryview, (o,), bytes, struct.pack("<%d%s" % (n, vals.PV_CODE[tc]), *vs))
            if act == "minmax":
                return Read(act, o.range if a0 & 1 else (lambda: (o.min(), o.max())), (), tuple, (min(vs), max(vs)))
            if act == "bisect" and tc == "u64" and vs == sorted(vs):
                import bisect
                x = min(vs[a0 % n] + (a0 // n) % 2, 2**64 - 1)
                return Read(act, o.bisect_left, (x,), int, bisect.bisect_left(vs, x))
        return Read("list", list, (o,), lambda l: [rc(x) for x in l], [cn(x) for x in it])
    if kd == "S":
        if act == "contains" and spec[1]:
            return Read(act, lambda v, y: y in v, (o, build(spec[1][a0 % len(spec[1])], P)), bool, True)
        if act in ("missing", "contains"):
            m = vals.missing_keys(spec[1], P)
            return Read("missing", lambda v, y: y in v, (o, m[a0 % len(m)]), bool, False)
        if act == "hash":
            return Read(act, P.pyobject_hash_32, (o,), int, None)
        return Read("list", list, (o,), lambda l: multiset([rc(x) for x in l]), multiset([cn(x) for x in spec[1]]))
    if kd == "M":
        if act in ("get", "sub", "contains") and spec[1]:
            kk, v = spec[1][a0 % len(spec[1])]
            kk = vals.bkey(kk, P)
            if kk is vals.NOKEY:
                return Read("len", len, (o,), int, len(spec[1]))
            if act == "get":
                return Read(act, o.get, (kk, "absent!"), rc, cn(v))
            if act == "sub":
                return Read(act, type(o).__getitem__, (o, kk), rc, cn(v))
            return Read(act, lambda m, y: y in m, (o, kk), bool, True)
        if act in ("missing", "getmissing", "submissing", "get", "sub", "contains"):
            m = vals.missing_keys([k for k, v in spec[1]], P)
            kk = m[a0 % len(m)]
            if act in ("getmissing", "get"):
                return Read("getmissing", o.get, (kk, 12345), int, 12345)
            if act in ("submissing", "sub"):
                return Read("submissing", type(o).__getitem__, (o, kk), rc, None, KeyError)
            return Read("missing", lambda m_, y: y in m_, (o, kk), bool, False)
        if act == "values":
            return Read(act, lambda m: list(m.values()), (o,), lambda l: multiset([rc(x) for x in l]), multiset([cn(v) for k, v in spec[1]]))
        if act in ("items", "dict"):
            return Read("items", lambda m: list(m.items()), (o,), lambda l: multiset([(rc(a), rc(b)) for a, b in l]), multiset([(cn(k), cn(v)) for k, v in spec[1]]))
        if act == "keys":
            return Read(act, lambda m: list(m.keys()), (o,), lambda l: multiset([rc(x) for x in l]), multiset([cn(k) for k, v in spec[1]]))
        return Read("list", list, (o,), lambda l: multiset([rc(x) for x in l]), multiset([cn(k) for k, v in spec[1]]))
    if kd == "B":
        bits = spec[1]
        n = len(bits)
        want = [c == "1" for c in bits]
        if act == "get" and n:
            return Read(act, type(o).__getitem__, (o, a0 % n), bool, want[a0 % n])
        if act == "any":
            return Read(act, o.IsAnySet, (), bool, "1" in bits)
        if act == "counts":
            return Read(act, lambda b: (b.NumZeroPrefix(), b.NumZeroPostfix(), b.NumOnePrefix(), b.NumOnePostfix()), (o,), tuple,
                        (n - len(bits.lstrip("0")), n - len(bits.rstrip("0")), n - len(bits.lstrip("1")), n - len(bits.rstrip("1"))))
        if act == "copy":
            return Read(act, o.copy, (), lambda b: [bool(x) for x in b], want)
        if act == "hash":
            return Read(act, P.pyobject_hash_32, (o,), int, None)
        if act == "cmp":
            return Read(act, P.pointless_cmp, (o, o), int, 0)
        if act in ("eqpy", "rich"):
            other = list(bits)
            if n and a0 & 1:
                other[a1 % n] = "01"[other[a1 % n] == "0"]
            if a0 & 2:
                other = other[:a1 % (n + 1)]
            py = build(["BV", "".join(other)], P)
            if act == "eqpy":
                return Read(act, P.pointless_cmp, (o, py), sign, (list(bits) > other) - (list(bits) < other))
            nm, f = RICH[(a0 // 4) % 6]
            return Read(act + nm, f, (o, py), bool, f(list(bits), other))
        return Read("list", list, (o,), lambda l: [bool(x) for x in l], want)


class multiset:
    """order-free comparison of canonical forms with cut marks"""

    def __init__(self, l):
        self.l = l

    def __eq__(self, other):
        a, b = self.l, list(other.l)
        if len(a) != len(b):
            return False
        for x in a:
            for i, y in enumerate(b):
                if x == y or weak_eq(x, y):
                    del b[i]
                    break
            else:
                return False
        return True

    def __repr__(self):
        return "{%s}" % ", ".join(map(str, self.l))


def weak_eq(a, b):
    if isinstance(a, tuple) and a and isinstance(b, tuple) and b and isinstance(a[0], tuple):
        return len(a) == len(b) and all(cut_eq(x, y) for x, y in zip(a, b))
    return cut_eq(a, b)


def same(want, got):
    if isinstance(want, list) and isinstance(got, list):
        return len(want) == len(got) and all(w == g or (isinstance(w, tuple) and isinstance(g, tuple) and weak_eq(w, g)) for w, g in zip(want, got))
    if isinstance(want, multiset) or not isinstance(want, tuple) or not want or not isinstance(want[0], str):
        return want == got
    return cut_eq(want, got)


def has_nan(spec):
    return False


def perform(ctx, op, o, spec, act, r, defs, cls):
    """run one read action armed; check the result"""
    P = ctx.P
    with ctx.quiet():
        a = make(o, spec, act, r, P, defs)
    if a is None:
        return
    ok, v, fired = ctx.call(op, a.fn, *a.args)
    with ctx.quiet():
        if not ok:
            if a.exc is not None and isinstance(v, a.exc):
                return
            if isinstance(v, NotImplementedError):
                return
            if not fired:
                # an operation the library refuses must be refused consistently
                if a.name in ("hash", "hasheq", "cmp", "tobuf", "sizeof", "repr", "str") and not isinstance(v, MemoryError):
                    try:
                        a.fn(*a.args)
                    except Exception as e2:
                        if type(e2) is type(v):
                            return
                ctx.viol(cls, "%s on %s failed: %r" % (a.name, spec[0], v))
            return
        if a.exc is not None:
            ctx.viol(cls, "%s on %s: no %s but %r" % (a.name, spec[0], a.exc.__name__, v))
        got = a.norm(v)
        want = a.want
        if want is None:
            want = a.norm(a.fn(*a.args))
        if not same(want, got):
            ctx.viol(cls, "%s(%s) on %s returned %s, expected %s%s" % (a.name, ",".join(repr(x)[:60] for x in a.args[1:]), spec[0], str(got)[:200], str(want)[:200], " (a fault was injected)" if fired else ""))


# ------------------------------------------------------------------ C-interface programs

def text_steps(s):
    """the ways in which a text can be created"""
    mx = max(map(ord, s), default=0)
    out = [("ucs4", s)]
    if mx < 0x10000:
        out.append(("ucs2", s))
    if mx < 0x100:
        b = s.encode("latin-1")
        out += [("str", b), ("str", b), ("sucs2", s), ("sucs4", s), ("uasc", b)]
    return out


def g_dup(r):
    """two keys for one C-interface set, and whether they are the same"""
    for i in range(20):
        k = vals.g_key(r, {})
        t = k[0]
        same = r.random() < 0.6
        if not same:
            if t == "s" and r.random() < 0.5:
                a, b = r.choice(vals.TWINS)
                k, l = ["s", a], ["s", b]
            else:
                l = vals.collide(r, k)
            if hkey(l) != hkey(k) and "f" not in str(k) + str(l):
                return [k, l, False]
            continue
        l = k
        if t == "i" and abs(k[1]) < 2**24 and r.random() < 0.5:
            l = ["f", float(k[1])]
        elif t == "b":
            l = ["i", k[1]]
        elif t == "T" and all(x[0] == "i" for x in k[1]) and k[1]:
            xs = [x[1] for x in k[1]]
            ty = [ty for ty, (lo, hi) in vals.PV_RANGE.items() if all(lo <= x <= hi for x in xs)]
            l = ["PV", r.choice(ty), xs]
        return [k, l, True]
    return [["i", 1], ["i", 1], True]


def dup_program(a, b, z):
    out = [("set",)]
    for q in ((a, z), (b, z // 64)):
        st = to_program(q[0], q[1])
        n = len(out)
        out += [shift(x, n) for x in st]
        out.append(("add", 0, n))
    return out


def shift(st, n):
    if st[0] in ("push", "add", "put"):
        return (st[0],) + tuple(x + n for x in st[1:])
    if st[0] == "vset":
        return ("vset", st[1] + n, st[2], st[3] + n)
    if st[0] == "xfer":
        return ("xfer", st[1] + n, [x + n for x in st[2]])
    if st[0] == "xferu":
        return ("xferu", st[1] + n, st[2])
    return st


def to_program(spec, z=0):
    """steps for simk.c_build; the root is step 0"""
    steps = []
    also = {}
    names = {}

    def emit(s):
        t = s[0]
        if t == "def":
            # containers are created before their children, so a cycle can refer back
            while s[0] == "def":
                also.setdefault(id(s[2]), []).extend(also.get(id(s), []) + [s[1]])
                s = s[2]
            return emit_container(s, also[id(s)])
        if t == "ref":
            if s[1] in names:
                return names[s[1]]
            steps.append(("null",))
            return len(steps) - 1
        return emit_container(s, None)

    def emit_container(s, name):
        t = s[0]
        i = len(steps)
        for x in name or ():
            names[x] = i
        if t == "i":
            steps.append(("i32", s[1]) if s[1] < 2**31 else ("u32", s[1]))
        elif t == "f":
            steps.append(("float", s[1]))
        elif t == "b":
            steps.append(("bool" if len(steps) % 2 else "bool_", s[1]))
        elif t == "n":
            steps.append(("null",))
        elif t == "s":
            # the same text is always created in the same way, so that two keys are never the same text of two kinds
            w = text_steps(s[1])
            steps.append(w[(len(s[1]) * 7 + sum(map(ord, s[1][:9])) + z) % len(w)])
        elif t == "BV":
            n = len(s[1])
            b = bytearray((n + 7) // 8 + 8)
            for k, c in enumerate(s[1]):
                if c == "1":
                    b[k // 8] |= 1 << (k % 8)
            steps.append(("bits", n, bytes(b), 1))
        elif t == "PV" or t == "BA":
            ty, xs = (s[1], s[2]) if t == "PV" else ("u8", list(bytes.fromhex(s[1])))
            if ty == "f":
                xs = [f32(x) for x in xs]
            if ty == "u32" and xs and (len(xs) + z) % 3 == 0:
                steps.append(("vu32",))
                steps.append(("xferu", i, list(xs)))
                return i
            steps.append(("v_" + ("float" if ty == "f" else ty), struct.pack("<%d%s" % (len(xs), vals.PV_CODE[ty]), *xs), len(xs) % 2 == 1))
        elif t in ("L", "T"):
            steps.append(("vec",))
            how = (i + len(s[1]) + z) % 4
            if how == 1 and s[1]:
                # handed over as a whole, the rest appended
                m = (len(s[1]) + 1) // 2 if len(s[1]) % 3 == 0 else len(s[1])
                hs = [emit(x) for x in s[1]]
                steps.append(("xfer", i, hs[:m]))
                for h in hs[m:]:
                    steps.append(("push", i, h))
            else:
                for j, x in enumerate(s[1]):
                    h = emit(x)
                    if how == 2 and j % 2:
                        # another item first, replaced at once
                        steps.append(("push", i, i))
                        steps.append(("vset", i, j, h))
                    else:
                        steps.append(("push", i, h))
        elif t in ("S", "F"):
            steps.append(("set",))
            for x in s[1]:
                h = emit(x)
                steps.append(("add", i, h))
        elif t == "D":
            steps.append(("map",))
            for k, v in s[1]:
                a = emit(k)
                b = emit(v)
                steps.append(("put", i, a, b))
        else:
            raise ValueError(t)
        return i
    emit(spec)
    return steps
