"""Model values: a JSON-able specification of what an application exports, how to build it, and what must be read back.

spec forms
  ["i",n] ["f",x] ["b",0/1] ["n"] ["s",text]            scalars
  ["L",[..]] ["T",[..]]                                  list, tuple
  ["S",[..]] ["F",[..]]                                  set, frozenset
  ["D",[[k,v],..]]                                       dict
  ["PV",type,[..]]                                       primitive vector
  ["BA",hex]                                             bytearray
  ["BV",bits]                                            bit vector ("0110..")
  ["def",name,spec] ["ref",name]                         sharing (and cycles through lists, dicts)
  ["bad",kind]                                           something that must be refused
"""
import json, math, random, struct

INT_B = [0, 1, 2, 7, 8, 126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537,
         2**31 - 2, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 2, 2**32 - 1, -1, -2, -127, -128, -129, -130, -255, -256, -32767, -32768, -32769, -65536,
         -2**31 + 1, -2**31]
PV_RANGE = {"i8": (-128, 127), "u8": (0, 255), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1), "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1),
            "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}
PV_TYPES = list(PV_RANGE) + ["f"]
PV_CODE = {"i8": "b", "u8": "B", "i16": "h", "u16": "H", "i32": "i", "u32": "I", "i64": "q", "u64": "Q", "f": "f"}


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


# ------------------------------------------------------------------ generation

def g_int(r, prof="any"):
    k = r.random()
    if prof == "small":
        return r.randrange(0, 20)
    if k < 0.45:
        return r.choice(INT_B)
    if k < 0.6:
        return r.randrange(-10, 300)
    if k < 0.8:
        return r.randrange(-2**31, 2**32)
    return r.choice([1, -1]) * r.randrange(0, 2**r.randrange(1, 32))


FLOATS = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, 3.25, 1e10, -1e10, 1e38, 3.4028234663852886e38, 1e-38, 1.1754943508222875e-38, 1e-45, 0.1, -0.1, 16777216.0, 16777217.0,
          2147483648.0, 4294967295.0, 123456.789, math.inf, -math.inf]


def g_float(r):
    return r.choice(FLOATS) if r.random() < 0.6 else r.choice([r.random(), r.uniform(-1e6, 1e6), float(r.randrange(-1000, 1000))])


def g_str(r, big=False):
    k = r.random()
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64] + ([200, 255, 256, 257, 1000] if big else []))
    if n > 24:
        # long strings repeat a short random piece (cheaper to generate)
        u = g_str(r)[:24] or "q"
        return (u * (n // len(u) + 1))[:n]
    if k < 0.45:
        return "".join(r.choice("abcdefghijklmnop_ 0123XYZ") for _ in range(n))
    if k < 0.6:
        return "".join(chr(r.choice([r.randrange(1, 128), r.randrange(128, 256), 127, 128, 255])) for _ in range(n))
    if k < 0.8:
        return "".join(chr(r.choice([r.randrange(97, 123), r.randrange(0x100, 0xd7ff), r.randrange(0xe000, 0xffff), 0xff, 0x100])) for _ in range(n))
    return "".join(chr(r.choice([r.randrange(97, 123), r.randrange(0x10000, 0x10ffff), r.randrange(0x100, 0xd7ff), 0xffff, 0x10000, 0x10ffff])) for _ in range(max(n, 1)))


def g_scalar(r, prof):
    k = r.random()
    if k < 0.45:
        return ["i", g_int(r)]
    if k < 0.6:
        return ["f", g_float(r)]
    if k < 0.68:
        return ["b", r.randrange(2)]
    if k < 0.74:
        return ["n"]
    return ["s", g_str(r, prof.get("big", False))]


M32 = 0xffffffff
# pairs of texts of one length with the same 32-bit hash (also with the same text appended to both)
TWINS = [("JAbb6", "Sfgd5"), ("37DXF", "5u01A"), ("B4dDf", "9YaBe"), ("i8kUC", "sKOvM"), ("GUft7", "BWjYS"), ("O7ORl", "C815f"), ("USCiT", "LHH5S"),
         ("\xd6\xe5\xa2\xfb", "\xbd\xb0\xc7\xc8"), ("\xe2\xbf\xf3\xd8", "\xac\xbb\xfe\xf9"), ("\xad\xfa\xf0\xde", "\xe3\xfe\xf9\xff"),
         ("\u2ced\u4137\u7c4c", "\u5d73\u347d\u2ff0"), ("\u7b7b\u5627\u4e7d", "\u8337\u0b15\u34ef"), ("\u780b\u5ea6\u67bc", "\u081c\u9425\u133a"), ("\u0304\u871b\u65cf", "\uacf9\ucaf7\u06de"),
         ("\U0008f44c\U000d3b90\U00080ea3", "\U00083646\U000c2705\u4e3a"), ("\U0001b249\U0010dc79\U0009d261", "\u6645\U0002cc8a\U000ac108"), ("\U00030cba\u9f62\U00013d6c", "\U00032ce7\U000d66c8\u5bff")]


def hash32(s):
    """the 32-bit hash by which the library files this key"""
    t = s[0]
    if t in ("i", "b"):
        return int(s[1]) & M32
    if t == "n":
        return 0
    if t == "f":
        x = f32(s[1])
        if not math.isinf(x) and x == int(x) and -2**31 <= x <= M32:
            return int(x) & M32
        return struct.unpack("I", struct.pack("f", x))[0]
    if t == "s":
        x = ord(s[1][0]) << 7 & M32 if s[1] else 0
        for c in s[1]:
            x = 1000003 * x & M32 ^ ord(c)
        return x ^ len(s[1])
    if t == "BV":
        x = 1
        for i in range(0, len(s[1]), 8):
            x = x * 1000000001 + int(s[1][i:i + 8][::-1], 2) & M32
        return x
    if t in ("T", "PV"):
        l = s[1] if t == "T" else [["f" if s[1] == "f" else "i", x] for x in s[2]]
        m, x = 1000003, 0x345678
        for y in l:
            x = (x ^ hash32(y)) * m & M32
            m += 82520 + 2 * len(l)
        return x + 97531 & M32
    raise ValueError(t)


def tuple_for(h, l):
    """the integer which, after the items l, makes a tuple whose hash is h"""
    n = len(l) + 1
    m, x = 1000003, 0x345678
    for y in l:
        x = (x ^ hash32(y)) * m & M32
        m += 82520 + 2 * n
    return x ^ (h - 97531) * pow(m, -1, 2**32) & M32


def collide(r, s):
    """another key with the same hash"""
    t = s[0]
    k = r.random()
    if t == "BV" and s[1] and len(s[1]) % 8 and k < 0.6:
        # the last byte is hashed without the length
        return ["BV", s[1] + "0"] if k < 0.4 or not s[1].endswith("0") or len(s[1]) % 8 == 1 else ["BV", s[1][:-1]]
    if t == "PV" and s[1] in ("i64", "u64") and s[2] and k < 0.7:
        # only half of every number is hashed
        xs, lo, hi = list(s[2]), *PV_RANGE[s[1]]
        i = r.randrange(len(xs))
        xs[i] = xs[i] + 2**32 if xs[i] + 2**32 <= hi else xs[i] - 2**32
        return ["PV", s[1], xs]
    if t == "T" and k < 0.15:
        return ["i", hash32(s)]
    if t != "i" and k < 0.3:
        return ["i", hash32(s)]
    l = [g_key(r, {}, 2) for _ in range(r.randrange(3))]
    if t == "T" and s[1] and k < 0.6:
        # differs late
        l = s[1][:-1]
        if l:
            l = l[:-1] + [g_key(r, {}, 2)]
    return ["T", l + [["i", tuple_for(hash32(s), l)]]]


def g_key(r, prof, depth=0):
    k = r.random()
    if k > 0.97:
        return ["BV", g_bits(r, {})]
    if k > 0.96 and prof.get("pvkey") and not depth:
        t = r.choice(PV_TYPES)
        xs = [f32(x) if t == "f" else x for x in g_pv(r, {}, t)[2]]
        return ["PV", t, [x for x in xs if abs(x) != math.inf]]
    if depth < 2 and k < 0.12:
        return ["T", [g_key(r, prof, depth + 1) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5]))]]
    s = g_scalar(r, prof)
    if s[0] == "f" and math.isinf(s[1]):
        return ["f", 1.5]
    if s[0] == "f" and s[1] == int(s[1]):
        return ["f", f32(s[1])]
    return s


def hkey(s):
    """what the library considers equal, for generating distinct keys: numbers by value (floats rounded), strings, ..."""
    t = s[0]
    if t == "i":
        return ("num", s[1])
    if t == "b":
        return ("num", s[1])
    if t == "f":
        return ("num", f32(s[1]))
    if t == "n":
        return ("n",)
    if t == "s":
        return ("s", s[1])
    if t == "T":
        return ("T",) + tuple(hkey(x) for x in s[1])
    if t == "PV":
        return ("T",) + tuple(("num", f32(x) if s[1] == "f" else x) for x in s[2])
    if t == "BV":
        return ("B", s[1])
    if t == "F":
        return ("F", frozenset(hkey(x) for x in s[1]))
    raise ValueError(t)


def g_keys(r, prof, n, depth=0):
    out, seen = [], set()
    style = r.random()
    twin = None
    b = prof.get("budget")
    for i in range(n * 3):
        if len(out) == n:
            break
        if b:
            b[0] -= 1
            if b[0] < -50:
                break
        if out and r.random() < 0.06:
            k = collide(r, r.choice(out[-4:]))
        elif out and twin:
            k, twin = twin, None
        elif r.random() < 0.04:
            u = r.choice(TWINS)
            x = r.choice(["", "", "x", g_str(r)[:9]])
            k, twin = ["s", u[0] + x], ["s", u[1] + x]
        elif style < 0.25:
            k = ["i", g_int(r)]
        elif style < 0.45:
            k = ["s", g_str(r)]
        elif style < 0.55:
            k = ["i", i * r.choice([1, 1, 2, 64, 1024]) % 2**32]
        else:
            k = g_key(r, prof, depth)
        h = hkey(k)
        if h in seen:
            continue
        # an int and the float nearest to it must not both be keys (they compare equal after rounding)
        if h[0] == "num":
            h2 = ("num", f32(float(h[1])) if abs(h[1]) < 1e38 else h[1])
            if h2 in seen:
                continue
            seen.add(h2)
        seen.add(h)
        out.append(k)
    return out


def g_count(r, prof):
    m = prof.get("n", 12)
    k = r.random()
    if k < 0.12:
        return 0
    if k < 0.3:
        return 1
    if k < 0.8:
        return r.randrange(2, max(3, m))
    return r.choice([3, 4, 5, 6, 7, 8, 9, 15, 16, 17]) if not prof.get("big") else r.choice([15, 16, 17, 31, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257])


def g_bits(r, prof):
    n = r.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 26, 27, 28, 29, 30, 31, 32, 33, 40, 63, 64, 65, 100] + ([255, 256, 257, 1000] if prof.get("big") else []))
    k = r.random()
    if prof.get("huge") and r.random() < 0.01:
        # around the limits of the compressed forms (16-bit run lengths)
        a, b = r.choice([0, 3, 65534, 65535, 65536, 65537]), r.choice([0, 5, 65535, 65536])
        z = ["0" * a + "1" * b, "1" * a + "0" * b, "0" * a + "1" * b + "0", "1" * a + "0" * b + "1"][r.randrange(4)]
        return z
    if k < 0.15:
        return "0" * n
    if k < 0.3:
        return "1" * n
    if k < 0.45:
        a = r.randrange(n + 1)
        return "0" * a + "1" * (n - a)
    if k < 0.6:
        a = r.randrange(n + 1)
        return "1" * a + "0" * (n - a)
    if k < 0.7:
        a = r.randrange(n + 1); b = r.randrange(n + 1); a, b = min(a, b), max(a, b)
        return "0" * a + "1" * (b - a) + "0" * (n - b)
    return "".join(r.choice("01") for _ in range(n))


def g_pv(r, prof, t=None):
    t = t or r.choice(PV_TYPES + ["u64", "u64"])
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17] + ([64, 100, 255] if prof.get("big") else []))
    xs = [g_pv_item(r, t) for _ in range(n)]
    if r.random() < 0.35:
        xs.sort()
    return ["PV", t, xs]


def g_pv_item(r, t):
    if t == "f":
        return g_float(r)
    lo, hi = PV_RANGE[t]
    k = r.random()
    if k < 0.3:
        return r.choice([lo, hi, lo + 1, hi - 1, 0, 1])
    if k < 0.6:
        return max(lo, min(hi, r.randrange(-5, 20)))
    if k < 0.8:
        c = [x for x in INT_B + [2**63 - 1, 2**63, 2**64 - 1, -2**63, 2**32, 2**53, 2**53 + 1] if lo <= x <= hi]
        return r.choice(c)
    return r.randrange(lo, hi + 1)


def g_value(r, prof=None, depth=0, defs=None):
    prof = prof or {}
    defs = defs if defs is not None else []
    b = prof.get("budget")
    if b:
        b[0] -= 1
        if b[0] < 0:
            return g_scalar(r, prof)
    if defs and r.random() < prof.get("ref", 0.08):
        return ["ref", r.choice(defs)]
    k = r.random()
    maxd = prof.get("depth", 3)
    if depth == 0 and k < 0.1 and not prof.get("container", True):
        return g_scalar(r, prof)
    if depth >= maxd or (depth > 0 and k < 0.35):
        return g_scalar(r, prof)
    k = r.random()
    if k < 0.26:  # numeric list that will be compressed
        n = g_count(r, prof)
        st = r.random()
        if st < 0.25:
            return ["L", [["f", g_float(r)] for _ in range(n)]]
        lo, hi = r.choice(list(PV_RANGE.values())[:6] + [(0, 20), (-2**31, 2**31 - 1)])
        xs = [["i", max(lo, min(hi, g_int(r)))] for _ in range(n)]
        if st < 0.4 and xs:
            xs[r.randrange(len(xs))] = g_scalar(r, prof)
        return ["L" if r.random() < 0.7 else "T", xs]
    # whatever is shared may also contain itself, if it is a list or a dict
    name = None
    if 0.26 <= k < 0.97 and r.random() < prof.get("share", 0.25) * (1.0 if k < 0.48 else 0.5):
        name = "d%d" % (len(defs) + r.randrange(1000) * 100)
    if name and (k < 0.48 or 0.58 <= k < 0.78) and r.random() < prof.get("cycle", 0.25):
        defs.append(name)
    v = g_container(r, prof, depth, defs, k, name)
    if name:
        if name not in defs:
            defs.append(name)
        return ["def", name, v]
    return v


def g_container(r, prof, depth, defs, k, name):
    if k < 0.48:
        return ["L" if name or r.random() < 0.7 else "T", [g_value(r, prof, depth + 1, defs) for _ in range(g_count(r, dict(prof, big=False)))]]
    if k < 0.58:
        return ["S" if r.random() < 0.7 else "F", g_keys(r, prof, g_count(r, prof))]
    if k < 0.78:
        ks = g_keys(r, dict(prof, pvkey=1), g_count(r, prof))
        return ["D", [[kk, g_value(r, prof, depth + 1, defs)] for kk in ks]]
    if k < 0.88:
        return g_pv(r, prof)
    if k < 0.91:
        return ["BA", bytes(r.randrange(256) for _ in range(g_count(r, prof))).hex()]
    if k < 0.97:
        return ["BV", g_bits(r, prof)]
    return g_scalar(r, prof)


def esize(spec, defs=None, depth=0, cap=20000):
    """how many nodes a reader visits in this value (cycles are followed to the depth at which the oracle cuts them)"""
    if defs is None:
        defs = spec_defs(spec)
    t = spec[0]
    n = 0
    while t in ("def", "ref"):
        n += 1
        if t == "ref" and spec[1] not in defs or n > 20:
            return 1
        spec = spec[2] if t == "def" else defs[spec[1]]
        t = spec[0]
    if depth > 7:
        return 1
    if t in ("L", "T", "S", "F"):
        tot = 1
        for x in spec[1]:
            tot += esize(x, defs, depth + 1, cap - tot)
            if tot > cap:
                break
        return tot
    if t == "D":
        tot = 1
        for k, v in spec[1]:
            tot += 1 + esize(v, defs, depth + 1, cap - tot)
            if tot > cap:
                break
        return tot
    if t == "PV":
        return 1 + len(spec[2])
    if t == "s" or t == "BV":
        n = len(spec[1]) // 16
        return 1 + (n if t == "s" else min(n, 30))
    return 1


def slots_of(v, out, up=()):
    """(path to a place a value can stand at, the lists and dicts it is inside of)"""
    t = v[0]
    if t == "def":
        return slots_of(v[2], out, up)
    if t in ("L", "T"):
        me = up + ((v,) if t == "L" else ())
        for i, x in enumerate(v[1]):
            out.append((v[1], i, me))
            slots_of(x, out, me)
    elif t == "D":
        me = up + (v,)
        for kv in v[1]:
            out.append((kv, 1, me))
            slots_of(kv[1], out, me)


def g_loop(r, v):
    """make some list or dict of this value reachable from inside itself"""
    v = json.loads(json.dumps(v))
    out = []
    slots_of(v, out)
    out = [x for x in out if x[2]]
    if not out:
        return None
    for k in range(r.choice([1, 1, 1, 2])):
        l, i, up = r.choice(out)
        c = r.choice([up[-1], r.choice(up)])
        if l[i] is None or l[i][0] == "def" or "def" in str(l[i]):
            continue
        name = "y%d" % k
        if c[0] == "def":
            name = c[1]
        else:
            c[:] = ["def", name, list(c)]
        l[i] = ["ref", name]
    return v


def g_top(r, prof=None, limit=None):
    """a whole value of bounded size"""
    if limit is None:
        limit = r.choice([60, 200, 400])
    for i in range(20):
        v = g_value(r, dict(prof or {}, budget=[limit]))
        if esize(v) <= limit:
            if r.random() < (prof or {}).get("loop", 0.15):
                w = g_loop(r, v)
                if w is not None and esize(w) <= min(4 * limit, 1200):
                    return w
            if limit > 1200 and esize(v) > 1200 and '"ref"' in json.dumps(v):
                continue
            return v
    return ["L", [g_scalar(r, prof or {}) for _ in range(5)]]


BADS = ["object", "bigint", "negint", "bytes", "nul", "deep", "floatdup", "type", "complex"]


def g_bad(r, prof=None):
    """a value with something unsupported buried in it"""
    v = g_top(r, dict(prof or {}, depth=2))
    b = ["bad", r.choice(BADS)]
    k = r.random()
    if k < 0.3:
        return ["L", [v, b]]
    if k < 0.5:
        return ["D", [[["i", 1], v], [["s", "k"], b]]]
    if k < 0.65 and b[1] in ("bigint", "negint", "bytes", "nul", "complex", "object", "type"):
        return ["L", [v, ["S", [["i", 7], b, ["i", 9]]]]]
    if k < 0.75 and b[1] in ("bigint", "negint", "bytes", "nul", "complex", "object", "type"):
        return ["D", [[b, v]]]
    if k < 0.8:
        u = ["F", g_keys(r, {}, r.randrange(3))]
        for _ in range(r.randrange(3)):
            u = ["T", [["i", r.randrange(9)], u][:: r.choice([1, -1])]]
        return r.choice([["S", [["i", 3], ["badkey", u]]], ["D", [[["badkey", u], v], [["s", "x"], ["n"]]]]])
    if k < 0.9:
        return ["L", [["L", [b]], v]]
    return b


# ------------------------------------------------------------------ construction

class _Bad:
    pass


ROUTE = [0, 0]      # which of several equivalent histories makes the typed vectors of a value (0: the plain one), and how many were made


def build_by(route, spec, P):
    """the same value, its vectors made by other sequences of operations"""
    ROUTE[:] = [route, 0]
    try:
        return build(spec, P)
    finally:
        ROUTE[:] = [0, 0]


def routed(spec, P):
    ROUTE[1] += 1
    z = (ROUTE[0] * 2654435761 + ROUTE[1] * 40503) >> 4
    if spec[0] == "PV":
        t, xs = spec[1], spec[2]
        y = xs[:1] or [1.0 if t == "f" else 1]
        w = z % 8
        if w == 0:
            return P.PointlessPrimVector(t, sequence=xs)
        v = P.PointlessPrimVector(t)
        if w == 1:
            v.append_bulk(xs)
        elif w == 2:
            v.append_bulk(xs + y * (z // 8 % 20))
            if len(v) > len(xs):
                v.pop_bulk(len(v) - len(xs))
        elif w == 3:
            k = z // 8 % 5
            v.append_bulk(y * k + xs + y * 3)
            v = v[k:k + len(xs)]
        elif w == 4:
            v.append_bulk(y * (1 + z // 8 % 40))
            v.clear()
            v.append_bulk(P.PointlessPrimVector(t, sequence=xs))
        elif w == 5:
            v.append_bulk(y * 2)
            v.pop()
            v.pop()
            for x in xs:
                v.append(x)
        elif w == 6:
            v.append_bulk(y * len(xs))
            for i, x in enumerate(xs):
                v[i] = x
        else:
            v.append_bulk(xs[: len(xs) // 2])
            v.append_bulk(iter(xs[len(xs) // 2:]))
        return v
    bits = spec[1]
    n, w = len(bits), z % 10
    if w == 0:
        return P.PointlessBitvector(sequence=[c == "1" for c in bits])
    if w == 1:
        return P.PointlessBitvector(sequence=(c == "1" for c in bits)).copy()
    if w == 2:
        b = P.PointlessBitvector(n)
        for i in range(n):
            b[i] = True
        for i, c in enumerate(bits):
            b[i] = c == "1"
        return b
    b = P.PointlessBitvector()
    if w in (3, 4):
        # in runs, possibly overshooting
        import itertools
        for c, g in itertools.groupby(bits):
            (b.extend_true if c == "1" else b.extend_false)(len(list(g)))
        if w == 4:
            k = 1 + z // 10 % 20
            b.extend_true(k)
            for _ in range(k):
                b.pop()
    elif w == 5:
        for c in bits:
            b.append(c == "1")
    elif w == 6:
        b.append_bulk(P.PointlessBitvector(sequence=[c == "1" for c in bits]))
    elif w == 7:
        b.extend_true(n)
        for i, c in enumerate(bits):
            if c != "1":
                b[i] = False
        for _ in range(z // 10 % 12):
            b.append(True)
        while len(b) > n:
            b.pop()
    elif w == 8:
        k = z // 10 % (n + 1)
        b = P.PointlessBitvector(sequence=[c == "1" for c in bits[:k]])
        b.append_bulk(P.PointlessBitvector(sequence=[c == "1" for c in bits[k:]]))
    else:
        b = P.PointlessBitvector(k := z // 10 % (n + 1))
        for i in range(k):
            b[i] = bits[i] == "1"
        for c in bits[k:]:
            b.append(c == "1")
    return b


def build(spec, P, env=None):
    env = env if env is not None else {}
    t = spec[0]
    if t in "ifs" and len(t) == 1:
        # always fresh objects, so that reference counts are attributable
        return spec[1] if t == "s" else (int(spec[1]) if t == "i" else float(spec[1]))
    if t == "b":
        return bool(spec[1])
    if t == "n":
        return None
    if t == "L":
        return [build(x, P, env) for x in spec[1]]
    if t == "T":
        return tuple(build(x, P, env) for x in spec[1])
    if t == "S":
        return set(build(x, P, env) for x in spec[1])
    if t == "F":
        return frozenset(build(x, P, env) for x in spec[1])
    if t == "D":
        return {build(k, P, env): build(v, P, env) for k, v in spec[1]}
    if t in ("PV", "BV") and ROUTE[0]:
        return routed(spec, P)
    if t == "PV":
        v = P.PointlessPrimVector(spec[1])
        for x in spec[2]:
            v.append(x)
        return v
    if t == "BA":
        return bytearray(bytes.fromhex(spec[1]))
    if t == "BV":
        b = P.PointlessBitvector(len(spec[1]))
        for i, c in enumerate(spec[1]):
            if c == "1":
                b[i] = True
        return b
    if t == "def":
        inner, names = spec[2], [spec[1]]
        while inner[0] == "def":
            names.append(inner[1])
            inner = inner[2]
        if inner[0] == "L":
            o = []
            env.update((x, o) for x in names)
            o.extend(build(x, P, env) for x in inner[1])
            return o
        if inner[0] == "D":
            o = {}
            env.update((x, o) for x in names)
            for k, v in inner[1]:
                o[build(k, P, env)] = build(v, P, env)
            return o
        o = build(inner, P, env)
        env.update((x, o) for x in names)
        return o
    if t == "ref":
        return env.get(spec[1])
    if t == "badkey":
        return build(spec[1], P, env)
    if t == "bad":
        k = spec[1]
        if k == "object":
            return _Bad()
        if k == "bigint":
            return 2**32 + 5
        if k == "negint":
            return -2**31 - 1
        if k == "bytes":
            return b"bytes"
        if k == "nul":
            return "a\0b"
        if k == "complex":
            return 1j
        if k == "type":
            return int
        if k == "floatdup":
            return {0.1: 1, f32(0.1): 2}
        if k == "deep":
            o = []
            for _ in range(300):
                o = [o]
            return o
    raise ValueError("spec %r" % (t,))


def spec_defs(spec, out=None):
    out = out if out is not None else {}
    t = spec[0]
    if t == "def":
        out[spec[1]] = spec[2]
        spec_defs(spec[2], out)
    elif t in ("L", "T", "S", "F"):
        for x in spec[1]:
            spec_defs(x, out)
    elif t == "D":
        for k, v in spec[1]:
            spec_defs(v, out)
    return out


def has_bad(spec):
    t = spec[0]
    if t in ("bad", "badkey"):
        return True
    if t == "def":
        return has_bad(spec[2])
    if t in ("L", "T", "S", "F"):
        return any(has_bad(x) for x in spec[1])
    if t == "D":
        return any(has_bad(k) or has_bad(v) for k, v in spec[1])
    return False


# ------------------------------------------------------------------ the canonical (comparable, hashable) form

def canon(spec, defs=None, depth=0, maxd=7):
    """the canonical form the reader must deliver. Cycles are cut at maxd."""
    if defs is None:
        defs = spec_defs(spec)
    t = spec[0]
    if t == "def":
        return canon(spec[2], defs, depth, maxd)
    if t == "ref":
        if spec[1] not in defs:
            return ("n",)
        return canon(defs[spec[1]], defs, depth, maxd)
    if t == "i":
        return ("i", spec[1])
    if t == "f":
        return ("f", fkey(f32(spec[1])))
    if t == "b":
        return ("b", bool(spec[1]))
    if t == "n":
        return ("n",)
    if t == "s":
        return ("s", spec[1])
    if t == "BV":
        return ("B", spec[1])
    if t == "PV":
        return ("V",) + tuple(("f", fkey(f32(x))) if spec[1] == "f" else ("i", x) for x in spec[2])
    if t == "BA":
        return ("V",) + tuple(("i", x) for x in bytes.fromhex(spec[1]))
    if depth >= maxd:
        return ("cut",)
    if t in ("L", "T"):
        return ("V",) + tuple(canon(x, defs, depth + 1, maxd) for x in spec[1])
    if t in ("S", "F"):
        return ("S", frozenset(canon(x, defs) for x in spec[1]))
    if t == "D":
        return ("M", frozenset((canon(k, defs), canon(v, defs, depth + 1, maxd)) for k, v in spec[1]))
    raise ValueError(t)


def fkey(x):
    return "nan" if x != x else struct.pack("f", x).hex()


def read_canon(o, P, depth=0, maxd=7):
    """the same form, read through iteration of the library's objects"""
    if o is None:
        return ("n",)
    if o is True or o is False:
        return ("b", o)
    ty = type(o)
    if ty is int:
        return ("i", o)
    if ty is float:
        return ("f", fkey(o))
    if ty is str:
        return ("s", o)
    if ty is P.PointlessBitvector:
        return ("B", "".join("1" if x else "0" for x in o))
    if ty is P.PointlessPrimVector:
        return ("V",) + tuple(read_canon(x, P) for x in o)
    if ty is P.PointlessVector:
        if depth >= maxd:
            tc = None
            try:
                tc = o.typecode
            except ValueError:
                pass
            if tc is None and len(o):
                return ("cut",)
            if not len(o):
                return ("cut",)
        r = ("V",) + tuple(read_canon(x, P, depth + 1, maxd) for x in o)
        return r
    if depth >= maxd:
        return ("cut",)
    if ty is P.PointlessSet:
        l = [read_canon(x, P) for x in o]
        s = frozenset(l)
        if len(s) != len(l) or len(l) != len(o):
            return ("S-dup", len(l), len(s), len(o))
        return ("S", s)
    if ty is P.PointlessMap:
        l = [(read_canon(k, P), read_canon(v, P, depth + 1, maxd)) for k, v in o.items()]
        s = frozenset(l)
        if len(set(k for k, _ in l)) != len(l) or len(l) != len(o):
            return ("M-dup", len(l), len(s), len(o))
        return ("M", s)
    return ("?", str(ty))


def numform(c):
    """the canonical form with numbers which compare equal made the same"""
    if c[0] == "b" or c[0] == "i":
        return ("#", int(c[1]))
    if c[0] == "f":
        if c[1] == "nan":
            return c
        x = struct.unpack("f", bytes.fromhex(c[1]))[0]
        return ("#", int(x)) if x == x and abs(x) != float("inf") and x == int(x) else ("#", x)
    if c[0] == "V":
        return ("V",) + tuple(numform(x) for x in c[1:])
    return c


def c_check(k, src, spec, maxd=7):
    """everything the C reader and its helper functions deliver for a file, against the value in it; -> complaint or None"""
    want = canon(spec, maxd=maxd)
    probes = set()

    def collect(c):
        if c[0] == "i" and -2**63 < c[1] < 2**63:
            probes.update((c[1], c[1] + 1, -c[1]))
        elif c[0] == "s":
            probes.update((c[1], c[1][:-1], c[1] + "a"))
        elif c[0] == "V":
            for x in c[1:]:
                collect(x)
        elif c[0] in "SM":
            for x in c[1]:
                for y in (x if c[0] == "M" else (x,)):
                    collect(y)
    collect(want)
    probes = sorted((x for x in probes if type(x) is int and -2**63 <= x < 2**63), key=abs)[:12] + sorted(x for x in probes if type(x) is str and "\0" not in x)[:12] + [0, 1, ""]
    r = k.c_dump(src, maxd, probes)
    if not r[0]:
        return "the C reader refuses it: %s" % r[1]
    tree, err, cont, same, whole = r[1:]
    if err:
        return err
    if whole and not cut_eq(want, tree):
        return "the C reader delivers %s for %s" % (str(tree)[:300], str(want)[:300])
    if not whole:
        return None
    keys = {}
    for t, i, ks, flags in cont:
        fs = keys[(t, i)] = frozenset(ks)
        for q, f in zip(probes, flags):
            if f != 2 and bool(f) != ((("i", q) if type(q) is int else ("s", q)) in fs):
                return "the C lookup of %r %s" % (q, "finds what is not there" if f else "misses what is there")
    for ta, a, tb, b, s in same:
        ka, kb = keys.get((ta, a)), keys.get((tb, b))
        if ka is None or kb is None:
            continue
        if ka == kb and not s and not any("nan" in str(x) for x in ka):
            return "two with the same keys are said to differ"
        if s and frozenset(map(numform, ka)) != frozenset(map(numform, kb)):
            return "two with different keys are said to have the same"
    return None


def py_check(P, raw, spec):
    """the same through the Python interface; -> complaint or None"""
    try:
        check(P.Pointless(bytearray(raw)).GetRoot(), spec, P)
    except Mismatch as e:
        return str(e)


def cut_eq(a, b):
    """equality of canonical forms; 'cut' matches any container"""
    if a == b:
        return True
    if a == ("cut",):
        return isinstance(b, tuple) and b[0] in ("V", "S", "M", "cut")
    if b == ("cut",):
        return isinstance(a, tuple) and a[0] in ("V", "S", "M", "cut")
    if a[0] != b[0] or a[0] not in ("V", "S", "M"):
        return False
    if a[0] == "V":
        return len(a) == len(b) and all(cut_eq(x, y) for x, y in zip(a[1:], b[1:]))
    if len(a[1]) != len(b[1]):
        return False
    if a[0] == "M":
        rest = list(b[1])
        for k, v in a[1]:
            for i, (k2, v2) in enumerate(rest):
                if cut_eq(k, k2) and cut_eq(v, v2):
                    del rest[i]
                    break
            else:
                return False
        return True
    rest = list(b[1])
    for k in a[1]:
        for i, k2 in enumerate(rest):
            if cut_eq(k, k2):
                del rest[i]
                break
        else:
            return False
    return True


def diff(a, b, path="root"):
    if cut_eq(a, b):
        return None
    if a[0] == b[0] == "V":
        if len(a) != len(b):
            return "%s: length %d, expected %d" % (path, len(b) - 1, len(a) - 1)
        for i, (x, y) in enumerate(zip(a[1:], b[1:])):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
    return "%s: read %s, expected %s" % (path, str(b)[:160], str(a)[:160])


# ------------------------------------------------------------------ deep check through every access path

class Mismatch(Exception):
    pass


def _need(c, msg):
    if not c:
        raise Mismatch(msg)


def check(o, spec, P, path="root", defs=None, depth=0, keys_missing=True):
    """compare a read-back object with its specification through every access path the library offers"""
    if defs is None:
        defs = spec_defs(spec)
    t = spec[0]
    if t == "def":
        return check(o, spec[2], P, path, defs, depth)
    if t == "ref":
        if spec[1] not in defs:
            _need(o is None, path + ": expected None")
            return
        return check(o, defs[spec[1]], P, path, defs, depth)
    if depth > 6:
        return
    if t in ("i", "f", "b", "n", "s"):
        c = canon(spec, defs)
        g = read_canon(o, P)
        _need(c == g, "%s: read %r, expected %r" % (path, g, c))
        return
    if t == "BV":
        bits = spec[1]
        _need(type(o) is P.PointlessBitvector, path + ": not a bit vector")
        _need(len(o) == len(bits), "%s: %d bits, expected %d" % (path, len(o), len(bits)))
        got = "".join("1" if x else "0" for x in o)
        _need(got == bits, "%s: bits %s, expected %s" % (path, got, bits))
        for i in range(min(len(bits), 70)):
            _need(o[i] == (bits[i] == "1"), "%s[%d]: wrong bit" % (path, i))
        if bits:
            _need(o[-1] == (bits[-1] == "1") if True else 0, path + "[-1]: wrong bit")
        _need(bool(o.IsAnySet()) == ("1" in bits), path + ": IsAnySet")
        _need(bool(o) == bool(bits), path + ": truth")
        n = len(bits)
        cnt = (o.NumZeroPrefix(), o.NumZeroPostfix(), o.NumOnePrefix(), o.NumOnePostfix())
        want = (n - len(bits.lstrip("0")), n - len(bits.rstrip("0")), n - len(bits.lstrip("1")), n - len(bits.rstrip("1")))
        _need(cnt == want, "%s: prefix and postfix counts %r, expected %r" % (path, cnt, want))
        c = o.copy()
        _need(c == o and "".join("1" if x else "0" for x in c) == bits and hash(c) == hash(o), path + ": a copy differs")
        return
    if t in ("L", "T", "PV", "BA"):
        if t == "PV":
            items = [["f", x] if spec[1] == "f" else ["i", x] for x in spec[2]]
        elif t == "BA":
            items = [["i", x] for x in bytes.fromhex(spec[1])]
        else:
            items = spec[1]
        check_vec(o, items, P, path, defs, depth, pv=spec[1] if t == "PV" else ("u8" if t == "BA" else None))
        return
    if t in ("S", "F"):
        _need(type(o) is P.PointlessSet, path + ": not a set")
        _need(len(o) == len(spec[1]), "%s: %d elements, expected %d" % (path, len(o), len(spec[1])))
        want = sorted(repr(canon(x, defs)) for x in spec[1])
        got = sorted(repr(read_canon(x, P)) for x in o)
        _need(got == want, "%s: elements %s" % (path, _ldiff(got, want)))
        for x in spec[1]:
            _need(bkey(x, P) in o, "%s: element %r not found" % (path, x))
        if keys_missing:
            for m in missing_keys(spec[1], P):
                _need(not (m in o), "%s: found %r, which was never exported" % (path, m))
        return
    if t == "D":
        _need(type(o) is P.PointlessMap, path + ": not a map")
        _need(len(o) == len(spec[1]), "%s: %d keys, expected %d" % (path, len(o), len(spec[1])))
        want = sorted(repr(canon(k, defs)) for k, v in spec[1])
        got = sorted(repr(read_canon(k, P)) for k in o)
        _need(got == want, "%s: keys %s" % (path, _ldiff(got, want)))
        got = sorted(repr(read_canon(k, P)) for k in o.keys())
        _need(got == want, "%s: keys() differ: %s" % (path, _ldiff(got, want)))
        ks = list(o.keys())
        vs = list(o.values())
        its = list(o.items())
        _need(len(ks) == len(vs) == len(its), path + ": keys/values/items lengths differ")
        for k, v, (k2, v2) in zip(ks, vs, its):
            _need(repr(read_canon(k, P)) == repr(read_canon(k2, P)), path + ": keys() and items() disagree")
            _need(cut_eq(read_canon(v, P, 5), read_canon(v2, P, 5)), path + ": values() and items() disagree")
        for n, (k, v) in enumerate(spec[1]):
            kk = bkey(k, P)
            if kk is NOKEY:
                continue
            _need(kk in o, "%s: key %r not found" % (path, k))
            try:
                x = o[kk]
            except KeyError:
                raise Mismatch("%s: key %r not found" % (path, k))
            check(x, v, P, "%s[%r]" % (path, k), defs, depth + 1)
            y = o.get(kk, _Bad)
            _need(y is not _Bad, "%s: get(%r) found nothing" % (path, k))
            _need(cut_eq(read_canon(y, P, 4), canon(v, defs, 4)), "%s.get(%r): wrong value" % (path, k))
        if keys_missing:
            for m in missing_keys([k for k, v in spec[1]], P):
                _need(not (m in o), "%s: found %r, which was never exported" % (path, m))
                _need(o.get(m, _Bad) is _Bad, "%s: get(%r) found something" % (path, m))
                try:
                    o[m]
                except KeyError:
                    pass
                else:
                    raise Mismatch("%s[%r] found something" % (path, m))
        return
    raise ValueError(t)


def _ldiff(got, want):
    g, w = list(got), list(want)
    for x in list(g):
        if x in w:
            g.remove(x)
            w.remove(x)
    return "unexpected %s, missing %s" % (str(g)[:200], str(w)[:200])


NOKEY = _Bad()


def bkey(k, P):
    """the object by which this key is looked up"""
    if k[0] == "PV":
        # as the tuple of its items, as far as those are supported in keys
        if not all(type(x) is float or -2**31 <= x < 2**32 for x in k[2]):
            return NOKEY
        return tuple(k[2])
    return build(k, P)


def missing_keys(specs, P):
    have = set(hkey(s) for s in specs)
    hf = set(("num", f32(float(h[1]))) for h in have if h[0] == "num" and abs(h[1]) < 1e38)
    cands = [0, 1, -1, 2, 255, 256, 2**31, 2**32 - 1, -2**31, 77, 1.5, -0.5, "", "a", "zz", "no such key", "\u0142x", "\U0001f600", None, (), (1,), (1, 2), ("a",), (None,), (1.5, "x"), ((), 3)]
    for s in specs[:6]:
        if s[0] == "i":
            cands += [x for x in (s[1] + 1, s[1] - 1) if -2**31 <= x < 2**32]
        elif s[0] == "s":
            cands += [s[1] + "x", s[1][:-1], s[1][::-1]]
    out = []
    for c in cands:
        h = pykey(c)
        if h in have or (h[0] == "num" and ("num", f32(float(h[1]))) in hf):
            continue
        out.append(c)
    # others which only the comparison tells apart
    r = random.Random(len(specs))
    for s in specs[:5]:
        k = collide(r, s)
        if hkey(k) not in have and (k[0] != "i" or ("num", f32(float(k[1]))) not in hf):
            kk = bkey(k, P)
            if kk is not NOKEY:
                out.append(kk)
        if s[0] == "s":
            for a, b in TWINS:
                for a, b in ((a, b), (b, a)):
                    if s[1].startswith(a) and ("s", b + s[1][len(a):]) not in have:
                        out.append(b + s[1][len(a):])
    return out


def pykey(c):
    if c is None:
        return ("n",)
    if isinstance(c, (bool, int)):
        return ("num", int(c))
    if isinstance(c, float):
        return ("num", f32(c))
    if isinstance(c, str):
        return ("s", c)
    if isinstance(c, tuple):
        return ("T",) + tuple(pykey(x) for x in c)
    raise ValueError(c)


def check_vec(o, items, P, path, defs, depth, pv=None):
    n = len(items)
    _need(type(o) is P.PointlessVector, "%s: not a vector but %r" % (path, type(o)))
    _need(len(o) == n, "%s: length %d, expected %d" % (path, len(o), n))
    for i in range(n):
        if n > 40 and 12 < i < n - 12 and i % 7:
            continue
        check(o[i], items[i], P, "%s[%d]" % (path, i), defs, depth + 1)
    if n:
        md = 3
        full = [canon(x, defs, 0, md) for x in items]
        fw = [read_canon(x, P, 0, md) for x in o]
        bw = [read_canon(x, P, 0, md) for x in reversed(o)]
        _need(len(fw) == n and all(cut_eq(a, b) for a, b in zip(full, fw)), path + ": iteration differs")
        _need(len(bw) == n and all(cut_eq(a, b) for a, b in zip(full[::-1], bw)), path + ": reverse iteration differs")
        for i in (-1, -n):
            _need(cut_eq(read_canon(o[i], P, 0, md), full[i]), "%s[%d]: wrong item" % (path, i))
        a, b = (n // 3, n - n // 4)
        for (i, j) in ((a, b), (0, n), (1, None), (None, -1), (b, a), (n, n + 3), (-2, None), (-n - 2, None), (-n - 2, -1), (None, -n - 1), (-n, n + 5), (n + 1, n + 2)):
            sl = o[i:j]
            w = full[i:j]
            _need(len(sl) == len(w), "%s[%r:%r]: length %d, expected %d" % (path, i, j, len(sl), len(w)))
            _need(all(cut_eq(x, read_canon(y, P, 0, md)) for x, y in zip(w, sl)), "%s[%r:%r]: wrong items" % (path, i, j))
        s1 = o[a:b][1:]
        _need([read_canon(x, P, 0, md) for x in s1] == [read_canon(x, P, 0, md) for x in o][a:b][1:], path + ": slice of slice differs")
    for i in (n, n + 1, -n - 1):
        try:
            o[i]
        except IndexError:
            pass
        else:
            raise Mismatch("%s[%d]: no IndexError" % (path, i))
    tc = None
    try:
        tc = o.typecode
    except ValueError:
        pass
    if pv and n:
        _need(tc == pv, "%s: typecode %r, expected %r" % (path, tc, pv))
    if tc and n:
        vals = [x[1] for x in items]
        if tc == "f":
            vals = [f32(x) for x in vals]
        raw = struct.pack("<%d%s" % (n, PV_CODE[tc]), *vals)
        _need(bytes(memoryview(o)) == raw, path + ": buffer bytes differ")
        a = n // 2
        isz = len(raw) // n
        _need(bytes(memoryview(o[a:])) == raw[a * isz:], path + ": buffer bytes of a slice differ")
        _need(o.min() == min(vals) and o.max() == max(vals), "%s: min/max %r/%r, expected %r/%r" % (path, o.min(), o.max(), min(vals), max(vals)))
        _need(tuple(o.range()) == (min(vals), max(vals)), path + ": range")
        # every part of a vector is a vector of its own
        for lo, hi in {(0, n), (a, n), (0, a), (n // 3, n - n // 3)}:
            sv = vals[lo:hi]
            if not sv:
                continue
            so = o if (lo, hi) == (0, n) else o[lo:hi]
            _need((so.min(), so.max()) == (min(sv), max(sv)), "%s: min/max of [%d:%d]" % (path, lo, hi))
            _need(tuple(so.range()) == (min(sv), max(sv)), "%s: range of [%d:%d]" % (path, lo, hi))
            if tc == "u64" and sv == sorted(sv):
                import bisect
                for x in sorted(set(sv[:3] + [0, sv[-1], min(sv[-1] + 1, 2**64 - 1), vals[-1], min(vals[-1] + 1, 2**64 - 1), 2**63])):
                    _need(so.bisect_left(x) == bisect.bisect_left(sv, x), "%s: bisect_left(%d) in [%d:%d]" % (path, x, lo, hi))
    # membership of scalars
    for x in items[:4] + items[-2:]:
        if x[0] in ("i", "s", "b", "n") or (x[0] == "f" and f32(x[1]) == x[1]):
            _need(build(x, P) in o, "%s: item %r not found by membership" % (path, x))
    if all(x[0] in ("i", "s", "n") for x in items):
        have = set(hkey(x) for x in items)
        if n > 1:
            a = n // 2
            for (so, inn, out) in ((o[a:], items[a:], items[:a]), (o[:a], items[:a], items[a:])):
                hs = set(hkey(x) for x in inn)
                for x in (inn[:1] + inn[-1:]):
                    _need(build(x, P) in so, "%s: item %r not found in its slice" % (path, x))
                for x in (out[:1] + out[-1:]):
                    if hkey(x) not in hs:
                        _need(build(x, P) not in so, "%s: item %r found in a slice without it" % (path, x))
        for m in (123456789, "no such item", -77):
            if pykey(m) not in have:
                _need(m not in o, "%s: found %r" % (path, m))
