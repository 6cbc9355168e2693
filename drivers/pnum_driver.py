"""Records calls of scripts/punum.py: python3 pnum_driver.py DIR-OF-PUNUM ALPHABET-NUMBER ALPHABET-SPEC KIND SEED COUNT"""
import contextlib
import io
import json
import math
import random
import sys
from fractions import Fraction

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
with contextlib.redirect_stdout(io.StringIO()):
    import punum

C, ALPHA, KIND, SEED, COUNT = int(sys.argv[2]), sys.argv[3], sys.argv[4], int(sys.argv[5]), int(sys.argv[6])
rng = random.Random(SEED * 1000 + C)


def big(n):
    r = []
    while n:
        r.append(n & 32767)
        n >>= 15
    return r


def rat(x):
    if isinstance(x, float) and math.isinf(x):
        return [1 if x < 0 else 0, [1], []]
    x = Fraction(x)
    return [1 if x < 0 else 0, big(abs(x.numerator)), big(x.denominator)]


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def attempt(f, *a):
    try:
        return quiet(f, *a)
    except RecursionError:
        return -1
    except Exception:
        return -1


def emit(o, a, r, b=None):
    for i in range(0, len(r), 64):
        row = {"c": C, "o": o, "each": 1, "a": a[i:i + 64]}
        if b is not None:
            row["b"] = b[i:i + 64]
        row["r"] = r[i:i + 64]
        print(json.dumps(row, separators=(",", ":")))


def idx(x):
    return x.v if isinstance(x, punum.Pnum) else [-2] if isinstance(x, punum.Pbound) else -1


def arc(x):
    if not isinstance(x, punum.Pbound):
        return [-2, idx(x)]
    return [] if x.empty is True else [x.v[0].v, x.v[1].v]


OWN = {
    "own4": [1, Fraction(3, 2), 3, 7],
    "own8": [1, Fraction(10, 9), Fraction(5, 4), Fraction(5, 3), Fraction(7, 3), 5, 10, 100],
    "own16": [1 + Fraction(k * k, 7) for k in range(16)],
}


def alphabet():
    if ALPHA in OWN:
        return punum.Alphabet([Fraction(x) for x in OWN[ALPHA]])
    return getattr(punum.Alphabet, ALPHA)()


A = quiet(alphabet)
NV = A.pnnvalues()


def some(n):
    """points, with the surroundings of the special ones first"""
    if NV <= n:
        return list(range(NV))
    s = set()
    for c in (0, NV // 4, NV // 2, 3 * NV // 4, NV // 8, NV * 3 // 8):
        for d in range(-2, 3):
            s.add((c + d) % NV)
    while len(s) < n:
        s.add(rng.randrange(NV))
    return sorted(s)


def P(k):
    return A.rawpnum(k)


def unary():
    emit("exacts", [0], [[rat(x) for x in A.eexacts]])
    emit("consts", [0], [attempt(lambda: [A.pnnvalues(), A.one().v, A.zero().v, A.inf().v, P(1).one().v, P(1).zero().v, P(1).inf().v,
                                          len(P(1).exacts())])])
    ks = some(min(COUNT, 1024))
    for o, f in (("neg", lambda p: -p), ("inv", lambda p: ~p), ("abs", lambda p: p.abs()), ("next", lambda p: p.next()),
                 ("prev", lambda p: p.prev())):
        emit(o, ks, [idx(attempt(f, P(k))) for k in ks])
    emit("neg", ks, [idx(attempt(punum.neg, P(k))) for k in ks])
    emit("inv", ks, [idx(attempt(punum.inv, P(k))) for k in ks])
    emit("pred", ks, [attempt(lambda p: [int(bool(x)) for x in (p.iszero(), p.isinf(), p.isexact(), p.isstrictlynegative(), p.isfractional())], P(k))
                      for k in ks])
    ev = [k for k in ks if k % 2 == 0]
    emit("value", ev, [attempt(lambda p: rat(p.exactvalue()), P(k)) for k in ev])
    wild = ks[:40] + [k + NV for k in ks[:40]] + [-k for k in ks[:40]] + [rng.randrange(-10**6, 10**6) for _ in range(24)]
    emit("index", wild, [idx(attempt(P(1).fromindex, k)) for k in wild])
    emit("index", wild, [idx(attempt(A.rawpnum, k)) for k in wild])
    es = sorted(set(list(range(min(A.n, 16))) + [A.n - 1] + [rng.randrange(A.n) for _ in range(16)]))
    emit("exact", es, [idx(attempt(A.fromexactsindex, k)) for k in es])
    emit("exact", es, [idx(attempt(P(1).fromexactsindex, k)) for k in es])
    if ALPHA != "p16a":
        emit("str", ev, [attempt(str, P(k)) for k in ev])


def conv():
    vals = [0, 1, -1, 2, -2, 3, 10**30, -10**30, 10**400, -10**400, Fraction(1, 10**400), Fraction(-1, 10**400), Fraction(1, 3), Fraction(-2, 3),
            0.0, -0.0, 1.0, 0.1, -0.1, 5e-324, -5e-324, 1.7976931348623157e308, True, False]
    ks = some(min(COUNT, 300))
    ex = []
    for k in ks:
        if k % 2 == 0 and k != NV // 2:
            i = k if k < NV // 2 else NV - k
            v = Fraction(0) if i == 0 else Fraction(A.eexacts[(i - NV // 4) // 2]) if i >= NV // 4 else 1 / Fraction(A.eexacts[(NV // 4 - i) // 2])
            ex.append(v if k < NV // 2 else -v)
    ex.sort()
    for x in ex:
        e = Fraction(1, 10**rng.choice((1, 3, 12, 25)))
        vals += [x, x * (1 + e), x * (1 - e), float(x)]
        if x:
            vals += [math.nextafter(float(x), math.inf), math.nextafter(float(x), -math.inf)]
    for x, y in zip(ex, ex[1:]):
        vals += [(x + y) / 2, float((x + y) / 2), x + (y - x) * Fraction(rng.randrange(1, 1000), 1000)]
    for _ in range(60):
        vals += [math.ldexp(rng.uniform(-1, 1), rng.randrange(-40, 40)), rng.randrange(-300, 300), Fraction(rng.randrange(-300, 300), rng.randrange(1, 300))]

    def enc(v):
        if isinstance(v, float) and math.isnan(v):
            return {"t": "nan"}
        if isinstance(v, float) and math.isinf(v):
            return {"t": "inf"}
        s, n, d = rat(v)
        return {"t": "num", "s": s, "n": n, "d": d}
    vals += [math.inf, -math.inf, math.nan]
    emit("conv", [enc(v) for v in vals], [idx(attempt(A.convert, v)) for v in vals])


def binary():
    ks = some(COUNT)
    pairs = [(a, b) for a in ks for b in ks]
    if len(pairs) > COUNT * COUNT // 2 and NV > COUNT:
        rng.shuffle(pairs)
        pairs = pairs[:COUNT * COUNT // 2]
    a, b = [p[0] for p in pairs], [p[1] for p in pairs]
    for o, f in (("add", lambda x, y: x + y), ("sub", lambda x, y: x - y), ("mul", lambda x, y: x * y), ("div", lambda x, y: x / y)):
        emit(o, a, [arc(attempt(f, P(x), P(y))) for x, y in pairs], b)


def bounds():
    B = punum.Pbound
    names = ["inf", "one", "zero", "empty", "finite", "nonzero", "everything"]
    emit("aconst", names, [arc(attempt(getattr(B, n), A)) for n in names])
    ks = some(COUNT)
    arcs = [(a, b) for a in ks for b in ks]
    arcs += [(k, (k - 1) % NV) for k in ks]
    if NV > COUNT:
        rng.shuffle(arcs)
        arcs = arcs[:COUNT * COUNT // 2]
    ws = [[]] + [list(x) for x in arcs]

    def mk(w):
        return B.empty(A) if not w else B(P(w[0]), P(w[1])) if w[0] != w[1] or rng.random() < .5 else B(P(w[0]))

    def arclen(w):
        return (w[1] - w[0]) % NV + 1 if w else 0
    for o, f in (("aneg", lambda x: -x), ("ainv", lambda x: ~x), ("anot", lambda x: x.complement())):
        emit(o, ws, [arc(attempt(f, mk(w))) for w in ws])
    emit("aall", ws, [attempt(lambda x: int(bool(x.iseverything())), mk(w)) for w in ws])
    short = [w for w in ws if arclen(w) <= 64][:400]
    emit("aiter", short, [attempt(lambda x: [p.v for _, p in zip(range(200), x.iter())], mk(w)) for w in short])
    if ALPHA != "p16a":
        emit("astr", ws, [attempt(str, mk(w)) for w in ws])


def alphabets():
    F = Fraction
    lists = [[1], [1, 2], [1, 2, 4], [1, 2, 4, 8], [2], [2, 3], [F(1, 2), 1], [1, 1], [1, F(1, 2)], [1, 3, 2, 4], [1, 2, 3, 3], [1, 2, 3, 4, 5, 6, 7, 8],
             [1, F(3, 2), F(4, 3), 2], [1, F(4, 3), F(3, 2), 2], [1, -2], [0, 1], [-1, 1], [1, 2, 3, 4, 5], [F(2, 2), F(7, 3)], [1, 10**30], [1, 10**30, 10**31, 10**30],
             [1, F(10**20 + 1, 10**20)], [F(10**20 + 1, 10**20), 2], [1, 0]]
    for _ in range(COUNT):
        n = rng.choice((1, 2, 3, 4, 4, 6, 8, 8, 16))
        v = [F(1)]
        while len(v) < n:
            v.append(v[-1] + F(rng.randrange(1, 40), rng.randrange(1, 9)))
        if rng.random() < .6 and n > 1:
            i = rng.randrange(n - 1)
            m = rng.randrange(3)
            if m == 0:
                v[i + 1] = v[i]
            elif m == 1:
                v[i], v[i + 1] = v[i + 1], v[i]
            else:
                v[i] = v[i] - F(rng.randrange(1, 9), 7)
        lists.append(v)

    def accepted(v):
        try:
            quiet(punum.Alphabet, [F(x) for x in v])
            return 1
        except Exception:
            return 0
    emit("alphabet", [[rat(x) for x in v] for v in lists], [accepted(v) for v in lists])


globals()[KIND]()
