"""Configurations of the posit template and how much of each is explored."""
from lib.core import NPROC

# (bits of the holder, n, es, bits of the fraction type, special values: 0 NaN, 1 infinity, 2 both)
NAN, INF, BOTH = 0, 1, 2
_8 = [
    (8, 8, 0, 8, NAN), (8, 8, 0, 8, INF), (8, 8, 0, 16, BOTH), (8, 8, 1, 8, NAN), (8, 8, 2, 16, NAN), (8, 8, 2, 8, BOTH),
    (8, 8, 3, 32, INF), (8, 8, 5, 8, NAN), (8, 7, 0, 8, NAN), (8, 7, 1, 8, INF), (8, 7, 2, 16, BOTH), (8, 6, 0, 8, NAN),
    (8, 6, 1, 16, BOTH), (8, 6, 2, 8, INF), (8, 5, 0, 8, BOTH), (8, 5, 1, 8, NAN), (8, 5, 2, 16, NAN), (8, 4, 0, 8, NAN),
    (8, 4, 1, 8, INF), (8, 4, 0, 16, BOTH), (8, 3, 0, 8, NAN),
]
_16 = [
    (16, 16, 0, 16, NAN), (16, 16, 1, 16, NAN), (16, 16, 1, 32, INF), (16, 16, 2, 32, NAN), (16, 16, 2, 64, BOTH), (16, 16, 3, 16, NAN),
    (16, 16, 5, 16, NAN), (16, 15, 1, 16, BOTH), (16, 14, 2, 32, NAN), (16, 12, 0, 16, NAN), (16, 12, 1, 32, BOTH), (16, 12, 2, 16, NAN),
    (16, 11, 1, 16, INF), (16, 10, 0, 16, NAN), (16, 10, 1, 16, NAN), (16, 10, 2, 32, BOTH), (16, 9, 0, 16, NAN), (16, 8, 0, 16, NAN),
    (16, 8, 1, 16, BOTH), (16, 5, 1, 32, NAN),
]
_32 = [
    (32, 32, 0, 32, NAN), (32, 32, 1, 32, NAN), (32, 32, 2, 32, NAN), (32, 32, 2, 64, NAN), (32, 32, 2, 64, BOTH), (32, 32, 3, 64, INF),
    (32, 32, 6, 32, NAN), (32, 31, 2, 32, NAN), (32, 28, 5, 32, NAN), (32, 28, 2, 64, BOTH), (32, 27, 1, 64, NAN), (32, 24, 1, 32, INF),
    (32, 20, 2, 32, NAN), (32, 16, 1, 32, NAN), (32, 10, 1, 32, NAN), (32, 8, 0, 32, BOTH), (32, 6, 1, 64, NAN),
]
_64 = [
    (64, 60, 3, 64, NAN), (64, 62, 1, 64, NAN), (64, 63, 0, 64, NAN), (64, 56, 2, 64, BOTH), (64, 48, 3, 64, INF), (64, 40, 2, 64, NAN),
    (64, 33, 2, 64, NAN), (64, 32, 2, 64, NAN), (64, 8, 1, 64, BOTH),
]
# the rest of the space: every exponent size with every flavour, fraction words wider than needed, exponents far beyond double
_more = [
    (8, 8, 4, 8, INF), (8, 7, 4, 64, BOTH), (8, 8, 3, 64, BOTH), (8, 7, 3, 8, NAN),
    (16, 16, 4, 32, BOTH), (16, 13, 4, 16, NAN), (16, 16, 6, 64, INF), (16, 15, 6, 16, BOTH), (16, 16, 3, 16, BOTH), (16, 16, 8, 16, INF),
    (32, 32, 4, 32, INF), (32, 25, 4, 64, BOTH), (32, 31, 3, 32, INF), (32, 31, 5, 64, BOTH), (32, 32, 8, 32, NAN), (32, 30, 10, 64, BOTH),
    (64, 59, 4, 64, INF), (64, 50, 5, 64, NAN), (64, 44, 6, 64, BOTH), (64, 50, 12, 64, NAN),
    # fraction words narrower than the holder
    (16, 8, 0, 8, NAN), (16, 8, 2, 8, BOTH), (16, 6, 1, 8, INF), (32, 16, 1, 16, NAN), (32, 8, 2, 8, BOTH), (32, 12, 1, 16, NAN),
    (64, 32, 2, 32, NAN), (64, 16, 1, 16, INF), (64, 7, 0, 8, NAN), (64, 28, 3, 32, BOTH),
]
CFGS = _8 + _16 + _32 + _64 + _more
SPEC_NAME = ["WithNan", "WithInf", "WithNanInf"]

# the ones people use: explored deeper
COMMON = {(8, 8, 0, 8, NAN), (8, 8, 1, 8, NAN), (8, 8, 2, 16, NAN), (16, 16, 1, 16, NAN), (16, 16, 2, 32, NAN), (32, 32, 2, 32, NAN),
          (32, 32, 2, 64, NAN), (16, 12, 0, 16, NAN), (16, 10, 0, 16, NAN), (32, 28, 5, 32, NAN), (16, 12, 1, 32, BOTH)}


def line(i, c):
    h, n, es, ft, sp = c
    return "X(%d, int%d_t, %d, %d, uint%d_t, %s)" % (i + 1, h, n, es, ft, SPEC_NAME[sp])


def cfg_header(idxs, cfgs):
    return "#define CFGS \\\n" + " \\\n".join(line(i, cfgs[i]) for i in idxs) + "\n"


def tla_header(cfgs):
    import json
    return json.dumps({"cfgs": [{"n": n, "es": es, "sp": sp, "h": h, "ft": ft, "w": 1 if h >= 32 else 0} for h, n, es, ft, sp in cfgs]})


def partition(idxs, parts=NPROC):
    return [p for p in (idxs[k::parts] for k in range(parts)) if p]
