#!/usr/bin/env python3
"""mutate.py N SEED [FILE..]: how sensitive are the checks?  Makes N small textual changes to the library, one at a time, in a
scratch copy, records the calls of every check on it, and lets TLC judge those that differ from the unchanged tree.  Prints, per
change, the checks that reject it.  A development tool: no check uses it."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lib import core, engine, props

SCRATCH = os.environ.get("MUT_SCRATCH", "/tmp/mut")
POSIT = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P15", "P18", "P21"]
BY = {"posit.h": POSIT, "unpacked.h": POSIT + ["P16", "P17", "P19", "P20"], "bithippop.hpp": POSIT + ["P16", "P17", "P23"],
      "anyfloat.hpp": ["P17"], "positf.h": ["P19", "P21"], "posit8.hpp": ["P14", "P21"], "posit10.hpp": ["P14", "P21"], "posit12.hpp": ["P14", "P21"],
      "floattraits.hpp": ["P03", "P04", "P16", "P17", "P19", "P20"], "fixedtraits.hpp": ["P16", "P05"], "float16native32.hpp": ["P20"],
      "floatconst2bits.hpp": ["P23"], "simdposit8.hpp": ["P25"], "positeigen.h": ["P26"], "binary8.hpp": ["P24"], "src/listposits.cpp": ["P27"],
      "src/floatTop8.cpp": ["P28"], "matlab/p8Tofloat.cpp": ["P28"], "matlab/p8binop.cpp": ["P28"], "matlab/p8unop.cpp": ["P28"],
      "src/posit8_gen.cpp": ["P14"], "src/posit10_gen.cpp": ["P14"], "src/posit12_gen.cpp": ["P14"], "src/binary8_gen.cpp": ["P24"], "src/simdposit8.cpp": ["P25"], "softfloat.hpp": ["P29"], "exp2t.hpp": ["P29"], "src/softfloat_gen.cpp": ["P29"], "matlab/halfprecision/halfprecision.c": ["P30"],
      "matlab/halfprecision/ieeehalfprecision.c": ["P30"], "scripts/punum.py": ["P31"], "typehelpers.hpp": POSIT + ["P16", "P17"]}
SUB = [(r"(?<![<>=!-])<(?![<=])", "<="), (r"(?<![<>=!-])>(?![>=])", ">="), (r"<=", "<"), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
       (r"&&", "||"), (r"\|\|", "&&"), (r"\+(?![+=])", "-"), (r"(?<![-])-(?![-=>])", "+"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"<<", ">>"), (r">>", "<<"), (r"\|(?!\|)", "&"), (r"(?<!&)&(?![&])", "|"), (r"\^", "|"), (r"!(?!=)", ""), (r"~", ""), (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot\b", ""), (r"\bnext\b", "prev"), (r"\bprev\b", "next"),
       (r"(?<![\w.])(\d+)(?![\w.])", "INC"), (r"(?<![\w.])(\d+)(?![\w.])", "DEC")]


def sites(path):
    out = []
    block = False
    for ln, l in enumerate(open(path, errors="replace").read().split("\n")):
        s = l.strip()
        if s.startswith("/*"):
            block = True
        if block:
            if "*/" in s:
                block = False
            continue
        if not s or s.startswith(("//", "#", "template", "struct", "class", "typedef", "using", "}", "{", "static_assert", "std::cout", "static constexpr bool vspec")):
            continue
        code = l.split("//")[0]
        if "cout" in code or "template" in code:
            continue
        for k, (rx, rep) in enumerate(SUB):
            for m in re.finditer(rx, code):
                if rep == "INC":
                    new = str(int(m.group(1)) + 1)
                elif rep == "DEC":
                    if m.group(1) == "0":
                        continue
                    new = str(int(m.group(1)) - 1)
                else:
                    new = rep
                out.append((ln, l[:m.start()] + new + l[m.end():]))
        if re.match(r"^\s*[\w.\[\]>-]+\s*(=|\+=|-=|\|=|&=|<<=|>>=)[^=].*;\s*$", code):
            out.append((ln, ";"))
    return out


def active(f):
    """Lines of include/f the compiler sees."""
    src = "".join('#include "%s"\n' % x for x in ("posit.h", "positf.h", "anyfloat.hpp", "float16native32.hpp", "floatconst2bits.hpp", "fixedtraits.hpp", f))
    p = subprocess.run(["g++", "-std=c++11", "-march=native", "-E", "-I/repo/include", "-I/repo/extern", "-I/usr/include/eigen3", "-x", "c++", "-"], input=src, stdout=subprocess.PIPE, text=True)
    seen, cur, ln = set(), "", 0
    for l in p.stdout.split("\n"):
        m = re.match(r'# (\d+) "([^"]*)"', l)
        if m:
            ln, cur = int(m.group(1)) - 1, os.path.basename(m.group(2))
            continue
        if cur == f and l.strip():
            seen.add(ln)
        ln += 1
    return seen


class Rec(engine.Check):
    def model(self, m):
        return ""

    def replay_behaviours(self, *a):
        pass

    def batch(self, b, limit=5):
        core.pmap(lambda s: s.build(), b.specs)
        core.pmap(lambda s: s.run(), b.specs)
        for s in b.specs:
            if s.job is not None:
                self.rec.append((b, s.job.rows, s.job.died))
        return [r for s in b.specs if s.job for r in s.job.rows]


def record(repo, build, pids):
    core.REPO, core._repo_hash, core.BUILD = repo, None, build
    res = {}
    for p in pids:
        c = Rec.__new__(Rec)
        c.rec = []
        engine.Check.__init__(c, p)
        c.work = os.path.join(SCRATCH, "work-" + p)
        props.CHECKS[p](c)
        res[p] = c.rec
    return res


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or list(BY)
    rnd = random.Random(seed)
    engine.OUT = SCRATCH
    base = record("/repo", os.path.join(SCRATCH, "build-base"), sorted({p for f in files for p in BY[f]}))
    cand = []
    for f in files:
        path = f if "/" in f else "include/" + f
        on = active(f) if path == "include/" + f else None
        s = [x for x in sites(os.path.join("/repo", path)) if on is None or x[0] in on]
        cand.append((f, s))
    print({f: len(s) for f, s in cand}, flush=True)
    pool = [(f, x) for f, s in cand for x in s]
    rnd.shuffle(pool)
    stats = {}
    for f, (ln, new) in pool[:n]:
        t = time.time()
        repo = os.path.join(SCRATCH, "repo")
        shutil.rmtree(repo, ignore_errors=True)
        shutil.copytree("/repo/include", repo + "/include")
        for d in ("src", "matlab", "extern", "scripts"):
            shutil.copytree("/repo/" + d, repo + "/" + d)
        p = os.path.join(repo, f if "/" in f else "include/" + f)
        L = open(p, errors="replace").read().split("\n")
        old = L[ln]
        L[ln] = new
        open(p, "w").write("\n".join(L))
        try:
            res = {}
            for pid in BY[f]:
                got = record(repo, os.path.join(SCRATCH, "build-mut"), [pid])[pid]
                for (b, r0, d0), (b1, r1, d1) in zip(base[pid], got):
                    if d1 and not d0:
                        res[pid] = "DIED"
                        continue
                    s0 = set(r0)
                    diff = [r for r in r1 if r not in s0]
                    if not diff or res.get(pid) in ("CAUGHT", "DIED"):
                        continue
                    diff = rnd.sample(diff, min(len(diff), 400))
                    rej, _, _ = core.validate(b1.module, b1.cfg, b1.header, diff, os.path.join(SCRATCH, "tlc"))
                    res[pid] = "CAUGHT" if rej else "ACCEPTED"
                if len(base[pid]) != len(got):
                    res.setdefault(pid, "FEWER")
                if res.get(pid) in ("CAUGHT", "DIED"):
                    break
            caught = [p for p in res if res[p] in ("CAUGHT", "DIED", "FEWER")]
            verdict = "CAUGHT " + " ".join(caught) if caught else ("ACCEPTED " + " ".join(res) if res else "SURVIVED")
        except core.CheckError as e:
            verdict = "NOCOMPILE" if "compile" in str(e) else "ERROR " + str(e)[-300:]
        stats[verdict.split()[0]] = stats.get(verdict.split()[0], 0) + 1
        print("%s:%d [%.0fs] %s\n    - %s\n    + %s" % (f, ln + 1, time.time() - t, verdict, old.strip(), new.strip()), flush=True)
        shutil.rmtree(os.path.join(SCRATCH, "build-mut"), ignore_errors=True)
    print(stats)


main()
