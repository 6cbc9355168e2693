#!/usr/bin/env python3
"""Two tests of the machinery itself (not of the library).

selftest.py bignat          BigNat in TLA+ and its Java evaluation print the same terms and satisfy the laws
selftest.py corrupt [PID..] every recorded result, changed a little, must be rejected by the specification;
                            prints, per operation, how many of the changed rows were rejected"""
import copy
import json
import os
import random
import re
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lib import core, engine, props


def bignat():
    outs = []
    for jv in (core.java_overrides(), None):
        with tempfile.TemporaryDirectory() as d:
            cp = [core.TLAJAR, core.TLADEPS] + ([jv] if jv else [])
            ov = ["-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides" + (":BigNatOverrides" if jv else "")]
            p = core.sh(["java", "-Xmx2g", "-Xss64m"] + ov + ["-cp", ":".join(cp), "tlc2.TLC", "-metadir", d, "-noGenerateSpecTE",
                         "-config", "BigNatTest.cfg", "BigNatTest.tla"], cwd=core.SPEC, timeout=600)
            if "No error has been found" not in p.stdout:
                print(p.stdout[-2000:])
                return 1
            flat = re.sub(r"\s+", "", p.stdout)
            outs.append(re.findall(r'<<"T",[0-9,<>-]*>>', flat))
    n = len(outs[0])
    print("bignat: %d terms, %s" % (n, "equal" if outs[0] == outs[1] else "DIFFERENT"))
    return 0 if outs[0] == outs[1] and n == 300 else 1


def tweak(v, rnd):
    """A value of the same shape, slightly different."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v ^ 1 if v >= 0 else v + rnd.choice((-1, 1))
    if isinstance(v, str):
        return v + "1" if v[-1:].isdigit() else v + "?"
    if isinstance(v, list) and v:
        k = rnd.randrange(len(v))
        w = list(v)
        w[k] = tweak(v[k], rnd)
        return w
    return [1] if v == [] else v


def corrupt(pids):
    rnd = random.Random(5)
    worst = []
    for pid in pids:
        rows_of = []

        def batch(self, b, limit=5):
            core.pmap(lambda s: s.build(), b.specs)
            core.pmap(lambda s: s.run(), b.specs)
            rows_of.append((b, [r for s in b.specs if s.job for r in s.job.rows]))
            return rows_of[-1][1]

        C = type("C", (engine.Check,), {"batch": batch, "model": lambda self, m: "", "replay_behaviours": lambda self, *a: None})
        c = C(pid)
        props.CHECKS[pid](c)
        for b, rows in rows_of:
            byop = {}
            for r in rows:
                o = json.loads(r)
                byop.setdefault(o["o"], []).append(o)
            bad, label = [], []
            for op, os_ in sorted(byop.items()):
                for o in rnd.sample(os_, min(40, len(os_))):
                    o = copy.deepcopy(o)
                    if op == "prog":
                        st = rnd.choice(o["s"])
                        st["q"] = tweak(st["q"], rnd)
                        label.append(op)
                        bad.append(json.dumps(o))
                        continue
                    key = "r"
                    if key not in o:
                        continue
                    o[key] = tweak(o[key], rnd)
                    label.append(op)
                    bad.append(json.dumps(o))
            if not bad:
                continue
            rej, _, _ = core.validate(b.module, b.cfg, b.header, bad, c.work)
            hit = {i for i, _ in rej}
            tot, ok = {}, {}
            for i, op in enumerate(label):
                tot[op] = tot.get(op, 0) + 1
                ok[op] = ok.get(op, 0) + (i in hit)
            for op in sorted(tot):
                flag = "" if ok[op] == tot[op] else "  <-- %d accepted" % (tot[op] - ok[op])
                print("%s %-12s %-8s %d/%d%s" % (pid, b.name or b.module, op, ok[op], tot[op], flag), flush=True)
                if ok[op] != tot[op]:
                    worst.append((pid, op))
                    for i, r in enumerate(bad):
                        if label[i] == op and i not in hit:
                            print("      e.g.", r[:300])
                            break
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "bignat":
        sys.exit(bignat())
    sys.exit(corrupt(sys.argv[2:] or sorted(props.CHECKS)))
