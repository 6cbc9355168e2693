"""Runs the check of one property: record, judge, confirm, report."""
import json
import os
import shutil
import sys
import time

from lib import core, posits
from lib.core import CheckError, Job, VERIF, OUT, log

KNOWN = os.path.join(VERIF, "known-findings.txt")


class Spec:
    """A driver binary and its arguments, so that a run can be repeated."""

    def __init__(self, source, args, defines=(), header=None, extra=(), flags=None, cxx="g++", incs=(), must=True, timeout=150, tag=""):
        self.d = dict(source=source, args=list(args), defines=list(defines), header=header, extra=list(extra), flags=flags, cxx=cxx,
                      incs=list(incs), must=must)
        self.timeout = timeout
        self.tag = tag
        self.job = None

    def build(self):
        d = dict(self.d)
        d.pop("args")
        self.exe, self.msg = core.compile_driver(**d)
        return self.exe

    def run(self):
        if self.exe is None:
            return self
        self.job = Job(self.exe, self.d["args"], timeout=self.timeout).run()
        return self


class Batch:
    """Recorded calls judged by one specification module."""

    def __init__(self, specs, header, module="Calls.tla", cfg="Calls.cfg", name=""):
        self.specs, self.header, self.module, self.cfg, self.name = specs, header, module, cfg, name


class Model:
    """A TLC run of the specification alone: invariants on every reachable state."""

    def __init__(self, module, cfg, env=None, note="", timeout=600):
        self.module, self.cfg, self.env, self.note, self.timeout = module, cfg, env or {}, note, timeout


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.work = os.path.join(OUT, "work-" + pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.violations = []
        self.known = load_known(pid)
        self.known_hit = set()
        self.states = self.transitions = self.calls = self.traces = 0
        self.samples = []
        self.notes = {}
        self.byop = {}
        self.model_states = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---- violations
    def violation(self, what, data, key=None):
        if key is not None and key in self.known:
            self.known_hit.add(key)
            return
        n = len(self.violations) + 1
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, "%s-%d.json" % (self.pid, n))
        data = dict(data, property=self.pid, what=what, tier=self.tier, seed=self.seed)
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        self.violations.append((what, path))

    # ---- recording and judging
    def batch(self, b, limit=5):
        t = time.time()
        core.pmap(lambda s: s.build(), b.specs)
        t1 = time.time()
        core.pmap(lambda s: s.run(), b.specs)
        t2 = time.time()
        rows, owner = [], []
        for s in b.specs:
            if s.job is None:
                continue
            if s.job.died:
                self.violation("the call did not return: " + s.job.died, {"kind": "died", "run": s.d, "died": s.job.died})
            rows += s.job.rows
            owner += [s] * len(s.job.rows)
        rej, st, tr = core.validate(b.module, b.cfg, b.header, rows, self.work)
        self.account(rows, st, tr)
        log("  %s: build %.1fs run %.1fs TLC %.1fs rows %d rejects %d" % (b.name or b.module, t1 - t, t2 - t1, time.time() - t2, len(rows), len(rej)))
        self.report(b, rows, owner, rej, limit)
        return rows

    def account(self, rows, st, tr):
        self.states += st
        self.transitions += tr
        self.traces += len(rows)
        for r in rows:
            o = json.loads(r)
            if "s" in o:                      # a program
                for st in o["s"]:
                    self.byop[st["o"]] = self.byop.get(st["o"], 0) + 1
                self.calls += len(o["s"])
                continue
            k = o.get("o", "step")
            c = len(o["r"]) if isinstance(o.get("r"), list) else 1
            self.calls += c
            self.byop[k] = self.byop.get(k, 0) + c
        if rows and len(self.samples) < 4:
            self.samples.append(rows[len(rows) // 3][:600])
            self.samples.append(rows[(2 * len(rows)) // 3][:600])

    def report(self, b, rows, owner, rej, limit=5):
        if not rej:
            return
        # say it only if the same calls give the same results again and are rejected again
        shown = 0
        again = {}
        for i, c in rej:
            s = owner[i]
            if id(s) not in again:
                again[id(s)] = set(Job(s.exe, s.d["args"], timeout=s.timeout).run().rows)
            if rows[i] not in again[id(s)]:
                o = json.loads(rows[i])
                self.violation("the same call does not always give the same result: %s" % o.get("o"),
                               {"kind": "unstable", "run": s.d, "header": b.header, "module": b.module, "cfg": b.cfg, "row": o})
                shown += 1
                if shown >= limit:
                    return
        pick = rej[:40]
        r2, _, _ = core.validate(b.module, b.cfg, b.header, [rows[i] for i, _ in pick], self.work + "/again", shards=1)
        if {k for k, _ in r2} != set(range(len(pick))):
            raise CheckError("a rejection was not repeated")
        for i, c in pick:
            o = json.loads(rows[i])
            call = one_call(o, c)
            cfg = json.loads(b.header).get("cfgs", [])
            what = "%s on %s is not allowed by %s" % (json.dumps(call), json.dumps(cfg[o["c"] - 1] if "c" in o and cfg else None), b.module)
            self.violation(what, {"kind": "rejected", "run": owner[i].d, "header": b.header, "module": b.module, "cfg": b.cfg,
                                  "row": o, "call": call}, key=json.dumps(call, sort_keys=True))
            shown += 1
            if shown >= limit:
                break
        self.notes["rejected_rows"] = self.notes.get("rejected_rows", 0) + len(rej)

    # ---- behaviours of the specification, replayed into the library
    def replay_behaviours(self, cfgs, count, depth):
        """TLC simulates ProgGen; every behaviour is run on the real code, step by step."""
        t = time.time()
        parts = posits.partition(list(range(len(cfgs))))

        def one(k):
            part = parts[k]
            wd = os.path.join(self.work, "gen%d" % k)
            os.makedirs(wd, exist_ok=True)
            h = json.loads(posits.tla_header(cfgs))
            h.update(pick=[i + 1 for i in part], depth=depth)
            path = os.path.join(wd, "gen.json")
            with open(path, "w") as f:
                f.write(json.dumps(h) + "\n")
            p = core.tlc("ProgGen.tla", "ProgGen.cfg", {"GEN": path}, wd,
                         extra=["-simulate", "num=%d" % (count * len(part)), "-depth", str(depth + 5), "-seed", str(self.seed * 100 + k)])
            if p is None or p.returncode != 0:
                raise CheckError("generating behaviours: %s" % (p and p.stdout[-2000:]))
            got = [json.loads(json.loads(x)[10:]) for x in p.stdout.split("\n") if x.startswith('"BEHAVIOUR ')]
            if len(got) < count * len(part):
                raise CheckError("only %d behaviours were generated" % len(got))
            script = []
            for b in got:
                script.append("P %d %s" % (b["c"], " ".join(str(pat(x)) for x in b["i"])))
                for o, d, a, bb, i, al, r in b["s"]:
                    script.append("S %s %d %d %d %d %d" % (o, d, a, bb, -i if bb % 2 and o == "int" else i, pat(r)))
            path = os.path.join(wd, "script.txt")
            with open(path, "w") as f:
                f.write("\n".join(script) + "\n")
            s = Spec("replay_driver.cpp", [path], header=posits.cfg_header(part, cfgs))
            s.build()
            s.run()
            return got, "\n".join(script) + "\n", s

        steps = 0
        n = 0
        for got, script, s in core.pmap(one, range(len(parts))):
            if s.job.died:
                self.violation("the call did not return: " + s.job.died, {"kind": "replayed", "run": s.d, "script": script, "died": s.job.died})
            seen = [json.loads(r) for r in s.job.rows]
            if not s.job.died and len(seen) != len(got):
                raise CheckError("%d of %d behaviours were replayed" % (len(seen), len(got)))
            for row in seen:
                b = got[row["p"]]
                n += 1
                bad = diverges(b, row["g"])
                steps += len(row["g"])
                if bad is not None and len(self.violations) < 5:
                    self.violation("behaviour of the specification on %s, step %d (%s): %s" % (cfgs[b["c"] - 1], bad[0] + 1, bad[1], bad[2]),
                                   {"kind": "replayed", "run": s.d, "script": script, "behaviour": b, "observed": row["g"], "step": bad[0]})
        self.calls += steps
        self.traces += n
        self.transitions += steps
        self.states += steps
        self.notes["behaviours_replayed"] = {"behaviours": n, "steps": steps, "module": "ProgGen.tla"}
        log("  behaviours: %d replayed, %d steps, %.1fs" % (n, steps, time.time() - t))

    def model(self, m):
        t = time.time()
        wd = os.path.join(self.work, "model")
        p = core.tlc(m.module, m.cfg, m.env, wd, workers=core.NPROC, mem="8g", timeout=m.timeout)
        if p is None or p.returncode != 0 or "No error has been found" not in p.stdout:
            raise CheckError("model %s/%s: %s" % (m.module, m.cfg, p and (p.stdout[-3000:] + p.stderr[-500:])))
        import re
        st = re.search(r"(\d+) states generated, (\d+) distinct", p.stdout)
        self.transitions += int(st.group(1))
        self.states += int(st.group(2))
        self.notes.setdefault("models", []).append({"module": m.module, "cfg": m.cfg, "generated": int(st.group(1)), "distinct": int(st.group(2)), "note": m.note})
        log("  model %s %s: %s distinct, %.1fs" % (m.module, m.cfg, st.group(2), time.time() - t))
        return p.stdout

    # ---- the end
    def finish(self, assumptions=()):
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "calls_judged": self.calls, "calls_by_operation": self.byop, "samples": self.samples or ["(none)"]}
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        core.trim_build()
        for what, path in self.violations:
            print("  " + what[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if not self.violations:
            print("OK property=%s tier=%s calls=%d states=%d wall=%.1fs" % (self.pid, self.tier, self.calls, self.states, time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0


def pat(p):
    """The integer of a pattern <<sign, limbs>>."""
    v = 0
    for x in reversed(p[1]):
        v = v << 15 | x
    return -v if p[0] else v


def diverges(b, got):
    """First step of behaviour b where the registers found are not allowed: (step, operation, what), or None."""
    regs = [pat(x) for x in b["i"]]
    for k, g in enumerate(got):
        o, d, a, bb, i, al, r = b["s"][k]
        want = list(regs)
        if o == "swap":
            want[d - 1], want[a - 1] = regs[a - 1], regs[d - 1]
        allowed = {pat(x) for x in al}
        for j in range(len(regs)):
            if (g[j] not in allowed) if j == d - 1 else (g[j] != want[j]):
                return k, o, "registers %s, sources %d and %d, destination %d: found %s, allowed %s" % (
                    regs, a, bb, d, g, sorted(allowed) if j == d - 1 else want[j])
        regs = want
        regs[d - 1] = pat(r)
    return None


def one_call(o, i):
    """The i-th call of a row, on its own."""
    n = len(o["r"]) if isinstance(o.get("r"), list) else 0
    c = {}
    for k, v in o.items():
        if k == "c":
            c["config"] = v
        elif isinstance(v, list) and len(v) == n and n > 0 and k in ("a", "b", "d", "e", "r", "n") and not (k in ("a", "b") and scalar_operand(o, k, n)):
            c[k] = v[i]
        else:
            c[k] = v
    return c


def scalar_operand(o, k, n):
    if "each" in o:
        return False
    v = o[k]
    # wide scalar operands are lists of ints next to a list of lists
    return bool(o["r"]) and isinstance(o["r"][0], list) and v and not isinstance(v[0], list)


def load_known(pid):
    known = set()
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                known.add(l.split(" ", 2)[2])
    return known


def replay(path):
    """Repeat a recorded violation: rebuild the driver, make the same calls, judge them again."""
    d = json.load(open(path))
    run = d.get("run")
    if not run:
        print("no run in", path)
        return 2
    s = Spec(run["source"], run["args"], run["defines"], run["header"], run["extra"], run["flags"], run["cxx"], run["incs"])
    if d["kind"] == "replayed":
        import tempfile
        with tempfile.NamedTemporaryFile("w", suffix=".txt") as f:
            f.write(d["script"])
            f.flush()
            s.d["args"] = [f.name]
            s.build()
            s.run()
        if s.job.died:
            print("died again:", s.job.died)
            bad = True
        elif "behaviour" not in d:
            bad = False
        else:
            row = [json.loads(r) for r in s.job.rows]
            row = [r for r in row if r["g"] == d["observed"]]
            bad = bool(row) and diverges(d["behaviour"], row[0]["g"]) is not None
            print("the same registers again" if bad else "the registers are different now")
        if bad:
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1 if bad else 0
    s.build()
    s.run()
    if d["kind"] == "died":
        print("died again:" if s.job.died else "returned:", s.job.died)
        bad = bool(s.job.died)
    else:
        want = {k: v for k, v in d["row"].items() if k != "r"}
        rows = [r for r in s.job.rows if {k: v for k, v in json.loads(r).items() if k != "r"} == want]
        if not rows:
            print("the calls were not made in this run")
            return 2
        rej, _, _ = core.validate(d["module"], d["cfg"], d["header"], rows, os.path.join(OUT, "work-replay"), shards=1)
        for i, c in rej:
            print("rejected:", json.dumps(one_call(json.loads(rows[i]), c)))
        bad = bool(rej)
    if bad:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1 if bad else 0
