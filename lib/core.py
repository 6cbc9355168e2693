"""Builds the drivers from /repo, records calls, and lets TLC judge them against the specification."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shlex
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "drivers")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
TLADEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 8))
CXXFLAGS = ["-std=c++11", "-O2", "-march=native", "-w"]
# an index outside its array stops the program
BOUNDS = CXXFLAGS + ["-fsanitize=bounds-strict", "-fsanitize-undefined-trap-on-error"]


class CheckError(Exception):
    """The check itself could not be carried out (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def pmap(fn, items):
    items = list(items)
    if not items:
        return []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- building

_repo_hash = None


def repo_hash():
    """Content of everything a driver can include or compile from /repo."""
    global _repo_hash
    if _repo_hash is None:
        h = hashlib.sha256()
        for sub in ("include", "src", "matlab", "extern"):
            for d, dirs, files in os.walk(os.path.join(REPO, sub)):
                dirs.sort()
                for f in sorted(files):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
        _repo_hash = h.hexdigest()
    return _repo_hash


def own_hash():
    h = hashlib.sha256()
    for d, dirs, files in os.walk(DRIVERS):
        dirs.sort()
        for f in sorted(files):
            with open(os.path.join(d, f), "rb") as fh:
                h.update(f.encode() + fh.read())
    return h.hexdigest()


_cpu = None
_locks = {}
_locks_lock = threading.Lock()


def cpu_hash(cxx):
    global _cpu
    if _cpu is None:
        _cpu = sh([cxx, "-march=native", "-Q", "--help=target"]).stdout if "clang" not in cxx else ""
    return hashlib.sha256(_cpu.encode()).hexdigest()


def compile_driver(source, defines=(), header=None, extra=(), flags=None, cxx="g++", incs=(), must=True):
    """Compile drivers/<source>; returns (path of the binary, compiler output) — path None if it failed."""
    if source.endswith(".py"):
        return python_driver(source)
    flags = list(CXXFLAGS if flags is None else flags)
    key = json.dumps([repo_hash(), own_hash(), source, list(defines), header, list(extra), flags, cxx, list(incs), cpu_hash("g++")])
    hx = hashlib.sha256(key.encode()).hexdigest()[:24]
    d = os.path.join(BUILD, "bin", hx)
    exe = os.path.join(d, "driver")
    with _locks_lock:
        lock = _locks.setdefault(hx, threading.Lock())
    with lock:                     # drivers that only differ in their arguments are built once
        return _compile(d, exe, source, defines, header, extra, flags, cxx, incs, must)


def python_driver(source):
    """A script that runs drivers/<source> on the scripts of the repository."""
    d = os.path.join(BUILD, "bin", "py-" + hashlib.sha256((REPO + " " + source).encode()).hexdigest()[:16])
    exe = os.path.join(d, "driver")
    with _locks_lock:
        os.makedirs(d, exist_ok=True)
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            with open(tmp, "w") as f:
                f.write("#!/bin/sh\nexec %s -B %s %s \"$@\"\n" % tuple(
                    shlex.quote(x) for x in (sys.executable, os.path.join(DRIVERS, source), os.path.join(REPO, "scripts"))))
            os.chmod(tmp, 0o755)
            os.rename(tmp, exe)
    return exe, ""


def _compile(d, exe, source, defines, header, extra, flags, cxx, incs, must):
    if os.path.exists(exe):
        return exe, ""
    os.makedirs(d, exist_ok=True)
    cmd = [cxx] + flags + ["-I" + os.path.join(REPO, "include"), "-I" + DRIVERS] + ["-I" + i for i in incs]
    cmd += ["-D" + x for x in defines]
    if header is not None:
        hp = os.path.join(d, "cfg.inc")
        with open(hp, "w") as f:
            f.write(header)
        cmd += ['-DCFG_HEADER="%s"' % hp]
    tmp = exe + ".%d.tmp" % os.getpid()
    cmd += [os.path.join(DRIVERS, source)] + list(extra) + ["-o", tmp]
    try:
        p = sh(cmd, timeout=600)
    except subprocess.TimeoutExpired:
        raise CheckError("compiling %s did not end" % source)
    if p.returncode != 0:
        if must:
            raise CheckError("the driver %s does not compile against %s:\n%s" % (source, REPO, p.stderr[:3000]))
        return None, p.stderr
    os.rename(tmp, exe)
    return exe, p.stderr


def trim_build(limit=1500 << 20):
    """Keep the cache of binaries small: oldest first."""
    root = os.path.join(BUILD, "bin")
    if not os.path.isdir(root):
        return
    ent = []
    for d in os.listdir(root):
        p = os.path.join(root, d)
        try:
            size = sum(os.path.getsize(os.path.join(p, f)) for f in os.listdir(p))
            ent.append((os.path.getmtime(p), size, p))
        except OSError:
            pass
    total = sum(e[1] for e in ent)
    for m, s, p in sorted(ent):
        if total <= limit:
            break
        shutil.rmtree(p, ignore_errors=True)
        total -= s


def java_overrides():
    src = os.path.join(SPEC, "java", "BigNatOverrides.java")
    with open(src, "rb") as f:
        hx = hashlib.sha256(f.read()).hexdigest()[:16]
    d = os.path.join(BUILD, "java-" + hx)
    if not os.path.exists(os.path.join(d, "BigNatOverrides.class")):
        tmp = d + ".%d.tmp" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        p = sh(["javac", "-cp", TLAJAR, "-d", tmp, src])
        if p.returncode != 0:
            raise CheckError("javac: " + p.stderr[:2000])
        if not os.path.exists(d):
            os.rename(tmp, d)
    return d


# ---------------------------------------------------------------- recording

class Job:
    """One run of one binary."""

    def __init__(self, exe, args, name="", timeout=120):
        self.exe, self.args, self.name, self.timeout = exe, list(args), name, timeout
        self.rows = []
        self.died = None

    def run(self):
        for attempt in (0, 1):
            try:
                p = subprocess.run([self.exe] + self.args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=self.timeout)
            except subprocess.TimeoutExpired as e:
                self.died = "did not return within %d s" % self.timeout
                self.rows = complete_lines((e.stdout or b"").decode("utf-8", "replace"))
                continue
            self.rows = complete_lines(p.stdout.decode("utf-8", "replace"))
            if p.returncode == 0:
                self.died = None
                return self
            err = p.stderr.decode("utf-8", "replace")
            m = re.search(r"^DIED (.*)$", err, re.M)
            if p.returncode == 3:
                raise CheckError("driver usage: " + err[:500])
            self.died = m.group(0) if m else "exit %d: %s" % (p.returncode, err[:300])
        return self


def complete_lines(s):
    ls = s.split("\n")
    return [x for x in ls[:-1] if x.startswith("{") and x.endswith("}")]


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, env=None, workdir=None, extra=(), mem="2g", workers=1, timeout=840):
    os.makedirs(workdir, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    jv = java_overrides()
    tmp = os.path.join(workdir, "tmp")
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + tmp, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BigNatOverrides",
           "-cp", ":".join([TLAJAR, TLADEPS, jv]), "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", os.path.join(workdir, "states"), "-config", cfg] + list(extra) + [module]
    try:
        return sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    finally:
        for d in ("states", "tmp"):
            shutil.rmtree(os.path.join(workdir, d), ignore_errors=True)


DONE = re.compile(r'<<"DONE", (\d+), (\d+)>>')


def judge(module, cfg, header, rows, workdir):
    """One TLC run.  Returns (rejects, states generated, distinct) or (None, row it failed on or None, message)."""
    os.makedirs(workdir, exist_ok=True)
    path = os.path.join(workdir, "trace.ndjson")
    with open(path, "w") as f:
        f.write(header + "\n")
        f.write("\n".join(rows) + "\n")
    p = tlc(module, cfg, {"TRACE": path}, workdir)
    if p is None:
        return None, None, "TLC did not end in time"
    m = DONE.search(p.stdout)
    st = re.search(r"(\d+) states generated, (\d+) distinct", p.stdout)
    if p.returncode == 0 and m and st and int(m.group(1)) == int(m.group(2)) == len(rows) + 1 and "No error has been found" in p.stdout:
        rej = [(int(mm.group(1)) - 2, int(mm.group(2)) - 1) for mm in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),', p.stdout)]
        return rej, int(st.group(1)), int(st.group(2))
    at = re.findall(r"^(?:/\\ )?l = (\d+)", p.stdout, re.M)
    return None, (int(at[-1]) - 2 if at else None), p.stdout[-2500:] + p.stderr[-1500:]


def one_shard(args):
    """Judge the rows of a shard.  A row whose recorded values make no sense to the specification
    (its evaluation fails, twice, and alone, while the other rows evaluate) is a rejected row."""
    module, cfg, header, rows, workdir = args
    left = list(range(len(rows)))
    rej, gen, dist, odd = [], 0, 0, 0
    while left:
        r, x, y = judge(module, cfg, header, [rows[i] for i in left], workdir)
        if r is None:
            k = x
            r, x, y = judge(module, cfg, header, [rows[i] for i in left], workdir)
            if r is None:
                if odd >= 3:
                    break
                if k is None or k != x or not 0 <= k < len(left):
                    raise CheckError("TLC could not judge the trace in %s: %s" % (workdir, y))
                a, _, msg = judge(module, cfg, header, [rows[left[k]]], workdir)
                others = [rows[i] for j, i in enumerate(left) if j != k][:3]
                if a is not None or (others and judge(module, cfg, header, others[:1], workdir)[0] is None):
                    raise CheckError("TLC could not judge the trace in %s: %s" % (workdir, y))
                rej.append((left[k], 0))
                odd += 1
                # what came before is known to evaluate but its verdicts were lost: judge all the rest again
                left = [i for j, i in enumerate(left) if j != k]
                continue
        rej += [(left[i], c) for i, c in r]
        gen += x
        dist += y
        break
    shutil.rmtree(workdir, ignore_errors=True)
    return rej, gen, dist


def validate(module, cfg, header, rows, workdir, shards=NPROC):
    """Judge rows; returns (list of (row index, call index), states, transitions)."""
    if not rows:
        raise CheckError("no calls were recorded")
    n = max(1, min(shards, len(rows) // 4 or 1))
    # spread by weight
    w = [(len(r), i) for i, r in enumerate(rows)]
    buckets = [[] for _ in range(n)]
    loads = [0] * n
    for ln, i in sorted(w, reverse=True):
        k = loads.index(min(loads))
        buckets[k].append(i)
        loads[k] += ln + 40
    for b in buckets:
        b.sort()
    res = pmap(one_shard, [(module, cfg, header, [rows[i] for i in b], os.path.join(workdir, "shard%d" % k)) for k, b in enumerate(buckets)])
    rej, st, tr = [], 0, 0
    for b, (r, gen, dist) in zip(buckets, res):
        rej += [(b[i], c) for i, c in r]
        st += dist
        tr += gen - 1
    return sorted(rej), st, tr
