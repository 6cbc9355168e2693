"""What is recorded and judged for each property."""
import json
import os
import re
import subprocess

from lib import core, posits
from lib.engine import Batch, Model, Spec
from lib.posits import CFGS, COMMON

BIN = {"add", "sub", "mul", "div", "cmp", "min", "max"}
FLT = {"f32i", "f64i", "inti"}
PCK = {"pack", "palo"}
FUS = {"fma", "mm", "dot", "pmc"}
CST = {"const"}


def group(op):
    return 1 if op in BIN else 2 if op in FLT else 4 if op in PCK else 8 if op in FUS else 16 if op in CST else 32


def budget(c, cfg, pairs, unary):
    """(pairs, unary operands) for a configuration: all of them where that is affordable."""
    n = cfg[1]
    common = cfg in COMMON
    if c.thorough:
        p = 65536 if n <= 8 else pairs * (30 if common else 10)
        u = 65536 if n <= 16 else unary * (30 if common else 10)
    else:
        p = 4096 if n <= 6 else 16384 if n == 7 else 65536 if n == 8 and common else pairs * (8 if common else 1)
        u = 1 << n if n <= 10 or n <= 16 and common else max(4096, unary) if n <= 12 else unary * (3 if common else 1)
    return p, u


def posit_specs(c, ops, pairs=3000, unary=1200, cfgs=None, defines=(), only=None, exact=None, **kw):
    cfgs = CFGS if cfgs is None else cfgs
    idxs = [i for i in range(len(cfgs)) if only is None or only(cfgs[i])]
    mask = 0
    for o in ops:
        mask |= group(o)
    specs = []
    for part in posits.partition(idxs):
        plan = []
        for i in part:
            p, u = exact if exact else budget(c, cfgs[i], pairs, unary)
            plan.append("%d:%d:%d" % (i + 1, p, u))
        specs.append(Spec("posit_driver.cpp", ["--ops", ",".join(ops), "--seed", str(c.seed), "--plan", ",".join(plan)],
                          defines=["GROUPS=%d" % mask] + list(defines), header=posits.cfg_header(part, cfgs), **kw))
    return specs


def posit_batch(c, ops, name="", **kw):
    b = Batch(posit_specs(c, ops, **kw), posits.tla_header(kw.get("cfgs") or CFGS), name=name or "+".join(ops))
    c.batch(b)
    return b


def find_batch(c, ops, tries=200000, keep=300, defines=(), only=None, flags=(), name="searched"):
    """Calls found by a search that follows the coverage of the code as it is now."""
    idxs = [i for i in range(len(CFGS)) if (only(CFGS[i]) if only else CFGS[i] in COMMON or i % 6 == 1)]
    mask = 0
    for o in ops:
        mask |= group(o)
    k = 10 if c.thorough else 1
    specs = [Spec("find_driver.cpp", ["--ops", ",".join(ops), "--seed", str(c.seed), "--tries", str(tries * k), "--keep", str(keep * k)],
                  defines=["GROUPS=%d" % mask] + list(defines), header=posits.cfg_header(part, CFGS), cxx="clang++", must=False,
                  flags=COVER + list(flags)) for part in posits.partition(idxs)]
    c.batch(Batch(specs, posits.tla_header(CFGS), name=name + " " + "+".join(ops)))


COVER = ["-std=c++11", "-O0", "-march=native", "-w", "-fsanitize-coverage=trace-pc-guard,trace-cmp"]


def searched(specs, tries=40000):
    """The same drivers, on operands found by a search that follows the coverage of the code as it is now."""
    return [Spec(s.d["source"], s.d["args"], defines=s.d["defines"] + ["SEARCH=%d" % tries], header=s.d["header"], extra=s.d["extra"],
                 flags=[f for f in COVER if f != "-march=native" or s.d["flags"] is None or f in s.d["flags"]], cxx="clang++", incs=s.d["incs"], must=False) for s in specs]


def filtered(specs, times, keep=60, arg="--n", native=True):
    """The same drivers, many more calls, of which those are recorded that reach something new in the code as it is now."""
    r = []
    for s in specs:
        d = s.d
        args = list(d["args"])
        if arg in args:
            k = args.index(arg) + 1
            args[k] = str(int(args[k]) * times)
        r.append(Spec(d["source"], args, defines=d["defines"] + ["FILTER=%d" % keep], header=d["header"], extra=d["extra"], flags=[f for f in COVER if native or f != "-march=native"], cxx="clang++",
                      incs=d["incs"], must=False))
    return r


def laws(c, name):
    c.model(Model("Laws.tla", "Laws%s%s.cfg" % (name, "Deep" if c.thorough else ""), note="laws of the specification on all pairs of small formats"))


ASSUME = ["gcc 13 on this CPU; the configurations listed in lib/posits.py, fraction type at least as wide as the posit",
          "TLC evaluates BigNat through BigNatOverrides.java (compared with the TLA+ definitions by BigNatTest)"]


def p01(c):
    laws(c, "Decode")
    posit_batch(c, ["cls", "anl", "unlo"], unary=1500)
    find_batch(c, ["cls", "anl", "unlo"])
    return ASSUME


def p02(c):
    laws(c, "Decode")
    posit_batch(c, ["same", "unpk", "pack", "palo"], unary=1200)
    find_batch(c, ["same", "unpk", "pack", "palo"])
    return ASSUME


def p03(c):
    posit_batch(c, ["f32i", "f64i"], unary=3000)
    find_batch(c, ["f32i", "f64i"])
    return ASSUME


def p04(c):
    posit_batch(c, ["f32o", "f64o"], unary=3000)
    find_batch(c, ["f32o", "f64o"])
    return ASSUME


def p05(c):
    posit_batch(c, ["inti", "into"], unary=3000)
    find_batch(c, ["inti", "into"])
    return ASSUME


def p06(c):
    laws(c, "Add")
    posit_batch(c, ["add", "sub"], pairs=4000)
    find_batch(c, ["add", "sub"])
    return ASSUME


def p07(c):
    laws(c, "Mul")
    posit_batch(c, ["mul"], pairs=7000)
    find_batch(c, ["mul"])
    return ASSUME


def p08(c):
    laws(c, "Div")
    posit_batch(c, ["div", "inv"], pairs=6000, unary=3000)
    find_batch(c, ["div", "inv"])
    return ASSUME


def p09(c):
    posit_batch(c, ["fma", "dot"], pairs=3000)
    posit_batch(c, ["fma", "mm", "pmc"], pairs=2000, defines=["POSITMUL"], name="fma+mm fused products")
    find_batch(c, ["fma", "mm", "pmc", "dot"], defines=["POSITMUL"])
    return ASSUME


def p10(c):
    laws(c, "Special")
    posit_batch(c, ["add", "sub", "mul", "div", "inv", "neg", "abs", "half", "twice", "cmp", "min", "max"], exact=(1600, 200))
    posit_batch(c, ["f32i", "f64i", "f32o", "f64o", "into", "unpk", "same", "fma", "dot"], exact=(800, 120), name="conversions and fused")
    return ASSUME


def p11(c):
    laws(c, "Order")
    posit_batch(c, ["cmp", "min", "max", "next", "prev"], pairs=2500)
    find_batch(c, ["cmp", "min", "max", "next", "prev"])
    return ASSUME


def p12(c):
    laws(c, "Sign")
    posit_batch(c, ["neg", "abs", "half", "twice"], unary=2500)
    find_batch(c, ["neg", "abs", "half", "twice"])
    return ASSUME


def prog_batch(c, programs, length, cfgs=None):
    cfgs = cfgs or CFGS
    specs = []
    for part in posits.partition(list(range(len(cfgs)))):
        specs.append(Spec("prog_driver.cpp", ["--seed", str(c.seed), "--programs", str(programs), "--len", str(length)],
                          header=posits.cfg_header(part, cfgs)))
    c.batch(Batch(specs, posits.tla_header(cfgs), module="ProgTrace.tla", cfg="ProgTrace.cfg", name="programs"))
    c.batch(Batch(filtered(specs, 20, arg="--programs", keep=30), posits.tla_header(cfgs), module="ProgTrace.tla", cfg="ProgTrace.cfg", name="programs, filtered"))


def p13(c):
    laws(c, "Machine")
    prog_batch(c, 600 if c.thorough else 40, 50)
    c.replay_behaviours(CFGS, 150 if c.thorough else 8, 30)
    return ASSUME


def p15(c):
    posit_batch(c, ["const"])
    return ASSUME


def p18(c):
    posit_batch(c, ["psig", "psof", "ur1m", "urdp"], unary=2000)
    find_batch(c, ["psig", "psof", "ur1m", "urdp"])
    return ASSUME


CHECKS = {"P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05, "P06": p06, "P07": p07, "P08": p08, "P09": p09, "P10": p10, "P11": p11, "P12": p12,
          "P13": p13, "P15": p15, "P18": p18}


FMTS = [{"eb": 8, "fb": 23, "dn": 1}, {"eb": 11, "fb": 52, "dn": 1}, {"eb": 5, "fb": 10, "dn": 1}, {"eb": 5, "fb": 2, "dn": 1},
        {"eb": 8, "fb": 7, "dn": 1}, {"eb": 8, "fb": 7, "dn": 0}]
FMT_HEADER = json.dumps({"cfgs": FMTS})


def p16(c):
    n = 40000 if c.thorough else 3000
    specs = []
    for ft in ("uint8_t", "uint16_t", "uint32_t", "uint64_t"):
        for what in ("arith", "conv"):
            specs.append(Spec("unp_driver.cpp", ["--what", what, "--n", str(n if what == "arith" else n // 3), "--seed", str(c.seed)], defines=["FTYPE=" + ft]))
    specs.append(Spec("unp_driver.cpp", ["--what", "cvt", "--n", str(66000 if c.thorough else 400), "--seed", str(c.seed)], defines=["FTYPE=uint32_t"]))
    c.batch(Batch(specs, FMT_HEADER, module="CallsU.tla", cfg="CallsU.cfg", name="unpacked"))
    c.batch(Batch(searched(specs, 20000), FMT_HEADER, module="CallsU.tla", cfg="CallsU.cfg", name="unpacked, searched"))
    return ASSUME


CHECKS["P16"] = p16


# (exponent bits, fraction bits, denormals, host, C++ type)
ANYS = [(5, 2, 1, 32, "binary8_emu"), (8, 7, 1, 32, "binary16alt_emu"), (5, 10, 1, 32, "binary16_emu"), (8, 23, 1, 32, "binary32_emu"),
        (11, 52, 1, 64, "binary64_emu"), (8, 7, 0, 32, "anyfloat_emu<8 COMMA 7 COMMA halffloatalt COMMA uint16_t COMMA float COMMA false>"),
        (4, 3, 1, 32, "anyfloat_emu<4 COMMA 3 COMMA microfloat COMMA uint8_t COMMA float>"),
        (6, 9, 1, 32, "anyfloat_emu<6 COMMA 9 COMMA halffloat COMMA uint16_t COMMA float>"),
        (5, 10, 1, 64, "anyfloat_emu<5 COMMA 10 COMMA halffloat COMMA uint16_t COMMA double>"),
        (3, 4, 0, 64, "anyfloat_emu<3 COMMA 4 COMMA microfloat COMMA uint8_t COMMA double COMMA false>")]
# PositF: (holder, n, es, host, flavour); every posit, every product and sum is in range of the host
PFS = [(8, 8, 0, 32, 0), (8, 8, 1, 32, 1), (8, 8, 2, 64, 2), (8, 6, 1, 32, 0), (8, 5, 0, 32, 2), (16, 16, 0, 32, 0), (16, 16, 1, 32, 0), (16, 16, 1, 64, 2), (16, 12, 1, 32, 1),
       (16, 14, 2, 32, 0), (16, 10, 0, 32, 0), (32, 32, 2, 64, 0), (32, 28, 3, 64, 1), (32, 16, 1, 32, 0)]
# tabulated 8-bit floats: the default format and one set by the user
TAB8S = [(5, 2), (4, 3)]
HOST = [dict(k="any", eb=e, fb=f, dn=d, hb=h) for e, f, d, h, _ in ANYS] + \
       [dict(k="f16", rne=1, hb=32), dict(k="f16", rne=0, hb=32)] + \
       [dict(k="pf", n=n, es=es, sp=sp, hb=hb) for h, n, es, hb, sp in PFS]
HOST += [dict(k="any", eb=e, fb=f, dn=1, hb=32) for e, f in TAB8S]
HOST_HEADER = json.dumps({"cfgs": HOST})
IF16 = len(ANYS) + 1


def host_spec(c, lines, n, **kw):
    return Spec("host_driver.cpp", ["--n", str(n), "--seed", str(c.seed)], header="#define CFGS " + " ".join(lines) + "\n", **kw)


def p17(c):
    n = 40000 if c.thorough else 3000
    specs = [host_spec(c, ["ANY(%d, %s)" % (i + 1, a[4])], n) for i, a in enumerate(ANYS)]
    c.batch(Batch(specs, HOST_HEADER, module="CallsH.tla", cfg="CallsH.cfg", name="emulated floats"))
    c.batch(Batch(searched(specs), HOST_HEADER, module="CallsH.tla", cfg="CallsH.cfg", name="emulated floats, searched"))
    return ASSUME


def has_f16c():
    m = core.sh(["g++", "-march=native", "-dM", "-E", "-x", "c++", "/dev/null"]).stdout
    return "__F16C__" in m and "__AVX__" in m


def p20(c):
    n = 60000 if c.thorough else 6000
    specs = [host_spec(c, ["HALF(%d)" % (IF16 if has_f16c() else IF16 + 1)], n),
             host_spec(c, ["HALF(%d)" % (IF16 + 1)], n, flags=["-std=c++11", "-O2", "-w"])]
    c.batch(Batch(specs, HOST_HEADER, module="CallsH.tla", cfg="CallsH.cfg", name="float16n32"))
    c.batch(Batch(searched(specs), HOST_HEADER, module="CallsH.tla", cfg="CallsH.cfg", name="float16n32, searched"))
    return ASSUME


def p29(c):
    n = 40000 if c.thorough else 4000
    shim = os.path.join(core.VERIF, "drivers", "softfloat")
    kinds = [dict(k="ie", eb=5, fb=10, dn=1, hb=32), dict(k="ie", eb=8, fb=23, dn=1, hb=32)]
    defs = ["WITH_B8", "WITH_SOFT"]
    groups = ["add,sub,min,cmp", "mul,div,max,const,f16i", "fmax,sqrt,rem,neg", "inv,half,twice,square,same,f32o,f64o,f32i,f64i,inti,exp2n"]
    specs = [Spec("host_driver.cpp", ["--n", str(n), "--seed", str(c.seed), "--ops", g], header="#define CFGS SOFT%d(%d)\n" % (16 * (i + 1), i + 1), defines=defs, incs=[shim])
             for i in range(2) for g in groups]
    # the table of 2^x for all halves, made by the generator
    tab = make_table(c, "softfloat", incs=[shim])
    if tab:
        specs.append(Spec("host_driver.cpp", ["--n", str(n), "--seed", str(c.seed), "--ops", "exp2n"], header="#define CFGS SOFTTAB(1)\n",
                          defines=defs + ['SOFT_TABLE="%s"' % tab], incs=[shim]))
    c.batch(Batch(specs, json.dumps({"cfgs": kinds}), module="CallsH.tla", cfg="CallsH.cfg", name="software floats"))
    c.batch(Batch(searched(specs), json.dumps({"cfgs": kinds}), module="CallsH.tla", cfg="CallsH.cfg", name="software floats, searched"))
    texts = [Spec("host_driver.cpp", ["--n", str(n if c.thorough else 1000), "--seed", str(c.seed), "--ops", "tdec"], header="#define CFGS SOFT%d(%d)\n" % (16 * (i + 1), i + 1), defines=defs, incs=[shim])
             for i in range(2)]
    c.batch(Batch(texts, json.dumps({"cfgs": kinds}), module="CallsT.tla", cfg="CallsT.cfg", name="text"))
    return ASSUME


def p19(c):
    n = 30000 if c.thorough else 2000
    specs = [host_spec(c, ["PF(%d, int%d_t, %d, %d, %s, %s)" % (IF16 + 2 + i, p[0], p[1], p[2], "float" if p[3] == 32 else "double", posits.SPEC_NAME[p[4]])], n)
             for i, p in enumerate(PFS)]
    c.batch(Batch(specs, HOST_HEADER, module="CallsH.tla", cfg="CallsH.cfg", name="PositF"))
    c.batch(Batch(searched(specs), HOST_HEADER, module="CallsH.tla", cfg="CallsH.cfg", name="PositF, searched"))
    return ASSUME


CHECKS.update(P17=p17, P19=p19, P20=p20, P29=p29)


# ---- tabulated posits: the generator makes the tables, the type is compiled with them
TABS = [(8, 8, 0, 8, 0), (16, 10, 2, 16, 0), (16, 12, 2, 16, 0)]
# formats a user chooses by defining POSIT8_SPEC, POSIT10_SPEC or POSIT12_SPEC
TABU = [(8, 8, 1, 8, 1), (8, 8, 2, 8, 2), (16, 12, 0, 16, 2), (16, 10, 1, 16, 1), (16, 12, 1, 16, 1)]


def make_table(c, n, defines=(), incs=()):
    """Build /repo's table generator and run it into the build directory; the path of the table source, or None."""
    n = "posit%d" % n if isinstance(n, int) else n
    exe, _ = core.compile_driver(os.path.join(core.REPO, "src", "%s_gen.cpp" % n), defines=defines, incs=incs)
    path = os.path.join(os.path.dirname(exe), "%s_tbl.cpp" % n)
    if not os.path.exists(path):
        tmp = path + ".%d.tmp" % os.getpid()
        for attempt in (0, 1):
            try:
                p = core.sh([exe, tmp], timeout=120, cwd=os.path.dirname(exe))
                bad = p.returncode and "exit %d" % p.returncode
            except subprocess.TimeoutExpired:
                bad = "did not return within 120 s"
            if not bad:
                break
        if bad:
            c.violation("%s_gen, which computes the tables: %s" % (n, bad), {"kind": "generator", "n": n, "died": bad})
            return None
        os.rename(tmp, path)
    return path


def p14(c):
    specs = []
    tracked = {n: os.path.join(core.REPO, "src", "posit%d_tbl.cpp" % n) for n in (8, 12)}
    for i, (h, n, es, ft, sp) in enumerate(TABS + TABU):
        user = i >= len(TABS)
        defs = ["POSIT%d_SPEC" % n, "POSIT%d_ES=%d" % (n, es), "POSIT%d_MODE=PositSpec::%s" % (n, posits.SPEC_NAME[sp])] if user else []
        src = os.path.join(core.REPO, "src", "posit%d.cpp" % n)
        tbl = make_table(c, n, defs)
        pairs = 65536 if n == 8 else 30000 if user and not c.thorough else ((1 << 20) if n == 10 else 400000) if c.thorough else 120000 if n == 10 else 60000
        m = 40000 if c.thorough else 6000
        groups = ["add,neg,abs,inv,half", "mul,twice,square,same,unpk,f32o,f64o", "div,tinto,tcls,uu,f32i,f64i,inti,const", "sub,min,max,tcmp", "exp2"]
        if tbl:
            for g in groups:
                specs.append(Spec("tab_driver.cpp", ["--idx", str(i + 1), "--ops", g, "--pairs", str(pairs), "--n", str(m), "--seed", str(c.seed)],
                                  defines=["TAB%d" % n] + defs, extra=[src, tbl], flags=core.BOUNDS))
        # the tables kept in the tree, for those who compile them directly
        if not user and n in tracked and os.path.exists(tracked[n]):
            specs.append(Spec("tab_driver.cpp", ["--idx", str(i + 1), "--ops", "inv,square,f32o,half,exp2" + (",add,mul,div" if n == 8 else ""), "--pairs", str(pairs),
                                                 "--seed", str(c.seed)], defines=["TAB%d" % n], extra=[src, tracked[n]], flags=core.BOUNDS))
    if specs:
        c.batch(Batch(specs, posits.tla_header(TABS + TABU), name="tabulated posits"))
    return ASSUME


CHECKS["P14"] = p14

# ---- thirty two posits of 8 bits in one AVX2 register
SIMD = [(8, 8, 0, 8, 0), (8, 8, 1, 8, 1), (8, 8, 2, 8, 2), (8, 8, 2, 8, 0)]


def p25(c):
    if not re.search(r"\bavx2\b", open("/proc/cpuinfo").read()):
        return ["this machine has no AVX2, which simd_posit8_32 needs: nothing was run"]
    specs, texts = [], []
    n, passes = (40000, 40) if c.thorough else (4000, 4)
    src = os.path.join(core.REPO, "src", "simdposit8.cpp")
    for i, (h, n_, es, ft, sp) in enumerate(SIMD):
        defs = ["POSIT8_SPEC", "POSIT8_ES=%d" % es, "POSIT8_MODE=PositSpec::%s" % posits.SPEC_NAME[sp]] if i else []
        tbl = make_table(c, 8, defs)
        if not tbl:
            continue
        base = ["--idx", str(i + 1), "--n", str(n), "--passes", str(passes), "--seed", str(c.seed)]
        for g in ("add,neg,inv,half", "sub,twice,square", "mul,f32o,f32i", "div,same,mask,exp2,gauss,bits"):
            specs.append(Spec("simd_driver.cpp", base + ["--ops", g], defines=defs, extra=[src, tbl], flags=core.BOUNDS))
        texts.append(Spec("simd_driver.cpp", base + ["--ops", "tdec"], defines=defs, extra=[src, tbl], flags=core.BOUNDS))
    if specs:
        c.batch(Batch(specs, posits.tla_header(SIMD), name="SIMD posits"))
        c.batch(Batch(texts, json.dumps({"cfgs": [dict(k="pf", n=8, es=es, sp=sp, hb=32) for h, n_, es, ft, sp in SIMD]}), module="CallsT.tla", cfg="CallsT.cfg", name="SIMD text"))
    return ASSUME


CHECKS["P25"] = p25

# ---- posits as scalars of Eigen
EIG = [(8, 8, 0, 8, 0), (8, 6, 1, 8, 2), (16, 16, 1, 16, 0), (16, 12, 2, 16, 2), (16, 10, 0, 16, 1), (32, 32, 2, 32, 0), (32, 24, 3, 32, 1), (64, 60, 3, 64, 0)]
EIGEN = "/usr/include/eigen3"


def p26(c):
    if not os.path.isdir(EIGEN):
        return ["Eigen is not installed here: nothing was run"]
    specs = []
    n = 400 if c.thorough else 24
    for i, (h, n_, es, ft, sp) in enumerate(EIG):
        specs.append(Spec("eigen_driver.cpp", ["--n", str(n), "--seed", str(c.seed)], incs=[EIGEN], defines=[
            "IDX_=%d" % (i + 1), "T_=int%d_t" % h, "N_=%d" % n_, "ES_=%d" % es, "FT_=uint%d_t" % ft, "SPEC_=" + posits.SPEC_NAME[sp]]))
    c.batch(Batch(specs, posits.tla_header(EIG), name="Eigen"))
    return ASSUME


CHECKS["P26"] = p26


def p21(c):
    n = 2000 if c.thorough else 150
    # the posits, the half float, the posits in host floats
    kinds = [dict(k="pf", n=n_, es=es, sp=sp, hb=32) for h, n_, es, ft, sp in CFGS]
    kinds += [dict(k="f16", rne=1, hb=32)] + [dict(k="pf", n=p[1], es=p[2], sp=p[4], hb=p[3]) for p in PFS]
    extra = ["HALF(%d)" % (len(CFGS) + 1)] + ["PF(%d, int%d_t, %d, %d, %s, %s)" % (len(CFGS) + 2 + i, p[0], p[1], p[2], "float" if p[3] == 32 else "double", posits.SPEC_NAME[p[4]])
                                              for i, p in enumerate(PFS)]
    lines = [posits.line(i, CFGS[i]) for i in range(len(CFGS))] + extra
    specs = [Spec("text_driver.cpp", ["--n", str(n), "--seed", str(c.seed)], header="#define CFGS " + " ".join(part) + "\n") for part in posits.partition(lines)]
    c.batch(Batch(specs, json.dumps({"cfgs": kinds}), module="CallsT.tla", cfg="CallsT.cfg", name="text"))
    return ASSUME


CHECKS["P21"] = p21

# ---- the listposits tool, compiled for one format at a time
LISTS = [(8, 8, 0, 8, 0), (8, 8, 2, 8, 2), (16, 4, 1, 16, 0), (16, 12, 2, 16, 1), (32, 6, 1, 32, 0), (16, 10, 0, 16, 0), (8, 8, 3, 16, 1), (32, 10, 2, 32, 2), (16, 9, 5, 16, 0)]


def p27(c):
    lists = LISTS + ([(16, 12, 0, 16, 0), (16, 12, 3, 16, 2), (16, 14, 1, 16, 0), (32, 13, 4, 32, 1)] if c.thorough else [])
    specs = []
    for i, (h, n, es, ft, sp) in enumerate(lists):
        specs.append(Spec("list_driver.cpp", ["--idx", str(i + 1)], flags=core.BOUNDS, incs=[os.path.join(core.REPO, "extern")], defines=[
            'LISTSRC="%s"' % os.path.join(core.REPO, "src", "listposits.cpp"), "POSIT_TYPE=int%d_t,%d,%d,uint%d_t,PositSpec::%s" % (h, n, es, ft, posits.SPEC_NAME[sp])]))
    kinds = [dict(k="pf", n=n, es=es, sp=sp, hb=32, h=h) for h, n, es, ft, sp in lists]
    c.batch(Batch(specs, json.dumps({"cfgs": kinds}), module="CallsT.tla", cfg="CallsT.cfg", name="listings"))
    return ASSUME


CHECKS["P27"] = p27


def p28(c):
    files = [("FLOATTOP8", "src/floatTop8.cpp"), ("P8TOFLOAT", "matlab/p8Tofloat.cpp"), ("P8BINOP", "matlab/p8binop.cpp"), ("P8UNOP", "matlab/p8unop.cpp")]
    specs = [Spec("matlab_driver.cpp", ["--seed", str(c.seed + k), "--n", str(65536 if c.thorough else 4096)], flags=core.BOUNDS, incs=[os.path.join(core.VERIF, "drivers", "mex")],
                  defines=['MEX_%s="%s"' % (k_, os.path.join(core.REPO, f)) for k_, f in files]) for k in range(2)]
    c.batch(Batch(specs, posits.tla_header([(8, 8, 0, 16, 0)]), name="MATLAB functions"))
    return ASSUME


CHECKS["P28"] = p28


def p30(c):
    d = os.path.join(core.REPO, "matlab", "halfprecision")
    specs = [Spec("half_driver.cpp", ["--seed", str(c.seed + k), "--n", str(65536 if c.thorough else 4096)], flags=core.BOUNDS, incs=[os.path.join(core.VERIF, "drivers", "mexh")],
                  defines=['MEX_HALF="%s"' % os.path.join(d, "halfprecision.c"), 'IEEE_HALF="%s"' % os.path.join(d, "ieeehalfprecision.c")]) for k in range(2)]
    c.batch(Batch(specs, json.dumps({"cfgs": [dict(k="ie", eb=5, fb=10, dn=1, hb=32)]}), module="CallsH.tla", cfg="CallsH.cfg", name="halves"))
    c.batch(Batch(filtered(specs[:1], 8), json.dumps({"cfgs": [dict(k="ie", eb=5, fb=10, dn=1, hb=32)]}), module="CallsH.tla", cfg="CallsH.cfg", name="halves, filtered"))
    return ASSUME


CHECKS["P30"] = p30


# ---- other builds of the same code: compiler, optimisation, language level, instruction set
BUILDS = [("g++", ["-std=c++11", "-O0", "-march=native", "-w"]), ("g++", ["-std=c++17", "-O3", "-w"]), ("clang++", ["-std=c++14", "-O2", "-march=native", "-w"]),
          ("clang++", ["-std=c++20", "-O1", "-w"]),
          # a compiler without 128-bit integers: the library emulates the 64-bit product and quotient
          ("g++", ["-std=c++17", "-O2", "-march=native", "-w", "-U__SIZEOF_INT128__"]), ("clang++", ["-std=c++11", "-O2", "-w", "-U__SIZEOF_INT128__"])]


def p22(c):
    ops = ["add", "sub", "mul", "div", "inv", "neg", "abs", "half", "twice", "cmp", "next", "f32i", "f64i", "inti", "f32o", "f64o", "into", "unpk", "unlo", "same", "anl", "pack", "fma", "psig",
           "const"]
    exact = (6000, 1500) if c.thorough else (600, 200)
    specs, hosts, unps = [], [], []
    for k, (cxx, flags) in enumerate(BUILDS):
        only = None if c.thorough else (lambda cfg, k=k: CFGS.index(cfg) % 4 == k or cfg in [(8, 8, 0, 8, 0), (16, 16, 1, 16, 0), (32, 32, 2, 32, 0), (64, 60, 3, 64, 0)])
        if k >= 4 and not c.thorough:
            only = lambda cfg, k=k: cfg[3] == 64 and CFGS.index(cfg) % 2 == k % 2 or cfg == (64, 60, 3, 64, 0)
        specs += posit_specs(c, ops, only=only, exact=exact, cxx=cxx, flags=flags, must=False)
        kw = dict(cxx=cxx, flags=flags, must=False)
        m = exact[0]
        for ft in ("uint64_t",) if k >= 4 else ("uint8_t", "uint16_t", "uint32_t", "uint64_t")[k % 2::2] if not c.thorough else ("uint8_t", "uint16_t", "uint32_t", "uint64_t"):
            unps.append(Spec("unp_driver.cpp", ["--what", "arith", "--n", str(m), "--seed", str(c.seed)], defines=["FTYPE=" + ft], **kw))
        for i in (range(len(ANYS)) if c.thorough else range(k % 4, len(ANYS), 4) if k < 4 else []):
            hosts.append(host_spec(c, ["ANY(%d, %s)" % (i + 1, ANYS[i][4])], m // 2, **kw))
    small = [i for i, cfg in enumerate(CFGS) if cfg[1] <= 8 and cfg[0] <= 16]
    for cxx, std in (("g++", "14"), ("clang++", "17")):
        for i in small[:: 1 if c.thorough else 3]:
            specs.append(Spec("const_driver.cpp", [], header=posits.cfg_header([i], CFGS), cxx=cxx,
                              flags=["-std=c++" + std, "-O0", "-w", "-march=native", "-fconstexpr-steps=20000000" if cxx == "clang++" else "-fconstexpr-loop-limit=1000000"], must=False))
    for b in (Batch(specs, posits.tla_header(CFGS), name="posits in other builds"), Batch(unps, FMT_HEADER, module="CallsU.tla", cfg="CallsU.cfg", name="unpacked in other builds"),
              Batch(hosts, HOST_HEADER, module="CallsH.tla", cfg="CallsH.cfg", name="floats in other builds")):
        c.batch(b)
    # the 64-bit products and quotients put together from halves
    find_batch(c, ["mul", "div", "fma"], only=lambda cfg: cfg[3] == 64, flags=["-U__SIZEOF_INT128__"], name="searched, without 128-bit integers,")
    skipped = sorted({s.d["source"] + " " + s.d["cxx"] + " " + " ".join(s.d["flags"]) for s in specs + unps + hosts if s.exe is None})
    c.notes["builds"] = [b[0] + " " + " ".join(b[1]) for b in BUILDS]
    c.notes["builds_that_do_not_compile"] = skipped
    if skipped:
        core.log("  not compiled: %s" % skipped)
        core.log([s.msg[:1500] for s in specs + unps + hosts if s.exe is None][0])
    return ASSUME


CHECKS["P22"] = p22


def p23(c):
    n = 3000 if c.thorough else 300
    args = ["--n", str(n), "--seed", str(c.seed)]
    specs = [Spec("bit_driver.cpp", args), Spec("bit_driver.cpp", args, flags=["-std=c++17", "-O2", "-w"]),
             Spec("bit_driver.cpp", args, flags=["-std=c++17", "-O0", "-w", "-march=native"], cxx="clang++", must=False)]
    c.batch(Batch(specs, "{}", module="CallsB.tla", cfg="CallsB.cfg", name="bits"))
    return ASSUME


CHECKS["P23"] = p23


def p24(c):
    specs = []
    n = 60000 if c.thorough else 6000
    for k, (e, f) in enumerate(TAB8S):
        defs = ["BINARY8_SPEC", "BINARY8_EXP=%d" % e, "BINARY8_MAN=%d" % f] if k else []
        tbl = make_table(c, "binary8", defs)
        if not tbl:
            continue
        for ops in ("add,neg,abs,inv,half,twice,square", "sub,min,max,exp2,f32i", "mul,cmp,f64i,inti", "div,f32o,f64o,same,tnum,into,isneg,const"):
            s = host_spec(c, ["TAB8(%d)" % (len(HOST) - len(TAB8S) + k + 1)], n, defines=["WITH_B8"] + defs, extra=[os.path.join(core.REPO, "src", "binary8.cpp"), tbl])
            s.d["args"] += ["--ops", ops]
            specs.append(s)
    if specs:
        c.batch(Batch(specs, HOST_HEADER, module="CallsH.tla", cfg="CallsH.cfg", name="tabulated floats"))
    return ASSUME


CHECKS["P24"] = p24


PNUM_OWN = {
    "own4": [(1, 1), (3, 2), (3, 1), (7, 1)],
    "own8": [(1, 1), (10, 9), (5, 4), (5, 3), (7, 3), (5, 1), (10, 1), (100, 1)],
    "own16": [(7 + k * k, 7) for k in range(16)],
}


def p31(c):
    def big(n):
        r = []
        while n:
            r.append(n & 32767)
            n >>= 15
        return r
    names = ["p1", "p2", "p4", "p8", "p8a", "own4", "own8", "own16", "p16a"]
    header = json.dumps({"cfgs": [dict(name=x, e=[[big(a), big(b)] for a, b in PNUM_OWN.get(x, [])]) for x in names]})
    specs = []
    for k, x in enumerate(names):
        large = x in ("p8a", "own16", "p16a")
        for kind, n in (("unary", 100000 if c.thorough else 1024), ("conv", 3000 if c.thorough else 120 if x == "p16a" else 300),
                        ("binary", (256 if c.thorough else 72) if large else 64), ("bounds", (200 if c.thorough else 40) if large else 64)):
            specs.append(Spec("pnum_driver.py", [str(k + 1), x, kind, str(c.seed), str(n)]))
    specs.append(Spec("pnum_driver.py", ["1", "p1", "alphabets", str(c.seed), "2000" if c.thorough else "200"]))
    c.model(Model("LawsPnum.tla", "LawsPnum%s.cfg" % ("Deep" if c.thorough else ""), note="laws of the unum arithmetic on small alphabets"))
    c.batch(Batch(specs, header, module="CallsP.tla", cfg="CallsP.cfg", name="unums"))
    return ASSUME


CHECKS["P31"] = p31
