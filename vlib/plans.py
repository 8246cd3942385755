"""Which executions decide which property: builds x workloads x case ranges."""
import os

from . import builds
from .builds import BASE, BASE_X86, CONFIGS, CROSS
from .engine import Job

X86 = [n for n, c in CONFIGS.items() if not c.cross]
ALL = list(CONFIGS)
XCROSS = [n for n, c in CONFIGS.items() if c.cross]
I386 = [n for n in XCROSS if CONFIGS[n].arch == "i386"]     # run as they are, but link another way
XSHARED = [n for n in XCROSS if n not in I386]
EXTRA_X86 = [n for n in X86 if n not in BASE]


def slow(cfg):
    """Rough cost of a case relative to an optimised native build."""
    c = CONFIGS[cfg]
    f = 1.0
    if c.arch == "i386":
        f = 20.0 if "O0" in cfg else 3.0
    elif c.cross:
        f = 25.0 if c.width > 64 else 14.0
        if c.arch == "ppc32" and c.width == 64:
            f = 14.0
        if "O0" in cfg:
            f *= 5
    elif "O0" in cfg or "debug" in cfg:
        f = 12.0
    elif cfg.endswith("-Os"):
        f = 2.0
    return f


FACTOR = dict(C02=6, C03=1, C04=14, C06=12, C07=12, C08=3, C09=10, C12=25, C14=8, C15=60, C16=6, C18=3, C21=3, C22=12)


class Plan:
    def __init__(self, ctx):
        self.ctx, self.jobs = ctx, []
        self.seed = ctx.seed
        self.q = ctx.quick()

    def n(self, quick, thorough):
        """Number of cases: per property so that the quick tier takes some 40 s on 8 cores."""
        return int((quick if self.q else thorough) * FACTOR.get(self.ctx.prop, 1))

    def add(self, cfg, mode, n=None, per=None, case_s=0.0, var="plain", start=0, vf=1.0, timeout=None, scale=True, **kw):
        """n cases of a mode, split into runs of at most `per` cases; case_s is the
        cost of one case in an optimised build, from which the order follows."""
        f = slow(cfg) * vf
        if n is None:
            self.jobs.append(Job(cfg, mode, var=var, seed=self.seed, cost=max(case_s, 0.3) * f, timeout=timeout or max(120, int(case_s * f * 12)), **kw))
            return
        if scale and f > 1:
            n = max(1, int(n / f))
        whole = per is None
        per = per or n
        if scale and f > 1 and not whole:
            per = max(1, int(per / f)) if per < n * f else n
        at = start
        while at < start + n:
            k = min(per, start + n - at)
            self.jobs.append(Job(cfg, mode, n=k, start=at, var=var, seed=self.seed, cost=max(0.2, k * case_s * f),
                                 timeout=timeout or max(120, int(k * case_s * f * 15)), **kw))
            at += k

    def fuzz(self, cfg, api, runs, seeds, cost):
        for s in range(seeds):
            self.jobs.append(Job(cfg, "fuzz-" + api, var="cov", kind="fuzz", srcs=["fuzz.c", "ref.c"], env={"FUZZ_API": api},
                                 cost=cost, timeout=max(180, int(cost * 15)), runs=runs, use_value_profile=1,
                                 max_len=300 if api == "single" else 1200, len_control=0, seed=self.seed * 1000 + s + 1))


def spread(p, mode, nq, nt, case_s, cfgs=None, big=(), bigf=5, per=None, floor=0, **kw):
    """The same workload on many builds, more of it on the principal ones."""
    for c in cfgs or ALL:
        n = p.n(nq, nt) * (bigf if c in big else 1)
        if floor:
            n = max(n, int(floor * slow(c)))
        p.add(c, mode, n=n, per=per or max(1, p.n(nq, nt) * 2), case_s=case_s, **kw)


def c01(p):
    single_cfgs = ["uint64", "uint32", "avx2", "sse2", "mmx-real", "clang-uint64", "clang-uint32", "uint64-O0", "uint64-O1",
                   "uint64-O2", "uint64-Os", "uint64-debug", "uint64-native", "uint64-noalias", "uint64-malloc", "uint64-init-pattern",
                   "uint64-be", "uint32-be", "neon", "uint64-a64", "uint32-ppc32", "uint64-ppc32", "altivec",
                   "i386-uint64", "i386-uint32", "i386-mmx", "i386-clang-uint64", "i386-oldest"]
    if not p.q:
        single_cfgs = ALL
    spread(p, "single", 20000, 150000, 1.3e-4, single_cfgs, big=("uint64", "clang-uint64"), bigf=4, per=40000)
    spread(p, "keys", 60000, 600000, 7e-6, single_cfgs, big=("uint64",), bigf=6, per=200000)
    spread(p, "lens", 1200, 4000, 1.5e-3, ["uint64", "clang-uint64", "uint32", "uint64-be", "uint64-a64", "uint32-ppc32"], big=("uint64",), bigf=3, per=1200)
    for c, k in (("uint64", 4), ("clang-uint64", 1), ("uint32", 1), ("uint64-native", 1), ("uint64-O1", 1)):
        p.add(c, "single", n=p.n(40, 1500) * k, per=p.n(40, 300), case_s=6e-2, maxlen=1500000, start=1000000)
    for c in ("uint64-be", "uint64-a64", "uint32-ppc32"):
        p.add(c, "single", n=p.n(6, 60), case_s=4e-2, maxlen=110000, start=1000000, scale=False)
    for c in ("uint64", "clang-uint64", "uint32"):
        for ln in (65535, 65536, 65537, 1 << 20, 3000001):
            for enc in (0, 1):
                p.add(c, "large", case_s=ln / 2.5e6, len=ln, enc=enc)
    for ln in (16777215, 16777219) + (() if p.q else (134217733, 268435461)):
        for enc in (0, 1):
            p.add("uint64", "large", case_s=ln / 2.5e6, len=ln, enc=enc, timeout=900)
    p.fuzz("uint64", "single", p.n(250000, 4000000), 8, p.n(12, 200))
    if p.q:
        for ln, enc, b in ((2147483661, 1, 560), (2147483661, 0, 560), (4294967295, 0, 25)):
            p.add("uint64", "huge", case_s=b, len=ln, enc=enc, budget=b, light=1, timeout=b + 120)
    else:
        for ln, enc in ((2147483661, 1), (2147483649, 0)):
            p.add("clang-uint64", "huge", case_s=600, len=ln, enc=enc, timeout=3000)


def c02(p):
    spread(p, "inverse", 3000, 30000, 2e-4, big=("uint64", "avx2", "sse2", "uint32", "mmx"), bigf=4, per=6000, floor=60)


def c03(p):
    spread(p, "batch", 1500, 15000, 4e-4, big=("uint64", "avx2", "sse2", "uint32", "mmx", "ssse3"), bigf=3, per=3000, floor=40)
    for c in ALL:
        f = slow(c)
        w = CONFIGS[c].width
        step = max(1, int(f * w / 64 / p.n(2, 16)))
        p.add(c, "grid", case_s=0.5 * w / 64 / step, step=step)
    spread(p, "bskeys", 1500, 15000, 1e-4, big=("uint64",), bigf=4, floor=50)
    for c in ("uint64", "uint32", "sse2", "avx2"):
        p.fuzz(c, "batch", p.n(40000, 600000), 2, p.n(10, 150))


def c04(p):
    spread(p, "indep", 1000, 10000, 2.5e-4, big=("uint64", "avx2", "sse2", "uint32", "mmx"), bigf=4, per=3000, floor=40)
    spread(p, "places", 300, 5000, 8e-4, big=("uint64", "avx2", "sse2", "uint32", "mmx"), bigf=4, per=3000, floor=36, batches=1)


def c05(p):
    spread(p, "batch", 1200, 12000, 4e-4, big=("uint64", "avx2", "sse2", "uint32", "mmx"), bigf=4, per=3000, floor=40, over=1)
    spread(p, "limithuge", 40, 300, 4e-4, floor=12, scale=True)
    for c in ("uint64", "sse2", "avx2"):
        p.fuzz(c, "batch", p.n(30000, 400000), 2, p.n(8, 100))


def c06(p):
    spread(p, "residue", 3000, 30000, 1e-4, big=("uint64", "avx2", "sse2", "uint32"), bigf=4, per=10000, floor=100)


def c07(p):
    spread(p, "contain", 1500, 15000, 1e-4, big=("uint64", "avx2", "sse2", "uint32", "mmx"), bigf=4, per=3000, floor=40)
    for c in BASE_X86 + ["mmx-real", "uint32-alt", "ssse3-alt"]:
        p.add(c, "poison", n=p.n(400, 6000), per=p.n(200, 1000), case_s=2e-3, var="asan", scale=False)


SAN_X86 = ["uint64", "uint64-alt", "uint32", "uint32-alt", "mmx", "mmx-alt", "mmx-real", "sse2", "sse2-alt", "ssse3",
           "ssse3-alt", "avx2", "avx2-alt", "uint64-nommm", "uint64-malloc", "uint32-malloc", "uint64-debug", "uint64-i386",
           "mmx-i386", "sse2-i386"]


def c08(p):
    for var, vf in (("asan", 1), ("asan-clang", 1), ("bounds", 5)):
        for c in SAN_X86:
            k = p.n(1.0, 12.0) / vf
            a = lambda mode, n, cs, **kw: p.add(c, mode, n=max(1, int(n * k)), per=max(1, int(n * p.n(1, 3))), case_s=cs, var=var, vf=vf, scale=False, **kw)
            a("tight", 300, 2e-3)
            a("batch", 400, 4e-3)
            a("batch", 300, 4e-3, over=2)
            a("single", 600, 1e-3)
            a("keys", 3000, 5e-5)
            a("align", 150, 2e-3)
            a("hist", 15, 1e-2)
            if var == "asan":
                a("poison", 150, 3e-3)
            p.add(c, "lens", n=p.n(200, 1200) // (1 if vf == 1 else 2), case_s=2e-3, var=var, vf=vf, scale=False)
            p.add(c, "limithuge", n=p.n(20, 100), case_s=1e-3, var=var, scale=False)
            p.add(c, "term", n=p.n(60, 500), case_s=5e-3, var=var, vf=vf, scale=False, width=CONFIGS[c].width)
    # guard pages decide where no sanitizer can look: other processors, real vector instructions
    spread(p, "tight", 400, 4000, 2e-4, ALL, per=2000, floor=30)
    if not p.q:
        for c in ("uint64", "uint32", "sse2", "mmx-real", "ssse3", "avx2"):
            for mode, n in (("single", 60), ("batch", 12), ("keys", 60), ("align", 8), ("hist", 2), ("term", 6), ("tight", 10)):
                kw = dict(width=CONFIGS[c].width) if mode == "term" else {}
                p.add(c, mode, n=n, case_s=2.0, var="valgrind", scale=False, timeout=1200,
                      wrap=["valgrind", "-q", "--error-exitcode=86", "--track-origins=no", "--leak-check=no"], **kw)


def c09(p):
    spread(p, "hist", 150, 2000, 1.2e-3, big=("uint64", "avx2", "sse2", "uint32", "mmx"), bigf=4, per=300, floor=8)
    for c in BASE_X86 + ["mmx-real", "uint64-malloc", "uint64-nommm", "neon"]:
        x = c in XCROSS
        n, st = ((1, 1500) if x else (12, 4000)) if p.q else ((8, 8000) if x else (300, 8000))
        p.add(c, "hist", n=n, per=30, case_s=5e-2 * (20 if x else 1), ctx=200 if p.q else 400, steps=st, start=5000000, scale=False, timeout=900)
    for c in BASE_X86 + ["mmx-real", "clang-avx2"]:
        p.add(c, "marathon", n=p.n(150000, 1500000), case_s=2e-5, scale=False, nb=p.n(70000, 700000) // (2 if CONFIGS[c].width > 64 else 1), timeout=900)
    for c, ws in (("uint64", (0, 1, 2)), ("clang-uint64", (0, 2)), ("uint32", (1,)), ("avx2", (1,)), ("sse2", (1,))):
        for w in ws:
            n = 17 << 20
            if w == 2: n = 5 << 20
            if c in ("avx2", "sse2"): n = 2 << 20
            p.add(c, "spin", n=n if p.q else n * 8, case_s=3e-7, what=w, scale=False, timeout=900)
    for c in XCROSS:
        p.add(c, "marathon", n=p.n(3000, 70000), case_s=2e-5, scale=False, nb=p.n(300, 3000), timeout=900)


def c10(p):
    for var, cfgs in (("tsan", ["uint64", "uint64-alt", "uint32", "mmx", "sse2", "ssse3", "avx2", "mmx-real", "sse2-alt", "avx2-alt"]),
                      ("tsan-clang", ["uint64", "uint32", "sse2", "avx2"])):
        for c in cfgs:
            p.add(c, "threads", n=p.n(48, 600), per=p.n(12, 60), case_s=0.06, var=var, scale=False, timeout=600)
            p.add(c, "churn", n=p.n(300, 4000), case_s=0.004, var=var, scale=False, timeout=600)
    for c in X86:
        big = c in ("uint64", "avx2", "sse2", "uint32", "mmx", "mmx-real")
        p.add(c, "threads", n=p.n(400, 6000) * (4 if big else 1), per=p.n(800, 6000), case_s=2e-3, timeout=600)
        p.add(c, "churn", n=p.n(3000, 40000) * (3 if big else 1), case_s=1e-4, timeout=600)
        p.add(c, "held", n=p.n(150, 4000) * (4 if big else 1), case_s=6e-3, timeout=600)
        p.add(c, "threads", n=p.n(24, 400), case_s=5e-2, t=100, start=2000000, timeout=600)
    for c in XCROSS:
        p.add(c, "threads", n=p.n(12, 120), case_s=0.08, scale=False, timeout=600)
        p.add(c, "churn", n=p.n(100, 1500), case_s=0.01, scale=False, timeout=600)
        p.add(c, "held", n=p.n(12, 200), case_s=0.14, scale=False, t=60, timeout=600)


SIGCFG = ["uint64", "uint64-O1", "uint64-O0", "uint32", "sse2", "avx2", "mmx-real"]


def c11(p):
    for c in SIGCFG + ([] if p.q else ["mmx", "ssse3", "uint64-alt", "sse2-alt", "avx2-alt", "clang-uint64", "clang-mmx", "uint64-Os"]):
        w = CONFIGS[c].width
        m = max(1.0, w / 64 * 0.8)
        if not (p.q and c == "uint64-O0"):
            p.add(c, "sigevery", n=32, per=1, case_s=0.45 * m, scale=False, timeout=600)
        p.add(c, "sigstep", n=p.n(160, 2000), per=p.n(40, 200), case_s=0.06 * m, scale=False, timeout=600)
    for c in X86:
        p.add(c, "sigtimer", n=p.n(1500, 30000), per=p.n(1500, 10000), case_s=2e-4, timeout=600)
        p.add(c, "sigdeep", n=p.n(500, 10000), case_s=2e-3, depth=40, timeout=600)
    for c in XCROSS:
        p.add(c, "sigtimer", n=p.n(150, 2000), case_s=4e-3, scale=False, timeout=600)
        p.add(c, "sigdeep", n=p.n(60, 1000), case_s=8e-3, scale=False, timeout=600)


def c12(p):
    for c in ALL:
        kw = {}
        p.add(c, "alloc", n=p.n(200, 3000) * (3 if c in ("uint64", "uint64-nommm", "uint64-malloc", "uint32-malloc", "avx2-nommm", "avx2", "sse2-nommm") else 1),
              per=p.n(600, 3000), case_s=1.2e-4, **kw)
        p.add(c, "alloc", n=p.n(100, 1500), case_s=1.2e-4, sysalign=1)


def c14(p):
    spread(p, "align", 1500, 15000, 2.5e-4, big=("uint64", "avx2", "sse2", "uint32", "mmx"), bigf=4, per=3000, floor=40)
    spread(p, "places", 900, 10000, 4e-4, big=("uint64", "avx2", "sse2", "uint32", "mmx"), bigf=4, per=3000, floor=60)
    for c in ("uint64", "uint32", "sse2", "ssse3", "avx2", "mmx", "mmx-real", "clang-sse2", "clang-avx2"):
        p.add(c, "align", n=p.n(250, 3000), per=p.n(250, 500), case_s=2e-3, var="asan", scale=False)


def c15(p):
    spread(p, "fpu", 400, 6000, 3e-4, big=("mmx-real", "mmx-real-alt", "clang-mmx", "mmx", "sse2", "avx2"), bigf=4, floor=10)


def c16(p):
    for c in ALL:
        w = CONFIGS[c].width
        p.add(c, "term", n=p.n(400, 6000), case_s=5e-4, width=w)
        p.add(c, "term", n=1 if slow(c) > 6 else p.n(2, 12), case_s=0.5 * w / 64, width=w, all=1, scale=False, timeout=600)


def c17(p):
    for c in ["uint64", "uint32", "sse2", "avx2", "mmx-real", "uint64-debug", "avx2-debug", "clang-uint64"] + \
             ([] if p.q else ["uint64-alt", "mmx", "ssse3", "sse2-alt", "avx2-alt", "clang-avx2", "uint64-Os", "uint64-malloc"]):
        d = "debug" in c
        p.add(c, "pure", n=p.n(30 if d else 100, 300 if d else 1200), per=2 if d else 12, case_s=5 if d else 0.45, vf=1 / slow(c), scale=False, timeout=900)
    for c in X86:
        p.add(c, "pure", n=p.n(2000, 20000), case_s=2e-4, step=0, timeout=600)
    for c in XCROSS:
        p.add(c, "pure", n=p.n(40, 400), case_s=1e-2, step=0, scale=False, timeout=600)


def c18(p):
    for c in ALL:
        if c.endswith("-ndebug"):       # no promise without assertions
            continue
        f = slow(c)
        sweep = p.n(400, 4000) if f == 1 else p.n(376, 800)
        p.add(c, "abort", n=sweep + (p.n(300, 4000) if f == 1 else p.n(60, 300)), per=1000, case_s=1e-3, sweep=sweep, scale=False)


def c19(p):
    cfgs = ["uint64", "uint32", "sse2", "avx2", "mmx-real", "ssse3"] if p.q else \
        [c for c in X86 if not c.endswith(("-O0", "-debug"))]
    for c in cfgs:
        for what, cs in (("limits", 10), ("kinds", 8), ("content", 6), ("keys", 0.6)):
            for enc in (0, 1):
                p.add(c, "cost", case_s=cs, what=what, enc=enc, timeout=600, full=0 if p.q else 1)
    for c in ("uint64",) if p.q else ("uint64", "clang-uint64", "uint64-Os", "uint32"):
        for enc in (0, 1):
            p.add(c, "cost", case_s=17, what="lens", enc=enc, timeout=600, full=0 if p.q else 1)


def c21(p):
    for c in SAN_X86 + ["clang-uint64"]:
        p.add(c, "shadow", n=p.n(120, 2000), per=p.n(120, 500), case_s=4e-3, var="msan", scale=False)
        p.add(c, "shadow", n=p.n(60, 500), case_s=4e-3, var="msan", scale=False, start=100000, kind=1)
    spread(p, "stale", 1000, 12000, 1.5e-3 / 5 * 5, ALL, big=("uint64", "avx2", "sse2", "uint32"), bigf=2, per=1500, floor=20)


def c22(p):
    spread(p, "keybits", 150, 2000, 1.5e-3, big=("uint64", "avx2", "uint32", "sse2"), bigf=3, per=300, floor=5)


def c23(p):
    spread(p, "stack", 400, 6000, 2.5e-4, big=("uint64", "avx2", "sse2", "uint32", "uint64-O0", "avx2-O0"), bigf=3, per=2000, floor=48)
    for c in XCROSS:
        p.add(c, "stack", n=p.n(8, 60), case_s=4e-2, scale=False, start=1000000, maxlen=40000)
    if not p.q:
        for c in ("uint64", "clang-uint64", "uint64-O0"):
            p.add(c, "stack", n=600, per=100, case_s=1e-1, start=2000000, maxlen=3000000)


def c24(p):
    for c in ALL:
        f = slow(c)
        x = c in XCROSS
        p.add(c, "roam", n=p.n(6, 60) if x else p.n(120, 3000) * (3 if c in ("uint64", "avx2", "sse2", "uint32", "mmx", "mmx-real") else 1),
              per=p.n(400, 1000), case_s=(0.2 if x else 0.015) * min(f, 3), scale=False, timeout=900)
        p.add(c, "held", n=p.n(6, 100) if x else p.n(100, 2000), case_s=0.14 if x else 0.008, fork=1, t=40, start=3000000, scale=False, timeout=600)


ABI = BASE_X86 + ["uint32-alt", "mmx-alt", "ssse3-alt", "mmx-real", "clang-uint64", "clang-uint32", "clang-sse2", "clang-avx2", "clang-mmx",
                  "uint64-O0", "uint64-O2", "uint64-Os", "avx2-O2", "uint64-nommm", "uint64-malloc", "avx2-nommm"]


def c25(p):
    for c in ABI + XSHARED:
        w = CONFIGS[c].width
        for mode, n, cs, kw in (("single", 1500, 1.3e-4, {}), ("batch", 700, 4e-4, {}), ("batch", 300, 4e-4, dict(over=1)), ("hist", 40, 1.2e-3, {}),
                                ("bskeys", 300, 1e-4, {}), ("align", 300, 2.5e-4, {}), ("term", 150, 5e-4, dict(width=w)), ("roam", 20, 0.015, {})):
            if mode == "roam" and c in XCROSS:
                continue
            p.add(c, mode, n=max(4, int(p.n(n, n * 12))), case_s=cs, var="abi", **kw)
    dlruns(p, 0)


def dlruns(p, watch):
    """Programs that load a processor's builds at run time."""
    groups = [[c for c in ABI], ["neon", "neon-alt", "uint64-a64"], ["uint64-be", "uint32-be", "altivec", "uint64-be-alt"], ["uint32-ppc32", "uint64-ppc32"]]
    for g in groups:
        x = g[0] in XCROSS
        for s in range(p.n(3, 12)):
            p.jobs.append(Job(g[0], "dl", var="abi", kind="dl", seed=p.seed * 100 + s, rounds=p.n(6 if x else 40, 40 if x else 400), libs=",".join(g), cost=6, timeout=600, watch=watch))
    if watch:                   # one build at a time: nothing of the others can hide it
        for c in ABI + [c for g in groups[1:] for c in g]:
            p.jobs.append(Job(c, "dl", var="abi", kind="dl", seed=p.seed * 100, rounds=p.n(10 if c in XCROSS else 60, 60 if c in XCROSS else 600), libs=c, cost=1, timeout=600, watch=1))


def c26(p):
    cfgs = ["uint64", "uint32", "sse2", "avx2", "mmx-real", "ssse3"] if p.q else \
        [c for c in X86 if not c.endswith(("-O0", "-debug"))]
    for c in cfgs:
        for enc in (0, 1):
            p.add(c, "cost", case_s=12, what="pays", enc=enc, timeout=600, full=0 if p.q else 1)


def c27(p):
    for c in SIGCFG + ["mmx", "ssse3"] + ([] if p.q else ["uint64-alt", "sse2-alt", "avx2-alt", "clang-uint64", "clang-avx2", "uint64-Os"]):
        p.add(c, "abandon", n=p.n(160, 2400), per=p.n(40, 80), case_s=0.8 if "O0" in c else 0.25, scale=False, how="steps", timeout=600)
    for c in X86:
        p.add(c, "abandon", n=p.n(8000, 150000), per=p.n(8000, 20000), case_s=3e-4, timeout=600)
    for c in XCROSS:
        p.add(c, "abandon", n=p.n(300, 4000), per=p.n(300, 1000), case_s=8e-3, scale=False, timeout=600)
    for c in X86:
        p.add(c, "abandon", n=p.n(250, 4000), per=p.n(250, 1000), case_s=6e-3, scale=False, how="thread", timeout=600)
    for c in XCROSS:
        p.add(c, "abandon", n=p.n(60, 800), per=p.n(60, 400), case_s=1e-2, scale=False, how="thread", timeout=600)


def c28(p):
    dlruns(p, 1)


# The oldest processors a build is for, as qemu models them: instructions they
# lack end in SIGILL there, or (tzcnt, lzcnt) give what those processors give.
_CPUS = (("sse2", ""), ("sse4a", "sse3 popcnt cx16 abm sse4a lahf_lm"), ("ssse3", "sse3 ssse3 cx16"), ("sse4", "sse3 ssse3 sse4.1 sse4.2 popcnt cx16 lahf_lm"),
         ("avx", "sse3 ssse3 sse4.1 sse4.2 popcnt cx16 lahf_lm aes pclmulqdq xsave avx"),
         ("avx2", "sse3 ssse3 sse4.1 sse4.2 popcnt cx16 xsave avx avx2"),
         ("haswell", "sse3 ssse3 sse4.1 sse4.2 popcnt cx16 lahf_lm abm aes pclmulqdq movbe xsave avx avx2 fma f16c rdrand bmi1 bmi2"))
_FEAT = "sse3 ssse3 sse4.1 sse4.2 popcnt cx16 svm abm lahf_lm sse4a".split()


def x86cpu(name):
    if name == "max":
        return name
    has = dict(_CPUS)[name].split()
    return "qemu64," + ",".join(["+" + f for f in has] + ["-" + f for f in _FEAT if f not in has])


# the processors a build is for, oldest first
MODELS = dict(SSSE3=("ssse3", "sse4", "avx", "haswell", "max"), AVX2=("avx2", "haswell", "max"))
CPUS = ("sse2", "sse4a", "ssse3", "sse4", "avx", "haswell", "max")
OLDEST_CROSS = dict(aarch64=("cortex-a35", "cortex-a53"), ppc64=("power7",), ppc32=("603e", "e300"))


def c29(p):
    modes = (("single", 200, 0.004), ("keys", 200, 0.004), ("batch", 48, 0.05), ("inverse", 24, 0.05), ("alloc", 8, 0.05), ("align", 24, 0.03))
    for c in ALL:
        cf = CONFIGS[c]
        if "-march=native" in cf.cflags:     # for the machine that builds it, by request
            continue
        f = max(1.0, slow(c) if not cf.cross or cf.arch == "i386" else slow(c) / 14) * max(1.0, cf.width / 64)
        big = c in ("uint64", "uint32", "mmx-real", "sse2", "ssse3", "avx2", "neon", "altivec")
        for mode, n, t in modes:
            if c.endswith("malloc") and mode == "alloc":
                continue
            n = p.n(n, n * 20) * (3 if big else 1)
            kw = dict(n=n, per=n if p.q else max(1, n // 4), case_s=t * f, scale=False, timeout=900)
            if cf.cross and cf.arch != "i386":
                for cpu in OLDEST_CROSS[cf.arch] + ("max",) * (cf.arch == "aarch64"):
                    p.add(c, mode, env={"QEMU_CPU": cpu}, **kw)
            else:
                models = MODELS.get(cf.use, CPUS)
                for cpu in models if big or not p.q else models[:1]:
                    # qemu 8.2 miscomputes some AVX2 code the hardware runs correctly: what AVX2 builds yield there is not judged
                    p.add(c, mode, wrap=["qemu-i386" if cf.arch == "i386" else "qemu-x86_64", "-cpu", x86cpu(cpu)], env={"VERIF_TRAPS_ONLY": "1"} if cf.use == "AVX2" else None, **kw)
