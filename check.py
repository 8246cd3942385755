#!/usr/bin/env python3
"""python3 check.py <property> [--replay FILE]   (VERIF_TIER, VERIF_SEED)
   python3 check.py --setup                      builds everything once"""
import base64
import json
import os
import signal
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import builds, engine, install, plans, texts  # noqa: E402


def c13(ctx):
    """Digests of the same calls from every build, compared pairwise by majority."""
    q = ctx.quick()
    chunk = 10
    jobs = []
    for c in builds.CONFIGS:
        f = plans.slow(c)
        n = (30000 if q else 400000) if f == 1 else max(1000 if q else 10000, int((30000 if q else 400000) / f))
        n = n // chunk * chunk
        jobs.append(engine.Job(c, "digest", n=n, start=0, seed=ctx.seed, chunk=chunk, cost=n * 1.2e-4 * f, timeout=max(180, int(n * f * 0.02))))
    res = engine.run_jobs(ctx, jobs)
    votes = {}
    for r in res:
        for i, d in r.digests.items():
            votes.setdefault(i, {}).setdefault(d, []).append(r)
    compared, pairs = 0, 0
    bad = {}
    for i in sorted(votes):
        v = votes[i]
        k = sum(len(x) for x in v.values())
        compared += 1
        pairs += k * (k - 1) // 2
        if len(v) > 1:
            best = max(v.values(), key=len)
            for d, rs in v.items():
                if rs is not best:
                    for r in rs:
                        bad.setdefault(r.job.cfg, (i, r, best[0].job.cfg, len(best), k))
    for cfg, (i, r, other, nb, k) in sorted(bad.items()):
        j = engine.Job.from_spec(r.job.spec())
        j.args.update({"from": i, "n": chunk, "chunk": 1})
        j.args["other"] = other
        detail = "calls %d..%d give other bytes in build %s than in %d of %d builds (%s ...)" % (i, i + chunk - 1, cfg, nb, k, other)
        try:
            o = engine.Job.from_spec(j.spec())
            o.cfg = other
            a, b = engine.run_job(ctx, j).digests, engine.run_job(ctx, o).digests
            d = [x for x in sorted(a) if a[x] != b.get(x)]
            if d:
                detail += "; first differing call %d" % d[0]
        except Exception:
            pass
        r.viols.append(engine.Violation("build-differs", i, detail, j))
    return res, dict(call_groups_compared=compared, pairs_of_builds_compared=pairs, builds=len([r for r in res if r.digests]))


def c17_env(ctx, res):
    """The same calls in other environments, directories and stack limits."""
    envs = [dict(), dict(env={"LANG": "tr_TR.UTF-8", "TZ": "Asia/Tokyo", "MALLOC_PERTURB_": "85", "DVBCSA_DEBUG": "1", "HOME": "/nonexistent"}),
            dict(stack=2 << 20), dict(cwd="/"), dict(env={"x" * 50: "y" * 9000, "LC_ALL": "C", "OMP_NUM_THREADS": "1"}),
            dict(env={"DEBUG": "1", "VERBOSE": "1", "LIBDVBCSA_DEBUG": "1", "TZ": "UTC"}, cwd="/usr")]
    jobs = []
    for c in ("uint64", "uint32", "sse2", "avx2", "mmx-real", "uint64-debug"):
        for e in envs:
            n = 300 if ctx.quick() else 3000
            jobs.append(engine.Job(c, "digest", n=n, start=0, seed=ctx.seed, chunk=50, cost=1, timeout=180, **e))
    rs = engine.run_jobs(ctx, jobs)
    by = {}
    for r in rs:
        for i, d in r.digests.items():
            by.setdefault((r.job.cfg, i), []).append((d, r))
    cmpd = 0
    for (c, i), l in sorted(by.items()):
        cmpd += len(l) - 1
        for d, r in l[1:]:
            if d != l[0][0]:
                r.viols.append(engine.Violation("environment-dependent", i, "calls %d..%d of build %s give other bytes in another process environment" % (i, i + 49, c), r.job))
                break
    return res + rs, dict(call_groups_compared_across_environments=cmpd)


def c21_fill(ctx, res):
    """Digests with the stack filled differently before every call."""
    jobs = []
    for c in ("uint64", "uint32", "sse2", "ssse3", "avx2", "mmx-real", "uint64-O0", "avx2-O0", "uint64-init-pattern", "avx2-init-pattern", "sse2-init-pattern",
              "uint32-init-pattern", "uint64-init-zero", "neon", "altivec", "uint64-be"):
        if c not in builds.CONFIGS:
            continue
        f = plans.slow(c)
        n = max(60, int((600 if ctx.quick() else 6000) / f)) // 10 * 10
        for fill in (0, 255, 0xA7):
            jobs.append(engine.Job(c, "digest", n=n, start=0, seed=ctx.seed, chunk=10, fill=fill, cost=n * 1.5e-3 * f, timeout=180))
    rs = engine.run_jobs(ctx, jobs)
    by, cmpd = {}, 0
    for r in rs:
        for i, d in r.digests.items():
            by.setdefault(i, []).append((d, r))
    for i, l in sorted(by.items()):
        cnt = {}
        for d, r in l:
            cnt.setdefault(d, []).append(r)
        cmpd += len(l) - 1
        if len(cnt) > 1:
            best = max(cnt.values(), key=len)
            for d, x in cnt.items():
                if x is not best:
                    x[0].viols.append(engine.Violation("stack-contents-matter", i, "calls %d..%d give other bytes with the stack filled with %s" % (i, i + 9, x[0].job.args["fill"]), x[0].job))
            break
    return res + rs, dict(call_groups_compared_across_stack_fillings=cmpd)


def c19_long(ctx, res):
    """Instructions of single packet calls of up to 4 MiB, counted by callgrind."""
    jobs = []
    lens = [0, 65536, 262144, 1 << 20] + ([4 << 20] if not ctx.quick() else [3 << 20])
    for c in ("uint64", "clang-uint64") + (() if ctx.quick() else ("uint32", "uint64-O0", "uint64-native")):
        for enc in (0, 1):
            for n in lens:
                jobs.append(engine.Job(c, "onecall", var="valgrind", seed=ctx.seed, len=n, enc=enc, cost=0.5 + n * 4e-6, timeout=600,
                                       wrap=["valgrind", "--tool=callgrind", "--callgrind-out-file=/dev/null"]))
    rs = engine.run_jobs(ctx, jobs)
    judged = 0
    by = {}
    for r in rs:
        m = re.search(r"Collected\s*:\s*(\d+)", r.out)
        if m and not r.viols and not r.inconclusive:
            by.setdefault((r.job.cfg, r.job.args["enc"]), {})[r.job.args["len"]] = (int(m.group(1)), r)
    for k in sorted(by):
        l = by[k]
        if 0 not in l or 65536 not in l:
            continue
        unit = l[65536][0] - l[0][0]
        for n in sorted(l):
            got = l[n][0] - l[0][0]
            judged += 1
            if got > 1.4 * unit * n / 65536.0 + 100000:
                l[n][1].viols.append(engine.Violation("not-linear-in-length", n, "%s of %d bytes: %d instructions, %d for 65536 bytes" % (
                    "encryption" if k[1] else "decryption", n, got, unit), l[n][1].job))
    return res + rs, dict(long_calls_counted=judged)


def check(prop, tier, seed):
    ctx = engine.Ctx(prop, tier, seed)
    try:
        extra = {}
        if prop == "C20":
            res = install.run(ctx)
        elif prop == "C13":
            res, extra = c13(ctx)
        else:
            p = plans.Plan(ctx)
            getattr(plans, prop.lower())(p)
            res = engine.run_jobs(ctx, p.jobs, soft_deadline=600 if ctx.quick() else None)
            if prop == "C17" and not ctx.stop.is_set():
                res, extra = c17_env(ctx, res)
            if prop == "C19" and not ctx.stop.is_set():
                res, extra = c19_long(ctx, res)
            if prop == "C21" and not ctx.stop.is_set():
                res, extra = c21_fill(ctx, res)
        t = texts.TEXT[prop]
        rc = engine.finish(ctx, res, t["rule"], t["assumptions"], t.get("level", "exploration"), extra)
        if os.environ.get("VERIF_PROFILE"):
            for r in sorted(res, key=lambda r: -r.wall)[:25]:
                print("  %7.1f s (planned %6.1f) %s" % (r.wall, r.job.cost, r.job.name()))
        return rc
    finally:
        ctx.close()


def replay(prop, path):
    doc = json.load(open(path))
    ctx = engine.Ctx(prop, doc.get("tier", "quick"), doc.get("seed", 1))
    try:
        s = doc["run"]
        if prop == "C20":
            res = install.run(ctx, only=s["cfg"])
        elif s["mode"] == "onecall":
            res = c19_long(ctx, [])[0]
        else:
            j = engine.Job.from_spec(s)
            if j.kind == "fuzz" and j.env.get("FUZZ_INPUT_B64"):
                f = ctx.tmp("input")
                open(f, "wb").write(base64.b64decode(j.env.pop("FUZZ_INPUT_B64")))
                h = builds.binary(j.cfg, j.var, j.srcs)
                e = dict(os.environ)
                e.update(j.env)
                rc, out, _ = engine.execute([h, f], e, 120)
                print(out[-2000:])
                if rc:
                    print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1 if rc else 0
            other = j.args.pop("other", None)
            r = engine.run_job(ctx, j)
            res = [r]
            if other:
                o = engine.Job.from_spec(j.spec())
                o.cfg = other
                b = engine.run_job(ctx, o).digests
                d = [i for i in sorted(r.digests) if r.digests[i] != b.get(i)]
                if d:
                    r.viols.append(engine.Violation("build-differs", d[0], "call %d: %s against %s" % (d[0], j.cfg, other), j))
        v = [v for r in res for v in r.viols]
        for x in v[:5]:
            print(x.text()[:2000])
        if v:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        else:
            print("not reproduced")
        return 1 if v else 0
    finally:
        ctx.close()


def setup():
    """Compile every build once; says what does not compile."""
    import concurrent.futures as cf
    t = time.time()
    todo = [(c, "plain", None) for c in builds.CONFIGS]
    todo += [(c, v, None) for v in ("asan", "asan-clang", "bounds") for c in plans.SAN_X86]
    todo += [(c, "msan", None) for c in plans.SAN_X86] + [(c, "tsan", None) for c in plans.BASE_X86]
    todo += [(c, "cov", ["fuzz.c", "ref.c"]) for c in ("uint64", "uint32", "sse2", "avx2")]
    bad = []

    def one(x):
        try:
            builds.binary(*x)
        except builds.BuildError as e:
            bad.append("%s/%s: %s" % (x[0], x[1], str(e)[-400:]))
    with cf.ThreadPoolExecutor(builds.JOBS) as ex:
        list(ex.map(one, todo))
    for b in bad:
        print("does not compile:", b)
    print("%d builds in %.0f s" % (len(todo) - len(bad), time.time() - t))
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--setup":
        return setup()
    prop = a[0]
    if prop not in texts.TEXT:
        print("unknown property", prop)
        return 2
    if "--replay" in a:
        return replay(prop, a[a.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in a:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        rc = check(prop, "thorough" if tier == "thorough" else "quick", seed)
    except builds.BuildError as e:
        print("INCONCLUSIVE build failed:", str(e)[-2000:])
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    builds.prune()
    return rc


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    for sig in (signal.SIGTERM, signal.SIGINT):
        signal.signal(sig, lambda n, f: (engine.kill_all(), os._exit(2)))
    sys.exit(main())
