"""Runs monitored executions in parallel and turns what they print into a verdict.

A job is one process: one build of the library, one workload mode of the
monitor, one range of cases.  Its outcome is one of
  held          the monitor saw nothing wrong
  violated      the monitor, a sanitizer or the processor objected
  inconclusive  the run could not be completed (machine trouble)
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import tempfile
import threading
import time

from . import builds

VERIF = builds.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")

CRASH_SIGS = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT, signal.SIGTRAP, signal.SIGSYS}

SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=86:detect_leaks=0:abort_on_error=0:halt_on_error=1:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:allocator_may_return_null=1:handle_abort=1:print_legend=0",
    "UBSAN_OPTIONS": "exitcode=86:print_stacktrace=1:halt_on_error=1:print_legend=0",
    "TSAN_OPTIONS": "exitcode=86:halt_on_error=1:second_deadlock_stack=1:history_size=4",
    "MSAN_OPTIONS": "exitcode=86:halt_on_error=1:print_legend=0",
}
SAN_RE = re.compile(r"(ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|ERROR: ThreadSanitizer|"
                    r"WARNING: MemorySanitizer|ERROR: MemorySanitizer|ERROR: LeakSanitizer|UndefinedBehaviorSanitizer|"
                    r"ERROR SUMMARY: [1-9])")
ENV_RE = re.compile(r"(FATAL: (Thread|Memory)Sanitizer: unexpected memory mapping|unexpected memory mapping|"
                    r"ReserveShadowMemoryRange failed|Shadow memory range interleaves|Sanitizer CHECK failed|"
                    r"failed to (intercept|allocate)|out-of-memory|qemu: fatal|Cannot allocate memory)")


# one long case per run; and those whose hangs depend on time: rerunning says nothing
UNWATCHED = {"marathon", "grid", "huge", "large", "spin"}
ONCE = {"sigevery", "sigstep", "sigtimer", "abandon", "threads", "churn", "roam", "cost"}


class Job:
    def __init__(self, cfg, mode, n=None, start=None, var="plain", timeout=240, kind="harness", env=None, srcs=None,
                 cost=1.0, wrap=None, stack=None, cwd=None, label=None, **args):
        self.cfg, self.mode, self.var, self.timeout, self.kind = cfg, mode, var, timeout, kind
        self.args = dict(args)
        if n is not None:
            self.args["n"] = n
        if start is not None:
            self.args["from"] = start
        self.env, self.srcs, self.cost, self.wrap, self.stack, self.cwd, self.label = dict(env or {}), srcs, cost, wrap, stack, cwd, label

    def spec(self):
        return dict(cfg=self.cfg, mode=self.mode, var=self.var, kind=self.kind, args=self.args, env=self.env, srcs=self.srcs,
                    wrap=self.wrap, stack=self.stack, cwd=self.cwd, timeout=self.timeout, cost=self.cost)

    @staticmethod
    def from_spec(s):
        j = Job(s["cfg"], s["mode"], var=s["var"], timeout=s.get("timeout", 300), kind=s["kind"], env=s["env"], srcs=s["srcs"],
                wrap=s.get("wrap"), stack=s.get("stack"), cwd=s.get("cwd"))
        j.args = dict(s["args"])
        return j

    def name(self):
        return "%s/%s %s %s" % (self.cfg, self.var, self.mode, " ".join("%s=%s" % kv for kv in self.args.items()))


class Violation:
    def __init__(self, key, case, detail, job):
        self.key, self.case, self.detail, self.job = key, case, detail, job

    def text(self):
        return "%s [%s] %s" % (self.key, self.job.name() if self.job else "", self.detail)


class Result:
    def __init__(self, job):
        self.job, self.stats, self.samples, self.digests, self.costs = job, {}, [], {}, []
        self.viols, self.inconclusive, self.skipped, self.wall, self.out = [], None, None, 0.0, ""


def _limits(stack):
    def f():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if stack:
            resource.setrlimit(resource.RLIMIT_STACK, (stack, resource.RLIM_INFINITY if stack < 0 else stack))
    return f


_live = set()
_live_lock = threading.Lock()


def kill_all():
    with _live_lock:
        for p in list(_live):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def _usage(pid):
    """Processor seconds of a process we started and its descendants, and whether all of their threads sleep."""
    cpu, asleep, todo = 0.0, True, [pid]
    while todo:
        p = todo.pop()
        try:
            for t in os.listdir("/proc/%d/task" % p):
                f = open("/proc/%d/task/%s/stat" % (p, t)).read().rsplit(")", 1)[1].split()
                asleep = asleep and f[0] == "S"
                todo += [int(c) for c in open("/proc/%d/task/%s/children" % (p, t)).read().split()]
            f = open("/proc/%d/stat" % p).read().rsplit(")", 1)[1].split()
            cpu += sum(int(x) for x in f[11:15]) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            asleep = False
    return cpu, asleep


class Watch:
    """Does a run still get on?  It does not if one case, named in a file by the
    monitor, has used far more processor time than it can need, or if for a long
    time all threads only sleep, which no workload does."""
    SLEEP = 60

    def __init__(self, casefile, limit):
        self.casefile, self.limit, self.case, self.next = casefile, limit, None, 0.0

    def stalled(self, pid):
        now = time.time()
        if now < self.next:
            return None
        self.next = now + 2
        try:
            case = open(self.casefile).read(20)
        except OSError:
            case = ""
        cpu, asleep = _usage(pid)
        if case != self.case or not case:
            self.case, self.cpu, self.awake, self.scpu = case, cpu, now, cpu
            return None
        if not asleep or cpu - self.scpu > 0.2:
            self.awake, self.scpu = now, cpu
        if cpu - self.cpu > self.limit:
            return "%d s of processor time in one case" % (cpu - self.cpu)
        if now - self.awake > self.SLEEP:
            return "all threads blocked for %d s" % (now - self.awake)
        return None


def execute(cmd, env, timeout, stack=None, cwd=None, watch=None):
    """Run in its own process group; (rc, output, timed_out: True, or why it was given up)."""
    out = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=cwd,
                         start_new_session=True, preexec_fn=_limits(stack))
    with _live_lock:
        _live.add(p)
    timed = False
    try:
        end = time.time() + timeout
        while not timed:
            try:
                p.wait(timeout=min(2.0, max(0.01, end - time.time())) if watch else timeout)
                break
            except subprocess.TimeoutExpired:
                timed = time.time() >= end or (watch.stalled(p.pid) or False)
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        with _live_lock:
            _live.discard(p)
    out.seek(0, 2)
    size = out.tell()
    out.seek(0)
    text = out.read(24 << 20).decode("utf-8", "replace")
    if size > (24 << 20):
        text += "\n[output cut]\n"
    out.close()
    return p.returncode, text, timed


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop.lower())
        self.notes = []
        self.stop = threading.Event()
        self.t0 = time.time()
        self.counter = 0
        self.lock = threading.Lock()

    def quick(self):
        return self.tier != "thorough"

    def tmp(self, stem):
        with self.lock:
            self.counter += 1
            return os.path.join(self.scratch, "%s-%d" % (stem, self.counter))

    def close(self):
        kill_all()
        shutil.rmtree(self.scratch, ignore_errors=True)


def _one(ctx, job, setarch=False):
    """One process; fills in a Result without interpreting hangs."""
    r = Result(job)
    t = time.time()
    h = builds.binary(job.cfg, job.var, job.srcs)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("VERIF_", "ASAN_", "UBSAN_", "TSAN_", "MSAN_", "LD_"))}
    env.update(SAN_ENV)
    env.update(job.env)
    casefile = ctx.tmp("case")
    env["VCASE"] = casefile
    cfg = builds.CONFIGS[job.cfg]
    cwd = job.cwd
    if job.var == "abi":
        env["LD_LIBRARY_PATH"] = builds.shared(job.cfg)
        env["LD_BIND_NOW"] = "1"
    if job.kind == "dl":
        del env["LD_LIBRARY_PATH"], env["LD_BIND_NOW"]
        h = builds.abi_binary(job.cfg, dl=True)
        cmd = [h] + ["%s=%s" % kv for kv in job.args.items() if kv[0] != "libs"] + \
            ["lib=" + os.path.join(builds.shared(c), "libdvbcsa.so.1") for c in job.args["libs"].split(",")]
    elif job.kind == "fuzz":
        cwd = ctx.tmp("fuzz")
        os.makedirs(cwd)
        a = ["-%s=%s" % kv for kv in job.args.items() if kv[0] not in ("seed", "corpus")]
        cmd = [h] + a + ["-seed=%d" % (job.args["seed"] % (2 ** 31)), "-print_final_stats=1", "-artifact_prefix=%s/" % cwd,
                         "-timeout=60", "-rss_limit_mb=4096"]
    else:
        cmd = [h, job.mode] + ["%s=%s" % kv for kv in job.args.items()]
    cmd = (job.wrap or []) + cfg.emu + cmd
    if setarch:
        cmd = ["setarch", "-R"] + cmd
    watch = None
    if job.kind == "harness" and not job.wrap and job.mode not in UNWATCHED:
        watch = Watch(casefile, 150 if job.mode == "cost" else max(40, 40 * job.cost / max(1, int(job.args.get("n", 1)))))
    rc, out, timed = execute(cmd, env, job.timeout, job.stack, cwd, watch)
    r.wall = time.time() - t
    r.out = out
    case = None
    try:
        case = int(open(casefile).read(20))
    except (OSError, ValueError):
        pass
    try:
        os.unlink(casefile)
    except OSError:
        pass
    done = False
    for line in out.split("\n"):
        if line.startswith("VIOL ") and "VERIF_TRAPS_ONLY" in job.env:
            r.stats["results_not_judged"] = r.stats.get("results_not_judged", 0) + 1
        elif line.startswith("VIOL "):
            m = re.match(r"VIOL (\S+) case=(\d+) ?(.*)", line)
            if m:
                r.viols.append(Violation(m.group(1), int(m.group(2)), m.group(3)[:1200], job))
        elif line.startswith("STAT "):
            f = line.split()
            if len(f) == 3 and f[2].isdigit():
                r.stats[f[1]] = r.stats.get(f[1], 0) + int(f[2])
        elif line.startswith("SAMPLE "):
            r.samples.append(line[7:600])
        elif line.startswith("DIGEST "):
            f = line.split()
            if len(f) >= 3:
                r.digests[int(f[1])] = f[2]
        elif line.startswith("COST "):
            r.costs.append(line[5:])
        elif line == "DONE":
            done = True
        elif line.startswith("CRASH "):
            m = re.match(r"CRASH sig=(\d+) case=(\d+) addr=(\S+)", line)
            if m:
                r.viols.append(Violation("crash-signal-%s" % m.group(1), int(m.group(2)), line, job))
    if job.kind == "fuzz":
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", out)
        if m:
            r.stats["evaluations"] = int(m.group(1))
        m = re.search(r"stat::new_units_added:\s*(\d+)", out)
        if m:
            r.stats["distinct"] = int(m.group(1))
        done = rc == 0
        if rc not in (0, 77) and rc != -signal.SIGKILL and not timed and not r.viols and "HARNESS-ERROR" not in out:
            if "ERROR: libFuzzer: out-of-memory" in out:
                r.inconclusive = "fuzzer out of memory"
            else:
                r.viols.append(Violation("fuzz-crash", None, tail(out), job))
        if r.viols:                  # keep the input: it is the replay
            import base64
            for f in sorted(os.listdir(cwd)):
                if f.startswith(("crash-", "timeout-")):
                    job.env["FUZZ_INPUT_B64"] = base64.b64encode(open(os.path.join(cwd, f), "rb").read()).decode()
        elif rc == 77 and not r.viols:
            r.viols.append(Violation("fuzz-crash", None, tail(out), job))
    m = SAN_RE.search(out)
    if m and not r.viols:
        blk = out[m.start():m.start() + 1500]
        if ENV_RE.search(out) and "AddressSanitizer: " not in blk.split("\n")[0] and "runtime error" not in blk:
            r.inconclusive = "sanitizer could not run: " + tail(out, 300)
        elif "AddressSanitizer: out of memory" in out or "allocator is out of memory" in out or "requested allocation size" in out:
            r.inconclusive = "sanitizer out of memory"
        else:
            r.viols.append(Violation(san_key(blk), case, " ".join(blk.split())[:1000], job))
    if r.viols:
        for v in r.viols:
            if v.case is None:
                v.case = case
        return r
    if timed or rc == 78:
        if isinstance(timed, str) and job.mode in ONCE:
            r.viols.append(Violation("hang", case, "a call does not return: " + timed, job))
            return r
        r.inconclusive = "timeout"
        r.hang_case = case
        return r
    if rc == 70 or "HARNESS-ERROR" in out:
        r.inconclusive = "monitor error: " + tail(out, 300)
        return r
    if r.inconclusive:
        return r
    if rc == 77 or (rc < 0 and -rc in CRASH_SIGS):
        r.viols.append(Violation("crash-signal-%s" % (-rc if rc < 0 else "?"), case, "the process died; " + tail(out, 300), job))
        return r
    if cfg.cross and rc in (128 + signal.SIGSEGV, 128 + signal.SIGABRT, 128 + signal.SIGBUS, 128 + signal.SIGILL):
        r.viols.append(Violation("crash-signal-%d" % (rc - 128), case, tail(out, 300), job))
        return r
    if ENV_RE.search(out):
        r.inconclusive = "environment: " + tail(out, 300)
        return r
    if rc != 0:
        # the library ended the process, or something outside did
        if rc == -signal.SIGKILL:
            r.inconclusive = "killed"
        else:
            r.viols.append(Violation("process-ended", case, "exit status %d inside a library call; %s" % (rc, tail(out, 300)), job))
        return r
    if not done:
        r.viols.append(Violation("process-ended", case, "exit status 0 inside a library call; %s" % tail(out, 200), job))
    return r


def tail(s, n=500):
    return " ".join(s[-n:].split())


def san_key(blk):
    m = re.search(r"AddressSanitizer: ([\w-]+)", blk)
    if m:
        return "asan-" + m.group(1)
    if "ThreadSanitizer" in blk:
        m = re.search(r"ThreadSanitizer: ([\w -]+?)( \(|\n|$)", blk)
        return "tsan-" + (m.group(1).strip().replace(" ", "-") if m else "report")
    if "MemorySanitizer" in blk:
        m = re.search(r"MemorySanitizer: ([\w-]+)", blk)
        return "msan-" + (m.group(1) if m else "report")
    if "runtime error" in blk:
        return "undefined-behaviour"
    return "sanitizer-report"


def run_job(ctx, job):
    """Run, and decide what a hang or an environment failure means."""
    try:
        r = _one(ctx, job)
    except builds.BuildError as e:
        r = Result(job)
        if builds.CONFIGS[job.cfg].base and job.var in ("plain", "abi"):
            r.inconclusive = "build failed: " + str(e)[-1500:]
        else:
            r.skipped = "does not compile: " + tail(str(e), 300)
        return r
    if r.inconclusive and not ctx.stop.is_set():
        if r.inconclusive == "timeout":
            case = getattr(r, "hang_case", None)
            one = Job.from_spec(job.spec())
            if case is not None and job.kind == "harness" and job.mode not in ("cost", "marathon", "grid", "huge", "large"):
                one.cost = job.cost / max(1, int(job.args.get("n", 1)))
                one.args["from"], one.args["n"] = case, 1
            one.timeout = max(60, job.timeout // 2) if "n" in one.args and one.args["n"] == 1 else job.timeout
            r2 = _one(ctx, one)
            if r2.viols:
                return r2
            if r2.inconclusive == "timeout":
                r.viols.append(Violation("hang", case, "a call does not return (again after %d s when rerun alone)" % one.timeout, one))
                r.inconclusive = None
                return r
            if one.args != job.args:
                job2 = Job.from_spec(job.spec())
                job2.timeout = job.timeout * 2
                r2 = _one(ctx, job2)
            return r2
        return _one(ctx, job, setarch="sanitizer" in r.inconclusive or "environment" in r.inconclusive)
    return r


def run_jobs(ctx, jobs, soft_deadline=None, log=True, workers=None):
    """All jobs, dearest first; stops launching once a violation is known."""
    jobs = sorted(jobs, key=lambda j: -j.cost)
    results = []
    known = load_known()
    dropped = []

    def work(j):
        if ctx.stop.is_set():
            return None
        if soft_deadline and time.time() - ctx.t0 > soft_deadline:
            dropped.append(j)
            return None
        r = run_job(ctx, j)
        if r.viols and any(not match_known(known, ctx.prop, v) for v in r.viols):
            ctx.stop.set()
            # let the others of this moment finish quickly
        return r

    with cf.ThreadPoolExecutor(workers or builds.JOBS) as ex:
        futs = [ex.submit(work, j) for j in jobs]
        pending = set(futs)
        stop_at = None
        while pending:
            done, pending = cf.wait(pending, timeout=0.5)
            for f in done:
                r = f.result()
                if r is not None:
                    results.append(r)
            if ctx.stop.is_set():
                if stop_at is None:
                    stop_at = time.time() + 20
                elif time.time() > stop_at:
                    kill_all()
    if dropped:
        ctx.notes.append("%d of %d planned runs dropped: the machine was too slow to fit them in (%s ...)"
                         % (len(dropped), len(jobs), dropped[0].name()))
    return results


# ---- known findings ---------------------------------------------------------
def load_known():
    """Lines 'finding: property=<id> key=<key> config=<name or *> match=<regex>'."""
    out = []
    try:
        lines = open(KNOWN).read().split("\n")
    except OSError:
        return out
    for l in lines:
        m = re.match(r"finding: property=(\S+) key=(\S+) config=(\S+) match=(.*)$", l.strip())
        if m:
            out.append(m.groups())
    return out


def match_known(known, prop, v):
    for p, key, cfg, rx in known:
        if p == prop and key == v.key and (cfg == "*" or (v.job and cfg == v.job.cfg)) and re.search(rx, v.detail):
            return (p, key, cfg, rx)
    return None


# ---- reporting --------------------------------------------------------------
def save_replay(ctx, v, extra=None):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (ctx.prop, re.sub(r"[^\w.-]", "_", v.key)))
    s = v.job.spec() if v.job else {}
    if v.job and v.case is not None and v.job.kind == "harness" and "n" in s.get("args", {}) \
            and v.job.mode not in ("marathon", "cost", "grid", "digest"):
        a = dict(s["args"])
        start = int(a.get("from", 0))
        if v.case >= start:
            a["n"] = v.case - start + 1
        s["args"] = a
    with open(path, "w") as f:
        json.dump(dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, key=v.key, case=v.case, detail=v.detail, run=s,
                       extra=extra), f, indent=1)
    return path


def finish(ctx, results, rule, assumptions, level="exploration", extra=None, extra_viols=()):
    """Evidence file, output lines, exit status."""
    viols = [v for r in results for v in r.viols] + list(extra_viols)
    known = load_known()
    ev, dist, cfgs, obs, samples, skipped, modes = 0, 0, {}, {}, [], [], {}
    for r in results:
        if r.skipped:
            skipped.append("%s/%s %s" % (r.job.cfg, r.job.var, r.skipped))
            continue
        e, d = r.stats.get("evaluations", 0), r.stats.get("distinct", 0)
        ev += e
        dist += d
        k = "%s/%s" % (r.job.cfg, r.job.var)
        cfgs[k] = cfgs.get(k, 0) + e
        m = modes.setdefault(r.job.mode, dict(runs=0, cases=0, cpu_s=0.0))
        m["runs"] += 1
        m["cases"] += e
        m["cpu_s"] = round(m["cpu_s"] + r.wall, 1)
        for n, v in r.stats.items():
            if n not in ("evaluations", "distinct", "violations"):
                obs[n] = obs.get(n, 0) + v
        if r.samples and len(samples) < 6 and (r.job.mode not in [s["mode"] for s in samples] or len(samples) < 3):
            samples.append(dict(build=k, mode=r.job.mode, case=r.samples[0]))
    inc = [r for r in results if r.inconclusive and not r.viols]
    kinds = {}                  # a kind of run that could not be built anywhere decides nothing
    for r in results:
        kinds.setdefault((r.job.mode, r.job.var), []).append(r)
    for l in kinds.values():
        if all(r.skipped for r in l) and not inc:
            l[0].inconclusive = "none of these runs could be built: " + l[0].skipped
            inc.append(l[0])
    cov = dict(evaluations=ev, distinct_nontrivial=dist, rule=rule, samples=samples or ["none"],
               per_build_evaluations=cfgs, per_workload=modes, observed=obs)
    if skipped:
        cov["builds_skipped"] = sorted(set(skipped))
    if ctx.notes:
        cov["notes"] = ctx.notes
    if extra:
        cov.update(extra)
    new, kn = [], []
    for v in viols:
        (kn if match_known(known, ctx.prop, v) else new).append(v)
    os.makedirs(EVID, exist_ok=True)
    doc = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov, assumptions=assumptions,
               wall_s=round(time.time() - ctx.t0, 1), violations=len(new))
    tmp = os.path.join(EVID, ".%s.tmp" % ctx.prop)
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.rename(tmp, os.path.join(EVID, ctx.prop + ".json"))
    for key in sorted({match_known(known, ctx.prop, v) for v in kn}):
        print("KNOWN-FINDING: property=%s %s %s %s" % key)
    if new:
        seen = set()
        for v in new:
            if v.key in seen:
                continue
            seen.add(v.key)
            path = save_replay(ctx, v)
            print("  " + v.text()[:1500])
            print("VIOLATION property=%s replay=%s" % (ctx.prop, os.path.relpath(path, VERIF)))
        return 1
    if inc:
        for r in inc[:5]:
            print("INCONCLUSIVE %s: %s" % (r.job.name(), r.inconclusive))
        return 2
    if not ev:
        print("INCONCLUSIVE: nothing was observed")
        return 2
    print("%s held on %d cases in %d builds (%d distinct), %.0f s" % (ctx.prop, ev, len(cfgs), dist, doc["wall_s"]))
    return 0
