"""C20: configure, build and install as documented, then live as a user of the
installed files."""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess

from . import builds
from .engine import Job, Result, Violation, execute, tail

CLIENTS = os.path.join(builds.VERIF, "clients")
KAT = ("6e10afd67806daed8f5019b0f4e05b1aa534321e344a1cd73be28e4bb0e54fc733c8d3a2c85d5e6ad91e04297cb8ffe79650ead58ca697e2f30a"
       "6d8911c00a9db71c063e107daf3f11472a8d3780377b7d5984f321d7c19edd92c0cc3e322ec663ac7f26d8c60a4359d287c03bc4408bddd4360c"
       "8f28d49d9f51e071040c56507e870e113af1471ff0d5ff42b13822a7eebeb6dc26136fe8b6044588ff97551e096e41e181b03d55f8cbd3fb21f7"
       "397f596fc2c8e370c2af")
KAT0 = ("b7ba8083d02ea5d9fb8b0c5a8489d26945094e8aaf1077d197d067834cb70b7375e7ccc36ec1efa40396c3d891cdbcb807279b7d3127bc5ff01"
        "3a976ad7f43700bb64ef1ab6c136359c514af4a256c0e27b087c3fc8d7a62bdfd7e93f1523773576583f3990b4ce0d9cad998af346ec9e5d6c70b"
        "6f3a97009d5a580ed1c0a3bd262978a7467bc5454ea6a4398fee1b094c4e89d26b1498928b3591993307d7383b7a0d0f3352062e0427053e4b0cb"
        "38e6815da7523661010")
A64 = ("aarch64-linux-gnu", builds.A64)
P64 = ("powerpc64-linux-gnu", builds.P64)
P32 = ("powerpc-linux-gnu", builds.P32)
DECL = ["dvbcsa_key_alloc", "dvbcsa_key_free", "dvbcsa_key_set", "dvbcsa_decrypt", "dvbcsa_encrypt", "dvbcsa_bs_key_alloc",
        "dvbcsa_bs_key_free", "dvbcsa_bs_key_set", "dvbcsa_bs_batch_size", "dvbcsa_bs_decrypt", "dvbcsa_bs_encrypt"]


def option_sets(thorough):
    """(name, configure options, (host, emulator), word width)"""
    L = [("default", [], None, 64)]
    isa = [("uint32", 32), ("uint64", 64), ("mmx", 64), ("sse2", 128), ("ssse3", 128), ("avx2", 256)]
    for n, w in isa:
        L.append((n, ["--enable-" + n], None, w))
        L.append((n + "+alt-sbox", ["--enable-" + n, "--enable-alt-sbox"], None, w))
        L.append((n + "+debug", ["--enable-" + n, "--enable-debug"], None, w))
    L += [("alt-sbox", ["--enable-alt-sbox"], None, 64), ("debug", ["--enable-debug"], None, 64),
          ("no-shared", ["--disable-shared"], None, 64), ("no-static", ["--disable-static"], None, 64),
          ("clang", ["CC=clang"], None, 64), ("clang+avx2", ["CC=clang", "--enable-avx2"], None, 256),
          ("clang+sse2", ["CC=clang", "--enable-sse2"], None, 128), ("clang+mmx", ["CC=clang", "--enable-mmx"], None, 64),
          ("O0", ["CFLAGS=-O0"], None, 64),
          ("aarch64+neon", ["--enable-neon"], A64, 128), ("aarch64", [], A64, 64),
          ("ppc64+altivec", ["--enable-altivec"], P64, 128), ("ppc64", [], P64, 64), ("ppc64+uint32", ["--enable-uint32"], P64, 32),
          ("ppc32", [], P32, 32), ("aarch64+neon+debug", ["--enable-neon", "--enable-debug"], A64, 128),
          ("aarch64+neon+alt", ["--enable-neon", "--enable-alt-sbox"], A64, 128),
          ("ppc64+altivec+debug", ["--enable-altivec", "--enable-debug"], P64, 128),
          ("ppc64+altivec+alt", ["--enable-altivec", "--enable-alt-sbox"], P64, 128),
          ("ppc64+altivec+alt+debug", ["--enable-altivec", "--enable-alt-sbox", "--enable-debug"], P64, 128),
          ("ppc64+altivec+O0", ["--enable-altivec", "CFLAGS=-O0"], P64, 128),
          ("ppc64+debug", ["--enable-debug"], P64, 64), ("aarch64+debug", ["--enable-debug"], A64, 64)]
    if thorough:
        for n, w in isa:
            L.append(("clang+%s+alt" % n, ["CC=clang", "--enable-" + n, "--enable-alt-sbox"], None, w))
            L.append((n + "+alt-sbox+debug", ["--enable-" + n, "--enable-alt-sbox", "--enable-debug"], None, w))
            L.append((n + "+native", ["--enable-" + n, "CFLAGS=-march=native -g"], None, w))
        L += [("aarch64+uint32", ["--enable-uint32"], A64, 32),
              ("aarch64+neon+alt+debug", ["--enable-neon", "--enable-alt-sbox", "--enable-debug"], A64, 128),
              ("ppc32+uint64", ["--enable-uint64"], P32, 64), ("ppc32+alt", ["--enable-alt-sbox"], P32, 32)]
    return L


def env():
    e = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CPPFLAGS", "LDFLAGS", "LIBS", "MAKEFLAGS", "CDPATH", "CC")}
    e.update(WARNINGS="none", LC_ALL="C.UTF-8", MAKEFLAGS="-j2")
    return e


def prepare(ctx):
    """A scratch copy of the tree with fresh autotools output."""
    top = os.path.join(ctx.scratch, "tree")
    shutil.copytree(builds.REPO, top, symlinks=True, ignore=shutil.ignore_patterns("_build", ".git", "*.o", "*.lo", ".libs", ".deps", "autom4te.cache"))
    for f in ("configure", "config.h.in", "aclocal.m4", "Makefile.in", "config.h", "config.status"):
        p = os.path.join(top, f)
        if os.path.exists(p):
            os.unlink(p)
    rc, out, timed = execute(["sh", "./bootstrap"], env(), 300, cwd=top)
    return top, rc, out, timed


def one(ctx, top, opt):
    name, opts, cross, width = opt
    job = Job("uint64", "install:" + name)
    job.args = {"options": " ".join(opts), "host": cross[0] if cross else "native"}
    r = Result(job)
    st = r.stats
    bld, pre = os.path.join(ctx.scratch, "b-" + name), os.path.join(ctx.scratch, "i-" + name)
    os.makedirs(bld)
    tag = name
    emu = cross[1] if cross else []

    def bad(key, detail):
        r.viols.append(Violation("%s:%s" % (key, tag), None, detail[-1200:], job))

    def step(key, cmd, cwd=bld, timeout=300, e=None):
        rc, out, timed = execute(cmd, e or env(), timeout, cwd=cwd)
        st["evaluations"] = st.get("evaluations", 0) + 1
        if timed:
            r.inconclusive = "timeout in " + " ".join(cmd[:2])
            return None
        if rc == 0:
            st["distinct"] = st.get("distinct", 0) + 1
            return out
        if rc == -9:
            r.inconclusive = "killed: " + " ".join(cmd[:2])
            return None
        bad(key, "%s: exit %d: %s" % (" ".join(cmd)[:300], rc, tail(out, 700)))
        return None

    try:
        host = ["--host=" + cross[0]] if cross else []
        if step("configure-failed", [os.path.join(top, "configure"), "--prefix=" + pre] + host + opts) is None:
            return r
        if step("make-failed", ["make", "-s"]) is None:
            return r
        if step("install-failed", ["make", "-s", "install"]) is None:
            return r
        st["option_sets_installed"] = 1
        inc, lib = os.path.join(pre, "include"), os.path.join(pre, "lib")
        a, so = os.path.join(lib, "libdvbcsa.a"), os.path.join(lib, "libdvbcsa.so")
        if "--disable-static" not in opts and not os.path.exists(a):
            bad("static-library-missing", "no libdvbcsa.a after make install")
        if "--disable-shared" not in opts and not os.path.exists(so):
            bad("shared-library-missing", "no libdvbcsa.so after make install")
        if not os.path.exists(os.path.join(inc, "dvbcsa", "dvbcsa.h")):
            bad("header-missing", "no dvbcsa/dvbcsa.h after make install")
        if r.viols:
            return r
        p = cross[0] + "-" if cross else ""
        for f, dyn in ((a, []), (so, ["-D"])):
            if os.path.exists(f):
                out = step("nm-failed", [p + "nm"] + dyn + ["--defined-only", f])
                if out is None:
                    return r
                have = set(re.findall(r"^[0-9a-f]+ [TWDVi] \.?(\w+)", out, re.M))
                for s in DECL:
                    st["exported_functions_checked"] = st.get("exported_functions_checked", 0) + 1
                    if s not in have:
                        bad("function-missing", "%s is declared but not exported by %s" % (s, os.path.basename(f)))
        if r.viols:
            return r
        gcc, gxx = p + "gcc", p + "g++"
        have_cxx = shutil.which(gxx) is not None
        progs = []
        stds = ["gnu89", "gnu99", "c11", "gnu17"]
        cxxs = ["c++98", "c++11", "gnu++17", "c++20"]
        if not ctx.quick() or name in ("default", "uint32", "avx2"):
            pass
        else:
            stds, cxxs = stds[:1] + stds[-1:], cxxs[:1] + cxxs[-1:]
        for s in stds:
            progs.append((gcc, ["-std=" + s], ["client.c", "other.c"], "client-" + s, "CLIENT"))
        if have_cxx:
            for s in cxxs:
                progs.append((gxx, ["-std=" + s], ["clientpp.cc", "otherpp.cc"], "client-" + s, "CLIENT"))
        if not cross:
            progs.append(("clang", [], ["client.c", "other.c"], "client-clang", "CLIENT"))
        progs.append((gcc, ["-std=gnu99"], ["readme.c"], "readme", "README"))
        links = []
        if os.path.exists(a):
            links.append(("static", [a]))
        if os.path.exists(so):
            links.append(("shared", ["-L" + lib, "-ldvbcsa", "-Wl,-rpath," + lib]))
        for cc, fl, srcs, stem, kind in progs:
            for ln, lf in links:
                exe = os.path.join(bld, stem + "-" + ln)
                cmd = [cc, "-Wall", "-O1"] + fl + ["-I" + inc] + [os.path.join(CLIENTS, s) for s in srcs] + ["-o", exe] + lf
                if step("client-does-not-build", cmd) is None:
                    return r
                rc, out, timed = execute(emu + [exe], env(), 120)
                st["evaluations"] += 1
                st["client_programs_run"] = st.get("client_programs_run", 0) + 1
                if timed or rc == -9:
                    r.inconclusive = "client run: " + ("timeout" if timed else "killed")
                    return r
                if kind == "CLIENT":
                    ok = rc == 0 and KAT in out and "CLIENT-OK %d" % width in out
                    what = "" if ok else " (expected 'CLIENT-OK %d' and the known ciphertext)" % width
                else:
                    ok, what = rc == 0 and KAT0 in out, " (the README example)"
                if not ok:
                    bad("client-fails", "%s %s: exit %d %s%s" % (stem, ln, rc, tail(out, 500), what))
                    return r
                st["distinct"] += 1
        if len(r.samples) < 1:
            r.samples.append("configure %s %s; %d client programs" % (" ".join(host), " ".join(opts), st.get("client_programs_run", 0)))
    finally:
        shutil.rmtree(bld, ignore_errors=True)
        shutil.rmtree(pre, ignore_errors=True)
    return r


def run(ctx, only=None):
    top, rc, out, timed = prepare(ctx)
    if rc or timed:
        j = Job("uint64", "install:bootstrap")
        r = Result(j)
        if timed or rc == -9:
            r.inconclusive = "bootstrap " + ("timed out" if timed else "killed")
        else:
            r.viols.append(Violation("bootstrap-failed", None, tail(out, 800), j))
        return [r]
    sets = [o for o in option_sets(not ctx.quick()) if only is None or o[0] == only]
    with cf.ThreadPoolExecutor(builds.JOBS) as ex:
        res = list(ex.map(lambda o: one(ctx, top, o), sets))
    again = [o for o, r in zip(sets, res) if r.inconclusive]
    for o in again:
        res = [r for r in res if r.job.mode != "install:" + o[0]] + [one(ctx, top, o)]
    for r in res:
        r.job.cfg = r.job.mode.split(":", 1)[1]
        r.job.var = "installed"
        r.job.mode = "install"
    shutil.rmtree(top, ignore_errors=True)
    return res
