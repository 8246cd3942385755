"""Builds of the library under test.

Everything is compiled from /repo/src as it is now; nothing is taken from
/repo/_build.  Results are cached in /verif/.build (ignored by git), keyed by
the contents of every file that goes in, so a changed tree is always rebuilt.
"""
import concurrent.futures as cf
import hashlib
import os
import re
import shutil
import subprocess
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CACHE = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
JOBS = 8

A64 = ["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"]
P64 = ["qemu-ppc64", "-L", "/usr/powerpc64-linux-gnu"]
P32 = ["qemu-ppc", "-L", "/usr/powerpc-linux-gnu"]
# 32-bit x86: run as it is, linked with the 32-bit C library that is here without its development files
I386 = os.path.join(VERIF, "clients", "i386")
I386_LINK = [os.path.join(I386, "start.S"), "-fno-pie", "-no-pie", "-nostdlib", "-Wl,-dynamic-linker,/usr/lib32/ld-linux.so.2",
             "/usr/lib32/libc.so.6", "/usr/lib32/libm.so.6", "/usr/lib32/libgcc_s.so.1"]

COMMON = ["HAVE_ASSERT_H", "HAVE_INTTYPES_H", "HAVE_STDINT_H", "HAVE_STDLIB_H", "HAVE_STRING_H",
          "HAVE_STRINGS_H", "HAVE_STDIO_H", "HAVE_UNISTD_H", "HAVE_SYS_STAT_H", "HAVE_SYS_TYPES_H",
          "HAVE_DLFCN_H", "STDC_HEADERS", "HAVE_POSIX_MEMALIGN"]
OPT = ["-O3", "-funroll-loops", "-fomit-frame-pointer", "-fno-tree-vectorize"]
WIDTH = {"UINT32": 32, "UINT64": 64, "MMX": 64, "SSE": 128, "SSSE3": 128, "AVX2": 256, "ALTIVEC": 128, "NEON": 128}
XFLAGS = {"MMX": ["-mmmx"], "SSE": ["-msse", "-msse2"], "SSSE3": ["-mssse3"], "AVX2": ["-mavx2"],
          "ALTIVEC": ["-maltivec", "-mabi=altivec"]}


class Config:
    def __init__(self, name, use, cc="gcc", arch="x86_64", alt=False, base=False, endian="LITTLE",
                 emu=None, extra=(), drop=(), opt=None, defs=(), note="", perfile=None, xflags=None):
        self.name, self.use, self.cc, self.arch, self.alt, self.base = name, use, cc, arch, alt, base
        self.endian, self.emu, self.note = endian, emu or [], note
        self.clang = cc.startswith("clang")
        self.width = WIDTH[use]
        defines = [d for d in COMMON]
        if arch in ("x86_64", "ppc64", "i386"):
            defines.append("HAVE_MM_MALLOC")
        if not self.clang:
            defines.append("HAVE_ATTRIBUTE_MAY_ALIAS")
        defines.append("DVBCSA_ENDIAN_" + endian)
        defines.append("DVBCSA_USE_" + use)
        if alt:
            defines.append("DVBCSA_USE_ALT_SBOX")
        defines += list(defs)
        self.defines = [d for d in defines if d not in drop]
        self.cflags = list(opt if opt is not None else OPT) + list(xflags if xflags is not None else XFLAGS.get(use, []))
        if self.clang:
            self.cflags.append("-fno-strict-aliasing")
        self.cflags += list(extra)
        self.perfile = perfile or {}
        if arch == "i386":
            self.cflags.append("-fno-pie")
        self.long = 4 if arch in ("ppc32", "i386") else 8
        self.cross = bool(self.emu) or arch == "i386"

    def ccs(self):
        return self.cc.split()

    def config_h(self):
        t = "".join("#define %s 1\n" % d for d in self.defines)
        t += "#define SIZEOF_LONG %d\n" % self.long
        t += '#define PACKAGE "libdvbcsa"\n#define VERSION "1.1.0"\n'
        return t


def _mk():
    L = []
    A = dict(arch="aarch64", cc="aarch64-linux-gnu-gcc", emu=A64)
    B = dict(arch="ppc64", cc="powerpc64-linux-gnu-gcc", emu=P64, endian="BIG")
    C = dict(arch="ppc32", cc="powerpc-linux-gnu-gcc", emu=P32, endian="BIG")
    D = dict(arch="i386", cc="gcc -m32 -fno-pie -isystem %s -isystem /usr/include/x86_64-linux-gnu" % os.path.join(I386, "inc"))
    add = lambda *a, **k: L.append(Config(*a, **k))
    # the configurations the repository's own tests build
    add("uint64", "UINT64", base=True)
    add("uint64-alt", "UINT64", alt=True, base=True)
    add("uint32", "UINT32", base=True)
    add("mmx", "MMX", base=True)
    add("sse2", "SSE", base=True)
    add("sse2-alt", "SSE", alt=True, base=True)
    add("ssse3", "SSSE3", base=True)
    add("avx2", "AVX2", base=True)
    add("avx2-alt", "AVX2", alt=True, base=True)
    add("neon", "NEON", base=True, **A)
    add("neon-alt", "NEON", alt=True, base=True, **A)
    add("uint64-be", "UINT64", base=True, **B)
    add("uint64-be-alt", "UINT64", alt=True, base=True, **B)
    add("uint32-be", "UINT32", base=True, **B)
    # documented options and targets the tests leave out
    add("uint32-alt", "UINT32", alt=True)
    add("mmx-alt", "MMX", alt=True)
    add("ssse3-alt", "SSSE3", alt=True)
    add("altivec", "ALTIVEC", **B)
    add("altivec-alt", "ALTIVEC", alt=True, **B)
    add("uint32-ppc32", "UINT32", **C)
    add("uint64-ppc32", "UINT64", **C)
    add("uint64-a64", "UINT64", **A)
    add("uint32-be-alt", "UINT32", alt=True, **B)
    # real MMX registers: gcc would otherwise emulate MMX with SSE2
    add("mmx-real", "MMX", xflags=["-mmmx", "-msse", "-mno-sse2"], note="real MMX registers")
    add("mmx-real-alt", "MMX", alt=True, xflags=["-mmmx", "-msse", "-mno-sse2"], note="real MMX registers")
    add("clang-mmx", "MMX", cc="clang", note="real MMX registers")
    # the other compiler
    add("clang-uint64", "UINT64", cc="clang")
    add("clang-uint32", "UINT32", cc="clang")
    add("clang-sse2", "SSE", cc="clang")
    add("clang-ssse3", "SSSE3", cc="clang")
    add("clang-avx2", "AVX2", cc="clang")
    add("clang-avx2-alt", "AVX2", cc="clang", alt=True)
    add("clang-neon", "NEON", **dict(A, cc="clang --target=aarch64-linux-gnu"))
    add("clang-neon-alt", "NEON", alt=True, **dict(A, cc="clang --target=aarch64-linux-gnu"))
    add("clang-altivec", "ALTIVEC", **dict(B, cc="clang --target=powerpc64-linux-gnu"))
    add("clang-uint64-be", "UINT64", **dict(B, cc="clang --target=powerpc64-linux-gnu"))
    # other optimisation levels, debug builds, allocators
    for lv in ("0", "1", "2", "s"):
        add("uint64-O" + lv, "UINT64", opt=["-O" + lv])
        add("avx2-O" + lv, "AVX2", opt=["-O" + lv])
    add("uint32-O2", "UINT32", opt=["-O2"])
    add("sse2-O0", "SSE", opt=["-O0"])
    add("sse2-O2v", "SSE", opt=["-O3", "-march=native"])
    add("mmx-O0", "MMX", opt=["-O0"])
    add("neon-O0", "NEON", opt=["-O0"], **A)
    add("altivec-O0", "ALTIVEC", opt=["-O0"], **B)
    add("altivec-O2", "ALTIVEC", opt=["-O2"], **B)
    add("altivec-debug", "ALTIVEC", alt=True, opt=["-g"], extra=["-DDVBCSA_DEBUG"], **B)
    add("uint64-be-O0", "UINT64", opt=["-O0"], **B)
    add("uint64-debug", "UINT64", opt=["-g"], extra=["-DDVBCSA_DEBUG"])
    add("avx2-debug", "AVX2", opt=["-g"], extra=["-DDVBCSA_DEBUG"])
    add("uint64-native", "UINT64", opt=["-O3", "-march=native"])
    add("uint64-nommm", "UINT64", drop=["HAVE_MM_MALLOC"], note="posix_memalign()")
    add("sse2-nommm", "SSE", drop=["HAVE_MM_MALLOC"], note="posix_memalign()")
    add("avx2-nommm", "AVX2", drop=["HAVE_MM_MALLOC"], note="posix_memalign()")
    add("uint64-malloc", "UINT64", drop=["HAVE_MM_MALLOC", "HAVE_POSIX_MEMALIGN"], note="malloc()")
    add("uint32-malloc", "UINT32", drop=["HAVE_MM_MALLOC", "HAVE_POSIX_MEMALIGN"], note="malloc()")
    add("uint64-noalias", "UINT64", extra=["-fno-strict-aliasing"])
    add("sse2-noalias", "SSE", extra=["-fno-strict-aliasing"])
    # compilation units merged at link time, plain char of the other sign, assertions off
    add("uint64-lto", "UINT64", opt=["-O2", "-flto"])
    add("sse2-lto", "SSE", opt=["-O3", "-flto"])
    add("avx2-lto", "AVX2", opt=["-O2", "-flto"])
    add("uint64-uchar", "UINT64", extra=["-funsigned-char"])
    add("avx2-uchar", "AVX2", extra=["-funsigned-char"])
    add("neon-schar", "NEON", extra=["-fsigned-char"], **A)
    add("uint64-ndebug", "UINT64", extra=["-DNDEBUG"])
    add("avx2-ndebug", "AVX2", extra=["-DNDEBUG"])
    # the 32-bit x86 branch of the stream transposition, compiled for x86-64
    add("uint64-i386", "UINT64", perfile={"dvbcsa_bs_transpose_stream.c": ["-D__i386__"]})
    add("mmx-i386", "MMX", perfile={"dvbcsa_bs_transpose_stream.c": ["-D__i386__"]})
    add("sse2-i386", "SSE", perfile={"dvbcsa_bs_transpose_stream.c": ["-D__i386__"]})
    # 32-bit x86
    add("i386-uint32", "UINT32", **D)
    add("i386-uint64", "UINT64", **D)
    add("i386-uint64-alt", "UINT64", alt=True, **D)
    add("i386-mmx", "MMX", **D)
    add("i386-sse2", "SSE", **D)
    add("i386-ssse3-alt", "SSSE3", alt=True, **D)
    add("i386-avx2", "AVX2", **D)
    add("i386-O0", "UINT64", opt=["-O0"], **D)
    add("i386-mmx-alt", "MMX", alt=True, opt=["-O2"], **D)
    add("i386-mmx-O0", "MMX", opt=["-O0"], **D)
    add("i386-oldest", "UINT32", extra=["-march=i486"], note="no vector registers, no conditional moves", **D)
    add("i386-mmx-oldest", "MMX", xflags=["-march=pentium-mmx"], note="no SSE", **D)
    add("i386-clang-mmx", "MMX", **dict(D, cc=D["cc"].replace("gcc", "clang", 1)))
    add("i386-clang-uint64", "UINT64", **dict(D, cc=D["cc"].replace("gcc", "clang", 1)))
    # automatic variables filled with a pattern by the compiler
    for pat, lim in (("zero", "uint64"), ("pattern", "uint64"), ("pattern", "avx2"), ("pattern", "uint32"), ("pattern", "sse2")):
        use = {"uint64": "UINT64", "avx2": "AVX2", "uint32": "UINT32", "sse2": "SSE"}[lim]
        add("%s-init-%s" % (lim, pat), use, extra=["-ftrivial-auto-var-init=" + pat])
    return {c.name: c for c in L}


CONFIGS = _mk()
BASE = [c.name for c in CONFIGS.values() if c.base]
BASE_X86 = [n for n in BASE if not CONFIGS[n].cross]
CROSS = [n for n in BASE if CONFIGS[n].cross]

WRAPS = ["malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memalign"]


class Variant:
    """How the library and the monitor are instrumented."""
    def __init__(self, name, lib=(), har=(), link=(), opt=None, cc=None, shim=False):
        self.name, self.lib, self.har, self.link, self.opt, self.cc, self.shim = name, list(lib), list(har), list(link), opt, cc, shim


_SAN = ["-g", "-fno-omit-frame-pointer"]
_ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
VARIANTS = {v.name: v for v in [
    Variant("plain", har=["-DWRAP", "-DTHREADS"], link=["-static", "-pthread"] + ["-Wl,--wrap=" + w for w in WRAPS]),
    Variant("asan", lib=_SAN + _ASAN, har=_SAN + _ASAN + ["-DNO_CRASH_HANDLER"], link=_ASAN, opt=["-O1"], shim=True),
    Variant("asan-clang", lib=_SAN + _ASAN, har=_SAN + _ASAN + ["-DNO_CRASH_HANDLER"],
            link=_ASAN, opt=["-O1"], cc="clang", shim=True),
    # contexts from the C library as the program gets them, bounds of arrays within structures
    Variant("bounds", lib=_SAN + _ASAN + ["-fsanitize=bounds-strict"], har=_SAN + _ASAN + ["-DNO_CRASH_HANDLER"], link=_ASAN, opt=["-O0"], shim=True),
    Variant("tsan", lib=_SAN + ["-fsanitize=thread"], har=_SAN + ["-fsanitize=thread", "-DTHREADS", "-DNO_CRASH_HANDLER"],
            link=["-fsanitize=thread", "-pthread"], opt=["-O1"], shim=True),
    Variant("tsan-clang", lib=_SAN + ["-fsanitize=thread"], har=_SAN + ["-fsanitize=thread", "-DTHREADS", "-DNO_CRASH_HANDLER"],
            link=["-fsanitize=thread", "-pthread"], opt=["-O1"], cc="clang", shim=True),
    Variant("msan", lib=_SAN + ["-fsanitize=memory", "-fsanitize-memory-track-origins", "-mllvm", "-msan-check-access-address=0"],
            har=_SAN + ["-fsanitize=memory", "-fsanitize-memory-track-origins", "-DNO_CRASH_HANDLER"],
            link=["-fsanitize=memory"], opt=["-O1"], cc="clang", shim=True),
    Variant("cov", lib=["-g", "-fsanitize=fuzzer-no-link"], har=["-g"], link=["-fsanitize=fuzzer"], opt=["-O2"], cc="clang"),
    # a shared library, and a monitor compiled with the header as it was at the pinned commit
    Variant("abi", lib=["-fPIC"], har=["-DTHREADS", "-fPIE"], link=[]),
    Variant("valgrind", lib=["-g"], har=["-g", "-DNO_CRASH_HANDLER", "-DVALGRIND"], link=[]),
]}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def makefile_sources(transpose32):
    """The .c files src/Makefile.am lists for this word type, or a safe guess."""
    files, skip, cont = [], [], ""
    try:
        text = _read(os.path.join(SRC, "Makefile.am")).decode("utf-8", "replace")
    except OSError:
        text = ""
    for line in text.split("\n"):
        line = cont + line
        cont = ""
        if line.endswith("\\"):
            cont = line[:-1] + " "
            continue
        s = line.strip()
        m = re.match(r"if\s+(!?)(\w+)", s)
        if m:
            val = transpose32 if m.group(2) == "TRANSPOSE_32" else False
            skip.append(not (val != bool(m.group(1))))
            continue
        if re.match(r"else\b", s) and skip:
            skip[-1] = not skip[-1]
            continue
        if re.match(r"endif\b", s) and skip:
            skip.pop()
            continue
        m = re.match(r"libdvbcsa_la_SOURCES\s*\+?=\s*(.*)", s)
        if m and not any(skip):
            files += m.group(1).split()
    cs = [f for f in files if f.endswith(".c")]
    if not cs or not all(os.path.exists(os.path.join(SRC, f)) for f in cs):
        wrong = "dvbcsa_bs_transpose_stream.c" if transpose32 else "dvbcsa_bs_transpose_stream32.c"
        cs = sorted(f for f in os.listdir(SRC) if f.endswith(".c") and f != wrong)
    return cs


_tree = None


def tree_hash():
    """All files under /repo/src that can matter to a compilation."""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for root, dirs, names in os.walk(SRC):
            dirs.sort()
            dirs[:] = [d for d in dirs if not d.startswith(".")]
            for n in sorted(names):
                if n.endswith((".c", ".h", ".inc", ".am")):
                    p = os.path.join(root, n)
                    h.update(os.path.relpath(p, SRC).encode() + b"\0")
                    h.update(_read(p) + b"\0")
        _tree = h.hexdigest()
    return _tree


def harness_hash(extra=()):
    h = hashlib.sha256()
    for n in sorted(os.listdir(HARNESS)):
        h.update(n.encode() + _read(os.path.join(HARNESS, n)))
    for e in extra:
        h.update(str(e).encode())
    h.update(_read(os.path.join(SRC, "dvbcsa", "dvbcsa.h")))
    return h.hexdigest()


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout.decode("utf-8", "replace")


_locks = {}
_locks_guard = threading.Lock()


def _lock(k):
    with _locks_guard:
        return _locks.setdefault(k, threading.Lock())


_pool = cf.ThreadPoolExecutor(JOBS)          # leaf compilations only


def _compile(cmds, what):
    futs = [_pool.submit(run, c, timeout=600) for c in cmds]
    for f, c in zip(futs, cmds):
        rc, out = f.result()
        if rc:
            raise BuildError("%s: %s\n%s" % (what, " ".join(c), out[-3000:]))


def _publish(tmp, dst):
    try:
        os.rename(tmp, dst)
    except OSError:
        if not os.path.isdir(dst):
            raise
        shutil.rmtree(tmp, ignore_errors=True)
    os.utime(dst)


def _cached(d, mark):
    if os.path.exists(os.path.join(d, mark)):
        try:
            os.utime(d)
        except OSError:
            pass
        return True
    return False


def _cc(cfg, var):
    cc = cfg.ccs()
    if var.cc and not cfg.clang:
        cc = [var.cc]
    return cc


def lib(cfg, var):
    """Directory holding libdvbcsa.a for this configuration and instrumentation."""
    cc = _cc(cfg, var)
    flags = list(cfg.cflags)
    if var.opt is not None:
        flags = [f for f in flags if f not in OPT and not f.startswith("-O")] + var.opt
    ch = cfg.config_h()
    if cc[0] == "clang" and not cfg.clang:
        flags.append("-fno-strict-aliasing")
        ch = ch.replace("#define HAVE_ATTRIBUTE_MAY_ALIAS 1\n", "")
    shim = var.shim and cfg.use == "AVX2"
    if shim:
        flags += ["-include", os.path.join(HARNESS, "gather_shim.h")]
    flags = ["-Wall", "-w", "-D_XOPEN_SOURCE=600"] + flags + var.lib
    srcs = makefile_sources(cfg.use == "UINT32")
    h = hashlib.sha256(repr((tree_hash(), cc, flags, ch, srcs, cfg.perfile,
                             _read(os.path.join(HARNESS, "gather_shim.h")) if shim else 0)).encode()).hexdigest()[:24]
    d = os.path.join(CACHE, "lib-" + h)
    with _lock(d):
        if _cached(d, "libdvbcsa.a"):
            return d
        os.makedirs(CACHE, exist_ok=True)
        tmp = "%s.tmp%d.%d" % (d, os.getpid(), threading.get_ident())
        os.makedirs(tmp)
        with open(os.path.join(tmp, "config.h"), "w") as f:
            f.write(ch)
        cmds, objs = [], []
        for s in srcs:
            o = os.path.join(tmp, s[:-2].replace("/", "_") + ".o")
            objs.append(o)
            cmds.append(cc + flags + cfg.perfile.get(s, []) +
                        ["-I" + tmp, "-I" + SRC, "-DHAVE_CONFIG_H", "-c", os.path.join(SRC, s), "-o", o])
        try:
            _compile(cmds, "library %s (%s)" % (cfg.name, var.name))
            rc, out = run(["ar", "rcs", os.path.join(tmp, "libdvbcsa.a")] + objs)
            if rc:
                raise BuildError(out)
            for o in objs:
                os.unlink(o)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        _publish(tmp, d)
    return d


HSRC = ["common.c", "ref.c", "modes_func.c", "modes_sys.c", "modes_more.c"]


FROZEN = os.path.join(VERIF, "clients", "frozen")


def harness_objs(cc, flags, srcs, inc=None):
    inc = inc or SRC
    h = hashlib.sha256(repr((harness_hash(), cc, flags, srcs, inc if inc != SRC else 0)).encode()).hexdigest()[:24]
    d = os.path.join(CACHE, "har-" + h)
    with _lock(d):
        if not _cached(d, "ok"):
            os.makedirs(CACHE, exist_ok=True)
            tmp = "%s.tmp%d.%d" % (d, os.getpid(), threading.get_ident())
            os.makedirs(tmp)
            try:
                _compile([cc + flags + ["-I" + inc, "-I" + HARNESS, "-c", os.path.join(HARNESS, s), "-o",
                                        os.path.join(tmp, s[:-2] + ".o")] for s in srcs], "monitor")
                open(os.path.join(tmp, "ok"), "w").close()
            except BaseException:
                shutil.rmtree(tmp, ignore_errors=True)
                raise
            _publish(tmp, d)
    return [os.path.join(d, s[:-2] + ".o") for s in srcs]


def shared(cfgname):
    """Directory holding this build as libdvbcsa.so.1."""
    cfg, var = CONFIGS[cfgname], VARIANTS["abi"]
    d = lib(cfg, var)
    so = os.path.join(d, "libdvbcsa.so.1")
    with _lock(d):
        if not os.path.exists(so):
            _compile([_cc(cfg, var) + ["-shared", "-Wl,-soname,libdvbcsa.so.1", "-Wl,--whole-archive", os.path.join(d, "libdvbcsa.a"),
                                       "-Wl,--no-whole-archive", "-o", so + ".tmp"]], "shared library %s" % cfgname)
            os.rename(so + ".tmp", so)
    return d


ARCHCC = {"x86_64": "uint64", "aarch64": "uint64-a64", "ppc64": "uint64-be", "ppc32": "uint64-ppc32"}


def abi_binary(cfgname, dl=False):
    """The monitor (or clients/dl.c) as a dynamic program, one per processor."""
    first = ARCHCC[CONFIGS[cfgname].arch]
    cfg = CONFIGS[first]
    cc = cfg.ccs()
    so = os.path.join(shared(first), "libdvbcsa.so.1")
    flags = ["-std=gnu11", "-O2", "-g", "-w"] + VARIANTS["abi"].har
    if dl:
        objs = harness_objs(cc, flags, ["ref.c"], FROZEN) + [os.path.join(VERIF, "clients", "dl.c"), "-I" + HARNESS, "-O2", "-w"]
        tag = _read(os.path.join(VERIF, "clients", "dl.c"))
        link = ["-ldl", "-lm", "-pthread"]
    else:
        objs = harness_objs(cc, flags, HSRC, FROZEN)
        tag = _read(os.path.join(FROZEN, "dvbcsa", "dvbcsa.h"))
        # a function that is gone shows when the program is started
        link = [so, "-Wl,--unresolved-symbols=ignore-all", "-pthread", "-lrt"]
    h = hashlib.sha256(repr((objs, link, tag)).encode()).hexdigest()[:24]
    d = os.path.join(CACHE, "bin-" + h)
    with _lock(d):
        if not _cached(d, "h"):
            tmp = "%s.tmp%d.%d" % (d, os.getpid(), threading.get_ident())
            os.makedirs(tmp)
            try:
                _compile([cc + objs + link + ["-o", os.path.join(tmp, "h")]], "link of the dynamic monitor (%s)" % first)
            except BaseException:
                shutil.rmtree(tmp, ignore_errors=True)
                raise
            _publish(tmp, d)
    return os.path.join(d, "h")


def binary(cfgname, varname="plain", srcs=None):
    if varname == "abi":
        return abi_binary(cfgname)
    cfg, var = CONFIGS[cfgname], VARIANTS[varname]
    srcs = srcs or HSRC
    ld = lib(cfg, var)
    cc = _cc(cfg, var)
    hf = ["-std=gnu11", "-O2", "-g", "-w"] + var.har
    objs = harness_objs(cc, hf, srcs)
    vlink = var.link + ["-lrt"]
    if cfg.arch == "i386":
        cc = cfg.ccs()
        vlink = [f for f in var.link if f != "-static"] + I386_LINK
    h = hashlib.sha256(repr((ld, objs, vlink)).encode()).hexdigest()[:24]
    d = os.path.join(CACHE, "bin-" + h)
    with _lock(d):
        if not _cached(d, "h"):
            tmp = "%s.tmp%d.%d" % (d, os.getpid(), threading.get_ident())
            os.makedirs(tmp)
            try:
                _compile([cc + objs + [os.path.join(ld, "libdvbcsa.a")] + vlink + ["-o", os.path.join(tmp, "h")]],
                         "link %s (%s)" % (cfgname, varname))
            except BaseException:
                shutil.rmtree(tmp, ignore_errors=True)
                raise
            _publish(tmp, d)
    return os.path.join(d, "h")


def prune(keep=700, maxage=3 * 86400):
    """Bound the cache: it only ever holds derived files."""
    try:
        ents = [os.path.join(CACHE, e) for e in os.listdir(CACHE)]
    except OSError:
        return
    now = time.time()
    st = []
    for e in ents:
        try:
            st.append((os.stat(e).st_mtime, e))
        except OSError:
            pass
    st.sort(reverse=True)
    for i, (t, e) in enumerate(st):
        if (i >= keep or now - t > maxage or (".tmp" in e and now - t > 7200)) and os.path.dirname(e) == CACHE:
            shutil.rmtree(e, ignore_errors=True)
