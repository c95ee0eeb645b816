"""Builds flavours of kos from /repo's working tree into /verif/.build (never inside /repo).

Every object is content-addressed (source + all headers + flags), so a change in /repo always
rebuilds what depends on it and nothing is decided by mtimes.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("KOS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")

COMMON = ["-fPIC", "-fvisibility=hidden", "-DKOS_SUPPORTS_VISIBILITY", "-DCONFIG_FAST_DISPATCH",
          "-D_BSD_SOURCE", "-D_DEFAULT_SOURCE", "-D_POSIX_C_SOURCE=200112L", "-w"]
# Only checks whose failure is a memory error or a trap on every target; shift/overflow/null-offset UB
# that all supported compilers define in practice is deliberately not reported.
SAN = ["-fsanitize=address,bounds,integer-divide-by-zero", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer"]

FLAVOURS = {
    # name: (compiler, cflags, ldflags)
    # what the project's own tests build: assertions on, failure injection compiled in
    "dbg":   ("gcc", ["-O1", "-g1", "-DCONFIG_SEQFAIL"], []),
    # what users run: optimised, assertions off
    "rel":   ("gcc", ["-O2", "-DNDEBUG"], []),
    # memory errors and undefined behaviour made visible
    "asan":  ("clang", ["-O1", "-g1", "-DCONFIG_SEQFAIL"] + SAN, SAN),
    # collector runs and moves objects at every allocation
    "mad":   ("gcc", ["-O1", "-g1", "-DCONFIG_MAD_GC"], []),
    "madasan": ("clang", ["-O1", "-g1", "-DCONFIG_MAD_GC"] + SAN, SAN),
    "tsan":  ("clang", ["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    # alternative documented build configurations
    "str16": ("gcc", ["-O1", "-g1", "-DCONFIG_STRING16"], []),
    "str32": ("gcc", ["-O1", "-g1", "-DCONFIG_STRING32"], []),
    "slow":  ("gcc", ["-O1", "-g1", "-UCONFIG_FAST_DISPATCH"], []),
    "fuzz":  ("clang", ["-O1", "-g1", "-DCONFIG_FUZZ", "-fsanitize=fuzzer-no-link"] + SAN, SAN),
}

WRAP = ["-Wl,--wrap=kos_seq_fail", "-Wl,--wrap=getenv", "-Wl,--wrap=KOS_array_read"]
for _f in ("dbg", "asan"):
    # fault points under control of /verif/harness/faultwrap.c
    FLAVOURS[_f + "f"] = (FLAVOURS[_f][0], FLAVOURS[_f][1], FLAVOURS[_f][2] + WRAP)
EXTRA = {_f + "f": ["faultwrap.c"] for _f in ("dbg", "asan")}


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers_key():
    parts = []
    for d in ("inc", "core", "modules"):
        for p in sorted(glob.glob(os.path.join(REPO, d, "*.h"))):
            parts += [os.path.relpath(p, REPO), _read(p)]
    return _sha(*parts)


def _sources(makefile_dir):
    return sorted(glob.glob(os.path.join(REPO, makefile_dir, "*.c")))


def compile_objs(jobs):
    """jobs: list of (compiler, flags, source path). Returns object paths."""
    hk = _headers_key()
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)

    def one(job):
        cc, flags, src = job
        key = _sha(cc, " ".join(flags), hk, src, _read(src))
        obj = os.path.join(odir, key + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            r = subprocess.run([cc] + flags + ["-c", src, "-o", tmp],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode("utf-8", "replace")))
            os.replace(tmp, obj)
        return obj

    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, jobs))


def lib_objs(flavour):
    cc, cflags, _ = FLAVOURS[flavour]
    flags = COMMON + cflags + ["-x", "c"]
    srcs = _sources("core") + _sources("modules")
    return compile_objs([(cc, flags, s) for s in srcs])


def _prune():
    """Keep the object cache bounded."""
    odir = os.path.join(BUILD, "obj")
    try:
        files = [(os.stat(p).st_mtime, os.stat(p).st_size, p) for p in glob.glob(odir + "/*.o")]
    except OSError:
        return
    total = sum(f[1] for f in files)
    for m, s, p in sorted(files):
        if total < 1_500_000_000:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        total -= s


def build(flavour):
    """Returns the path of the kos executable of this flavour."""
    cc, cflags, ldflags = FLAVOURS[flavour]
    flags = COMMON + cflags + ["-x", "c"]
    _prune()
    objs = lib_objs(flavour) + compile_objs([(cc, flags, os.path.join(REPO, "interpreter", "kos.c"))] +
                                            [(cc, flags, os.path.join(VERIF, "harness", x)) for x in EXTRA.get(flavour, ())])
    mods = sorted(glob.glob(os.path.join(REPO, "modules", "*.kos")))
    key = _sha(*objs, *[x for m in mods for x in (m, _read(m))], " ".join(ldflags))
    root = os.path.join(BUILD, "%s-%s" % (flavour, key[:16]))
    exe = os.path.join(root, "interpreter", "kos")
    if not os.path.exists(os.path.join(root, "done")):
        for old in glob.glob(os.path.join(BUILD, flavour + "-*")):
            if old != root and len(glob.glob(os.path.join(BUILD, flavour + "-*"))) > 3:
                shutil.rmtree(old, ignore_errors=True)
        tmp = root + ".%d.tmp" % os.getpid()
        os.makedirs(os.path.join(tmp, "interpreter"))
        os.makedirs(os.path.join(tmp, "share", "kos", "modules"))
        for m in mods:
            shutil.copy(m, os.path.join(tmp, "share", "kos", "modules"))
        dyn = os.path.join(REPO, "core", "kos_lang.gnu.def")
        r = subprocess.run([cc] + objs + ["-o", os.path.join(tmp, "interpreter", "kos")] + ldflags +
                           ["-Wl,--dynamic-list=" + dyn, "-lpthread", "-lrt", "-ldl", "-lm"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError("linking failed:\n" + r.stdout.decode("utf-8", "replace"))
        open(os.path.join(tmp, "done"), "w").close()
        try:
            os.rename(tmp, root)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return exe


def build_harness(flavour, name, sources, cc=None, extra=(), ldextra=(), cxxstd="c++17"):
    """Links a C/C++ harness from /verif/harness with /repo's libraries."""
    fcc, cflags, ldflags = FLAVOURS[flavour]
    cxx = {"gcc": "g++", "clang": "clang++"}[fcc]
    objs = lib_objs(flavour)
    jobs = []
    for s in sources:
        if s.endswith(".c"):
            jobs.append((fcc, COMMON + cflags + list(extra) + ["-I" + REPO, "-x", "c"], s))
        else:
            jobs.append((cxx, COMMON + cflags + list(extra) + ["-I" + REPO, "-std=" + cxxstd, "-x", "c++"], s))
    hobjs = compile_objs(jobs)
    key = _sha(*objs, *hobjs, " ".join(ldflags), " ".join(ldextra))
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, flavour, key[:16]))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        for old in glob.glob(os.path.join(BUILD, "bin", "%s-%s-*" % (name, flavour))):
            if os.stat(old).st_mtime < os.stat(BUILD).st_mtime - 3600:
                os.unlink(old)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([cxx] + hobjs + objs + ["-o", tmp] + ldflags + list(ldextra) +
                           ["-lpthread", "-lrt", "-ldl", "-lm"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("linking failed:\n" + r.stdout.decode("utf-8", "replace"))
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    for f in sys.argv[1:] or ["dbg"]:
        print(build(f))
