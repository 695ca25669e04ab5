"""Builds the code under observation from /repo's current working tree (never from a cached copy of it).

Every library translation unit under /repo/buildcc/**/src is compiled, plus the driver. Objects are cached in
/verif/build/<variant>/ and reused only if the hash of (command, every file the compiler read) is unchanged, so a
change anywhere in the tree that could alter behaviour is always rebuilt.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading
import glob
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
H = os.path.join(VERIF, "harness")

COMMON = ["-std=gnu++17", "-w", "-DFMT_SHARED", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_SHARED_LIB"]
VARIANTS = {
    "plain": dict(cxx="g++", flags=["-O0", "-g0"], ld=[]),
    "asan": dict(cxx="clang++", flags=["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function",
                                       "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
                 ld=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="clang++", flags=["-O0", "-g1", "-fsanitize=thread", "-DBCC_TSAN"], ld=["-fsanitize=thread"]),
}


class BuildError(Exception):
    pass


def _sha_file(p, memo={}):
    try:
        st = os.stat(p)
        k = (p, st.st_mtime_ns, st.st_size)
        if k in memo:
            return memo[k]
        with open(p, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
        memo[k] = h
        return h
    except OSError:
        return "missing"


def lib_sources():
    out = []
    for p in glob.glob(os.path.join(REPO, "buildcc", "**", "*.cpp"), recursive=True):
        rel = os.path.relpath(p, REPO)
        parts = rel.split(os.sep)
        if "src" in parts and not ({"test", "mock", "tests"} & set(parts)):
            out.append(p)
    return sorted(out)


def include_dirs():
    dirs = [os.path.join(REPO, "buildcc")]
    for d, sub, _ in os.walk(os.path.join(REPO, "buildcc")):
        sub[:] = sorted(x for x in sub if x not in ("test", "mock", "tests"))
        if os.path.basename(d) == "include":
            dirs.append(d)
    return dirs


def _depfiles(d):
    try:
        t = open(d).read()
    except OSError:
        return None
    t = t.replace("\\\n", " ")
    t = t.split(":", 1)[1] if ":" in t else t
    # make escapes spaces as '\ '
    return [x.replace("\\ ", " ") for x in re.split(r"(?<!\\)\s+", t.strip()) if x]


def _compile(job):
    cmd, src, obj = job
    dep = obj[:-2] + ".d"
    key = obj[:-2] + ".key"
    deps = _depfiles(dep)
    full = cmd + ["-MMD", "-MF", dep, "-c", src, "-o", obj]

    def digest(ds):
        h = hashlib.sha256(json.dumps(full).encode())
        for x in sorted(set(ds) | {src}):
            h.update(x.encode() + b"\0" + _sha_file(x).encode())
        return h.hexdigest()

    if deps and os.path.exists(obj) and os.path.exists(key) and open(key).read() == digest(deps):
        return 0
    for x in (obj, key):
        if os.path.exists(x):
            os.unlink(x)
    r = subprocess.run(full, capture_output=True, text=True)
    if r.returncode != 0:
        # a loaded machine can kill a compiler: one retry before believing it
        r = subprocess.run(full, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compile failed: %s\n%s" % (src, r.stderr[-4000:]))
    open(key, "w").write(digest(_depfiles(dep) or [src]))
    return 1


def tsan_overlay():
    """ThreadSanitizer does not model atomic_thread_fence. The scheduler's work-stealing queue publishes with a release
    fence followed by a relaxed store of _bottom: a copy of the headers stores with release instead (same guarantee)."""
    src, dst = "/usr/include/taskflow", os.path.join(BUILD, "tsan_overlay", "taskflow")
    q = os.path.join(dst, "core", "tsq.hpp")
    want = open(os.path.join(src, "core", "tsq.hpp")).read()
    want = re.sub(r"(_bottom\[p\]\.data\.store\([^;]*?)std::memory_order_relaxed", r"\1std::memory_order_release", want)
    if not os.path.exists(q) or open(q).read() != want:
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns("cuda", "sycl"))
        with open(q, "w") as f:
            f.write(want)
    return os.path.dirname(dst)


_memo = {}
_mlock = threading.Lock()


def build(variant="plain", quiet=True):
    """Returns the path of the driver built from /repo's current tree (once per process)."""
    with _mlock:
        if variant not in _memo:
            _memo[variant] = _build(variant)
        return _memo[variant]


def _build(variant):
    v = VARIANTS[variant]
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        pre = []
        if variant == "tsan":
            pre = ["-I" + tsan_overlay()]
        cmd = [v["cxx"]] + COMMON + v["flags"] + pre + ["-I" + d for d in include_dirs()] + ["-I" + os.path.join(H, "shim")]
        jobs = []
        for s in lib_sources():
            o = os.path.join(out, hashlib.sha1(os.path.relpath(s, REPO).encode()).hexdigest()[:8] + "_" + os.path.basename(s)[:-4] + ".o")
            c = list(cmd)
            txt = open(s, errors="replace").read()
            if "for_each" in txt:
                c += ["-include", "taskflow/algorithm/for_each.hpp"]
            jobs.append((c, s, o))
        for d in ("driver", "probes", "support"):
            jobs.append((cmd, os.path.join(H, d + ".cpp"), os.path.join(out, d + ".o")))
        # biggest first
        jobs.sort(key=lambda j: (0 if j[1].startswith(H) else 1, -os.path.getsize(j[1])))
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
            n = sum(ex.map(_compile, jobs))
        exe = os.path.join(out, "driver")
        lkey = hashlib.sha256("".join(open(j[2][:-2] + ".key").read() for j in sorted(jobs, key=lambda j: j[2])).encode()).hexdigest()
        kf = exe + ".link"
        if n or not os.path.exists(exe) or not os.path.exists(kf) or open(kf).read() != lkey:
            ld = [v["cxx"], "-o", exe] + v["ld"] + [j[2] for j in jobs] + ["-lfmt", "-lspdlog", "-lpthread"]
            r = subprocess.run(ld, capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("link failed\n" + r.stderr[-4000:])
            open(kf, "w").write(lkey)
    return exe


def build_exe(variant="plain"):
    """buildexe (buildexe/ and the bootstrap package) linked with the library objects of the variant."""
    build(variant)
    with _mlock:
        k = "exe-" + variant
        if k not in _memo:
            _memo[k] = _build_exe(variant)
        return _memo[k]


def _build_exe(variant):
    v = VARIANTS[variant]
    out = os.path.join(BUILD, variant)
    eo = os.path.join(out, "buildexe.d")
    os.makedirs(eo, exist_ok=True)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        pre = ["-I" + tsan_overlay()] if variant == "tsan" else []
        inc = [os.path.join(REPO, "buildexe", "include"), os.path.join(REPO, "bootstrap", "include")] + include_dirs() + [os.path.join(H, "shim")]
        cmd = [v["cxx"]] + COMMON + v["flags"] + pre + ["-I" + d for d in inc]
        srcs = sorted(glob.glob(os.path.join(REPO, "buildexe", "*.cpp")) + glob.glob(os.path.join(REPO, "buildexe", "src", "*.cpp")) +
                      [p for p in glob.glob(os.path.join(REPO, "bootstrap", "src", "*.cpp")) if "flatbuffers" not in p])
        jobs = [(cmd, s, os.path.join(eo, hashlib.sha1(os.path.relpath(s, REPO).encode()).hexdigest()[:8] + "_" + os.path.basename(s)[:-4] + ".o")) for s in srcs]
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
            n = sum(ex.map(_compile, jobs))
        libs = [os.path.join(out, hashlib.sha1(os.path.relpath(s, REPO).encode()).hexdigest()[:8] + "_" + os.path.basename(s)[:-4] + ".o") for s in lib_sources()]
        libs.append(os.path.join(out, "support.o"))
        objs = [j[2] for j in jobs] + libs
        exe = os.path.join(out, "buildexe")
        lkey = hashlib.sha256("".join(open(o[:-2] + ".key").read() for o in sorted(objs)).encode()).hexdigest()
        kf = exe + ".link"
        if n or not os.path.exists(exe) or not os.path.exists(kf) or open(kf).read() != lkey:
            r = subprocess.run([v["cxx"], "-o", exe] + v["ld"] + objs + ["-lfmt", "-lspdlog", "-lpthread"], capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("link of buildexe failed\n" + r.stderr[-4000:])
            open(kf, "w").write(lkey)
    return exe


def build_c(name, src, flags=()):
    """Helper programs of the harness itself (C)."""
    with _mlock:
        if name not in _memo:
            _memo[name] = _build_c(name, src, flags)
        return _memo[name]


def _build_c(name, src, flags=()):
    out = os.path.join(BUILD, "tools")
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(BUILD, "tools.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = os.path.join(out, name)
        p = os.path.join(H, src)
        key = hashlib.sha256((json.dumps(list(flags)) + _sha_file(p)).encode()).hexdigest()
        kf = exe + ".key"
        if not os.path.exists(exe) or not os.path.exists(kf) or open(kf).read() != key:
            r = subprocess.run(["gcc", "-O1", "-w", "-o", exe, p] + list(flags), capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("tool build failed\n" + r.stderr)
            open(kf, "w").write(key)
    return exe


if __name__ == "__main__":
    import time
    for v in sys.argv[1:] or ["plain"]:
        t = time.time()
        print(build(v), "%.1fs" % (time.time() - t))
