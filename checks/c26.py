"""C26: buildexe builds, runs and reports exactly what its configuration says."""
import json
import os
import shutil

from vlib import build as B
from vlib import cmdref as R
from vlib.check import Check
from vlib.world import World, diff_snap

FLK = {"preprocessor_flags": "f_pre", "common_compile_flags": "f_common", "asm_compile_flags": "f_asm", "c_compile_flags": "f_c", "cpp_compile_flags": "f_cpp", "link_flags": "f_link"}
TYPES = {"exe": "executable", "static": "staticLibrary", "dyn": "dynamicLibrary"}
EXTS = [".c", ".cpp", ".cc", ".cxx", ".s", ".S", ".asm"]

# what the bootstrap package is made of (directory -> role), relative to BUILDCC_HOME/buildcc
SRC_DIRS = ["lib/env/src", "schema/src", "lib/toolchain/src/api", "lib/toolchain/src/common", "lib/toolchain/src/toolchain", "lib/target/src/common",
            "lib/target/src/custom_generator", "lib/target/src/generator", "lib/target/src/api", "lib/target/src/target_info", "lib/target/src/target",
            "lib/target/src/target/friend", "lib/args/src", "toolchains/src", "plugins/src"]
INC_DIRS = ["lib/env/include", "schema/include", "lib/toolchain/include", "lib/target/include", "lib/args/include", "toolchains/include", "targets/include", "plugins/include"]
HDR_DIRS = ["lib/env/include/env", "schema/include/schema", "schema/include/schema/interface", "lib/toolchain/include/toolchain", "lib/toolchain/include/toolchain/api",
            "lib/toolchain/include/toolchain/common", "lib/target/include/target", "lib/target/include/target/api", "lib/target/include/target/common", "lib/target/include/target/custom_generator",
            "lib/target/include/target/friend", "lib/target/include/target/interface", "lib/args/include/args", "lib/args/include/args/register", "toolchains/include/toolchains", "targets/include/targets",
            "plugins/include/plugins"]
THIRD = {"json": ("include", ["include/nlohmann", "include/nlohmann/detail", "include/nlohmann/detail/conversions", "include/nlohmann/detail/input", "include/nlohmann/detail/iterators",
                              "include/nlohmann/detail/meta", "include/nlohmann/detail/meta/call_std", "include/nlohmann/detail/output", "include/nlohmann/thirdparty/hedley"]),
         "fmt": ("include", ["include/fmt"]), "CLI11": ("include", ["include/CLI"]),
         "spdlog": ("include", ["include/spdlog", "include/spdlog/cfg", "include/spdlog/details", "include/spdlog/fmt", "include/spdlog/sinks"]),
         "taskflow": ("", ["taskflow", "taskflow/algorithm", "taskflow/core", "taskflow/cuda", "taskflow/cuda/algorithm", "taskflow/dsl", "taskflow/sycl", "taskflow/sycl/algorithm", "taskflow/utility"])}


def q(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, list):
        return "[" + ", ".join(q(x) for x in v) + "]"
    return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"')


class Cfg:
    """One configuration of buildexe and everything it stands for."""

    def __init__(self, w, rng, script, spaces):
        self.w, self.rng, self.script = w, rng, script
        self.k = 0
        os.symlink(w.fcc, w.base + "/tst")      # named in a #! line: no spaces
        self.sp = (lambda: rng.choice(["", "", " x", "&(1)", ";z"])) if spaces else (lambda: "")
        self.home = os.path.join(w.dir, "home" + self.sp())
        self.base = os.path.join(self.home, "buildcc")
        for d in ("buildcc", "libs", "extensions"):
            os.makedirs(os.path.join(self.home, d))
        if spaces and rng.random() < 0.6:
            w.proj = os.path.join(w.dir, "p r")
            os.makedirs(w.proj)
        self.cwd = w.proj
        rd = rng.choice(["", "", "sub", "sub/deep", "abs"])
        self.root_dir = os.path.join(w.dir, "xroot" + self.sp()) if rd == "abs" else rd
        self.root = os.path.join(self.cwd, self.root_dir) if self.root_dir else self.cwd
        bd = rng.choice(["b", "b/deep", "_build" + self.sp(), "abs"])
        self.build_dir = os.path.join(w.dir, "xout" + self.sp()) if bd == "abs" else bd
        self.out = os.path.join(self.cwd, self.build_dir)
        self.rel = rng.choice(["", "", "src", "src/in" + self.sp()])
        self.troot = os.path.join(self.root, self.rel) if self.rel else self.root
        os.makedirs(self.troot, exist_ok=True)
        self.fam = rng.choice(["gcc", "gcc", "gcc", "mingw"])
        self.tcname = rng.choice(["tc", "x86_64-linux-gnu", "arm.eabi"])
        self.name = rng.choice(["hello", "lib-x", "a.b", "Main_1"])
        self.type = "exe" if script else rng.choice(["exe", "exe", "static", "dyn"])
        self.loglevel = rng.choice([None, "trace", "debug", "info", "warning", "critical"])
        self.clean = rng.choice([None, False])
        self.srcs, self.incs, self.libdirs, self.exts = [], [], [], []
        self.flags = {x: [] for x in FLK}
        self.tools = {}
        for t, n in (("asm_compiler", "as"), ("c_compiler", "gcc"), ("cpp_compiler", "g++"), ("archiver", "ar"), ("linker", "ld")):
            self.tools[t] = n
            if rng.random() < 0.4:
                self.tools[t] = "my-" + t
                os.symlink(w.fcc, os.path.join(w.bin, self.tools[t]))
        for _ in range(rng.choice([1, 2, 3, 5])):
            self.add_src()
        for _ in range(rng.choice([0, 1, 2])):
            self.add_inc()
        for _ in range(rng.choice([0, 0, 1, 2])):
            d = "ld%d%s" % (self.uid(), self.sp())
            os.makedirs(os.path.join(self.troot, d))
            self.libdirs.append(d)
        for _ in range(rng.choice([0, 0, 1, 2])):
            self.exts.append("-lx%d" % self.uid())
        for f in FLK:
            for _ in range(rng.choice([0, 0, 1, 2])):
                self.add_flag(f)
        self.configs, self.libs, self.lib_files = [], {}, {}
        if script:
            self.make_home()
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                c = "build%d%s.toml" % (self.uid(), self.sp())
                self.configs.append(c if rng.random() < 0.7 else os.path.join(w.dir, c))
        nf = rng.choice([1, 1, 2, 3])
        self.split = [rng.randrange(nf) for _ in range(60)]
        self.nf = nf
        self.oncli = {x for x in ("name", "type", "mode", "root_dir", "build_dir", "relative_to_root", "loglevel") if rng.random() < 0.15}

    def uid(self):
        self.k += 1
        return self.k

    def add_src(self):
        r = self.rng
        e = r.choice(EXTS[1:4] if self.script and r.random() < 0.7 else EXTS)
        s = os.path.join(r.choice(["", "a", "a/b" + self.sp()]), "f%d%s%s" % (self.uid(), self.sp(), e))
        self.w.write(os.path.join(self.troot, s), "// %d\n" % self.uid())
        self.srcs.append(s)
        return s

    def add_inc(self):
        d = "inc%d%s" % (self.uid(), self.sp())
        os.makedirs(os.path.join(self.troot, d))
        self.w.write(os.path.join(self.troot, d, "h%d.h" % self.uid()), "// h\n")
        self.incs.append(d)

    def add_flag(self, f):
        n = self.uid()
        self.flags[f].append(self.rng.choice(["-%s%d", "-%s%d=1", '-%s%d="a b"']) % (f[:2].upper(), n))

    # -- script mode: what BUILDCC_HOME contains --
    def make_home(self):
        r, w = self.rng, self.w
        bb = os.path.join(self.base, "buildcc")
        for d in SRC_DIRS:
            os.makedirs(os.path.join(bb, d))
            for _ in range(r.choice([0, 1, 1])):
                w.write(os.path.join(bb, d, "s%d.cpp" % self.uid()), "// lib source %d\n" % self.uid())
            if r.random() < 0.15:
                w.write(os.path.join(bb, d, "notes%d.txt" % self.uid()), "x")
        for d in INC_DIRS:
            os.makedirs(os.path.join(bb, d))
        for d in HDR_DIRS:
            os.makedirs(os.path.join(bb, d), exist_ok=True)
            if r.random() < 0.4:
                w.write(os.path.join(bb, d, "h%d.h" % self.uid()), "// lib header\n")
        tp = os.path.join(self.base, "third_party")
        for n, (inc, hs) in THIRD.items():
            for h in hs:
                os.makedirs(os.path.join(tp, n, h), exist_ok=True)
                if r.random() < 0.3:
                    w.write(os.path.join(tp, n, h, "t%d.%s" % (self.uid(), "hpp")), "// third\n")
        for f in ("process.cpp", "process_unix.cpp", "process_win.cpp", "process.hpp"):
            w.write(os.path.join(tp, "tiny-process-library", f), "// tpl %s\n" % f)
        for _ in range(r.choice([0, 1, 2])):
            n = "lib_%d" % self.uid()
            os.makedirs(os.path.join(self.home, "libs", n))
            fs = []
            for _ in range(r.choice([1, 2, 3])):
                f = "build.%s%d.%s" % (n, self.uid(), r.choice(["cpp", "h", "hpp", "cc"]))
                if r.random() < 0.3:
                    f = "d/" + f
                w.write(os.path.join(self.home, "libs", n, f), "// %s\n" % f)
                fs.append(f)
            self.libs[n] = fs
            self.lib_files[n] = fs if r.random() < 0.8 else []

    # -- the command line --
    def argv(self, drop=(), put=None, clean=None):
        v = {"root_dir": self.root_dir, "build_dir": self.build_dir, "mode": "script" if self.script else "immediate", "name": self.name, "type": TYPES[self.type],
             "relative_to_root": self.rel}
        if self.loglevel:
            v["loglevel"] = self.loglevel
        c = self.clean if clean is None else clean
        if c is not None:
            v["clean"] = c
        for kk, l in (("srcs", self.srcs), ("includes", self.incs), ("lib_dirs", self.libdirs), ("external_libs", self.exts)):
            if l:
                v[kk] = l
        for f, l in self.flags.items():
            if l:
                v[f] = l
        sub = {"toolchain.host": dict({"build": True, "test": True, "id": self.fam, "name": self.tcname}, **self.tools)}
        if self.configs:
            sub["script"] = {"configs": self.configs}
        if any(self.lib_files.values()):
            sub["libs"] = {n: f for n, f in self.lib_files.items() if f}
        for k in put or {}:
            if "/" in k:
                s, kk = k.split("/")
                sub[s][kk] = put[k]
            else:
                v[k] = put[k]
        for k in drop:
            v.pop(k, None)
        files = [["", {}] for _ in range(self.nf)]
        cli = []
        for n, k in enumerate(sorted(v)):
            if k in self.oncli and v[k] != "":
                cli += ["--" + k, v[k]]
            else:
                files[self.split[n % 60]][0] += "%s = %s\n" % (k, q(v[k]))
        for n, s in enumerate(sorted(sub)):
            files[self.split[30 + n]][1][s] = sub[s]
        args = []
        for n, (top, ss) in enumerate(files):
            t = top + "".join("\n[%s]\n%s" % (s, "".join("%s = %s\n" % (k, q(x)) for k, x in d.items())) for s, d in ss.items())
            p = os.path.join(self.cwd, "cfg%d.toml" % n)
            with open(p, "w") as f:
                f.write(t)
            args += ["--config", rel_or(p, self.cwd, n)]
        exe = B.build_exe("plain" if self.w.variant == "valgrind" else self.w.variant)
        return [exe] + args + cli

    def run(self, plan=None, env=None, workers=4, **kw):
        e = {"BUILDCC_HOME": self.home, "FCC_EXE": self.w.base + "/tst"}
        e.update(env or {})
        e = {k: v for k, v in e.items() if v is not None}
        return self.w.run(argv=self.argv(**kw), cwd=self.cwd, plan=plan, env=e, workers=workers, timeout=120)

    # -- what it stands for --
    def bdir(self):
        return os.path.join(self.out, self.tcname, self.name)

    def target(self):
        return os.path.join(self.bdir(), self.name + R.FAMILY[self.fam]["ext"][self.type])

    def user_srcs(self):
        s = [os.path.join(self.troot, x) for x in self.srcs]
        for n in self.lib_files:
            s += [os.path.join(self.home, "libs", n, f) for f in self.lib_files[n] if f.endswith((".cpp", ".cc"))]
        return s

    def exdir(self):
        return os.path.join(self.base, "_build_exe")

    def buildcc_srcs(self):
        bb = os.path.join(self.base, "buildcc")
        return [os.path.join(bb, d, f) for d in SRC_DIRS for f in sorted(os.listdir(os.path.join(bb, d))) if f.endswith(".cpp")]

    def tpl_srcs(self):
        return [os.path.join(self.base, "third_party", "tiny-process-library", f) for f in ("process.cpp", "process_unix.cpp")]

    def headers(self):
        """headers the bootstrap library and therefore the script depend on"""
        bb = os.path.join(self.base, "buildcc")
        ds = [os.path.join(bb, d) for d in HDR_DIRS]
        for n, (_, hs) in THIRD.items():
            ds += [os.path.join(self.base, "third_party", n, h) for h in hs]
        return sorted(os.path.join(d, f) for d in ds for f in os.listdir(d) if f.endswith((".h", ".hpp")))

    def lang(self, src):
        e = os.path.splitext(src)[1]
        return ("c_compiler", "f_c") if e == ".c" else ("cpp_compiler", "f_cpp") if e in (".cpp", ".cc", ".cxx") else ("asm_compiler", "f_asm")

    def fl(self, k):
        n = {v: kk for kk, v in FLK.items()}[k]
        return R.words(self.flags[n])


def rel_or(p, cwd, n):
    return p if n % 2 else os.path.relpath(p, cwd)


def sub_multiset(small, big):
    b = list(big)
    for x in small:
        if x not in b:
            return x
        b.remove(x)
    return None


def main(only=None):
    ck = Check("C26", "exploration",
               "one evaluation = one observed run of the real buildexe whose commands, order, files and status were compared with its configuration; distinct = distinct (mode, family, type, "
               "shape of the configuration, edit, steps run)",
               ["tools are stand-ins found through PATH; linked programs of script mode start a stand-in that records how it was called"], only)

    def judge(c, r, must, may, tag):
        """None or (key, message). must / may: sources whose objects must / may be compiled ('link', 'lib', 'tpl' for the rest); None: any subset"""
        w = c.w
        if r.timeout:
            return "hang", "buildexe did not end"
        steps = [s for s in r.steps() if s.kind != "query"]
        user, boot, verify, runs = [], [], [], []
        vdir = os.path.join(c.out, "verify_host_toolchain")
        for s in steps:
            if s.kind == "test":
                runs.append(s)
            elif s.out and s.out.startswith(c.bdir() + "/"):
                user.append(s)
            elif c.script and s.out and s.out.startswith(c.exdir() + "/"):
                boot.append(s)
            elif c.script and s.out and s.out.startswith(vdir + "/"):
                verify.append(s)
            else:
                return "foreign", "a command belongs to nothing that is configured: %s" % s.argv
        tool = {t: w.tool(n) for t, n in c.tools.items()}
        dyn = ["-fpic"] if c.type == "dyn" else []
        # compile commands of the user's target
        seen = {}
        for s in user:
            if s.kind == "link":
                continue
            src = s.src
            if s.kind != "compile" or src not in c.user_srcs():
                return "not-a-source", "compiled something that is not a configured source: %s" % s.argv
            if src in seen:
                return "twice", "compiled %s twice" % src
            seen[src] = s
            t, lf = c.lang(src)
            own = ["-I" + os.path.join(c.troot, d) for d in c.incs]
            if not c.script:
                want = [tool[t]] + c.fl("f_pre") + own + dyn + c.fl("f_common") + c.fl(lf) + ["-o", s.out, "-c", src]
                if s.argv != want:
                    return "compile-argv", "expected %s, got %s" % (want, s.argv)
            else:
                incs = [x for x in s.argv if x.startswith("-I")]
                rest = [x for x in s.argv if not x.startswith("-I")]
                bb = os.path.join(c.base, "buildcc")
                third = ["-I" + os.path.join(c.base, "third_party", n, inc).rstrip("/") for n, (inc, _) in THIRD.items()] + ["-I" + os.path.join(c.base, "third_party", "tiny-process-library")]
                wanti = own + ["-I" + bb] + ["-I" + os.path.join(bb, d) for d in INC_DIRS] + third + ["-I" + c.bdir()]
                for n in c.lib_files:
                    wanti += ["-I" + os.path.dirname(os.path.join(c.home, "libs", n, f)) for f in c.lib_files[n] if f.endswith((".h", ".hpp"))]
                if {x.rstrip("/") for x in incs} != {x.rstrip("/") for x in wanti} or [x for x in incs if x in own][:len(own)] != own:
                    return "includes", "include directories of the script: expected %s, got %s" % (sorted(set(wanti)), incs)
                std = ["-std=c++17", "-Os", "-Wall", "-Wextra", "-Werror"] if lf == "f_cpp" else []
                want = [tool[t]] + c.fl("f_pre") + (["-DFMT_HEADER_ONLY=1", "-DSPDLOG_FMT_EXTERNAL"] if c.fam == "gcc" else []) + c.fl("f_common") + c.fl(lf) + std + ["-o", s.out, "-c", src]
                if rest != want:
                    return "compile-argv", "expected %s, got %s" % (want, rest)
        outs = [s.out for s in user if s.kind == "compile"]
        if len(set(outs)) != len(outs):
            return "collision", "two sources have one object: %s" % outs
        links = [s for s in user if s.kind == "link"]
        if len(links) > 1:
            return "twice", "linked twice"
        for s in links:
            own = [y for y in s.argv if y.startswith(c.bdir() + "/") and y.endswith(".o")]
            if len(own) != len(c.user_srcs()) or len(set(own)) != len(own) or sub_multiset([o for o in outs], own):
                return "link-objects", "linked %s for the sources %s" % (own, c.user_srcs())
            if s.out != c.target():
                return "link-output", "expected %s, got %s" % (c.target(), s.out)
            ld = ["-L" + os.path.join(c.troot, d) for d in c.libdirs]
            if not c.script:
                val = {"cxx": [tool["cpp_compiler"]], "ar": [tool["archiver"]], "f_link": c.fl("f_link"), "<out>": s.out, "libdirs": ld, "libs": [], "extlibs": R.words(c.exts)}
                m = R.match(s.argv, R.FAMILY[c.fam][c.type], val, own)
                if m:
                    return "link-argv", m
            else:
                a = s.argv
                la, lt = [[x for x in a if x.startswith(c.exdir() + "/") and os.path.basename(x).startswith(n)] for n in ("libbuildcc", "libtpl")]
                if len(set(la)) != 1 or len(set(lt)) != 1 or a.index(la[0]) > len(a) - 1 - a[::-1].index(lt[0]):
                    return "link-libs", "the script is not linked with libbuildcc and, after it, libtpl: %s" % a
                need = c.fl("f_link") + (["-Wl,--allow-multiple-definition"] if c.fam == "mingw" else []) + ld + R.words(c.exts) + (["-lpthread"] if c.fam == "gcc" else [])
                if a[0] != tool["cpp_compiler"] or sub_multiset(need, a):
                    return "link-argv", "the link of the script misses %s: %s" % (sub_multiset(need, a), a)
                extra = [x for x in a[1:] if x not in need + own + la + lt + ["-o", s.out]]
                if extra:
                    return "link-argv", "the link of the script has unexpected %s" % extra
            for o in user:
                if o is not s and (o.t1 is None or o.t1 > s.t0):
                    return "order", "linked before %s had ended" % o.name()
        # the bootstrap library
        bsrc = {}
        blinks = {}
        for s in boot:
            if s.kind == "link":
                blinks[os.path.basename(s.out)] = s
            else:
                if s.src in bsrc:
                    return "twice", "compiled %s twice" % s.src
                bsrc[s.src] = s
                if s.src not in c.buildcc_srcs() + c.tpl_srcs():
                    return "not-a-source", "compiled something that is not part of the library: %s" % s.argv
                if [x for x in ("-std=c++17", "-Os") if x not in s.argv] or s.argv[0] != tool["cpp_compiler"]:
                    return "compile-argv", "library source compiled as %s" % s.argv
        lb = blinks.get("libbuildcc" + R.FAMILY[c.fam]["ext"]["static"])
        tp = blinks.get("libtpl" + R.FAMILY[c.fam]["ext"]["static"])
        for s, srcs in ((lb, c.buildcc_srcs() if c.script else []), (tp, c.tpl_srcs())):
            if s is not None:
                own = [x for x in s.argv[3:] if x.endswith(".o")]
                if len(set(own)) != len(srcs) or len(own) != len(srcs) or s.argv[:2] != [tool["archiver"], "rcs"]:
                    return "lib-objects", "archived %s for %s" % (own, srcs)
                for l in links:
                    if s.t1 is None or s.t1 > l.t0:
                        return "order", "the script was linked before its library was complete"
        for s in bsrc.values():
            for l in links:
                if s.t1 is None or s.t1 > l.t0:
                    return "order", "the script was linked before its library was complete"
        # running the script
        uruns = [s for s in runs if len(s.argv) > 1 and s.argv[1] == c.target()]
        vruns = [s for s in runs if len(s.argv) > 1 and s.argv[1].startswith(vdir + "/")]
        if len(uruns) + len(vruns) != len(runs) or (runs and not c.script):
            return "foreign", "something else was run: %s" % [s.argv for s in runs]
        if tag == "fail":
            return None
        if r.rc != 0:
            return "failed", "buildexe ended with status %s: %s" % (r.rc, (r.err or r.out)[-600:])
        if c.script:
            if len(vruns) != 1 or not any(x == 1 for x in [len(uruns)]):
                return "run-once", "verification program run %d times, script run %d times" % (len(vruns), len(uruns))
            want = [a for x in c.configs for a in ("--config", x)]
            if uruns[0].argv[2:] != want:
                return "run-args", "the script was started with %s, configured are %s" % (uruns[0].argv[2:], want)
            if uruns[0].cwd != c.cwd:
                return "run-cwd", "the script was started in %s" % uruns[0].cwd
            if any(s.t1 is None or s.t1 > uruns[0].t0 for s in user + boot):
                return "order", "the script was started before it was complete"
            if any(s.t0 < vruns[0].t1 for s in user + boot):
                return "order", "the build started before the toolchain was verified"
        ran = set(seen) | set(bsrc) | ({"link"} if links else set()) | ({"lib"} if lb else set()) | ({"tpl"} if tp else set())
        if must is not None and must - ran:
            return "missing", "not run: %s" % sorted(must - ran)
        if may is not None and ran - may:
            return "needless", "run although nothing it depends on changed: %s" % sorted(ran - may)
        if not os.path.exists(c.target()):
            return "no-output", "the target does not exist"
        # compile commands
        try:
            cc = json.load(open(os.path.join(c.out, "compile_commands.json")))
            got = sorted(e["file"] for e in cc)
        except (OSError, ValueError, KeyError, TypeError) as e:
            return "compile-commands", "compile_commands.json: %r" % e
        if got != sorted(c.user_srcs()):
            return "compile-commands", "compile_commands.json lists %s" % got
        if c.script:
            try:
                h = open(os.path.join(c.bdir(), "buildexe_lib_dirs.h"), newline="").read()
            except OSError as e:
                return "lib-dirs", "buildexe_lib_dirs.h: %s" % e
            for n in c.libs:
                line = 'static constexpr const char *const %s = "%s";' % (n, os.path.join(c.home, "libs", n))
                if h.count(line) != 1:
                    return "lib-dirs", "buildexe_lib_dirs.h does not say %s: %r" % (line, h)
        return None

    def everything(c):
        a = set(c.user_srcs()) | {"link"}
        if c.script:
            a |= set(c.buildcc_srcs()) | set(c.tpl_srcs()) | {"lib", "tpl"}
        return a

    def edit(c, rng):
        """(what, must, may)"""
        allu = set(c.user_srcs())
        k = rng.choice(["nothing", "nothing", "touch", "touch", "add_src", "del_src", "flag", "lflag", "inc", "clean"] + (["lib_src", "lib_hdr", "lib_hdr", "tpl", "lib_del", "libs", "libh", "libh", "configs", "libhome"] if c.script else ["incfile"]))
        if k == "touch":
            s = rng.choice(c.user_srcs())
            c.w.write(s, "// %d\n" % c.uid())
            return k, {s, "link"}, {s, "link"}
        if k == "add_src":
            s = os.path.join(c.troot, c.add_src())
            return k, {s, "link"}, {s, "link"}
        if k == "del_src" and len(c.srcs) > 1:
            c.srcs.remove(rng.choice(c.srcs))
            return k, {"link"}, {"link"}
        if k == "flag":
            f = rng.choice([x for x in FLK if x != "link_flags"])
            c.add_flag(f)
            lf = FLK[f]
            aff = {s for s in allu if lf in ("f_pre", "f_common") or c.lang(s)[1] == lf}
            return k, aff | ({"link"} if aff else set()), allu | {"link"}
        if k == "lflag":
            c.add_flag("link_flags")
            return k, {"link"}, {"link"}
        if k == "inc":
            c.add_inc()
            return k, allu | {"link"}, allu | {"link"}
        if k == "incfile" and c.incs:
            # not a declared input: allowed either way
            d = rng.choice(c.incs)
            c.w.write(os.path.join(c.troot, d, "n%d.h" % c.uid()), "// n\n")
            return k, set(), set()
        if k == "clean":
            return k, allu | {"link"}, allu | {"link"}
        if k == "lib_src":
            if not c.buildcc_srcs():
                return "nothing", set(), set()
            s = rng.choice(c.buildcc_srcs())
            c.w.write(s, "// %d\n" % c.uid())
            return k, {s, "lib", "link"}, {s, "lib", "link"}
        if k == "lib_hdr" and c.headers():
            h = rng.choice(c.headers())
            c.w.write(h, "// %d\n" % c.uid())
            m = set(c.buildcc_srcs()) | allu | {"link"} | ({"lib"} if c.buildcc_srcs() else set())
            return k, m, m
        if k == "tpl":
            s = rng.choice(c.tpl_srcs())
            c.w.write(s, "// %d\n" % c.uid())
            return k, {s, "tpl", "link"}, {s, "tpl", "link", "lib"}
        if k == "lib_del" and len(c.buildcc_srcs()) > 3:
            os.unlink(rng.choice(c.buildcc_srcs()))
            return k, {"lib", "link"}, {"lib", "link"}
        if k == "libs" and c.libs:
            before = set(c.user_srcs())
            n = rng.choice(sorted(c.libs))
            c.lib_files[n] = [] if c.lib_files[n] else c.libs[n]
            now = set(c.user_srcs())
            return k, (now - before) | ({"link"} if now != before else set()), now | {"link"}
        if k == "libh":
            hs = [os.path.join(c.home, "libs", n, f) for n, fs in sorted(c.lib_files.items()) for f in fs if f.endswith((".h", ".hpp"))]
            if not hs:
                return "nothing", set(), set()
            c.w.write(rng.choice(hs), "// %d\n" % c.uid())
            return k, allu | {"link"}, allu | {"link"}
        if k == "libhome":
            n = "lib_%d" % c.uid()
            os.makedirs(os.path.join(c.home, "libs", n))
            c.libs[n], c.lib_files[n] = [], []
            return k, allu | {"link"}, allu | {"link"}
        if k == "configs":
            c.configs = c.configs[1:] + ["n%d.toml" % c.uid()]
            return k, set(), set()
        return "nothing", set(), set()

    def bad(c, r, v, hist, case_):
        ck.violation(v[0] + (":script" if c.script else ":immediate"), "after %s: %s" % (hist or ["nothing"], v[1]),
                     {"hist": hist, "cfg": {k: x for k, x in vars(c).items() if isinstance(x, (str, list, dict, bool))}, "run": r.brief()}, case_)

    def case(script):
        def one(rng, i):
            w = World()
            try:
                c = Cfg(w, rng, script, rng.random() < 0.4)
                case_ = ("script" if script else "immediate", i)
                r = c.run(workers=rng.choice([1, 2, 4, 8]))
                hist = []
                v = judge(c, r, everything(c), everything(c), "ok")
                ck.evaluated(1, {"mode": case_[0], "sources": len(c.user_srcs()), "steps": len(r.steps()), "rc": r.rc} if i < 6 else None)
                if v:
                    return bad(c, r, v, hist, case_)
                for _ in range(rng.choice([1, 2, 3])):
                    if rng.random() < 0.25:
                        # one command fails
                        what, must, may = edit(c, rng)
                        hist.append("failing " + what)
                        cand = sorted(x for x in must if x.startswith("/"))
                        pat = ["-c\x1f%s\x1f" % x for x in cand] + (["-o\x1f%s\x1f" % c.target()] if "link" in must and c.type != "static" else [])
                        if script:
                            pat += ["tst\x1f%s\x1f" % c.target(), "tst\x1f%s/" % os.path.join(c.out, "verify_host_toolchain")] * 2
                        if not pat:
                            pat = [c.target() + "\x1f"]
                        pt = rng.choice(pat)
                        r = c.run(plan=[(pt, "fail=%d" % rng.choice([1, 2, 77, 255]))], workers=rng.choice([1, 4]), clean=True if what == "clean" else None)
                        ck.count("failing_commands")
                        ck.evaluated(1)
                        hit = any(s.rc for s in r.steps())
                        v = judge(c, r, None, None, "fail") if hit else judge(c, r, must, may, "ok")
                        if v:
                            return bad(c, r, v, hist, case_)
                        if hit and r.rc == 0:
                            return bad(c, r, ("status", "%r failed but buildexe ended with status 0" % pt), hist, case_)
                        if script and hit:
                            ur = [s for s in r.steps() if s.kind == "test" and s.argv[1] == c.target()]
                            if ur and not pt.startswith("tst\x1f" + c.target()):
                                return bad(c, r, ("run-after-failure", "the script was started although %r failed" % pt), hist, case_)
                            if "verify_host" in pt and [s for s in r.steps() if s.out and not s.out.startswith(os.path.join(c.out, "verify_host"))]:
                                return bad(c, r, ("build-after-failure", "the build went on although the toolchain could not be verified"), hist, case_)
                        r = c.run(workers=4)
                        v = judge(c, r, None, everything(c), "ok")
                        ck.evaluated(1)
                    else:
                        what, must, may = edit(c, rng)
                        hist.append(what)
                        r = c.run(workers=rng.choice([1, 2, 4, 8]), clean=True if what == "clean" else None)
                        ck.evaluated(1)
                        v = judge(c, r, must, may, "ok")
                    ck.see([script, c.fam, c.type, len(c.srcs), c.nf, what, [s.kind for s in r.steps()]])
                    ck.count("steps", len(r.steps()))
                    if v:
                        return bad(c, r, v, hist, case_)
                # against a clean build of the same configuration
                dirs = [c.out] + ([c.exdir()] if script else [])
                snap = {}
                for d in dirs:
                    snap.update({os.path.join(d, k): x for k, x in outputs(d).items()})
                    shutil.rmtree(d)
                r = c.run()
                clean = {}
                for d in dirs:
                    clean.update({os.path.join(d, k): x for k, x in outputs(d).items()})
                ck.evaluated(1)
                ck.count("files_compared", len(clean))
                v = judge(c, r, everything(c), everything(c), "ok")
                d = diff_snap(clean, snap)
                if not v and d:
                    v = ("stale", "outputs differ from those of a clean build: %s" % d[:2])
                if v:
                    return bad(c, r, v, hist, case_)
            finally:
                w.close()
        return one

    def header(rng, i):
        """every directory with headers of the bootstrap library in turn: its headers are inputs of the library and the script"""
        w = World()
        try:
            c = Cfg(w, rng, True, False)
            bb = os.path.join(c.base, "buildcc")
            ds = [os.path.join(bb, d) for d in HDR_DIRS] + [os.path.join(c.base, "third_party", n, h) for n, (_, hs) in sorted(THIRD.items()) for h in hs]
            d = ds[i % len(ds)]
            h = os.path.join(d, rng.choice(["x.h", "y.hpp"]))
            w.write(h, "// 0\n")
            r = c.run()
            v = judge(c, r, everything(c), everything(c), "ok")
            ck.evaluated(1)
            if not v:
                w.write(h, "// 1\n", back=rng.random() < 0.3)
                r = c.run()
                m = set(c.buildcc_srcs()) | set(c.user_srcs()) | {"link"} | ({"lib"} if c.buildcc_srcs() else set())
                v = judge(c, r, m, m, "ok")
                ck.evaluated(1)
                ck.count("header_directories")
            if v:
                return bad(c, r, v, ["header in " + os.path.relpath(d, c.base)], ("header", i))
        finally:
            w.close()

    def outputs(d):
        res = {}
        for root, _, fs in os.walk(d):
            for f in fs:
                b = open(os.path.join(root, f), "rb").read()
                if b.startswith((b"FCC ", b"#!")) or f in ("compile_commands.json", "buildexe_lib_dirs.h"):
                    res[os.path.relpath(os.path.join(root, f), d)] = b
        return res

    def refuse(rng, i):
        """configurations that cannot be built as written: refused, and nothing is run"""
        w = World()
        try:
            script = rng.random() < 0.4
            c = Cfg(w, rng, script, False)
            c.oncli = set()
            k = rng.choice(["drop", "drop", "mode", "type", "id", "loglevel", "nofile", "nohome", "nodir", "notool", "nosrc", "badext", "key"])
            kw, env = {}, {}
            if k == "drop":
                x = rng.choice(["mode", "name", "type", "relative_to_root", "root_dir", "build_dir"])
                kw["drop"] = [x]
                k += " " + x
            elif k in ("mode", "type", "loglevel"):
                kw["put"] = {k: rng.choice(["", "foo", "scripts", "exe", "7"])}
            elif k == "id":
                kw["put"] = {"toolchain.host/id": rng.choice(["foo", "gccc", "99"])}
            elif k == "nohome":
                env["BUILDCC_HOME"] = rng.choice([None, os.path.join(w.dir, "nowhere")])
            elif k == "nodir":
                shutil.rmtree(os.path.join(c.home, rng.choice(["buildcc", "libs", "extensions"])))
            elif k == "notool":
                kw["put"] = {"toolchain.host/" + rng.choice(sorted(c.tools)): "no-such-tool"}
            elif k == "nosrc":
                c.srcs.append("missing%d.cpp" % c.uid())
            elif k == "badext":
                c.srcs.append("weird%d.xyz" % c.uid())
                w.write(os.path.join(c.troot, c.srcs[-1]), "x")
            elif k == "key":
                kw["put"] = {rng.choice(["sources", "flags", "nam"]): "x"}
            av = c.argv(**kw)
            if k == "nofile":
                av += ["--config", "missing.toml"]
            e = {"BUILDCC_HOME": c.home, "FCC_EXE": w.base + "/tst"}
            e.update(env)
            r = w.run(argv=av if env.get("BUILDCC_HOME", 1) is not None else ["/usr/bin/env", "-u", "BUILDCC_HOME"] + av, cwd=c.cwd, env={a: b for a, b in e.items() if b is not None})
            ck.evaluated(1)
            ck.see(["refuse", script, k, r.rc])
            ck.count("refusals")
            ran = [s for s in r.steps() if s.kind != "query" and not (k == "nosrc" or k == "badext") or (s.out or "").startswith(c.bdir() + "/") and k != "nosrc"]
            if r.timeout or r.rc == 0:
                ck.violation("accepted:" + k.split(" ")[0], "a configuration that cannot be built (%s) ended with status %s" % (k, r.rc), {"run": r.brief(), "k": k}, ("refuse", i))
            elif ran or os.path.exists(c.target()):
                ck.violation("built:" + k.split(" ")[0], "a configuration that cannot be built (%s) ran %s" % (k, [s.argv for s in ran][:2]), {"run": r.brief(), "k": k}, ("refuse", i))
        finally:
            w.close()

    ck.cases("immediate", ck.n(260, 3000), case(False))
    ck.cases("script", ck.n(120, 1500), case(True))
    ck.cases("header", ck.n(len(HDR_DIRS) + sum(len(hs) for _, hs in THIRD.values()), 200), header)
    ck.cases("refuse", ck.n(150, 1200), refuse)
    return ck.finish()
