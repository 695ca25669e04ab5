"""C27: with the compiler of the host, what is built behaves as the current sources, flags, headers and libraries say."""
import json
import os
import subprocess

from vlib.check import Check
from vlib.world import World

M64 = (1 << 64) - 1
ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C"}
KINDS = {"f_pre": "TP", "f_common": "TCO", "f_c": "TC", "f_cpp": "TX"}     # macros of a target's flags; a toolchain's begin with G
CLS = {"exe": "exe_gcc", "static": "static_gcc", "dyn": "dyn_gcc"}


class Unit:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.srcs = {}          # file -> dict(fn, ext, const, uses, calls)
        self.hdrs = {}          # file -> value (macro named after it)
        self.pchs = {}
        self.incs = []          # declared order
        self.ord = {}           # directory -> value of its ord_<unit>.h
        self.flags = {k: {} for k in KINDS}
        self.libs = []
        self.gens = []          # generators whose header is used
        self.gsrc = []          # generators whose source is compiled
        self.ext = []           # directories of the prebuilt library, in search order
        self.ext_main = True    # whether the main program itself uses it
        self.alias = None       # (fn it stands for)


class Proj:
    def __init__(self, w, rng):
        self.w, self.rng = w, rng
        self.k = 0
        self.units, self.gens = {}, {}
        self.tcflags = {k: {} for k in KINDS}
        self.assembler = rng.choice(["as", "gcc"])
        self.tcname = rng.choice(["gcc", "host tc"])
        self.own = rng.random() < 0.5       # own or generic classes
        self.broken = {}
        for _ in range(rng.choice([0, 1, 2])):
            self.add_gen()
        if rng.random() < 0.3:
            self.flag(self.tcflags, "G")
        libs = [self.add_unit(rng.choice(["static", "static", "dyn"])) for _ in range(rng.choice([0, 1, 2, 3]))]
        for _ in range(rng.choice([1, 1, 2])):
            u = self.add_unit("exe")
            for x in libs:
                if rng.random() < 0.7:
                    u.libs.append(x.name)
        self.ext = {}
        if rng.random() < 0.5:
            for d in ("ext a", "extb"):
                self.ext[d] = None
                self.build_ext(d)
            for u in self.exes():
                if rng.random() < 0.7:
                    u.ext = rng.sample(list(self.ext), rng.choice([1, 2]))
        self.remain()

    def nid(self):
        self.k += 1
        return self.k

    def exes(self):
        return [u for u in self.units.values() if u.kind == "exe"]

    # -- files --
    def put(self, f, text):
        self.w.write(f, text, back=self.rng.random() < 0.3)

    def add_hdr(self, u):
        f = "%s/h%d.h" % (self.rng.choice(["include", "inc dir", "src"]), self.nid())
        u.hdrs[f] = self.nid()
        self.put_hdr(f, u.hdrs[f])
        d = os.path.dirname(f)
        if d not in u.incs:
            u.incs.append(d)
        return f

    def mac(self, f):
        return "V_" + os.path.basename(f).split(".")[0]

    def put_hdr(self, f, v):
        self.put(f, "#ifndef I_%s\n#define I_%s\n#define %s %dULL\n#endif\n" % (self.mac(f), self.mac(f), self.mac(f), v))

    def asm_ok(self, u):
        if u.pchs:
            return False
        if self.assembler == "as":
            return u.kind != "dyn" and not any(x[k] for x in (u.flags, self.tcflags) for k in ("f_pre", "f_common"))
        return True

    def has_asm(self, u):
        return any(s["ext"] in (".s", ".S") for s in u.srcs.values())

    def add_src(self, u):
        rng = self.rng
        ext = rng.choice([".c", ".c", ".cpp", ".cpp", ".cc", ".cxx"] + ([".s", ".S"] if self.asm_ok(u) else []))
        f = "%s/s%d%s" % (rng.choice(["src", "src/deep", "s p"]), self.nid(), ext)
        fn = "fn%d" % self.nid()
        s = {"fn": fn, "ext": ext, "const": self.nid(), "hdrs": [], "calls": [], "ord": False, "gens": [], "ext_call": False, "hidden": False}
        if ext not in (".s", ".S"):
            s["hdrs"] = [h for h in u.hdrs if rng.random() < 0.6]
            s["ord"] = bool(u.ord) and rng.random() < 0.6
            s["gens"] = [g for g in u.gens if rng.random() < 0.7]
        u.srcs[f] = s
        self.put_src(u, f)
        return f

    def put_src(self, u, f):
        s = u.srcs[f]
        if f in self.broken:
            self.put(f, "this is not a program %d\n" % self.nid() if s["ext"] not in (".s", ".S") else "\tnotaninstruction %d\n" % self.nid())
            return
        if s["ext"] in (".s", ".S"):
            self.put(f, "\t.text\n\t.globl %s\n\t.type %s, @function\n%s:\n\tmovl $%d, %%eax\n\tret\n\t.section .note.GNU-stack,\"\",@progbits\n" % (s["fn"], s["fn"], s["fn"], s["const"]))
            return
        L = []
        for h in s["hdrs"]:
            L.append('#include "%s"' % os.path.basename(h))
        if s["ord"]:
            L.append('#include "ord_%s.h"' % u.name)
        for g in s["gens"]:
            L.append('#include "gen_%s.h"' % g)
        for k, m in KINDS.items():
            for m in (m, "G" + m):
                L.append("#ifndef %s\n#define %s 0\n#endif" % (m, m))
        L.append("#ifdef __cplusplus\n#define C_ extern \"C\"\n#else\n#define C_ extern\n#endif")
        for c in s["calls"]:
            L.append("C_ unsigned long long %s(void);" % c)
        L.append("C_ unsigned long long ext_value(void);\nC_ unsigned long long %s(void);" % s["fn"])
        L.append("unsigned long long %s(void) {\n  unsigned long long v = %dULL;" % (s["fn"], s["const"]))
        for t in self.terms(u, s):
            L.append("  v = v * 1000003ULL + (unsigned long long)(%s);" % t)
        if s["ext_call"]:
            L.append("  v = v * 31ULL + ext_value();")
        for c in s["calls"]:
            L.append("  v = v * 31ULL + %s();" % c)
        L.append("  return v;\n}")
        self.put(f, "\n".join(L) + "\n")

    def terms(self, u, s):
        t = [self.mac(h) for h in s["hdrs"]]
        t += [self.mac(h) for h in u.pchs]
        if s["ord"]:
            t.append("ORD_%s" % u.name)
        t += ["GEN_%s" % g for g in s["gens"]]
        t += [m for m in KINDS.values()] + ["G" + m for m in KINDS.values()]
        return t

    def val(self, u, s, exe):
        """the reference: what the function returns in a program"""
        if s["ext"] in (".s", ".S"):
            return s["const"]
        v = s["const"]
        cpp = s["ext"] != ".c"
        env = {}
        for h, x in list(u.hdrs.items()) + list(u.pchs.items()):
            env[self.mac(h)] = x
        for d in u.incs:
            if d in u.ord:
                env["ORD_%s" % u.name] = u.ord[d]
                break
        for g in self.gens:
            env["GEN_%s" % g] = self.gens[g]["val"] * 1000 + self.gens[g]["in"]
        for k, m in KINDS.items():
            if (k == "f_c" and cpp) or (k == "f_cpp" and not cpp):
                env[m] = env["G" + m] = 0
            else:
                env[m] = u.flags[k].get(m, 0)
                env["G" + m] = self.tcflags[k].get("G" + m, 0)
        for t in self.terms(u, s):
            v = (v * 1000003 + env[t]) & M64
        if s["ext_call"]:
            v = (v * 31 + self.ext[exe.ext[0]]) & M64
        for c in s["calls"]:
            v = (v * 31 + self.call(c, exe)) & M64
        return v

    def call(self, fn, exe):
        for u in self.units.values():
            for s in u.srcs.values():
                if s["fn"] == fn:
                    return self.val(u, s, exe)
        raise KeyError(fn)

    def flag(self, flags, pre=""):
        k = self.rng.choice(list(KINDS))
        m = pre + KINDS[k]
        if m in flags[k] and self.rng.random() < 0.4:
            del flags[k][m]
        else:
            flags[k][m] = self.nid()
        return k

    # -- generators: a header and a source from a template or by commands of the host --
    def add_gen(self):
        n = "g%d" % self.nid()
        g = {"cls": self.rng.choice(["file", "template", "custom"]), "val": self.nid(), "in": self.nid(), "src": self.rng.random() < 0.4, "fn": "gf%d" % self.nid()}
        self.gens[n] = g
        self.put_gen(n)
        return n

    def put_gen(self, n):
        g = self.gens[n]
        v = {"file": "@V@", "custom": "@V@", "template": "{val}"}[g["cls"]]
        ob, cb = ("{{", "}}") if g["cls"] == "template" else ("{", "}")
        self.put("gen in/%s.h.in" % n, "#ifndef I_%s\n#define I_%s\n#define GEN_%s (%s * 1000ULL + %d)\n#endif\n" % (n, n, n, v, g["in"]))
        self.put("gen in/%s.c.in" % n, "unsigned long long %s(void) %s return %s * 1000ULL + %d; %s\n" % (g["fn"], ob, v, g["in"], cb))

    def gen_out(self, n, ext):
        return os.path.join(self.w.out, n, ("gen_%s.h" if ext == "h" else "gs_%s.c") % n)

    # -- units --
    def add_unit(self, kind):
        rng = self.rng
        u = Unit("%s%d" % ({"exe": "app", "static": "slib", "dyn": "dlib"}[kind], self.nid()), kind)
        for _ in range(rng.choice([0, 1, 2])):
            self.add_hdr(u)
        if rng.random() < 0.35:
            for _ in range(rng.choice([1, 2])):
                f = "pch/p%d.h" % self.nid()
                u.pchs[f] = self.nid()
                self.put_hdr(f, u.pchs[f])
        if rng.random() < 0.4:
            for d in ("o1 %s" % u.name, "o2_%s" % u.name):
                u.ord[d] = self.nid()
                self.put("%s/ord_%s.h" % (d, u.name), "#define ORD_%s %d\n" % (u.name, u.ord[d]))
                u.incs.insert(rng.randrange(len(u.incs) + 1), d)
        for g in self.gens:
            if rng.random() < 0.6:
                u.gens.append(g)
        if rng.random() < 0.4:
            self.flag(u.flags)
        for _ in range(rng.choice([1, 2, 3])):
            self.add_src(u)
        for g in self.gens:
            # one definition in the whole program: the unit owns it
            if self.gens[g]["src"] and kind == "exe" and not u.pchs and rng.random() < 0.6:
                u.gsrc.append(g)
        self.units[u.name] = u
        return u

    def build_ext(self, d):
        v = self.nid()
        self.ext[d] = v
        p = self.w.p(d)
        os.makedirs(p, exist_ok=True)
        c = os.path.join(self.w.dir, "ext_tmp.c")
        with open(c, "w") as f:
            f.write("unsigned long long ext_value(void) { return %dULL; }\n" % v)
        subprocess.run(["gcc", "-c", c, "-o", c + ".o"], check=True, env=ENV)
        a = os.path.join(p, "libextv.a")
        if os.path.exists(a):
            os.unlink(a)
        subprocess.run(["ar", "rcs", a, c + ".o"], check=True, env=ENV)
        self.w.stamp(a, self.rng.random() < 0.3)

    def fns(self, u):
        r = []
        for n in [u.name] + self.closure(u):
            r += [s["fn"] for s in self.units[n].srcs.values() if not s["hidden"]]
        return r

    def owner(self, fn):
        return next(u for u in self.units.values() if any(s["fn"] == fn for s in u.srcs.values()))

    def used(self, u):
        """the libraries whose functions a unit calls itself"""
        return {self.owner(c).name for s in u.srcs.values() for c in s["calls"]} - {u.name}

    def closure(self, u):
        r, todo = [], list(u.libs) + sorted(self.used(u))
        while todo:
            n = todo.pop(0)
            if n not in r:
                r.append(n)
                todo += sorted(self.used(self.units[n]))
        return r

    def wants_ext(self, u):
        return any(s["ext_call"] for n in [u.name] + self.closure(u) for s in self.units[n].srcs.values())

    def main_of(self, u):
        return "src/main_%s.%s" % (u.name, u.maintype)

    def remain(self):
        """the main programs print what every function returns"""
        for u in self.exes():
            if not u.ext and self.wants_ext(u):
                u.ext = self.rng.sample(list(self.ext), self.rng.choice([1, 2]))
                u.ext_main = False
            if not hasattr(u, "maintype"):
                u.maintype = self.rng.choice(["c", "cpp"])
            if u.alias is None and self.rng.random() < 0.5 or u.alias not in [None] + [s["fn"] for s in u.srcs.values()]:
                u.alias = self.rng.choice([s["fn"] for s in u.srcs.values()])
            fns = self.fns(u) + [self.gens[g]["fn"] for g in u.gsrc if u.maintype == "c"]
            L = ["#include <stdio.h>", "#ifdef __cplusplus\n#define C_ extern \"C\"\n#else\n#define C_ extern\n#endif"]
            L += ["C_ unsigned long long %s(void);" % f for f in fns]
            if u.alias:
                L.append("C_ unsigned long long the_alias(void);")
            if u.ext and u.ext_main:
                L.append("C_ unsigned long long ext_value(void);")
            L.append("int main(void) {")
            L += ['  printf("%s %%llu\\n", %s());' % (f, f) for f in fns]
            if u.alias:
                L.append('  printf("alias %llu\\n", the_alias());')
            if u.ext and u.ext_main:
                L.append('  printf("ext %llu\\n", ext_value());')
            L.append("  return 0;\n}")
            text = "\n".join(L) + "\n"
            p = self.w.p(self.main_of(u))
            if not os.path.exists(p) or open(p).read() != text:
                self.put(self.main_of(u), text)

    def expected(self, u):
        o = []
        for n in [u.name] + self.closure(u):
            x = self.units[n]
            o += ["%s %d" % (s["fn"], self.val(x, s, u)) for s in x.srcs.values() if not s["hidden"]]
        if u.maintype == "c":
            o += ["%s %d" % (self.gens[g]["fn"], self.gens[g]["val"] * 1000 + self.gens[g]["in"]) for g in u.gsrc]
        if u.alias:
            o.append("alias %d" % self.call(u.alias, u))
        if u.ext and u.ext_main:
            o.append("ext %d" % self.ext[u.ext[0]])
        return "\n".join(o) + "\n"

    # -- the script --
    def link_libs(self, u):
        # users before what they use, otherwise in the order declared
        todo, r = self.closure(u), []
        while todo:
            n = next(n for n in todo if not any(n in self.used(self.units[m]) for m in todo))
            todo.remove(n)
            r.append(n)
        return r

    def ops(self, u):
        o = []
        for k in KINDS:
            o += [[k, "-D%s=%d" % (m, v)] for m, v in u.flags[k].items()]
        if u.pchs and not u.gsrc and (all(s["ext"] != ".c" for s in u.srcs.values()) and getattr(u, "maintype", "cpp") == "cpp"):
            o.append(["f_pcho", "-Werror=invalid-pch -Winvalid-pch"])
        o += [["inc", d, False] for d in u.incs]
        o += [["src", f] for f in u.srcs]
        o += [["hdr", f] for f in u.hdrs] + [["hdr", "%s/ord_%s.h" % (d, u.name)] for d in u.ord]
        o += [["pch", f] for f in u.pchs]
        for g in u.gens:
            o += [["hdr_abs", self.gen_out(g, "h")], ["inc_abs", os.path.join(self.w.out, g), False]]
        for g in u.gsrc:
            o.append(["src_abs", self.gen_out(g, "c")])
        if u.kind == "exe":
            o.append(["src", self.main_of(u)])
            if u.alias:
                o.append(["f_link", "-Wl,--defsym=the_alias=%s" % u.alias])
            o += [["lib", n] for n in self.link_libs(u)]
            if u.ext:
                o += [["libdir", d] for d in u.ext] + [["extlib", "-lextv"]] + [["ldep", d + "/libextv.a"] for d in u.ext]
        return o

    def gen_ops(self, n):
        g = self.gens[n]
        io = [("{current_root_dir}/gen in/%s.%s.in" % (n, e), "{current_build_dir}/" + os.path.basename(self.gen_out(n, e))) for e in ["h"] + (["c"] if g["src"] else [])]
        o = []
        if g["cls"] == "template":
            o.append(["pattern", "val", "%dULL" % g["val"]])
            o += [["template", a, b] for a, b in io]
        elif g["cls"] == "file":
            o += [["input", a] for a, b in io] + [["output", b] for a, b in io]
            o += [["command", 'sed -e "s/@V@/{value}/" "%s" > "%s"' % x, {"value": "%dULL" % g["val"]}] for x in io]
        else:
            for a, b in io:
                o.append(["id", os.path.basename(a), [a], [b], {"cmd": 'sed -e "s/@V@/%dULL/" "%s" > "%s"' % (g["val"], a, b), "ret": "command"}, ["int", g["val"]]])
        return o

    def actions(self, direct):
        rng, via = self.rng, [True, True]
        tc = {"do": "toolchain", "key": "tc", "kind": "gcc", "name": self.tcname, "flags": [[k, "-D%s=%d" % (m, v)] for k in KINDS for m, v in self.tcflags[k].items()]}
        if self.assembler != "as" or rng.random() < 0.5:
            tc["exes"] = {"as": self.assembler, "cc": "gcc", "cxx": "g++", "ar": "ar", "ld": "ld"}
        acts = [tc]
        regs, ops, deps = [], [], []
        incb = rng.random() < 0.5
        for n in list(self.gens) + list(self.units):
            if n in self.gens:
                acts.append({"do": "gen", "key": n, "name": n, "cls": self.gens[n]["cls"]})
                o = self.gen_ops(n)
            else:
                u = self.units[n]
                acts.append({"do": "target", "key": n, "name": n, "tc": "tc", "cls": CLS[u.kind] if self.own else {"exe": "exe_generic", "static": "static_generic", "dyn": "dyn_generic"}[u.kind]})
                o = self.ops(u)
                deps += [{"do": "dep", "a": n, "b": b, "via": via} for b in sorted(set(u.gens + u.gsrc + (self.closure(u) if u.kind == "exe" else [])))]
            if incb:
                regs.append({"do": "build", "b": n, "via": via, "ops": o})
            else:
                ops.append({"do": "ops", "b": n, "ops": o})
                regs.append({"do": "build", "b": n, "via": via})
        rng.shuffle(regs)
        rng.shuffle(deps)
        acts += ops + regs + deps
        if not direct:
            acts += [{"do": "test", "b": u.name, "via": via, "command": rng.choice(["{executable}", '"%s"' % os.path.join(self.w.out, self.tcname, u.name, u.name)]), "output": "user"} for u in self.exes()]
        acts.append({"do": "run", "post": [{"do": "cc", "targets": list(self.units)}]})
        return acts

    # -- edits --
    def edit(self):
        for _ in range(50):
            k = self.rng.choice(EDITS)
            r = getattr(self, "e_" + k)(self.rng.choice(list(self.units.values())))
            if r:
                self.remain()
                return k
        return "nothing"

    def e_const(self, u):
        f = self.rng.choice(list(u.srcs))
        u.srcs[f]["const"] = self.nid()
        self.put_src(u, f)
        return 1

    def e_hdr(self, u):
        if not u.hdrs:
            return
        f = self.rng.choice(list(u.hdrs))
        u.hdrs[f] = self.nid()
        self.put_hdr(f, u.hdrs[f])
        return 1

    def e_pch(self, u):
        if not u.pchs:
            return
        f = self.rng.choice(list(u.pchs))
        u.pchs[f] = self.nid()
        self.put_hdr(f, u.pchs[f])
        return 1

    def e_addpch(self, u):
        if self.has_asm(u) or u.gsrc:
            return
        f = "pch/p%d.h" % self.nid()
        u.pchs[f] = self.nid()
        self.put_hdr(f, u.pchs[f])
        for s in u.srcs:
            self.put_src(u, s)
        return 1

    def e_delpch(self, u):
        if not u.pchs:
            return
        del u.pchs[self.rng.choice(list(u.pchs))]
        for s in u.srcs:
            self.put_src(u, s)
        return 1

    def e_flag(self, u):
        if self.assembler == "as" and self.has_asm(u):
            return
        self.flag(u.flags)
        return 1

    def e_tcflag(self, u):
        if self.assembler == "as" and any(self.has_asm(x) for x in self.units.values()):
            return
        self.flag(self.tcflags, "G")
        return 1

    def e_addsrc(self, u):
        self.add_src(u)
        return 1

    def e_delsrc(self, u):
        if len(u.srcs) < 2:
            return
        c = [f for f in u.srcs if not any(u.srcs[f]["fn"] in s["calls"] for x in self.units.values() for s in x.srcs.values())]
        if not c:
            return
        del u.srcs[self.rng.choice(c)]
        return 1

    def e_call(self, u):
        """a function of this program calls another of it"""
        fs = list(u.srcs)
        c = [(a, b) for i, a in enumerate(fs) for b in fs[i + 1:] if u.srcs[a]["ext"] not in (".s", ".S") and u.srcs[b]["fn"] not in u.srcs[a]["calls"]]
        if not c:
            return
        a, b = self.rng.choice(c)
        u.srcs[a]["calls"].append(u.srcs[b]["fn"])
        self.put_src(u, a)
        return 1

    def e_ord(self, u):
        d = [i for i, x in enumerate(u.incs) if x in u.ord]
        if len(d) < 2:
            return
        if self.rng.random() < 0.5:
            u.incs[d[0]], u.incs[d[1]] = u.incs[d[1]], u.incs[d[0]]
        else:
            x = u.incs[self.rng.choice(d)]
            u.ord[x] = self.nid()
            self.put("%s/ord_%s.h" % (x, u.name), "#define ORD_%s %d\n" % (u.name, u.ord[x]))
        return 1

    def e_genval(self, u):
        if not self.gens:
            return
        self.gens[self.rng.choice(list(self.gens))]["val"] = self.nid()
        return 1

    def e_genin(self, u):
        if not self.gens:
            return
        n = self.rng.choice(list(self.gens))
        self.gens[n]["in"] = self.nid()
        self.put_gen(n)
        return 1

    def e_ext(self, u):
        if not self.ext:
            return
        self.build_ext(self.rng.choice(list(self.ext)))
        return 1

    def e_extorder(self, u):
        if len(u.ext) < 2:
            return
        u.ext.reverse()
        return 1

    def e_alias(self, u):
        if not u.alias:
            return
        u.alias = self.rng.choice([s["fn"] for s in u.srcs.values()])
        return 1

    def e_lib(self, u):
        if u.kind != "exe":
            return
        c = [x.name for x in self.units.values() if x.kind != "exe"]
        if not c:
            return
        x = self.rng.choice(c)
        if x in u.libs:
            u.libs.remove(x)
        else:
            u.libs.insert(self.rng.randrange(len(u.libs) + 1), x)
        return 1

    def e_xcall(self, u):
        """a function of this archive or program calls one of a library, perhaps the only one that does"""
        if u.kind == "dyn":
            return
        fs = [f for f in u.srcs if u.srcs[f]["ext"] not in (".s", ".S")]
        order = list(self.units)
        c = [n for n in order if self.units[n].kind != "exe" and (u.kind == "exe" or order.index(n) != order.index(u.name))]
        # never in a circle
        c = [n for n in c if u.name != n and u.name not in self.closure(self.units[n])]
        if not fs or not c:
            return
        a = u.srcs[self.rng.choice(fs)]
        b = self.rng.choice(list(self.units[self.rng.choice(c)].srcs.values()))
        if b["fn"] in a["calls"]:
            return
        a["calls"].append(b["fn"])
        if self.rng.random() < 0.7:
            b["hidden"] = True
        self.put_src(u, next(f for f in u.srcs if u.srcs[f] is a))
        return 1

    def e_extcall(self, u):
        """a function of this archive or program uses the prebuilt library, perhaps the only one that does"""
        if u.kind == "dyn" or not self.ext:
            return
        fs = [f for f in u.srcs if u.srcs[f]["ext"] not in (".s", ".S")]
        if not fs:
            return
        f = self.rng.choice(fs)
        u.srcs[f]["ext_call"] = not u.srcs[f]["ext_call"]
        self.put_src(u, f)
        for x in self.exes():
            x.ext_main = x.ext_main and self.rng.random() < 0.3
        return 1

    def e_kind(self, u):
        """an archive becomes a shared object, or the other way round"""
        if u.kind == "static" and (self.used(u) or any(s["ext_call"] for s in u.srcs.values())):
            return
        if u.kind == "exe" or (self.assembler == "as" and self.has_asm(u)):
            return
        u.kind = {"static": "dyn", "dyn": "static"}[u.kind]
        return 1

    def e_newlib(self, u):
        x = self.add_unit(self.rng.choice(["static", "dyn"]))
        self.rng.choice(self.exes()).libs.append(x.name)
        return 1

    def e_own(self, u):
        self.own = not self.own
        return 1

    def e_nothing(self, u):
        return 1


EDITS = ["const", "const", "hdr", "hdr", "pch", "pch", "addpch", "delpch", "flag", "flag", "tcflag", "addsrc", "delsrc", "call", "ord", "ord", "genval", "genval", "genin", "ext", "extorder", "alias", "xcall", "xcall", "extcall", "extcall",
         "lib", "kind", "newlib", "own", "nothing"]


def stamps(d):
    r = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(".bin") or f == "compile_commands.json" or f.endswith(".txt"):
                continue
            s = os.stat(os.path.join(root, f))
            r[os.path.relpath(os.path.join(root, f), d)] = (s.st_mtime_ns, s.st_ino, s.st_size)
    return r


def main(only=None):
    ck = Check("C27", "trace_oracle",
               "one evaluation = one program built by the host's compiler after random edits (or failed builds) whose output was compared with the value of the current sources, flags, include and library order, "
               "generated files and precompiled headers computed independently, or one build without a change that left every output untouched; distinct = distinct (edit kinds, what is in the project, outcome)",
               ["the host's gcc, g++, as, ar and sed", "headers are declared, and the programs contain no other undeclared input"], only)

    def case(rng, i):
        w = World(subdir=rng.choice(["w", "w", "w x", "w é (1)", "r&d", "w[1]"]))
        try:
            p = Proj(w, rng)
            hist = []
            for rnd in range(ck.n(5, 12)):
                if rnd:
                    for _ in range(rng.choice([1, 1, 2, 3])):
                        hist.append(p.edit())
                direct = rng.random() < 0.2
                nw = rng.choice([1, 2, 4, 8])
                feats = sorted({x.kind + ("+pch" if x.pchs else "") + ("+asm" if p.has_asm(x) else "") for x in p.units.values()} | {g["cls"] for g in p.gens.values()} | ({"ext"} if p.ext else set()))

                def bad(key, msg, r=None, **kw):
                    ck.violation(key, "after %s: %s" % (hist[-4:], msg), dict(kw, hist=hist, run=r.brief() if r else None, script=acts), ("host", i))
                if rng.random() < 0.25:
                    # something does not compile, and is then mended
                    u = rng.choice(list(p.units.values()))
                    f = rng.choice(list(u.srcs))
                    p.broken[f] = 1
                    p.put_src(u, f)
                    acts = p.actions(direct)
                    r = w.run(acts, workers=nw, env=ENV, direct=direct, timeout=120)
                    hist.append("broken")
                    ck.evaluated(1)
                    ck.count("broken_builds")
                    if r.rc is None or r.rc <= 0:
                        return bad("broken", "a source that does not compile gave status %s" % r.rc, r)
                    if r.o("redirect") and any(x["out"] for x in r.o("redirect")):
                        return bad("broken-test", "tests ran although a source does not compile", r)
                    del p.broken[f]
                    p.put_src(u, f)
                    if rng.random() < 0.3:
                        hist.append(p.edit())
                acts = p.actions(direct)
                r = w.run(acts, workers=nw, env=ENV, direct=direct, timeout=120)
                if not r.ok:
                    return bad("build-failed", "a valid project was not built (status %s, timeout %s): %s" % (r.rc, r.timeout, (r.out + r.err)[-400:]), r)
                for u in p.exes():
                    exe = os.path.join(w.out, p.tcname, u.name, u.name)
                    want = p.expected(u)
                    try:
                        q = subprocess.run([exe], env=ENV, capture_output=True, timeout=60)
                        got = q.stdout.decode("utf-8", "replace") if q.returncode == 0 else "status %d" % q.returncode
                    except OSError as e:
                        got = str(e)
                    ck.evaluated(1, {"edits": hist[-2:], "project": feats, "output": got[:120]} if rnd == 2 else None)
                    ck.count("values_compared", len(want.split("\n")))
                    if got != want:
                        d = [(a, b) for a, b in zip(got.split("\n"), want.split("\n")) if a != b]
                        return bad("wrong-program", "%s prints %s, expected %s" % (u.name, *(d[0] if d else (got[-80:], want[-80:]))), r, got=got, want=want)
                    if not direct:
                        t = [x["out"] for x in r.o("redirect") if x["b"] == u.name]
                        if t != [want]:
                            return bad("test-output", "the test of %s reported %s instead of the program's output" % (u.name, t), r)
                ck.see([sorted(set(hist[-3:])), feats, direct])
                if rng.random() < 0.5:
                    a = stamps(w.out)
                    direct = rng.random() < 0.2
                    acts = p.actions(direct)
                    r = w.run(acts, workers=nw, env=ENV, direct=direct, timeout=120)
                    b = stamps(w.out)
                    ck.evaluated(1)
                    ck.count("untouched_outputs", len(a))
                    if not r.ok:
                        return bad("build-failed", "the project was not built again (status %s)" % r.rc, r)
                    ch = sorted(x for x in set(a) | set(b) if a.get(x) != b.get(x))
                    if ch:
                        return bad("redone", "a build with no change rewrote %s" % ch[:4], r)
            # the recorded compile commands make the same objects
            with open(os.path.join(w.out, "compile_commands.json")) as f:
                cc = json.load(f)
            files = sorted(c["file"] for c in cc)
            have = sorted([w.p(f) for u in p.units.values() for f in u.srcs] + [w.p(p.main_of(u)) for u in p.exes()] + [p.gen_out(g, "c") for u in p.units.values() for g in u.gsrc])
            if not (set(hist) & {"nothing"}) and files != have:
                return bad("commands", "compile_commands.json lists %s, the sources are %s" % (files[:4], have[:4]))
            for c in rng.sample(cc, min(4, len(cc))):
                objs = {f: open(f, "rb").read() for f in (os.path.join(rt, x) for rt, _, fs in os.walk(os.path.join(w.out, p.tcname)) for x in fs) if f.endswith(".o")}
                q = subprocess.run(c["command"], shell=True, cwd=c["directory"], env=ENV, capture_output=True, timeout=60)
                now = {f: open(f, "rb").read() for f in objs}
                ck.evaluated(1)
                ck.count("commands_replayed")
                if q.returncode or now != objs:
                    return bad("commands", "the compile command recorded for %s gives status %d and %s" % (c["file"], q.returncode, [f for f in objs if objs[f] != now[f]][:2]), None, command=c, err=q.stderr.decode("utf-8", "replace")[-400:])
        finally:
            w.close()

    ck.cases("host", ck.n(120, 1200), case)
    return ck.finish()
