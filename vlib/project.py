"""Random but valid projects, edits of them, the script a user's build file would contain, and the reference model of
which steps a build may run (written from the documentation of buildcc, not from its code)."""
import copy
import os

FLAGS = ["f_pre", "f_common", "f_pchc", "f_pcho", "f_asm", "f_c", "f_cpp", "f_link"]
FLAGTXT = {"f_pre": "-DP%d", "f_common": "-fcom%d", "f_pchc": "-Wpchc%d", "f_pcho": "-Wpcho%d", "f_asm": "-Wasm%d", "f_c": "-Wc%d",
           "f_cpp": "-Wcpp%d", "f_link": "-Wl,opt%d"}
CEXT, CXXEXT, ASMEXT, HEXT = [".c"], [".cpp", ".cxx", ".cc"], [".s", ".S", ".asm"], [".h", ".hpp"]


class Target:
    def __init__(self, name, cls):
        self.name, self.cls = name, cls
        self.root = ""
        self.srcs, self.hdrs, self.pchs, self.incs = [], [], [], []
        self.libdirs, self.extlibs, self.libs, self.cdeps, self.ldeps = [], [], [], [], []
        self.dups = []                            # sources declared twice, in another spelling
        self.gen_srcs, self.gen_hdrs = [], []     # (generator, output index): absolute paths
        self.flags = {k: [] for k in FLAGS}


class Gen:
    """file generator (one command list) or custom generator (independent ids)"""

    def __init__(self, name, cls):
        self.name, self.cls = name, cls
        self.inputs, self.outputs, self.text = [], [], 0    # file
        self.ncmd = 1
        self.ids = {}                                       # custom: id -> dict(inputs, outputs, blob)


class Project:
    TC = "tcgcc"

    def __init__(self, world, deco=None, flagtext=None):
        """deco(rng) -> text inside names (spaces, any UTF-8); flagtext(rng, kind, n) -> hostile flag text as written in a script"""
        self.w = world
        self.deco = deco or (lambda rng: "")
        self.flagtext = flagtext or (lambda rng, k, n: FLAGTXT[k] % n)
        self.targets = {}
        self.gens = {}
        self.deps = []       # (a depends on b)
        self.tcflags = {k: [] for k in FLAGS}
        self.files = {}      # rel -> (content lines)
        self.uid = 0
        self.retired = set()
        self.reg_order = None
        self.ops_in_cb = False

    def nid(self):
        self.uid += 1
        return self.uid

    def clone_config(self):
        """Everything but the files on disk."""
        keep = self.w, self.deco, self.flagtext
        self.w = self.deco = self.flagtext = None
        c = copy.deepcopy(self)
        self.w, self.deco, self.flagtext = keep
        c.w, c.deco, c.flagtext = keep
        return c

    # ---- files ----
    def put(self, rel, lines, back=False):
        self.files[rel] = lines
        self.w.write(rel, "\n".join(lines) + "\n", back=back)

    def new_file(self, rng, ext, includes=(), d=None):
        d = d if d is not None else rng.choice(["", "a", "a/b", "c"])
        base = "f%d%s" % (self.nid(), self.deco(rng))
        if rng.random() < 0.25 and self.files:
            # the same file name in another folder, or the same stem with another extension
            other = os.path.splitext(os.path.basename(rng.choice(sorted(self.files))))[0]
            for dd in [d, "", "a", "a/b", "c", "c/a"]:
                if os.path.join(dd, other + ext) not in self.files:
                    d, base = dd, other
                    break
        rel = os.path.join(d, base + ext)
        if rng.random() < 0.06 and not os.path.lexists(self.w.p(rel)):
            # the file is somewhere else, only a link to it is here
            real = os.path.join(self.w.dir, "elsewhere")
            os.makedirs(real, exist_ok=True)
            os.makedirs(os.path.dirname(self.w.p(rel)), exist_ok=True)
            os.symlink(os.path.join(real, "r%d" % self.nid()), self.w.p(rel))
        self.put(rel, ["// v%d" % self.nid()] + ['#include "%s"' % self.w.p(i) if not i.startswith("/") else '#include "%s"' % i for i in includes])
        return rel

    def edit_file(self, rng, rel):
        ls = list(self.files[rel])
        ls[0] = "// v%d %s" % (self.nid(), "x" * rng.randrange(0, 20))
        self.put(rel, ls, back=rng.random() < 0.4)

    # ---- random project ----
    def random(self, rng, ntargets=3, pch=True, gens=True, kinds=("exe_gcc", "static_gcc", "dyn_gcc")):
        for k in FLAGS:
            for _ in range(rng.choice([0, 0, 1, 2])):
                self.tcflags[k].append(self.flagtext(rng, k, self.nid()))
        if gens:
            for i in range(rng.choice([0, 1, 2])):
                self.add_gen(rng)
        for i in range(ntargets):
            self.add_target(rng, pch, kinds)
        self.ops_in_cb = rng.random() < 0.5
        return self

    def add_gen(self, rng):
        g = Gen("gen%d%s" % (self.nid(), self.deco(rng)), rng.choice(["file", "custom"]))
        if g.cls == "file":
            g.inputs = [self.new_file(rng, ".in") for _ in range(rng.choice([1, 2]))]
            g.outputs = ["go%d%s%s" % (self.nid(), self.deco(rng), rng.choice([".c", ".cpp", ".h"])) for _ in range(rng.choice([1, 2]))]
            g.text = self.nid()
            g.ncmd = rng.choice([1, 1, 2])
        else:
            for _ in range(rng.choice([1, 2, 3])):
                g.ids["id%d" % self.nid()] = {"inputs": [self.new_file(rng, ".in") for _ in range(rng.choice([0, 1, 2]))],
                                              "outputs": ["go%d%s%s" % (self.nid(), self.deco(rng), rng.choice([".c", ".cpp", ".h"])) for _ in range(rng.choice([1, 2]))],
                                              "blob": rng.choice([None, ["str", "b%d" % self.nid()], ["vec", ["x", "y%d" % self.nid()]]])}
        self.gens[g.name] = g
        return g

    def gen_outputs(self, g):
        outs = list(g.outputs) if g.cls == "file" else [o for i in g.ids.values() for o in i["outputs"]]
        return [os.path.join(self.w.out, g.name, o) for o in outs]

    def add_target(self, rng, pch=True, kinds=("exe_gcc", "static_gcc", "dyn_gcc")):
        cls = rng.choice(kinds)
        t = Target("t%d%s" % (self.nid(), self.deco(rng)), cls)
        hd = [self.new_file(rng, rng.choice(HEXT)) for _ in range(rng.choice([0, 1, 2]))]
        t.hdrs = hd
        cd = [self.new_file(rng, ".inc") for _ in range(rng.choice([0, 0, 1, 2]))]
        t.cdeps = cd
        if rng.random() < 0.4:
            t.ldeps = [self.new_file(rng, ".ld")]
            t.flags["f_link"].append('"-T%s"' % self.w.p(t.ldeps[0]))
        if pch and rng.random() < 0.5:
            t.pchs = [self.new_file(rng, ".h", includes=[h for h in hd if rng.random() < 0.3]) for _ in range(rng.choice([1, 2]))]
        for _ in range(rng.choice([1, 2, 3, 4])):
            t.srcs.append(self.new_src(rng, t))
        t.incs = [self.newdir(rng) for _ in range(rng.choice([0, 1, 2]))]
        if cls.startswith("exe") or cls.startswith("dyn"):
            t.libdirs = [self.newdir(rng) for _ in range(rng.choice([0, 1, 2]))]
            t.extlibs = ["-lext%d" % self.nid() for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        for k in FLAGS:
            if rng.random() < 0.4:
                t.flags[k].append(self.flagtext(rng, k, self.nid()))
        for g in self.gens.values():
            if rng.random() < 0.6:
                for o in self.gen_outputs(g):
                    if rng.random() < 0.8:
                        (t.gen_hdrs if o.endswith(".h") else t.gen_srcs).append(o)
                self.deps.append((t.name, g.name))
        if cls.startswith("exe"):
            for o in self.targets.values():
                if (o.cls.startswith("static") or o.cls.startswith("dyn")) and rng.random() < 0.5:
                    t.libs.append(o.name)
                    self.deps.append((t.name, o.name))
        elif rng.random() < 0.2 and self.targets:
            o = rng.choice(list(self.targets.values()))
            self.deps.append((t.name, o.name))
        self.targets[t.name] = t
        return t

    def newdir(self, rng):
        d = "inc%d%s" % (self.nid(), self.deco(rng))
        os.makedirs(self.w.p(d), exist_ok=True)
        return d

    def new_src(self, rng, t, ext=None):
        inc = [h for h in t.hdrs + t.cdeps if rng.random() < 0.5]
        return self.new_file(rng, ext or rng.choice(CEXT + CXXEXT + ASMEXT[:1] + CEXT), includes=inc)

    # ---- script ----
    def target_ops(self, t):
        ops = []
        for k in FLAGS:
            ops += [[k, f] for f in t.flags[k]]
        ops += [["inc", d] for d in t.incs]
        ops += [["src", s] for s in t.srcs] + [["src_abs", s] for s in t.gen_srcs]
        ops += [["src", "./" + s] for s in t.dups if s in t.srcs]
        ops += [["hdr", s] for s in t.hdrs] + [["hdr_abs", s] for s in t.gen_hdrs]
        ops += [["pch", s] for s in t.pchs]
        ops += [["libdir", d] for d in t.libdirs] + [["lib", x] for x in t.libs] + [["extlib", x] for x in t.extlibs]
        ops += [["cdep", s] for s in t.cdeps] + [["ldep", s] for s in t.ldeps]
        return ops

    def gen_ops(self, g, cbs=None):
        ops = []
        if g.cls == "file":
            ops += [["input", "{current_root_dir}/" + i] for i in g.inputs]
            ops += [["output", "{current_build_dir}/" + o] for o in g.outputs]
            for c in range(g.ncmd):
                outs = [g.outputs[j] for j in range(len(g.outputs)) if j % g.ncmd == c]
                ops.append(["command", '"%s" -t T%d_%d -i %s -o %s' % (self.w.tool("gen"), g.text, c, " ".join('"{current_root_dir}/%s"' % i for i in g.inputs), " ".join('"{current_build_dir}/%s"' % o for o in outs)), {}])
        else:
            for i, d in g.ids.items():
                ops.append(["id", i, ["{current_root_dir}/" + x for x in d["inputs"]], ["{current_build_dir}/" + x for x in d["outputs"]],
                            (cbs or {}).get((g.name, i), {}), d["blob"]])
        return ops

    def actions(self, rng=None, cbs=None, post=None, run=True, via=None, tests=()):
        via = via or [True, True]
        tool = self.w.tool
        acts = [{"do": "toolchain", "key": "tc", "kind": "gcc", "name": self.TC,
                 "exes": {"as": tool("as"), "cc": tool("gcc"), "cxx": tool("g++"), "ar": tool("ar"), "ld": tool("ld")},
                 "flags": [[k, f] for k in FLAGS for f in self.tcflags[k]]}]
        order = list(self.gens) + list(self.targets)
        regs, oplist = [], []
        for n in order:
            incb = self.ops_in_cb
            if n in self.gens:
                g = self.gens[n]
                a = {"do": "gen", "key": n, "cls": g.cls, "name": n}
                ops = self.gen_ops(g, cbs)
            else:
                t = self.targets[n]
                a = {"do": "target", "key": n, "cls": t.cls, "name": n, "tc": "tc"}
                ops = self.target_ops(t)
            acts.append(a)
            b = {"do": "build", "b": n, "via": via}
            if incb:
                b["ops"] = ops
            else:
                oplist.append({"do": "ops", "b": n, "ops": ops})
            regs.append(b)
        deps = [{"do": "dep", "a": a, "b": b, "via": via} for a, b in self.deps]
        if rng is not None:
            rng.shuffle(regs)
            rng.shuffle(deps)
        acts += oplist + regs + deps
        acts += list(tests)
        if run:
            r = {"do": "run"}
            if post is not None:
                r["post"] = post
            acts.append(r)
        return acts

    def target_dir(self, n):
        return os.path.join(self.w.out, self.TC, n)

    def target_of(self, path):
        for n in self.targets:
            if path and path.startswith(self.target_dir(n) + os.sep):
                return n
        return None

    def gen_of(self, path):
        for n in self.gens:
            if path and path.startswith(os.path.join(self.w.out, n) + os.sep):
                return n
        return None

    def builder_of(self, step):
        if step.kind == "gen":
            return step.gen
        if step.kind == "gencmd":
            if "-t" in step.argv:
                x = step.argv[step.argv.index("-t") + 1].split("_")[0]
                for g in self.gens.values():
                    if g.cls == "file" and x == "T%d" % g.text:
                        return g.name
            return self.gen_of(step.out)
        return self.target_of(step.out)

    def abs(self, p):
        return os.path.normpath(p if p.startswith("/") else self.w.p(p))

    def all_srcs(self, t):
        return [self.abs(s) for s in t.srcs + t.gen_srcs]

    def declared(self):
        """every file some builder declares now"""
        fs = set()
        for t in self.targets.values():
            fs |= set(t.srcs + t.hdrs + t.pchs + t.cdeps + t.ldeps)
        for g in self.gens.values():
            fs |= set(g.inputs if g.cls == "file" else [i for d in g.ids.values() for i in d["inputs"]])
        return sorted(f for f in fs if f in self.files)

    def eff_flags(self, t, k):
        extra = ["-fpic"] if (t.cls.startswith("dyn") and k == "f_common") else []
        return self.tcflags[k] + t.flags[k], extra

    # ---- edits ----
    def random_edit(self, rng, allow=None):
        """Applies one edit; returns its description."""
        for _ in range(40):
            kind = rng.choice(allow or EDITS)
            d = getattr(self, "e_" + kind)(rng)
            if d:
                return "%s %s" % (kind, d)
        return "none"

    def _t(self, rng):
        return rng.choice(list(self.targets.values()))

    def e_touch_src(self, rng):
        t = self._t(rng)
        if t.srcs:
            s = rng.choice(t.srcs)
            self.edit_file(rng, s)
            return s

    def e_touch_hdr(self, rng):
        t = self._t(rng)
        if t.hdrs:
            s = rng.choice(t.hdrs)
            self.edit_file(rng, s)
            return s

    def e_touch_pch(self, rng):
        t = self._t(rng)
        if t.pchs:
            s = rng.choice(t.pchs)
            self.edit_file(rng, s)
            return s

    def e_touch_cdep(self, rng):
        t = self._t(rng)
        if t.cdeps:
            s = rng.choice(t.cdeps)
            self.edit_file(rng, s)
            return s

    def e_touch_ldep(self, rng):
        t = self._t(rng)
        if t.ldeps:
            s = rng.choice(t.ldeps)
            self.edit_file(rng, s)
            return s

    def e_add_src(self, rng):
        t = self._t(rng)
        s = self.new_src(rng, t)
        t.srcs.insert(rng.randrange(len(t.srcs) + 1), s)
        return "%s %s" % (t.name, s)

    def e_del_src(self, rng):
        t = self._t(rng)
        if len(t.srcs) + len(t.gen_srcs) > 1 and t.srcs:
            s = t.srcs.pop(rng.randrange(len(t.srcs)))
            return "%s %s" % (t.name, s)

    def e_readd_src(self, rng):
        t = self._t(rng)
        old = [f for f in self.files if f.endswith((".c", ".cpp")) and not any(f in x.srcs for x in self.targets.values())]
        if old:
            s = rng.choice(old)
            known = {self.abs(x) for x in t.hdrs + t.cdeps}
            if not all(x.split('"')[1] in known for x in self.files[s] if x.startswith("#include")):
                return None     # it includes files this target does not declare
            if rng.random() < 0.5:
                self.edit_file(rng, s)
            t.srcs.append(s)
            return "%s %s" % (t.name, s)

    def e_add_hdr(self, rng):
        t = self._t(rng)
        s = self.new_file(rng, rng.choice(HEXT))
        t.hdrs.append(s)
        if t.srcs and rng.random() < 0.5:
            f = rng.choice(t.srcs)
            self.put(f, self.files[f] + ['#include "%s"' % self.w.p(s)])
        return "%s %s" % (t.name, s)

    def e_del_hdr(self, rng):
        t = self._t(rng)
        if t.hdrs:
            s = t.hdrs.pop(rng.randrange(len(t.hdrs)))
            # no longer declared: nothing may change it afterwards (that would be an undeclared input)
            return "%s %s" % (t.name, s)

    def e_add_pch(self, rng):
        t = self._t(rng)
        s = self.new_file(rng, ".h")
        t.pchs.append(s)
        return "%s %s" % (t.name, s)

    def e_del_pch(self, rng):
        t = self._t(rng)
        if t.pchs:
            return "%s %s" % (t.name, t.pchs.pop(rng.randrange(len(t.pchs))))

    def e_clear_pch(self, rng):
        t = self._t(rng)
        if t.pchs:
            t.pchs = []
            return t.name

    def e_swap_pch(self, rng):
        t = self._t(rng)
        if len(t.pchs) > 1:
            t.pchs.reverse()
            return t.name

    def e_inc(self, rng):
        t = self._t(rng)
        r = rng.random()
        if r < 0.5 or not t.incs:
            t.incs.insert(rng.randrange(len(t.incs) + 1), self.newdir(rng))
        elif r < 0.8:
            t.incs.pop(rng.randrange(len(t.incs)))
        elif len(t.incs) > 1:
            t.incs.reverse()
        else:
            return None
        return t.name

    def e_libdir(self, rng):
        t = self._t(rng)
        if t.cls.startswith("static"):
            return None
        if rng.random() < 0.5 or not t.libdirs:
            t.libdirs.append(self.newdir(rng))
        else:
            t.libdirs.pop(rng.randrange(len(t.libdirs)))
        return t.name

    def e_extlib(self, rng):
        t = self._t(rng)
        if t.cls.startswith("static"):
            return None
        if rng.random() < 0.5 or not t.extlibs:
            t.extlibs.append("-lext%d" % self.nid())
        elif rng.random() < 0.5:
            t.extlibs.pop(rng.randrange(len(t.extlibs)))
        else:
            t.extlibs.reverse()
        return t.name

    def reaches(self, a, b):
        todo, seen = [a], set()
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            todo += [q for p, q in self.deps if p == x]
        return False

    def e_lib(self, rng):
        t = self._t(rng)
        if not t.cls.startswith("exe"):
            return None
        c = [o.name for o in self.targets.values() if o.cls.startswith(("static", "dyn")) and o.name not in t.libs and not self.reaches(o.name, t.name)]
        if t.libs and (not c or rng.random() < 0.5):
            x = t.libs.pop(rng.randrange(len(t.libs)))
            self.deps.remove((t.name, x))
            return "%s -%s" % (t.name, x)
        if c:
            x = rng.choice(c)
            t.libs.append(x)
            if (t.name, x) not in self.deps:
                self.deps.append((t.name, x))
            return "%s +%s" % (t.name, x)

    def e_cdep(self, rng):
        t = self._t(rng)
        if rng.random() < 0.6 or not t.cdeps:
            t.cdeps.append(self.new_file(rng, ".inc"))
        else:
            t.cdeps.pop(rng.randrange(len(t.cdeps)))
        return t.name

    def e_ldep(self, rng):
        t = self._t(rng)
        if rng.random() < 0.6 or not t.ldeps:
            t.ldeps.append(self.new_file(rng, ".ld"))
        else:
            t.ldeps.pop(rng.randrange(len(t.ldeps)))
        return t.name

    def _flag(self, rng, fl, k):
        r = rng.random()
        l = fl[k]
        if r < 0.4 or not l:
            l.insert(rng.randrange(len(l) + 1), self.flagtext(rng, k, self.nid()))
            return "+"
        if r < 0.6:
            l.pop(rng.randrange(len(l)))
            return "-"
        if r < 0.8:
            l[rng.randrange(len(l))] = self.flagtext(rng, k, self.nid())
            return "*"
        if len(l) > 1:
            l.reverse()
            return "reverse"

    def e_flag(self, rng):
        t = self._t(rng)
        k = rng.choice(FLAGS)
        r = self._flag(rng, t.flags, k)
        return r and "%s %s %s" % (t.name, k, r)

    def e_tcflag(self, rng):
        k = rng.choice(FLAGS)
        r = self._flag(rng, self.tcflags, k)
        return r and "tc %s %s" % (k, r)

    def e_move_flag(self, rng):
        """a flag moves from one kind to another: the same text on another position of the command line"""
        t = self._t(rng)
        k = rng.choice(FLAGS)
        if t.flags[k] and "-T/" not in t.flags[k][-1]:
            f = t.flags[k].pop()
            k2 = rng.choice([x for x in FLAGS if x != k])
            t.flags[k2].append(f)
            return "%s %s->%s" % (t.name, k, k2)

    def e_gen_input(self, rng):
        if not self.gens:
            return None
        g = rng.choice(list(self.gens.values()))
        ins = g.inputs if g.cls == "file" else [i for d in g.ids.values() for i in d["inputs"]]
        if ins:
            s = rng.choice(ins)
            self.edit_file(rng, s)
            return "%s %s" % (g.name, s)

    def e_gen_value(self, rng):
        if not self.gens:
            return None
        g = rng.choice(list(self.gens.values()))
        if g.cls == "file":
            g.text = self.nid()
            return g.name
        c = [d for d in g.ids.values() if d["blob"]]
        if c:
            d = rng.choice(c)
            d["blob"] = ["str", "b%d" % self.nid()] if d["blob"][0] == "str" else ["vec", ["z%d" % self.nid()]]
            return g.name

    def e_dup_src(self, rng):
        t = self._t(rng)
        if t.dups and rng.random() < 0.5:
            t.dups.pop()
            return t.name + " -"
        if t.srcs:
            t.dups.append(rng.choice(t.srcs))
            return t.name + " +"

    def e_reorder(self, rng):
        """the same members in another order"""
        c = {}
        for t in self.targets.values():
            for n in ("srcs", "hdrs", "pchs", "cdeps", "ldeps", "incs", "libdirs", "extlibs", "libs"):
                l = getattr(t, n)
                if len(l) > 1:
                    c.setdefault(n, []).append((t.name, n, l))
            for k, l in t.flags.items():
                if len(set(l)) > 1:
                    c.setdefault(k, []).append((t.name, k, l))
        if c:
            tn, n, l = rng.choice(c[rng.choice(sorted(c))])
            old = list(l)
            while l == old:
                if rng.random() < 0.5:
                    i, j = rng.sample(range(len(l)), 2)
                    l[i], l[j] = l[j], l[i]
                else:
                    rng.shuffle(l)
                if len(set(old)) == 1:
                    break
            return "%s %s" % (tn, n)

    def e_nothing(self, rng):
        return "nothing"


EDITS = ["touch_src", "touch_src", "touch_hdr", "touch_hdr", "touch_pch", "touch_cdep", "touch_ldep", "add_src", "del_src", "readd_src", "add_hdr", "del_hdr",
         "add_pch", "del_pch", "clear_pch", "swap_pch", "inc", "libdir", "extlib", "lib", "cdep", "ldep", "flag", "flag", "flag", "tcflag", "tcflag",
         "move_flag", "dup_src", "reorder", "reorder", "reorder", "gen_input", "gen_value", "nothing"]
