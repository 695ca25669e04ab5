"""Reference model of which steps a build must and may run, written from the statement of the properties.

Every step (precompiled header, one object, link, one generator id, one file generator) has declared inputs. After
every observed build the model compares what ran with
    must = inputs differ from those of the step's last success (or it never succeeded / failed last time)
    may  = must, or inputs differ from those at the previous build, or the step was already permitted in an earlier
           failed build and has not succeeded since, or a step of the same target it consumes ran in this build
A successful build must run every `must` step, and no build may run a step outside `may`, nor any step twice.
"""
import os


class Model:
    def __init__(self, project):
        self.okin = {}
        self.last = {}
        self.sticky = set()
        self.known = None

    @staticmethod
    def _mt(path, memo):
        if path not in memo:
            try:
                memo[path] = os.stat(path).st_mtime_ns
            except OSError:
                memo[path] = None
        return memo[path]

    def inputs(self, p):
        """declared inputs of every step of project p right now (generator outputs and libraries as they are on disk)"""
        memo = {}

        def mt(x):
            return self._mt(x, memo)
        res = {}
        for t in p.targets.values():
            fl = {k: tuple(p.tcflags[k] + t.flags[k]) for k in t.flags}
            srcs = p.all_srcs(t)
            hdrs = tuple((p.abs(h), mt(p.abs(h))) for h in t.hdrs + t.gen_hdrs)
            pchs = tuple((p.abs(h), mt(p.abs(h))) for h in t.pchs)
            cdeps = tuple((p.abs(h), mt(p.abs(h))) for h in t.cdeps)
            cpp = any(s.endswith((".cpp", ".cxx", ".cc")) for s in srcs)
            incs = tuple(t.incs)
            pch = None
            if t.pchs:
                pch = (fl["f_pre"], fl["f_common"], fl["f_pchc"], fl["f_c"], fl["f_cpp"], incs, hdrs, pchs, cpp)
                res[("pch", t.name)] = pch
            shared = (fl["f_pre"], fl["f_common"], fl["f_pcho"], fl["f_asm"], fl["f_c"], fl["f_cpp"], incs, hdrs, pchs, cdeps, pch)
            for s in srcs:
                res[("obj", t.name, s)] = (mt(s), shared)
            libs = tuple((self.out_of(p, p.targets[x]), mt(self.out_of(p, p.targets[x]))) for x in t.libs)
            ldeps = tuple((p.abs(h), mt(p.abs(h))) for h in t.ldeps)
            res[("link", t.name)] = (fl["f_link"], tuple(t.libdirs), tuple(t.extlibs), libs, ldeps, tuple(sorted(srcs)))
        for g in p.gens.values():
            if g.cls == "file":
                res[("gen", g.name, "Generate")] = (tuple((p.abs(i), mt(p.abs(i))) for i in g.inputs), tuple(g.outputs), g.text, g.ncmd)
            else:
                for i, d in g.ids.items():
                    # the inputs and outputs of an id are sets
                    res[("gen", g.name, i)] = (tuple(sorted((p.abs(x), mt(p.abs(x))) for x in d["inputs"])), tuple(sorted(d["outputs"])), repr(d["blob"]))
        return res

    EXT = {"exe_gcc": "", "static_gcc": ".a", "dyn_gcc": ".so"}

    def out_of(self, p, t):
        return os.path.join(p.target_dir(t.name), t.name + self.EXT[t.cls])

    def key_of(self, p, s):
        b = p.builder_of(s)
        if s.kind == "gen":
            return ("gen", s.gen, s.id)
        if s.kind == "gencmd":
            return ("gen", b, "Generate") if b else ("?", s.name())
        if s.kind == "pch":
            return ("pch", b)
        if s.kind == "compile":
            return ("obj", b, s.src)
        if s.kind == "link":
            return ("link", b)
        return ("?", s.name())

    def observe(self, p, run, expect_ok=True, forget=()):
        """Judges one build of project p; returns a list of (key, message). Updates the model."""
        bad = []
        cur = self.inputs(p)
        ran, count = {}, {}
        for s in run.steps():
            if s.kind in ("query", "test"):
                continue
            k = self.key_of(p, s)
            if s.kind == "gencmd":
                count.setdefault(k, []).append(s.argv)
                ran[k] = ran.get(k, True) and s.rc == 0
            else:
                count[k] = count.get(k, 0) + 1
                ran[k] = s.rc == 0
        for k, c in count.items():
            if isinstance(c, list):
                if len(c) != len({tuple(x) for x in c}):
                    bad.append(("twice", "a command of %s ran twice in one build" % (k,)))
                g = p.gens.get(k[1])
                if ran[k] and g is not None and len(c) != g.ncmd:
                    ran[k] = False
                    if run.ok:
                        bad.append(("commands", "%s ran %d of %d commands" % (k, len(c), g.ncmd)))
            elif c != 1:
                bad.append(("twice", "step %s ran %d times in one build" % (k, c)))
        must, may = {}, {}
        for k in sorted(cur, key=lambda k: {"gen": 0, "pch": 1, "obj": 2, "link": 3}[k[0]]):
            m = self.okin.get(k, "never") != cur[k]
            y = m or self.last.get(k, "never") != cur[k] or k in self.sticky
            if k[0] == "obj" and ("pch", k[1]) in ran:
                y = True
            if k[0] == "link" and any(r[1] == k[1] and r[0] in ("pch", "obj") for r in ran):
                y = True
            if k[0] == "link" and run.ok and any(r[1] == k[1] and r[0] in ("pch", "obj") for r in ran):
                m = True
            must[k], may[k] = m, y
        for k in ran:
            if k not in cur:
                bad.append(("unknown-step", "ran %s, which is no step of the project" % (k,)))
            elif not may[k]:
                bad.append(("needless:" + k[0], "ran %s although none of its declared inputs changed" % (k,)))
        if run.ok:
            for k in cur:
                if must[k] and k not in ran:
                    bad.append(("missed:" + k[0], "did not run %s although it is out of date" % (k,)))
        # update
        for k in cur:
            if k in ran:
                self.okin[k] = cur[k] if ran[k] else None
            if run.ok or ran.get(k):
                self.sticky.discard(k)
            elif may[k]:
                self.sticky.add(k)
        for k in list(self.okin):
            if k not in cur and k[0] == "gen" and run.ok:
                self.okin.pop(k)   # removed generator steps are forgotten; anything else may or may not be
        self.sticky &= set(cur)
        self.last = dict(cur)
        self.stats = {"ran": len(ran), "must": sum(must.values()), "may": sum(may.values()), "steps": len(cur)}
        self.ran = ran
        return bad
