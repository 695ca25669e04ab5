"""C28: what a builder says about itself (paths, settings, commands, whether it was built, its place in the graph) is what it does."""
import os
import re
import shlex

from checks.c13 import Fatal, Unspecified, ref
from vlib import hostile
from vlib.check import Check
from vlib.dag import Dag
from vlib.project import FLAGS, Project
from vlib.world import World

TYPE = {"exe_gcc": 0, "static_gcc": 1, "dyn_gcc": 2}
CLUSTER = re.compile(r'^subgraph cluster_(\w+) \{$')
NODE = re.compile(r'^(p0x[0-9a-f]+)\[(?:shape=(\w+), color=\w+, )?label="(.*)" ?\];$')
EDGE = re.compile(r'^(p0x[0-9a-f]+) ?-> ?(p0x[0-9a-f]+);$')


def drawn(text):
    """a drawing of the task graph: {builder: its module}, edges (before, after) between builders, {module: task names inside}"""
    top, inner, ids = {}, {}, {}
    cur, depth = None, 0
    for line in text.split("\n"):
        if CLUSTER.match(line) or line.startswith("digraph"):
            depth += 1
        elif line == "}":
            depth -= 1
        elif depth == 2 and line.startswith('label="'):
            cur = line[7:-2]
        else:
            m = NODE.match(line)
            if m and m.group(2) == "box3d":
                ids[m.group(1)], mod = re.match(r"(.*) \[(m\d+)\]$", m.group(3)).groups()
                top[ids[m.group(1)]] = mod
            elif m:
                inner.setdefault(cur, []).append(m.group(3))
    edges = set()
    for line in text.split("\n"):
        m = EDGE.match(line)
        if m and m.group(1) in ids and m.group(2) in ids:
            edges.add((ids[m.group(1)], ids[m.group(2)]))
    return top, edges, inner


def uniq(l):
    return list(dict.fromkeys(l))


def main(only=None):
    ck = Check("C28", "trace_oracle",
               "one evaluation = one builder asked about itself in one run (before the build or after it) and every answer compared with what was declared and with the executed steps: settings, paths, commands, "
               "whether it was built; or one drawing of the task graph compared with the declared builders, their dependencies and the executed steps; or one value / pattern asked from a generator; "
               "distinct = distinct (kind, edits, which steps ran, sizes of the settings, names, moment) states",
               ["texts are valid UTF-8"], only)

    def judge(p, r, moment, last, n, hn):
        """one answer of target `n`; returns a message or None"""
        t = p.targets[n]
        o = [x["v"] for x in r.o("dump") if x["b"] == n]
        v = o[moment]
        want = {"sources": p.all_srcs(t), "headers": [p.abs(x) for x in t.hdrs + t.gen_hdrs], "pchs": [p.abs(x) for x in t.pchs],
                "cdeps": [p.abs(x) for x in t.cdeps], "ldeps": [p.abs(x) for x in t.ldeps]}
        for k, x in want.items():
            if sorted(os.path.normpath(y) for y in v[k]) != sorted(set(x)):
                return k, "says its %s are %s, declared were %s" % (k, v[k], x)
        for k, x in (("incs", t.incs), ("libdirs", t.libdirs)):
            if [os.path.normpath(y) for y in v[k]] != uniq(p.abs(y) for y in x):
                return k, "says its %s are %s, declared were %s" % (k, v[k], x)
        if v["extlibs"] != uniq(t.extlibs):
            return "extlibs", "says its external libraries are %s, declared were %s" % (v["extlibs"], t.extlibs)
        lp = {x: [y["v"]["path"] for y in r.o("dump") if y["b"] == x][0] for x in t.libs}
        if v["libs"] != [lp[x] for x in t.libs]:
            return "libs", "says its libraries are %s, declared were %s" % (v["libs"], lp)
        for k in FLAGS:
            a, b = uniq(p.eff_flags(t, k)[0]), v[k]
            extra = []
            if k == "f_common" and t.cls.startswith("dyn"):
                extra = ["-fpic"]
            if k == "f_pcho" and t.pchs:
                # a target that uses a precompiled header passes it to the compiler
                if not any(v["pch_header"] in x for x in b):
                    return k, "has precompiled headers, its flags for them are %s" % b
            if k == "f_pcho":
                b = [x for x in b if x in a or not ("-include" in x or x == "-H")]
            if sorted(b) != sorted(uniq(a + extra)) or [x for x in b if x in a] != a:
                return k, "says its %s are %s, declared were %s" % (k, v[k], a + extra)
        if v["name"] != n or n not in v["uid"] or p.TC not in v["uid"]:
            return "name", "calls itself %r and %r" % (v["name"], v["uid"])
        if v["type"] != TYPE[t.cls]:
            return "type", "is a %s and says its type is %s" % (t.cls, v["type"])
        tool = p.w.tool
        if v["tc"] != {"name": p.TC, "id": "gcc", "as": tool("as"), "cc": tool("gcc"), "cxx": tool("g++"), "ar": tool("ar"), "ld": tool("ld")}:
            return "toolchain", "says its toolchain is %s" % v["tc"]
        if os.path.normpath(v["root_dir"]) != os.path.normpath(p.abs("")):
            return "root", "says its folder is %s" % v["root_dir"]
        if os.path.normpath(v["build_dir"]) != os.path.normpath(p.target_dir(n)):
            return "build-dir", "says it builds in %s" % v["build_dir"]
        for k in ("path", "state_file", "pch_header", "pch_compile"):
            if not v[k].startswith(p.target_dir(n) + "/") and os.path.dirname(os.path.normpath(v[k])) != os.path.normpath(p.target_dir(n)):
                return k, "says its %s is %s, outside %s" % (k, v[k], p.target_dir(n))
        if moment == 0:
            if v["built"]:
                return "built", "says it was built before the build began"
            return None
        steps = [s for s in r.steps() if s.kind in ("compile", "pch", "link") and p.builder_of(s) == n]
        links = [s for s in steps if s.kind == "link"]
        if v["built"] != bool(links):
            return "built", "says built=%s, %d link steps ran" % (v["built"], len(links))
        for s in links:
            if os.path.normpath(s.out) != os.path.normpath(v["path"]):
                return "path", "says it is at %s, it was linked to %s" % (v["path"], s.out)
            last[(n, None)] = s.argv
        for s in steps:
            if s.kind == "compile":
                last[(n, os.path.normpath(s.src))] = s.argv
            if s.kind == "pch" and (os.path.normpath(s.out) != os.path.normpath(v["pch_compile"])):
                return "pch", "says its compiled header is %s, it was written to %s" % (v["pch_compile"], s.out)
        if not os.path.isfile(v["path"]):
            return "path", "says it is at %s, no such file" % v["path"]
        if not os.path.isfile(v["state_file"]):
            return "state", "says its state is in %s, no such file" % v["state_file"]
        if t.pchs:
            if not os.path.isfile(v["pch_header"]) or not os.path.isfile(v["pch_compile"]):
                return "pch", "says its header and its compiled header are %s and %s, no such files" % (v["pch_header"], v["pch_compile"])
            with open(v["pch_header"], encoding="utf-8", errors="surrogateescape") as f:
                if any(h not in f.read() and not f.seek(0) for h in want["pchs"][:1]):
                    return "pch", "does not name %s in %s" % (want["pchs"], v["pch_header"])
        cmds = dict(v["compile_commands"])
        cmds[None] = v["link_command"]
        if len(cmds) != len(v["sources"]) + 1:
            return "commands", "has commands for %s" % sorted(x for x in cmds if x)
        for s, c in cmds.items():
            k = (n, s and os.path.normpath(s))
            try:
                a = shlex.split(c)
            except ValueError:
                a = None
            if k not in last:
                return "commands", "has a command for %s, no such step ever ran" % (k,)
            x = last[k]
            if s is None:
                # objects may be listed in another order than when they were last linked
                if a is None or sorted(a) != sorted(x) or links and a != x:
                    return "commands", "says it is linked by %r, executed was %s" % (c, x)
            elif a != x:
                return "commands", "says %s is compiled by %r, executed was %s" % (s, c, x)
        ck.see([t.cls, hn, moment, len(steps), bool(links), [len(v[k]) for k in sorted(want)], len(t.pchs)])
        return None

    def judge_graph(p, r, k, after):
        g = [x["v"] for x in r.o("graph") if x["n"] == k]
        if len(g) != 1:
            return "graph", "no drawing of the graph"
        top, edges, inner = drawn(g[0])
        names = {n: n for n in p.gens}
        names.update({n: "[%s] %s" % (p.TC, n) for n in p.targets})
        if sorted(top) != sorted(names.values()):
            return "graph", "the graph has %s, the builders are %s" % (sorted(top), sorted(names.values()))
        want = {(names[b], names[a]) for a, b in p.deps}
        if edges != want:
            return "graph-edges", "the graph has the edges %s, declared were %s" % (sorted(edges - want), sorted(want - edges))
        if after:
            def rel(f):
                return os.path.relpath(f, os.path.normpath(p.abs("")))
            for n, t in p.targets.items():
                # every source and every precompiled header is a task of its target, whether or not it had to run
                has = inner.get(top[names[n]], [])
                for f in sorted(set(p.all_srcs(t) + [p.abs(x) for x in t.pchs])):
                    if has.count(rel(f)) != 1:
                        return "graph-tasks", "%s has %d tasks called %s in the graph (%s)" % (n, has.count(rel(f)), rel(f), has)
            for s in r.steps():
                if s.kind == "compile":
                    b = p.builder_of(s)
                    if rel(os.path.normpath(s.src)) not in inner.get(top[names[b]], []):
                        return "graph-tasks", "%s compiled %s, its tasks in the graph are %s" % (b, s.src, inner.get(top[names[b]]))
                if s.kind == "gen" and s.id not in inner.get(top[names[s.gen]], []):
                    return "graph-tasks", "%s generated %s, its tasks in the graph are %s" % (s.gen, s.id, inner.get(top[names[s.gen]]))
        return None

    def case(rng, i):
        w = World(subdir=rng.choice(["w", "w", "w é x", "w;(x)"]))
        try:
            hn = rng.random() < 0.3
            if i % 4 == 3:
                p = Dag(w).build_random(rng, rng.choice([2, 5, 9, 14]))
            else:
                p = Project(w, hostile.name if hn else None).random(rng, ntargets=rng.choice([1, 2, 3]))
            last, hist = {}, []
            for rnd in range(ck.n(4, 8)):
                if rnd:
                    for _ in range(rng.choice([1, 1, 2, 4])):
                        hist.append(p.random_edit(rng) if p.targets else p.e_gen_input(rng))
                ask = [{"do": "dump", "b": n} for n in p.targets]
                acts = p.actions(rng, post=ask + [{"do": "graph", "n": 1}])
                acts[-1:-1] = ask + [{"do": "graph", "n": 0}]
                r = w.run(acts, workers=rng.choice([1, 2, 4, 8]))
                data = {"hist": hist, "script": acts, "run": r.brief()}
                if not r.ok:
                    return ck.violation("build-failed", "after %s: the build failed with status %s" % (hist[-3:], r.rc), data, ("hist", i))
                for n in p.targets:
                    for moment in (0, 1):
                        ck.evaluated(1, [x["v"] for x in r.o("dump") if x["b"] == n][moment] if i < 2 and rnd == 0 else None)
                        m = judge(p, r, moment, last, n, hn)
                        if m:
                            return ck.violation(m[0], "after %s: target %s (%s the build) %s" % (hist[-3:], n, "after" if moment else "before", m[1]), data, ("hist", i))
                        ck.count("targets_asked")
                for k in (0, 1):
                    if hn:
                        break     # such names cannot be read back from a drawing
                    ck.evaluated()
                    m = judge_graph(p, r, k, k == 1)
                    if m:
                        return ck.violation(m[0], "after %s: %s" % (hist[-3:], m[1]), data, ("hist", i))
                    ck.count("graphs")
        finally:
            w.close()

    def gens(rng, i):
        """values of generators"""
        w = World()
        try:
            cls = rng.choice(["custom", "file", "template"])
            vals, ops = {}, []
            for k in range(rng.choice([0, 1, 3, 8])):
                n = rng.choice(["a", "name", "_x", "N9", "long_name_%d" % k])
                x = rng.choice(["", "v%d" % k, "-{%s}-" % rng.choice(list(vals) or ["current_build_dir"]), "a b", "é", "{{", "x" * 3000, "\n", "$HOME", "%s"])
                if n not in vals:
                    # a value is a pattern over the earlier ones
                    vals[n] = ref(x, dict(vals, current_build_dir=os.path.join(w.out, "g")))
                    ops.append(["pattern", n, x])
            acts = [{"do": "gen", "key": "g", "cls": cls, "name": "g", "ops": ops}]
            known = dict(vals, current_root_dir=w.p(""), current_build_dir=os.path.join(w.out, "g"))
            pats, fatal = {}, []
            for _ in range(30):
                t = "".join(rng.choice(["{%s}" % rng.choice(list(known)), "x", " ", "{{", "}}", "é", "\n"] + (["{a", "}", "{unknown}"] if rng.random() < 0.05 else [])) for _ in range(rng.choice([1, 2, 5])))
                try:
                    pats[t] = ref(t, known)
                except Fatal:
                    fatal.append({"get": [], "parse": [t]})
                except Unspecified:
                    pass
            fatal.append({"get": ["unknown"], "parse": []})
            get = sorted(vals)
            acts.append({"do": "gen_values", "b": "g", "get": get, "parse": list(pats)})
            bad = rng.choice(fatal) if rng.random() < 0.5 else None
            if bad:
                acts.append(dict(bad, do="gen_values", b="g"))
            r = w.run(acts)
            data = {"script": acts, "run": r.brief()}
            o = r.o("gen_values")
            if len(o) != 1 or r.rc != (1 if bad else 0):
                return ck.violation("values", "asking a generator for its values (%s) ended the script with status %s" % ("the last one wrong" if bad else "all right", r.rc), data, ("gens", i))
            o = o[0]
            for n, x in o["get"].items():
                ck.evaluated(1, [n, x] if i < 4 else None)
                if x != vals[n]:
                    return ck.violation("get", "the generator says %s is %r, it was given %r" % (n, x, vals[n]), data, ("gens", i))
            for t, x in zip(pats, o["parse"]):
                ck.evaluated()
                ck.see([cls, t, x])
                if x != pats[t]:
                    return ck.violation("parse", "the generator turns %r into %r, expected %r" % (t, x, pats[t]), data, ("gens", i))
        finally:
            w.close()

    ck.cases("hist", ck.n(160, 1600), case)
    ck.cases("gens", ck.n(150, 1500), gens)
    return ck.finish()
