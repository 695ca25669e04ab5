"""C22: compile_commands.json is valid JSON and says exactly what was executed, through any rebuild history."""
import json
import os
import shlex

from vlib import hostile
from vlib.check import Check
from vlib.project import Project
from vlib.world import World


def main(only=None):
    ck = Check("C22", "trace_oracle",
               "one evaluation = one entry of a compile_commands.json compared with the command last executed for that source; after every run in which a listed target was rebuilt the set of entries is compared with the "
               "sources of the listed targets; distinct = distinct (edit kinds, rebuilt targets, entries, listed targets, hostile names and flags)",
               ["texts are valid UTF-8", "a target is added once"], only)

    def load(w):
        with open(os.path.join(w.out, "compile_commands.json"), "rb") as f:
            return json.loads(f.read().decode("utf-8"))

    def case(rng, i):
        w = World(subdir=rng.choice(["w", "w", "w é x", "w&'x"]))
        try:
            hn, hf = rng.random() < 0.5, rng.random() < 0.5
            p = Project(w, hostile.name if hn else None, hostile.flagtext() if hf else None)
            p.random(rng, ntargets=rng.choice([1, 2, 3, 5]))
            last, hist = {}, []
            listed = [t for t in p.targets if rng.random() < 0.8]
            for rnd in range(ck.n(6, 12)):
                if rnd:
                    for _ in range(rng.choice([1, 1, 2, 4])):
                        hist.append(p.random_edit(rng))
                listed = [t for t in listed if t in p.targets]
                if rng.random() < 0.2:
                    listed = [t for t in p.targets if rng.random() < 0.8]
                rng.shuffle(listed)
                cc = [{"do": "cc", "targets": list(listed)}]
                if rng.random() < 0.2:
                    cc = cc * 2
                acts = p.actions(rng, post=cc)
                if rng.random() < 0.2:
                    acts = p.actions(rng) + cc
                f = os.path.join(w.out, "compile_commands.json")
                if rnd and rng.random() < 0.1 and os.path.exists(f):
                    with open(f, "w") as fh:
                        fh.write("[ {\n" * rng.choice([1, 5000]))
                plan = []
                if rng.random() < 0.15:
                    ss = [s for t in p.targets.values() for s in p.all_srcs(t)]
                    if ss:
                        plan = [("-c\x1f" + rng.choice(ss) + "\x1f", "exit=1")]
                r = w.run(acts, workers=rng.choice([1, 2, 4, 8]), plan=plan)
                data = {"hist": hist, "script": acts, "run": r.brief()}

                def bad(key, msg):
                    ck.violation(key, "after %s: %s" % (hist[-3:], msg), data, ("hist", i))
                built = set()
                for s in r.steps():
                    t = p.builder_of(s)
                    if s.kind in ("compile", "link", "pch"):
                        built.add(t)
                    if s.kind == "compile":
                        last[(t, os.path.normpath(s.src))] = s.argv
                if not r.ok:
                    if plan and r.rc == 1:
                        ck.count("failed_builds")
                        continue
                    return bad("build-failed", "the build failed with status %s" % r.rc)
                if len(r.o("cc_done")) != len(cc):
                    return bad("not-generated", "generation did not complete")
                ck.see([sorted({h.split()[0] for h in hist[-3:]}), len(built & set(listed)), len(listed), hn, hf])
                if not (built & set(listed)):
                    ck.count("nothing_listed_rebuilt")
                    continue
                try:
                    es = load(w)
                except (OSError, ValueError) as e:
                    return bad("invalid", "compile_commands.json cannot be read: %s" % e)
                want = sorted((s, t) for t in listed for s in set(p.all_srcs(p.targets[t])))
                got = sorted(os.path.normpath(e["file"]) for e in es)
                if got != [s for s, _ in want]:
                    return bad("entries", "lists %s, the sources of %s are %s" % (got, listed, [s for s, _ in want]))
                left = {}
                for s, t in want:
                    left.setdefault(s, []).append(last.get((t, s)))
                for e in es:
                    ck.evaluated(1, e if i < 4 else None)
                    if set(e) < {"directory", "command", "file"} or os.path.normpath(e["directory"]) != os.path.normpath(w.out):
                        return bad("directory", "entry %s does not give the build directory %s" % (e, w.out))
                    try:
                        a = shlex.split(e["command"])
                    except ValueError:
                        a = None
                    if a not in left[os.path.normpath(e["file"])]:
                        return bad("command", "entry for %s gives %r, executed was %s" % (e["file"], e["command"], left[os.path.normpath(e["file"])]))
                    left[os.path.normpath(e["file"])].remove(a)
        finally:
            w.close()

    def families(rng, i):
        """one build of targets of the other command families, with the entry's command compared with the executed one"""
        w = World(subdir=rng.choice(["w", "w x"]))
        try:
            tc = rng.choice(["msvc", "mingw", "gcc"])
            exes = {"as": w.tool("as"), "cc": w.tool("gcc"), "cxx": w.tool("g++"), "ar": w.tool("ar"), "ld": w.tool("ld")}
            if tc == "msvc":
                exes = {"as": w.tool("cl"), "cc": w.tool("cl"), "cxx": w.tool("cl"), "ar": w.tool("lib"), "ld": w.tool("link")}
            acts = [{"do": "toolchain", "key": "tc", "kind": "generic", "id": tc, "name": "tc", "exes": exes}]
            listed, srcs = [], {}
            for k in range(rng.choice([1, 2, 4])):
                n = "t%d" % k
                fam = rng.choice([tc, "generic", "custom"])
                kind = rng.choice(["exe", "static", "dyn"])
                if fam == "custom":
                    a = {"do": "target", "key": n, "cls": "custom", "type": {"dyn": "dynamic"}.get(kind, kind), "name": n, "tc": "tc",
                         "config": {"ext": ".x", "pch": "{compiler} {input}", "compile": '{compiler} {compile_flags} -DX="q\\"q" {include_dirs} -o {output} -c {input}', "link": "{cpp_compiler} {compiled_sources} -o {output}"}}
                else:
                    a = {"do": "target", "key": n, "cls": kind + "_" + fam, "name": n, "tc": "tc"}
                ops = []
                for s in range(rng.choice([1, 2, 6])):
                    f = "%s_%d%s%s" % (n, s, rng.choice(["", " é", "-x"]), rng.choice([".c", ".cpp", ".cc", ".cxx", ".s", ".S", ".asm"]))
                    w.write(f, "x\n")
                    ops.append(["src", f])
                    srcs[w.p(f)] = n
                for fk in ("f_pre", "f_common", "f_c", "f_cpp", "f_asm"):
                    if rng.random() < 0.5:
                        ops.append([fk, hostile.flagtext("-D")(rng, fk, rng.randrange(9))])
                if rng.random() < 0.5:
                    os.makedirs(w.p("inc d"), exist_ok=True)
                    ops.append(["inc", "inc d"])
                a["ops"] = ops
                acts.append(a)
                listed.append(n)
            acts += [{"do": "build", "b": n, "via": [True, True]} for n in listed] + [{"do": "run", "post": [{"do": "cc", "targets": listed}]}]
            r = w.run(acts, workers=4)
            data = {"script": acts, "run": r.brief()}
            if not r.ok:
                ck.violation("build-failed", "the build failed with status %s" % r.rc, data, ("families", i))
                return
            ex = {}
            for s in r.steps():
                if s.kind == "compile":
                    ex[os.path.normpath(s.src)] = s.argv
            try:
                es = load(w)
            except (OSError, ValueError) as e:
                ck.violation("invalid", "compile_commands.json cannot be read: %s" % e, data, ("families", i))
                return
            ck.see([tc, sorted(a.get("cls") for a in acts if a["do"] == "target"), len(es)])
            if sorted(os.path.normpath(e["file"]) for e in es) != sorted(srcs):
                ck.violation("entries", "lists %s, sources are %s" % (es, sorted(srcs)), data, ("families", i))
                return
            for e in es:
                ck.evaluated(1)
                if shlex.split(e["command"]) != ex.get(os.path.normpath(e["file"])) or os.path.normpath(e["directory"]) != w.out:
                    ck.violation("command", "entry %s, executed was %s" % (e, ex.get(os.path.normpath(e["file"]))), data, ("families", i))
                    return
        finally:
            w.close()

    ck.cases("hist", ck.n(400, 3000), case)
    ck.cases("families", ck.n(500, 4000), families)
    return ck.finish()
