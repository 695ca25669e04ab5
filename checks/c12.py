"""C12: each source has its own object inside the target's build directory; every file a build makes lies in its builder's directory."""
import os

from vlib.check import Check
from vlib.world import World, read_jsonl

LONG = "/".join("folder number %d of a long chain of folders that hold sources" % k for k in range(6))
DIRS = ["", "", "a", "a/b", "__", "__/a", "___", "a/__", "_", "..", "../a", "../__", "../../z", "../../a/b", "../..", "a/../c", "./a", "..x", "x..", ".h", "a.c.o", "a.cpp.o", "f.c.o", "f.c.o_", "a/f.c.o",
        "T", "T_", "T__", "T.bin", "T.bin_", "T/a", "buildcc_pch.h", "buildcc_pch.h.gch", "buildcc_pch.c", "buildcc_pch.cpp", "buildcc_pch.o", "buildcc_pch", "é", "名", "a b", "__ __", "out", "SIB",
        "A", "A/b", "a/B", LONG + "/x", LONG + "/y", LONG + "/x/y", LONG + "/X", "l" * 200 + "/1", "l" * 200 + "/2", "a&b", "(a)", "a[b]", "a*"]
BASES = ["f", "f", "f", "g", "main", "f.c", "f.c.o", "_", "__", "..f", "T", "buildcc_pch", "x y", "é", "F", "G", "b" * 240, "f[1]", "f1", "f*", "f?", "f(1)", "f&g", "f;g", "f'", "#f"]
EXTS = [".c", ".cpp", ".cc", ".cxx", ".s", ".S", ".asm", ".c", ".cpp"]
TNAMES = ["t", "t", "app", "foo_", "__x", "a", "lib.x", "t.o", "é", "a b", "f.c", "T.bin", "t.bin"]


def main(only=None):
    ck = Check("C12", "trace_oracle",
               "one evaluation = one source of an observed build: its compile output is inside its target's directory, differs from every other output of the target, and is the one the link receives; "
               "plus every file and folder found on disk after the build attributed to a builder; distinct = distinct (folder, base name, extension, kind of target root, target name) placements seen",
               ["target names do not consist of underscores alone", "a target is not named so that its own output is called like an object of one of its sources (source file name plus object extension)",
                "generator outputs are written by the user's own commands; only files written by the library and its tools are attributed"], only)

    def case(rng, i):
        w = World()
        try:
            acts = [{"do": "toolchain", "key": "tc", "kind": "gcc", "name": rng.choice(["tc", "tc x", "__"]),
                     "exes": {"as": w.tool("as"), "cc": w.tool("gcc"), "cxx": w.tool("g++"), "ar": w.tool("ar"), "ld": w.tool("ld")}}]
            tcn = acts[0]["name"]
            tg, regs = [], []
            deep = os.path.join(w.proj, "p1", "p2")
            os.makedirs(deep)
            used = set()
            for k in range(rng.choice([1, 1, 2, 3])):
                nm = rng.choice([x for x in TNAMES if x not in used])
                used.add(nm)
                style = rng.choice(["exe_gcc", "static_gcc", "dyn_gcc", "exe_gcc", "bin", "elf"])
                a = {"do": "target", "key": nm, "name": nm, "tc": "tc", "cls": style}
                ext = {"exe_gcc": "", "static_gcc": ".a", "dyn_gcc": ".so", "bin": ".bin", "elf": ".elf"}[style]
                if style in ("bin", "elf"):
                    a.update(cls="custom", type="exe", config={"ext": ext, "compile": "{compiler} {include_dirs} {compile_flags} -o {output} -c {input}",
                                                               "pch": "{compiler} {include_dirs} {compile_flags} -o {output} -c {input}", "link": "{cpp_compiler} {compiled_sources} -o {output}"})
                er = rng.choice(["proj", "rel", "rel..", "abs", "absbuild"])
                root, bd = w.proj, w.out
                if er == "rel":
                    a["env"], root = {"rel": "p1/p2"}, deep
                elif er == "rel..":
                    a["env"], root = {"rel": "p1/p2/.."}, os.path.join(w.proj, "p1")
                elif er == "abs":
                    root, bd = deep, os.path.join(w.dir, "elsewhere")
                    a["env"] = {"root": root, "build": bd}
                elif er == "absbuild":
                    root, bd = w.out, w.out
                    a["env"] = {"root": root, "build": bd}
                b = os.path.join(bd, tcn, nm)
                t = {"name": nm, "root": root, "dir": b, "out": os.path.join(b, nm + ext), "srcs": {}, "er": er, "pch": rng.random() < 0.35, "style": style}
                ops = []
                for _ in range(rng.choice([1, 3, 6, 12])):
                    d = rng.choice(DIRS).replace("T", nm).replace("SIB", os.path.relpath(b, root) if rng.random() < 0.5 else "sib")
                    bs = rng.choice(BASES).replace("T", nm)
                    e = rng.choice(EXTS)
                    p = os.path.normpath(os.path.join(root, d, bs + e))
                    if not p.startswith(w.dir + "/") or p in t["srcs"] or p.startswith(os.path.join(w.dir, "run")) or p.startswith(w.bin):
                        continue
                    # a source is an ordinary file: its path must be possible next to the others
                    try:
                        w.write(p, "// %s\n" % p)
                    except (NotADirectoryError, IsADirectoryError, FileExistsError):
                        continue
                    q = p
                    while len(q) > len(w.dir):
                        q = os.path.dirname(q)
                    t["srcs"][p] = (d, bs, e)
                    ops.append(rng.choice([["src_abs", p], ["src_abs", os.path.join(root, d, bs + e)], ["src", os.path.join(d, bs + e)], ["src", bs + e, d]]))
                if not t["srcs"]:
                    p = os.path.join(root, "only.c")
                    w.write(p, "//\n")
                    t["srcs"][p] = ("", "only", ".c")
                    ops.append(["src_abs", p])
                if t["pch"]:
                    p = os.path.join(w.proj, "hh.h")
                    w.write(p, "//\n")
                    ops.append(["pch_abs", p])
                rng.shuffle(ops)
                acts.append(a)
                regs.append({"do": "build", "b": nm, "via": [True, True], "ops": ops})
                tg.append(t)
            gens = []
            for g in range(rng.choice([0, 0, 1])):
                acts.append({"do": "gen", "key": "G%d" % g, "cls": "custom", "name": "G%d" % g})
                regs.append({"do": "build", "b": "G%d" % g, "via": [True, True], "ops": [["id", "one", [], ["{current_build_dir}/o.out"], {}, None]]})
                gens.append(os.path.join(w.out, "G%d" % g))
            # a source lying inside a build directory must not be an output of the build itself
            outs = set()
            for t in tg:
                outs |= {t["out"], t["dir"] + "/" + t["name"] + ".bin", t["dir"] + "/" + t["name"] + ".state.bin"} | {t["dir"] + "/buildcc_pch" + x for x in (".h", ".h.gch", ".c", ".cpp", ".o")}
            if any(s in outs or any(s.startswith(o + "/") for o in outs) for t in tg for s in t["srcs"]):
                return
            before = listing(w)
            if any(os.path.exists(o) for o in outs):
                return
            acts += regs + [{"do": "run"}]
            r = w.run(acts)
            case_ = ("layout", i)
            data = {"script": acts, "run": r.brief()}

            def bad(key, msg):
                ck.violation(key, msg, data, case_)
            objs = {}
            for s in r.steps():
                if s.kind not in ("compile", "link", "pch"):
                    continue
                own = None
                for t in tg:
                    if s.out and os.path.normpath(s.out).startswith(t["dir"] + "/"):
                        own = t
                if own is None:
                    return bad("outside", "output %s lies in no target's build directory" % s.out)
                if s.kind == "compile":
                    if s.src not in own["srcs"]:
                        return bad("foreign", "%s is written into the directory of target %s, which does not have that source" % (s.src, own["name"]))
                    o = os.path.normpath(s.out)
                    if o in objs:
                        return bad("collision", "sources %s and %s share the object %s" % (objs[o][1], s.src, o))
                    objs[o] = (own, s.src)
                    if o in outs:
                        return bad("collision", "object %s of %s is another file of the target" % (o, s.src))
                    ck.evaluated(1, {"src": s.src[len(w.dir):], "obj": o[len(w.dir):]} if i < 12 else None)
                    ck.see([own["srcs"][s.src], own["er"], own["name"], own["style"]])
                if s.kind == "link":
                    if os.path.normpath(s.out) != own["out"]:
                        return bad("output", "target %s was linked to %s instead of %s" % (own["name"], s.out, own["out"]))
                    mine = sorted(o for o, x in objs.items() if x[0] is own)
                    if sorted(map(os.path.normpath, s.objs)) != mine:
                        return bad("link", "target %s links %s, compiled %s" % (own["name"], sorted(s.objs), mine))
            if not r.ok:
                return bad("status", "the build failed: %s" % r.err[-400:])
            for o in objs:
                if not os.path.isfile(o):
                    return bad("lost", "object %s is not a file after the build" % o)
                with open(o, "rb") as f:
                    if not f.read(4) == b"FCC ":
                        return bad("overwritten", "object %s was overwritten" % o)
            for t in tg:
                with open(t["out"], "rb") as f:
                    if f.read(4) != b"FCC ":
                        return bad("overwritten", "the output %s of target %s was overwritten by another file" % (t["out"], t["name"]))
            homes = [t["dir"] for t in tg] + gens
            for f in sorted(listing(w) - before):
                ck.count("files_attributed")
                if not any(f == h or f.startswith(h + "/") or h.startswith(f + "/") for h in homes):
                    return bad("stray", "the build created %s, which is in no builder's directory" % f)
            # the next build recognises everything
            r2 = w.run(acts)
            if not r2.ok or r2.steps():
                return bad("again", "building again ran %s (status %s)" % ([s.name() for s in r2.steps()][:5], r2.rc))
        finally:
            w.close()

    def listing(w):
        res = set()
        for d, ds, fs in os.walk(w.dir):
            if d == w.dir:
                ds[:] = [x for x in ds if x not in ("run", "bin")]
            res |= {os.path.join(d, x) for x in fs + ds}
        return res

    ck.cases("layout", ck.n(1500, 15000), case)
    return ck.finish()
