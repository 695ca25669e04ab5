"""C25: files are classified by extension, other extensions are refused, globbing takes exactly the matching entries, paths have one normal form."""
import os

from vlib.check import Check
from vlib.world import World

DEF = {"c": [".c"], "cpp": [".cpp", ".cxx", ".cc"], "asm": [".s", ".S", ".asm"], "h": [".h", ".hpp"]}
EXTS = [".c", ".C", ".cpp", ".cc", ".cxx", ".CPP", ".c++", ".s", ".S", ".asm", ".ASM", ".sx", ".h", ".hpp", ".H", ".hh", ".inl", ".o", ".txt", ".", ".cu", ".é", ".c ", ".cp", ".cppx", ".x-y", ""]
STEMS = ["f", "main", "a.b", "x.c", ".hid", "..dots", "é", "a b", "f.cpp.bak", "UP", "-d", "lib.so.1", "名", "c", "cpp", "h"]
TOOLOF = {"c": "gcc", "cpp": "g++", "asm": "as"}


def ext_of(name):
    """extension of a file name: from the last dot, which must not be the first character"""
    base = name.rsplit("/", 1)[-1]
    if base in (".", ".."):
        return ""
    k = base.rfind(".")
    return base[k:] if k > 0 else ""


def cls_of(cfg, name):
    e = ext_of(name)
    if not e:
        return None
    for k in ("c", "cpp", "asm", "h"):
        if e in cfg[k]:
            return k
    return None


def spell(rng, p, exists=False):
    """another spelling of the same absolute path (no symbolic links are involved); exists: every directory it names exists"""
    parts = p.split("/")[1:]
    out = []
    for q in parts[:-1]:
        out.append(q)
        x = rng.random()
        if x < 0.12:
            out.append(".")
        elif x < 0.2:
            out.append("")
        elif x < 0.28:
            out += ["..", q] if exists else [rng.choice(["zz", "é", q]), ".."]
    out.append(parts[-1])
    return "/" + "/".join(out)


def main(only=None):
    ck = Check("C25", "trace_oracle",
               "one evaluation = one file added or globbed whose acceptance, recorded path and compiler are compared with an independent reading of its name and the toolchain's extension sets, or one path normalised; "
               "distinct = distinct (extension, class, way of adding, spelling differs, default or custom sets)",
               ["extension sets are disjoint", "a directory is not named like a source or header", "no symbolic links among the directories"], only)

    def config(rng):
        if rng.random() < 0.5:
            return None, DEF
        pool = [e for e in EXTS if e and e != "."]
        rng.shuffle(pool)
        cfg, k = {}, 0
        for c in ("c", "cpp", "asm", "h"):
            n = rng.choice([0, 1, 2, 4])
            cfg[c] = pool[k:k + n]
            k += n
        if not cfg["c"] + cfg["cpp"] + cfg["asm"]:
            cfg["c"] = [pool[k]]
        return cfg, cfg

    def tree(rng, w):
        dirs = {}
        for d in ("s/t", "d d", "é", "x.d", "deep/er/est"):
            os.makedirs(w.p(d))
        for d in rng.sample(["", "s", "s/t", "d d", "é", "x.d", "deep/er/est"], rng.choice([1, 2, 4])):
            names = set()
            for _ in range(rng.choice([0, 1, 4, 10])):
                names.add(rng.choice(STEMS) + rng.choice(EXTS))
            names = {n for n in names if n not in (".", "..")}
            dirs[d] = set()
            for n in sorted(names):
                p = w.p(os.path.join(d, n))
                if os.path.isdir(p):
                    continue
                w.write(p, "// %s\n" % n)
                dirs[d].add(n)
        return dirs

    def case(rng, i):
        w = World(subdir=rng.choice(["w", "w", "w é", "w(&)"]))
        try:
            custom, cfg = config(rng)
            dirs = tree(rng, w)
            exes = {"as": w.tool("as"), "cc": w.tool("gcc"), "cxx": w.tool("g++"), "ar": w.tool("ar"), "ld": w.tool("ld")}
            tc = {"do": "toolchain", "key": "tc", "kind": "gcc" if custom is None else "plain", "name": "tc", "exes": exes}
            if custom is not None:
                tc["config"] = dict(custom, obj_ext=".o", pch_header_ext=".h", pch_compile_ext=".gch", prefix_include_dir="-I", prefix_lib_dir="-L")
            cc = "{compiler} {compile_flags} -o {output} -c {input}"
            tg = {"do": "target", "key": "t", "name": "t", "tc": "tc"}
            if custom is None and rng.random() < 0.7:
                tg["cls"] = "static_gcc"
            else:
                tg.update(cls="custom", type="static", config={"ext": ".a", "pch": cc, "compile": cc, "link": "{archiver} rcs {output} {compiled_sources}"})
            rel = rng.choice(["", "", "s", "deep"])
            os.makedirs(w.p(rel), exist_ok=True)
            tg["env"] = {"rel": rel}
            root = os.path.normpath(w.p(rel))
            allf = [(d, n) for d in sorted(dirs) for n in sorted(dirs[d])]
            ops, want = [], {"src": [], "hdr": [], "pch": [], "inc": []}
            seen = []

            def note(kind, n, how, other):
                seen.append((kind, ext_of(n), cls_of(cfg, n), how, other))
            for _ in range(rng.choice([1, 3, 8, 15])):
                how = rng.choice(["src", "src", "src_abs", "hdr", "hdr_abs", "pch", "pch_abs", "glob_src", "glob_src_abs", "glob_hdr", "glob_hdr_abs", "incg", "inc"])
                if how.startswith("glob") or how.startswith("inc"):
                    d = rng.choice(sorted(dirs))
                    p = os.path.normpath(w.p(d))
                    rp = os.path.relpath(p, root)
                    if how == "glob_src":
                        ops.append(["glob_src", "" if rp == "." and rng.random() < 0.5 else rp])
                    elif how == "glob_src_abs":
                        ops.append(["glob_src_abs", spell(rng, p, True)])
                    elif how == "glob_hdr":
                        ops.append(["glob_hdr", rp])
                    elif how == "glob_hdr_abs":
                        ops.append(["glob_hdr_abs", spell(rng, p, True)])
                    elif how == "incg":
                        ops.append(rng.choice([["inc", rp, True], ["inc_abs", p, True]]))
                        want["inc"].append(p)
                    else:
                        ops.append(["inc", rp, False])
                        want["inc"].append(p)
                        continue
                    k = "src" if "src" in how else "hdr"
                    m = [os.path.join(p, n) for n in dirs[d] if (cls_of(cfg, n) in ("c", "cpp", "asm") if k == "src" else cls_of(cfg, n) == "h")]
                    want[k].append(sorted(m))
                    for n in dirs[d]:
                        note(k, n, how, os.path.join(p, n) in m)
                    continue
                if not allf:
                    continue
                d, n = rng.choice(allf)
                kind = how[:3]
                c = cls_of(cfg, n)
                if (kind == "src" and c not in ("c", "cpp", "asm")) or (kind != "src" and c != "h"):
                    continue
                p = os.path.normpath(w.p(os.path.join(d, n)))
                other = False
                if how.endswith("_abs"):
                    q = spell(rng, p)
                    other = q != p
                    ops.append([how, q])
                else:
                    rp = os.path.relpath(p, root)
                    x = rng.random()
                    if x < 0.4:
                        ops.append([how, rp])
                    elif x < 0.6:
                        ops.append([how, rng.choice(["./", "zz/../", ".//"]) + rp])
                        other = True
                    else:
                        ops.append([how, os.path.basename(rp), os.path.dirname(rp) + rng.choice(["", "/", "/."])] if os.path.dirname(rp) else [how, rp, ""])
                        other = True
                want[kind].append(p)
                note(kind, n, how, other)
            # one file that must be refused
            refuse = None
            if rng.random() < 0.4:
                kind = rng.choice(["src", "src_abs", "hdr", "hdr_abs", "pch", "pch_abs"])
                cand = rng.choice(STEMS) + rng.choice(EXTS)
                c = cls_of(cfg, cand)
                if cand not in (".", "..") and not (c in ("c", "cpp", "asm") if kind.startswith("src") else c == "h"):
                    p = w.p("sub-refused/" + cand)
                    w.write(p, "x")
                    refuse = (kind, cand)
                    ops.append([kind, p if kind.endswith("_abs") else os.path.relpath(p, root)])
                    note(kind, cand, "refused", False)
            acts = [tc, tg, {"do": "ops", "b": "t", "ops": ops}, {"do": "mark", "key": "ops"}, {"do": "info_dump", "b": "t"}]
            nosrc = not [x for x in want["src"] if x]
            if not nosrc:
                acts += [{"do": "build", "b": "t", "via": [True, True]}, {"do": "run"}]
            r = w.run(acts, workers=rng.choice([1, 4]))
            data = {"config": cfg, "ops": ops, "want": want, "run": r.brief(), "obs": r.obs}

            def bad(key, msg):
                ck.violation(key, msg, data, ("add", i))
            ck.evaluated(len(seen), {"ops": ops[:4]} if i < 6 else None)
            for s in seen:
                ck.see(list(s) + [custom is None])
                ck.count("class_%s" % s[2])
            if refuse:
                if r.o("info_dump") or r.rc == 0 or any(e["ev"] == "mark" for e in r.events):
                    return bad("accepted", "%s was accepted by %s, extension sets %s" % (refuse[1], refuse[0], cfg))
                if r.rc < 0:
                    return bad("crash", "refusing %s crashed (signal %d)" % (refuse[1], -r.rc))
                return
            if not r.o("info_dump"):
                return bad("refused", "valid files were refused (status %s): %s" % (r.rc, r.out[-300:]))
            if r.rc != 0:
                return bad("build-failed", "the build failed with status %s: %s" % (r.rc, (r.out + r.err)[-300:]))
            v = r.o("info_dump")[0]["v"]
            for k, n in (("src", "sources"), ("hdr", "headers"), ("pch", "pchs"), ("inc", "incs")):
                got = list(v[n])
                for x in want[k]:
                    if isinstance(x, list):
                        head, got = sorted(got[:len(x)]), got[len(x):]
                        if head != x:
                            return bad("glob-" + k, "globbing took %s, matching entries are %s" % (head, x))
                    else:
                        if not got or (got[0] if k != "inc" else os.path.normpath(got[0])) != x:
                            return bad("path-" + k, "%s was recorded as %r" % (x, got[:1]))
                        got = got[1:]
                if got:
                    return bad("extra-" + k, "files were recorded that nobody added: %s" % got)
            if nosrc:
                return
            comp = {}
            for s in r.steps():
                if s.kind == "compile":
                    comp.setdefault(os.path.normpath(s.src), []).append(os.path.basename(s.argv[0]))
            exp = {}
            for x in want["src"]:
                for p in (x if isinstance(x, list) else [x]):
                    exp[p] = [TOOLOF[cls_of(cfg, p)]]
            if comp != exp:
                d = [(p, comp.get(p), exp.get(p)) for p in sorted(set(comp) | set(exp)) if comp.get(p) != exp.get(p)]
                return bad("compiler", "source, compilers run, expected: %s" % d[:4])
            ck.evaluated(len(exp))
        finally:
            w.close()

    def pure(rng, i):
        """classification and normalisation of many names in one process"""
        w = World()
        try:
            names = []
            for _ in range(120):
                n = rng.choice(STEMS + ["", ".", ".."]) + rng.choice(EXTS + ["", "..", ".c.", "..c"])
                names.append(rng.choice(["", "d.c/", "/abs.h/", "a/../", "./"]) + n)
            custom, cfg = config(rng)
            ps = []
            for _ in range(60):
                parts = [rng.choice(["a", "b.c", "..", ".", "", "é", "x y", "...", "..a", "a"]) for _ in range(rng.choice([1, 2, 4, 8, 12]))] + [rng.choice(["f", "f.c", "é"])]
                ps.append(rng.choice(["", "/"]) + "/".join(parts))
            probes = [{"f": "ext", "config": custom or {}, "paths": names}] + [{"f": "pathstr", "s": p} for p in ps]
            r = w.run(script={"probes": probes})
            pr = [o["r"] for o in r.o("probe")]
            data = {"run": r.brief(), "config": cfg, "names": names}
            if r.rc != 0 or len(pr) != len(probes):
                ck.violation("probe-failed", "classification ended with status %s" % r.rc, data, ("pure", i))
                return
            for n, g in zip(names, pr[0]["v"]):
                c = cls_of(cfg, n)
                want = [c or "none", c in ("c", "cpp", "asm"), c == "h"]
                ck.evaluated(1)
                ck.see(["pure", ext_of(n), c, custom is None])
                if g != want:
                    ck.violation("class", "%r is classified as %s, expected %s with %s" % (n, g, want, cfg), data, ("pure", i))
                    return
            for p, g in zip(ps, pr[1:]):
                while p.startswith("//"):
                    p = p[1:]
                want = os.path.normpath(p)
                ck.evaluated(1)
                s = g.get("v")
                if s != want:
                    ck.violation("normal-form", "%r is recorded as %r, expected %r" % (p, s, want), data, ("pure", i))
                    return
        finally:
            w.close()

    def missing(rng, i):
        w = World()
        try:
            op = rng.choice(["glob_src", "glob_src_abs", "glob_hdr", "glob_hdr_abs"])
            arg = rng.choice(["nothere", "afile.c"])
            w.write("afile.c", "x")
            r = w.run([{"do": "toolchain", "key": "tc", "kind": "gcc", "name": "tc"}, {"do": "target", "key": "t", "name": "t", "cls": "exe_gcc", "tc": "tc"},
                       {"do": "ops", "b": "t", "ops": [[op, w.p(arg) if op.endswith("abs") else arg]]}, {"do": "info_dump", "b": "t"}])
            ck.evaluated(1)
            if r.rc == 0:
                ck.violation("glob-missing", "globbing something that is not a directory succeeded", {"op": op, "run": r.brief()}, ("missing", i))
        finally:
            w.close()

    ck.cases("add", ck.n(4000, 40000), case)
    ck.cases("pure", ck.n(400, 4000), pure)
    ck.cases("missing", ck.n(8, 40), missing)
    return ck.finish()
