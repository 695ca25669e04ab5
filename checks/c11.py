"""C11: every compile, precompile and link command carries exactly the configured inputs, in order."""
import os

from vlib import cmdref as R
from vlib.check import Check
from vlib.world import World

FL = ["f_pre", "f_common", "f_pchc", "f_pcho", "f_asm", "f_c", "f_cpp", "f_link"]
TYPES = {"exe": "exe", "static": "static", "dyn": "dynamic"}
# placeholders a user template may name, with the reference value they stand for
PLACE_OBJ = {"preprocessor_flags": "f_pre", "include_dirs": "incs", "common_compile_flags": "f_common", "pch_object_flags": "f_pcho", "compile_flags": "f_lang",
             "asm_compiler": "as", "c_compiler": "cc", "cpp_compiler": "cxx", "archiver": "ar", "linker": "ld", "link_flags": "f_link", "lib_dirs": "libdirs"}
PLACE_PCH = dict(PLACE_OBJ, pch_compile_flags="f_pchc", input_source="insrc1")
PLACE_LINK = {"link_flags": "f_link", "lib_dirs": "libdirs", "lib_deps": ("libs", "extlibs"), "preprocessor_flags": "f_pre", "common_compile_flags": "f_common", "include_dirs": "incs",
              "archiver": "ar", "c_compiler": "cc", "asm_compiler": "as"}


def custom_templates(rng):
    """random user templates: (strings, reference token lists)"""
    def mix(place, must, objs=False):
        ks = [k for k in place if rng.random() < 0.6]
        rng.shuffle(ks)
        body = [("{%s}" % k, place[k]) for k in ks] + [("-lit%d" % i, "-lit%d" % i) for i in range(rng.choice([0, 1, 2]))]
        if objs:
            body.append(("{compiled_sources}", "objs"))
        rng.shuffle(body)
        for m in must:
            body.insert(rng.randrange(len(body) + 1), m)
        s = " ".join(b[0] for b in body)
        toks = []
        for b in body:
            for x in (b[1] if isinstance(b[1], (tuple, list)) else [b[1]]):
                toks.append(x)
        return s, toks
    co, cr = mix(PLACE_OBJ, [("-o {output}", ["-o", "<out>"]), ("-c {input}", ["-c", "<in>"])])
    po, pr = mix(PLACE_PCH, [("-o {output}", ["-o", "<out>"]), ("-c {input}", ["-c", "<in>"])])
    lo, lr = mix(PLACE_LINK, [("-o {output}", ["-o", "<out>"])], True)
    return ({"compile": "{compiler} " + co, "pch": "{compiler} " + po, "link": "{linker} " + lo}, {"compile": ["compiler"] + cr, "pch": ["compiler"] + pr, "link": ["ld"] + lr})


def main(only=None):
    ck = Check("C11", "differential_oracle",
               "one evaluation = one observed tool invocation compared argument by argument with the reference expansion of its template (objects of a link in any order); distinct = distinct "
               "(toolchain family, target kind, step, template shape, numbers of arguments of each kind, spaces)",
               ["flags and external libraries are shell text written by the user and arrive as the shell splits them", "the order of object files among themselves is not specified"], only)

    def case(rng, i):
        sp = rng.random() < 0.5
        w = World(subdir=rng.choice(["w o r", "a b/c  d", "s p/é", "r&d/w", "w;x", "(w)"]) if sp else "w")
        try:
            n = [0]

            def uid():
                n[0] += 1
                return n[0]

            def deco():
                return rng.choice([" ", " x", "", "  two", "y z", "&y", "(1)", "[2]", "*", "?", ";z", "|", "<a>", "'s", "#", "!"]) if sp and rng.random() < 0.5 else ""

            def flags(k, pre="-"):
                out = []
                for _ in range(rng.choice([0, 0, 1, 2, 3])):
                    t = "%s%s%d" % (pre, {"f_pre": "DP", "f_link": "Wl,"}.get(k, "W" + k[2:]), uid())
                    t = rng.choice([t, t, '"%s=a b"' % t, t + "=1", t + " " + t + "x", "'%s=q\"q'" % t])
                    out.append(t)
                    if rng.random() < 0.15:
                        out.append(t)
                return out
            fam = rng.choice(["gcc", "gcc", "mingw", "msvc"])
            ref = R.FAMILY[fam]
            names = {"gcc": ("as", "gcc", "g++", "ar", "ld"), "mingw": ("as", "gcc", "g++", "ar", "ld"), "msvc": ("ml", "cl", "cl", "lib", "link")}[fam]
            exes = dict(zip(("as", "cc", "cxx", "ar", "ld"), (w.tool(x) for x in names)))
            if rng.random() < 0.4:       # each of the five tools its own executable name
                for k in exes:
                    t = os.path.join(w.bin, "my-%s%s" % (k, rng.choice(["", " x", "&x", "(x)"]) if sp else ""))
                    os.symlink(w.fcc, t)
                    exes[k] = t
            tcf = {k: flags(k) for k in FL}
            tcname = "tc%d%s" % (uid(), deco())
            kind = rng.choice(["own", "own", "generic"])
            acts = [{"do": "toolchain", "key": "tc", "kind": fam if kind == "own" else "generic", "id": fam, "name": tcname, "exes": exes, "flags": [[k, f] for k in FL for f in tcf[k]]}]
            if rng.random() < 0.3:
                late = {k: flags(k) for k in FL}
                acts.append({"do": "tc_flags", "tc": "tc", "flags": [[k, f] for k in FL for f in late[k]]})
                tcf = {k: tcf[k] + late[k] for k in FL}
            tgts, regs, deps = [], [], []
            for ti in range(rng.choice([1, 2, 3])):
                ty = rng.choice(["exe", "static", "dyn"])
                style = rng.choice(["own", "own", "generic", "generic2", "custom"])
                name = "t%d%s" % (uid(), deco())
                t = {"name": name, "ty": ty, "style": style, "flags": {k: flags(k) for k in FL}, "libs": [], "ext": [], "incs": [], "libdirs": [], "srcs": [], "pch": False}
                a = {"do": "target", "key": name, "name": name, "tc": "tc"}
                tref = {"pch": ref["pch"], "compile": ref["compile"], "link": ref[ty]}
                ext = ref["ext"][ty]
                if style == "own":
                    a["cls"] = "%s_%s" % (ty, fam)
                elif style == "generic":
                    a["cls"] = "%s_generic" % ty
                elif style == "generic2":
                    a["cls"], a["type"] = "generic", TYPES[ty]
                else:
                    cfg, tref = custom_templates(rng)
                    ext = rng.choice(["", ".elf", ".x y" if sp else ".z", ".a"])
                    a["cls"], a["type"], a["config"] = "custom", TYPES[ty], dict(cfg, ext=ext)
                t["ref"] = tref
                root, bdir = w.proj, w.out
                er = rng.random()
                if er < 0.3:
                    rel = "sub%d%s" % (uid(), deco())
                    os.makedirs(w.p(rel), exist_ok=True)
                    a["env"] = {"rel": rel}
                    root = w.p(rel)
                elif er < 0.5:
                    root = os.path.join(w.dir, "xroot%d%s" % (uid(), deco()))
                    bdir = os.path.join(w.dir, "xout%d%s" % (uid(), deco()))
                    os.makedirs(root)
                    a["env"] = {"root": root, "build": bdir}
                t["bdir"] = os.path.join(bdir, tcname, name)
                t["out"] = os.path.join(t["bdir"], name + ext)
                ops = []
                for _ in range(rng.choice([1, 2, 3, 5])):
                    e = rng.choice([".c", ".cpp", ".cc", ".cxx", ".s", ".S", ".asm"])
                    d = rng.choice(["", "a", "a/b c" if sp else "a/b"])
                    f = os.path.join(root, d, "f%d%s%s" % (uid(), deco(), e))
                    w.write(f, "// %d\n" % uid())
                    t["srcs"].append(f)
                    x = rng.random()
                    ops.append(["src_abs", f] if x < 0.3 else ["src", os.path.basename(f), d] if x < 0.6 else ["src", os.path.join(d, os.path.basename(f))])
                for kk, opn in (("incs", "inc"), ("libdirs", "libdir")):
                    for _ in range(rng.choice([0, 1, 2, 4])):
                        d = "d%d%s" % (uid(), deco())
                        os.makedirs(os.path.join(root, d))
                        t[kk].append(os.path.join(root, d))
                        ops.append([opn + "_abs", os.path.join(root, d)] if rng.random() < 0.4 else [opn, rng.choice(["", "./"]) + d])
                if rng.random() < 0.4:
                    t["pch"] = True
                    for _ in range(rng.choice([1, 2])):
                        f = os.path.join(root, "p%d%s.h" % (uid(), deco()))
                        w.write(f, "// pch\n")
                        ops.append(["pch", os.path.basename(f)])
                for _ in range(rng.choice([0, 1, 2])):
                    x = rng.choice(["-lx%d", '"-l y%d"', "x%d.lib"]) % uid()
                    if fam != "msvc" or style == "custom":
                        x = rng.choice(["-lx%d", '"-l y%d"']) % uid()
                    elif x.endswith(".lib"):
                        x = "-l" + x
                    t["ext"].append(x)
                    ops.append(["extlib", x])
                fops = [[k, f] for k in FL for f in t["flags"][k]]
                # the flags of one kind keep their order, everything else is interleaved
                allops = ops + fops
                keyed = {}
                for o in allops:
                    keyed.setdefault(o[0].replace("_abs", ""), []).append(o)
                seq = [k for k, v in keyed.items() for _ in v]
                rng.shuffle(seq)
                its = {k: iter(v) for k, v in keyed.items()}
                ops = [next(its[k]) for k in seq]
                libs = [o for o in tgts if rng.random() < 0.4 and o["style"] != "custom"]
                rng.shuffle(libs)
                for o in libs:
                    if ty == "exe" or style == "custom":
                        t["libs"].append(o["out"])
                        ops.append(["lib", o["name"]])
                        deps.append({"do": "dep", "a": name, "b": o["name"], "via": [True, True]})
                cut = rng.randrange(len(ops) + 1)
                acts.append(a)
                acts.append({"do": "ops", "b": name, "ops": ops[:cut]})
                regs.append({"do": "build", "b": name, "via": [True, True], "ops": ops[cut:]})
                tgts.append(t)
            acts += regs + deps + [{"do": "run"}]
            # a library that is a plain file for the fake linker must exist under the .lib/.dll name it is given
            r = w.run(acts, workers=rng.choice([1, 4]))
            case_ = ("cmd", i)
            data = {"script": acts, "run": r.brief()}

            def bad(key, msg):
                ck.violation(key, msg, data, case_)
            if r.timeout:
                return bad("hang", "the build did not end")
            steps = [s for s in r.steps() if s.kind in ("pch", "compile", "link")]
            seen = {}
            for t in tgts:
                mine = [s for s in steps if s.out and s.out.startswith(t["bdir"] + "/")]
                for s in mine:
                    seen[id(s)] = 1
                cpp = any(x.endswith((".cpp", ".cc", ".cxx")) for x in t["srcs"])
                pchh = os.path.join(t["bdir"], "buildcc_pch.h")
                pchc = pchh + ref["pchext"]
                dflt = R.defaults(fam, t["ty"], pchh, pchc) if t["style"] != "custom" else {}
                fl = {}
                for k in FL:
                    fl[k] = R.words(tcf[k] + dflt.get(k, []) + t["flags"][k])
                    if t["style"] != "custom" and t["style"] != "own" and k == "f_pre":
                        fl[k] = R.words(tcf[k] + t["flags"][k])
                pchobj = os.path.join(t["bdir"], "buildcc_pch" + ref["obj"])
                base = {k: v for k, v in fl.items()}
                base.update({"incs": [ref["inc"] + d for d in t["incs"]], "libdirs": [ref["lib"] + d for d in t["libdirs"]], "libs": t["libs"], "extlibs": R.words(t["ext"]),
                             "pchobj": [pchobj] if t["pch"] else [], "<pchobj>": pchobj})
                base.update({k: [v] for k, v in exes.items()})
                if not t["pch"]:
                    base["f_pcho"] = []
                    base["f_pchc"] = []
                objs = []
                comp = [s for s in mine if s.kind == "compile"]
                if sorted(s.src or "" for s in comp) != sorted(t["srcs"]):
                    return bad("inputs", "target %s: compiled %s instead of %s" % (t["name"], sorted(s.src or "" for s in comp), sorted(t["srcs"])))
                for s in comp:
                    e = os.path.splitext(s.src)[1]
                    lang = "asm" if e in (".s", ".S", ".asm") else "c" if e == ".c" else "cpp"
                    v = dict(base, f_lang=fl["f_" + lang], compiler=[exes[{"asm": "as", "c": "cc", "cpp": "cxx"}[lang]]])
                    v["<out>"], v["<in>"] = s.out, s.src
                    objs.append(s.out)
                    m = R.match(s.argv, t["ref"]["compile"], v, [])
                    ck.evaluated()
                    ck.see([fam, t["style"], t["ty"], "compile", lang, len(s.argv), sp, t["pch"]])
                    if m:
                        return bad("compile", "compile of %s (%s %s): %s" % (s.src, fam, t["style"], m))
                pchs = [s for s in mine if s.kind == "pch"]
                if len(pchs) != (1 if t["pch"] else 0):
                    return bad("pch", "target %s ran %d precompile commands" % (t["name"], len(pchs)))
                for s in pchs:
                    v = dict(base, f_lang=fl["f_cpp" if cpp else "f_c"], compiler=[exes["cxx" if cpp else "cc"]])
                    v["<out>"], v["<in>"] = pchc, pchh
                    v["<insrc>"] = os.path.join(t["bdir"], "buildcc_pch" + (".cpp" if cpp else ".c"))
                    v["insrc1"] = [v["<insrc>"]]
                    m = R.match(s.argv, t["ref"]["pch"], v, [])
                    ck.evaluated()
                    ck.see([fam, t["style"], t["ty"], "pch", cpp, len(s.argv), sp])
                    if m:
                        return bad("pch", "precompile of %s (%s %s): %s" % (t["name"], fam, t["style"], m))
                links = [s for s in mine if s.kind == "link"]
                if len(links) != 1:
                    if r.ok:
                        return bad("link", "target %s ran %d link commands" % (t["name"], len(links)))
                    continue
                v = dict(base)
                v["<out>"] = t["out"]
                m = R.match(links[0].argv, t["ref"]["link"], v, objs)
                ck.evaluated(1, {"argv": links[0].argv} if i < 6 else None)
                ck.see([fam, t["style"], t["ty"], "link", len(links[0].argv), len(objs), len(t["libs"]), sp])
                if m:
                    return bad("link", "link of %s (%s %s): %s" % (t["name"], fam, t["style"], m))
            if len(seen) != len(steps):
                return bad("outside", "a command writes outside the build directory of every target: %s" % [s.argv for s in steps if id(s) not in seen][:3])
            if not r.ok:
                return bad("status", "a correct build failed (status %s)" % r.rc)
        finally:
            w.close()

    ck.cases("cmd", ck.n(900, 9000), case)
    return ck.finish()
