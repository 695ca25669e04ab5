"""C21: options reach the script exactly as given (declared defaults otherwise), invalid ones end the program, and registrations take effect exactly for selected toolchains."""
import os

from vlib.check import Check
from vlib.dag import Dag
from vlib.world import World

LEVELS = ["trace", "debug", "info", "warning", "critical"]
LVL = {"trace": 0, "debug": 1, "info": 2, "warning": 3, "critical": 5}
IDS = ["gcc", "msvc", "mingw", "clang", "custom", "undefined"]
EXE = {"as": "--asm_compiler", "cc": "--c_compiler", "cxx": "--cpp_compiler", "ar": "--archiver", "ld": "--linker"}
TCN = ["gcc", "msvc", "mingw", "t1", "t_2", "arm-none", "Gcc2", "x"]
TGN = ["app", "lib_1", "T", "gcc2"]
VALS = ["a", "gcc-12", "/usr/bin/g++", "a b", "x=y", "a,b", "é名", "../x", "C:\\t\\cl.exe", "it's", "{c_compiler}", "{compiler} {input} -o {output}", "0", "true", "a" * 300, "x:y", "#h", "~", "$HOME", "*", "a;b", "50%"]
CFG = ["a", "gcc-12", "/usr/bin/g++", "a b", "x=y", "é名", "../x", "{compiler} {input} -o {output}", "0", "true", "a" * 300, "x:y", "a#h", "$HOME", "*", "-O2"]


def casemix(rng, s):
    return "".join(c.upper() if rng.random() < 0.3 else c for c in s) if rng.random() < 0.3 else s


def main(only=None):
    ck = Check("C21", "trace_oracle",
               "one evaluation = one program start whose parsed options (or refusal) are compared with an independent reading of its command line and configuration files, or one registration compared with the selection of "
               "its toolchain; distinct = distinct (options given per source, number of toolchains and targets, kind of invalid input, selection mix)",
               ["option values do not start with a dash or a bracket on the command line, and contain no quotes, backslashes or brackets in configuration files (the argument parser's own syntax)"], only)

    def case(rng, i):
        w = World()
        try:
            dpool = VALS + ["", ""]
            tcs = rng.sample(TCN, rng.choice([0, 1, 1, 2, 3, 5]))
            tgs = rng.sample(TGN, rng.choice([0, 0, 1, 2]))
            decl_t, decl_g, want = [], [], {"tc": {}, "target": {}}
            for t in tcs:
                d = {"key": t, "desc": "d"}
                x = {"build": False, "test": False, "id": "undefined", "name": "", "exes": {k: "" for k in EXE}}
                if rng.random() < 0.8:
                    d["initial"] = {"id": rng.choice(IDS), "name": rng.choice(dpool), "exes": {k: rng.choice(dpool) for k in EXE}}
                    x.update(id=d["initial"]["id"], name=d["initial"]["name"], exes=dict(d["initial"]["exes"]))
                decl_t.append(d)
                want["tc"][t] = x
            for t in tgs:
                d = {"key": t, "desc": "d"}
                x = {"compile": "", "link": ""}
                for k in x:
                    if rng.random() < 0.7:
                        d[k] = x[k] = rng.choice(dpool)
                decl_g.append(d)
                want["target"][t] = x
            extra = ["--x_%d" % k for k in range(rng.choice([0, 0, 1, 2]))]
            cb = rng.choice([None, None, "--cbo"])
            wextra = {e: "" for e in extra}
            wcb = ""
            root = rng.choice(["proj", "proj", "./proj", "", os.path.join(w.dir, "proj"), "a/../proj", "p r", "é"])
            bd = rng.choice(["out", "out", "o/u/t", os.path.join(w.dir, "out2"), "../w/out3", "o x", "_é"])
            os.makedirs(os.path.join(w.dir, "a"), exist_ok=True)
            os.makedirs(os.path.join(w.dir, "p r"), exist_ok=True)
            os.makedirs(os.path.join(w.dir, "é"), exist_ok=True)
            want.update(root=root, build=bd, clean=False, loglevel="info")
            # every option is given on the command line, in one of the configuration files, in both, or not at all
            nconf = rng.choice([0, 0, 1, 1, 2, 3])
            cli = {"": []}
            confs = [dict() for _ in range(nconf)]
            given = []

            def give(sect, opt, kind, setter, force=False, cli_ok=True):
                """kind: list of values | 'flag'"""
                where = rng.choice(["no", "no", "cli", "cli", "cfg", "both"])
                if force and where == "no":
                    where = "cli"
                if not confs and where in ("cfg", "both"):
                    where = "cli" if where == "both" or force else "no"
                given.append((opt, where))
                if where == "no":
                    return
                cv = None
                if where in ("cfg", "both"):
                    c = rng.choice(confs)
                    if kind == "flag":
                        v = rng.choice([True, True, False])
                        c.setdefault(sect, []).append((opt[2:], "true" if v else "false"))
                        setter(v)
                    else:
                        v = rng.choice(kind(True))
                        c.setdefault(sect, []).append((opt[2:], '"%s"' % v))
                        setter(v)
                if where in ("cli", "both"):
                    if kind == "flag":
                        f = rng.choice([opt, opt, opt, opt + "=true", opt + "=false"])
                        cli.setdefault(sect, []).append([f])
                        setter(not f.endswith("=false"))
                    else:
                        v = rng.choice(kind(False))
                        cli.setdefault(sect, []).append([opt, v] if rng.random() < 0.6 or v == "" else [opt + "=" + v])
                        setter(v)

            def st(d, k, f=lambda v: v):
                return lambda v: d.__setitem__(k, f(v))
            give("", "--root_dir", lambda c: [root], st(want, "root"), True)
            give("", "--build_dir", lambda c: [bd], st(want, "build"), True)
            give("", "--clean", "flag", st(want, "clean"))
            give("", "--loglevel", lambda c: [casemix(rng, rng.choice(LEVELS))], st(want, "loglevel", str.lower))
            for e in extra:
                give("", e, lambda c: CFG if c else VALS, st(wextra, e))
            if cb:
                box = {"v": ""}
                give("", cb, lambda c: CFG if c else VALS, st(box, "v"))
                wcb = box["v"]
            for t in tcs:
                x, s = want["tc"][t], "toolchain." + t
                if rng.random() < 0.85:
                    give(s, "--build", "flag", st(x, "build"))
                    give(s, "--test", "flag", st(x, "test"))
                    give(s, "--id", lambda c: [casemix(rng, rng.choice(IDS))], st(x, "id", str.lower))
                    give(s, "--name", lambda c: CFG if c else VALS, st(x, "name"))
                    for k, o in EXE.items():
                        give(s, o, lambda c: CFG if c else VALS, st(x["exes"], k))
            for t in tgs:
                x, s = want["target"][t], "target." + t
                if rng.random() < 0.8:
                    give(s, "--compile_command", lambda c: CFG if c else VALS, st(x, "compile"))
                    give(s, "--link_command", lambda c: CFG if c else VALS, st(x, "link"))
            # something invalid?
            invalid = None
            if rng.random() < 0.3:
                invalid = rng.choice(["no_root", "no_build", "loglevel", "unknown_opt", "unknown_tc", "unknown_id", "no_value", "extra_positional", "config_missing", "unknown_tc_opt", "twice", "loglevel_number"])
                if invalid in ("no_root", "no_build"):
                    o = "--root_dir" if invalid == "no_root" else "--build_dir"
                    cli[""] = [a for a in cli[""] if not a[0].startswith(o)]
                    for c in confs:
                        if "" in c:
                            c[""] = [kv for kv in c[""] if "--" + kv[0] != o]
                elif invalid in ("loglevel", "loglevel_number"):
                    v = rng.choice(["verbose", "inf", "information", "error", "", "trace debug"]) if invalid == "loglevel" else rng.choice(["9", "-3", "77"])
                    cli[""] = [a for a in cli[""] if not a[0].startswith("--loglevel")] + [["--loglevel=" + v] if v else ["--loglevel", v]]
                elif invalid == "unknown_opt":
                    cli[""].append([rng.choice(["--nope", "--Root_dir", "--build-dir", "-q"]), "x"])
                elif invalid == "no_value":
                    cli[""].append(["--loglevel"])
                    cli = {"": [a for a in cli[""][:-1] if not a[0].startswith("--loglevel")] + [["--loglevel"]]}
                elif invalid == "extra_positional":
                    cli[""].append(["stray"])
                elif invalid == "twice":
                    cli[""] = [a for a in cli[""] if not a[0].startswith("--loglevel")] + [["--loglevel", "info"], ["--loglevel", "debug"]]
                elif invalid in ("unknown_tc",):
                    cli["toolchain.nope"] = [["--build"]]
                elif invalid in ("unknown_id", "unknown_tc_opt"):
                    if not tcs:
                        invalid = None
                    else:
                        s = "toolchain." + tcs[0]
                        cli.setdefault(s, [])
                        if invalid == "unknown_id":
                            cli[s] = [a for a in cli[s] if not a[0].startswith("--id")] + [["--id", rng.choice(["gc", "gcc12", "intel", "7", "-1"])]]
                        else:
                            cli[s].append(["--cxx_compiler", "x"])
                elif invalid == "config_missing":
                    if not any(a for a in cli[""]):
                        invalid = None
            argv = ["driver"]
            files = []
            for k, c in enumerate(confs):
                f = os.path.join(w.dir, rng.choice(["c%d.toml", "c %d.toml", "c%d"]) % k)
                with open(f, "w") as fh:
                    if rng.random() < 0.5:
                        fh.write("# comment\n\n")
                    for kk, v in c.get("", []):
                        fh.write("%s = %s\n" % (kk, v))
                    for s in c:
                        if s:
                            fh.write("\n[%s]\n" % s)
                            for kk, v in c[s]:
                                fh.write("%s%s%s\n" % (kk, rng.choice([" = ", "=", " =  "]), v))
                files.append(f)
            if invalid == "config_missing":
                files.append(os.path.join(w.dir, "none.toml"))
            head = list(cli[""])
            rng.shuffle(head)
            for f in files:
                head.insert(rng.randrange(len(head) + 1) if len(files) == 1 else 0, ["--config", f])
            if invalid == "no_value":
                head = [a for a in head if a != ["--loglevel"]] + [["--loglevel"]]
            if invalid == "extra_positional":
                head = [a for a in head if a != ["stray"]] + [["stray"]]
            for a in head:
                argv += a
            sects = [s for s in cli if s]
            rng.shuffle(sects)
            sects.sort(key=lambda s: s.split(".")[0], reverse=rng.random() < 0.5)
            for n, s in enumerate(sects):
                sub, name = s.split(".")
                argv += [name] if n and sects[n - 1].startswith(sub + ".") else [sub, name]
                oo = list(cli[s])
                rng.shuffle(oo)
                for a in oo:
                    argv += a
            lm = [{"do": "log", "level": n, "tag": "MK", "msg": "marker_%s" % l} for l, n in LVL.items()]
            script = {"argv": argv, "args": {"toolchains": decl_t, "targets": decl_g, "extra": extra}, "actions": [{"do": "args_dump"}] + lm}
            if cb:
                script["args"]["cb_opt"] = cb
            r = w.run(script=script, cwd=w.dir)
            data = {"argv": argv, "confs": [open(f).read() for f in files if os.path.exists(f)], "want": want, "run": r.brief(), "obs": r.obs}
            ck.evaluated(1, {"argv": argv[1:], "invalid": invalid} if i < 8 else None)
            ck.see([sorted(given), len(tcs), len(tgs), invalid, nconf])

            def bad(key, msg):
                ck.violation(key, msg, data, ("args", i))
            if invalid:
                ck.count("invalid_" + invalid)
                if r.o("parsed") or r.o("init"):
                    return bad("accepted-" + invalid, "invalid command line (%s) was accepted: %s" % (invalid, argv))
                if r.rc <= 0:
                    return bad("status-" + invalid, "invalid command line (%s) ended with status %s" % (invalid, r.rc))
                return
            ck.count("valid")
            if r.rc != 0 or not r.o("args"):
                return bad("refused", "valid command line was refused (status %s): %s %s" % (r.rc, argv, r.err[-300:] + r.out[-300:]))
            got = r.o("args")[0]["v"]
            for k in ("root", "build", "clean"):
                if got[k] != want[k]:
                    return bad("value-" + k, "%s is %r, given %r" % (k, got[k], want[k]))
            if got["loglevel"] != LVL[want["loglevel"]]:
                return bad("value-loglevel", "log level is %s, given %s" % (got["loglevel"], want["loglevel"]))
            for k, v in (("proot", want["root"]), ("pbuild", want["build"])):
                if os.path.normpath(got[k]) != os.path.normpath(os.path.join(w.dir, v)):
                    return bad("project-dir", "the project's directory is %s for option %r in %s" % (got[k], v, w.dir))
            for t in tcs:
                if got["tc"][t] != want["tc"][t]:
                    return bad("value-toolchain", "toolchain %s arrived as %s, expected %s" % (t, got["tc"][t], want["tc"][t]))
                ck.evaluated(1)
            for t in tgs:
                e = dict(want["target"][t], ccompile=want["target"][t]["compile"], clink=want["target"][t]["link"])
                if got["target"][t] != e:
                    return bad("value-target", "target %s arrived as %s, expected %s" % (t, got["target"][t], e))
                ck.evaluated(1)
            ps = r.o("parsed")[0]
            if {k: v for k, v in (ps["extra"] or {}).items()} != wextra or ps["cb"] != wcb:
                return bad("value-custom", "custom options arrived as %s %r, expected %s %r" % (ps["extra"], ps["cb"], wextra, wcb))
            for l, n in LVL.items():
                shown = ("marker_%s" % l) in r.out + r.err
                if shown != (n >= LVL[want["loglevel"]]):
                    return bad("log-level", "a %s message was %s at log level %s" % (l, "shown" if shown else "suppressed", want["loglevel"]))
        finally:
            w.close()

    def gate(rng, i):
        """registrations under several toolchains selected through the command line"""
        w = World()
        try:
            keys = rng.sample(["ta", "tb", "tc_", "td"], rng.choice([1, 2, 3, 4]))
            sel = {k: (rng.random() < 0.6, rng.random() < 0.5) for k in keys}
            argv = w.base_args()
            for k in keys:
                if rng.random() < 0.15 and sel[k] == (False, False):
                    continue
                argv += (["toolchain"] if "toolchain" not in argv else []) + [k] + (["--build"] if sel[k][0] else []) + (["--test"] if sel[k][1] else [])
            exes = {"as": w.tool("as"), "cc": w.tool("gcc"), "cxx": w.tool("g++"), "ar": w.tool("ar"), "ld": w.tool("ld")}
            decl = [{"key": k, "desc": "d", "initial": {"id": rng.choice(["gcc", "mingw", "custom", "clang"]), "name": "N" + k, "exes": exes}} for k in keys]
            kinds = {d["key"]: d["initial"]["id"] for d in decl}
            acts, want, deps, tests = [], {}, [], {}
            for k in keys:
                acts.append({"do": "toolchain", "key": k, "kind": "arg", "arg": k})
                acts.append({"do": "tc_dump", "tc": k})
            bl = []
            for n in range(rng.choice([1, 2, 4, 7])):
                k = rng.choice(keys)
                b = "b%d" % n
                if rng.random() < 0.6:
                    src = "s%d.c" % n
                    w.write(src, "s\n")
                    cls = rng.choice(["exe", "static", "dyn"])
                    if kinds[k] in ("gcc", "mingw"):
                        acts.append({"do": "target", "key": b, "cls": cls + rng.choice(["_gcc", "_generic"]), "name": b, "tc": k, "env": {"rel": ""}})
                    else:
                        acts.append({"do": "target", "key": b, "cls": cls + "_gcc", "name": b, "tc": k, "env": {"rel": ""}})
                    ops = [["src", src]]
                    bt = True
                else:
                    acts.append({"do": "gen", "key": b, "cls": "custom", "name": b, "ops": []})
                    ops = [["id", "i", [], ["{current_build_dir}/o"], {}]]
                    bt = False
                call = None
                if rng.random() < 0.2:
                    call = rng.random() < 0.5
                a = {"do": "build", "b": b, "ops": ops}
                a.update({"call": call} if call is not None else {"via": k})
                bl.append((b, k, bt, call, a))
            rng.shuffle(bl)
            active = {}
            for b, k, bt, call, a in bl:
                acts.append(a)
                active[b] = sel[k][0] if call is None else call
            # dependencies between builders of any selection, registered under the gate of some toolchain
            for x in range(rng.choice([0, 1, 3])):
                if len(bl) < 2:
                    break
                i1, i2 = sorted(rng.sample(range(len(bl)), 2))
                b2, b1 = bl[i1][0], bl[i2][0]
                k = rng.choice(keys)
                if (b1, b2) in [(d[0], d[1]) for d in deps]:
                    continue
                if sel[k][0] and not (active[b1] and active[b2]):
                    continue            # would be refused
                acts.append({"do": "dep", "via": k, "a": b1, "b": b2})
                deps.append((b1, b2, sel[k][0]))
            fn = []
            for n in range(rng.choice([0, 1, 2])):
                k = rng.choice(keys)
                if rng.random() < 0.3:
                    c = rng.random() < 0.5
                    acts.append({"do": "func", "key": "f%d" % n, "call": c})
                    fn.append(("func", "f%d" % n, c))
                else:
                    acts.append({"do": "func", "key": "f%d" % n, "via": k})
                    fn.append(("func", "f%d" % n, sel[k][0]))
                k = rng.choice(keys)
                acts.append({"do": "package", "key": "p%d" % n, "via": k})
                fn.append(("package", "p%d" % n, sel[k][0], sel[k]))
            for b, k, bt, call, a in bl:
                if bt and rng.random() < 0.6:
                    k2 = k if rng.random() < 0.7 else rng.choice(keys)
                    on = sel[k2][0] and sel[k2][1]
                    if on and not active[b]:
                        continue
                    tests[b] = on
                    acts.append({"do": "test", "b": b, "via": k2, "command": "{tool} T=" + b, "args": {"tool": w.tool("tst")}, "output": "default"})
            acts.append({"do": "run"})
            script = {"argv": argv, "args": {"toolchains": decl}, "actions": acts}
            r = w.run(script=script, workers=rng.choice([1, 2, 4]), cwd=w.dir)
            data = {"argv": argv, "script": acts, "run": r.brief(), "obs": r.obs}

            def bad(key, msg):
                ck.violation(key, msg, data, ("gate", i))
            if r.rc != 0:
                return bad("gate-failed", "the run failed with status %s: %s" % (r.rc, r.out[-300:]))
            for o in r.o("tc_dump"):
                v = o["v"]
                if (v["id"], v["name"], v["exes"]) != (kinds[o["tc"]], "N" + o["tc"], exes):
                    return bad("construct", "toolchain %s was constructed as %s" % (o["tc"], v))
            cbs = [o["b"] for o in r.o("build_cb")]
            steps = r.steps()
            done = {}
            for s in steps:
                if s.kind == "gen":
                    done.setdefault(s.gen, []).append(s)
                elif s.kind in ("compile", "link"):
                    m = [b for b, _, bt, _, _ in bl if bt and ("/%s/" % b) in (s.out or "")]
                    for b in m:
                        done.setdefault(b, []).append(s)
            for b, k, bt, call, a in bl:
                ck.evaluated(1)
                ck.see([active[b], bt, call, sel[k], len(keys), b in tests, len(deps)])
                ck.count("active" if active[b] else "inactive")
                if cbs.count(b) != int(active[b]):
                    return bad("gate-build-callback", "the build callback of %s ran %d times (selected: %s)" % (b, cbs.count(b), active[b]))
                if bool(done.get(b)) != active[b]:
                    return bad("gate-build", "%s was %sbuilt although its toolchain %s" % (b, "" if done.get(b) else "not ", "is selected" if active[b] else "is not selected"))
            for b1, b2, on in deps:
                if on and done.get(b1) and done.get(b2) and min(s.t0 for s in done[b1]) < max(s.t1 or 1 << 62 for s in done[b2]):
                    return bad("gate-dep", "%s started before its dependency %s ended" % (b1, b2))
            for f in fn:
                o = [x for x in r.o(f[0]) if x["key"] == f[1]]
                if len(o) != int(f[2]):
                    return bad("gate-" + f[0], "%s %s ran %d times, expected %d" % (f[0], f[1], len(o), int(f[2])))
                if f[0] == "package" and o and (o[0]["build"], o[0]["test"]) != f[3]:
                    return bad("gate-package", "package %s was set up for %s, selected %s" % (f[1], o[0], f[3]))
                if f[0] == "func" and o and o[0]["x"] != 7:
                    return bad("gate-func", "callback %s received %r" % (f[1], o[0]["x"]))
                ck.evaluated(1)
            ran = [x[2:] for s in steps if s.kind == "test" for x in s.argv if x.startswith("T=")]
            for b, on in tests.items():
                ck.evaluated(1)
                if ran.count(b) != int(on):
                    return bad("gate-test", "the test of %s ran %d times, expected %d" % (b, ran.count(b), int(on)))
        finally:
            w.close()

    ck.cases("args", ck.n(2500, 25000), case)
    ck.cases("gate", ck.n(1200, 12000), gate)
    return ck.finish()
