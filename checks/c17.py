"""C17: registered tests run exactly once after a successful build, as registered, and decide the outcome."""
import os
import shlex

from vlib.check import Check
from vlib.dag import Dag
from vlib.world import World

WORDS = ["x", "a b", "", "it's", 'q"q', "$HOME", "{}", "{executable}", "*", "é", "\\", "a" * 300, "-o", "`id`", "%s", "tab\tx"]
SIZES = [0, 1, 1, 2, 17, 1000, 9000]


def main(only=None):
    ck = Check("C17", "trace_oracle",
               "one evaluation = one registered test of an observed run: ran exactly once (or not at all when its toolchain is not selected), argv, working directory, captured or passed-through output, "
               "and the exit status of the run; distinct = distinct (output mode, outcome, output sizes, selection, working directory kind, tests in the run, workers)",
               ["a test fails iff its command cannot be constructed, cannot be started, exits non-zero or dies by a signal"], only)

    def case(rng, i):
        w = World(subdir=rng.choice(["w", "w x", "w;[x]"]))
        try:
            p = Dag(w).build_random(rng, rng.choice([1, 2, 3, 5, 8, 12]), density=0.2, kinds=("t",), pch=0.0)
            for rnd in range(rng.choice([1, 1, 2])):
                tests, want = [], {}
                for t in p.names:
                    if rng.random() < 0.15:
                        continue
                    via = rng.choice([[True, True]] * 6 + [[True, False], [False, True], [False, False]])
                    mode = rng.choice(["default", "stdout", "stderr", "both", "user", "user"])
                    fate = rng.choice(["ok"] * (12 if i % 3 else 40) + ["rc", "rc255", "sig", "pattern", "nocmd"])
                    on, en = rng.choice(SIZES), rng.choice(SIZES)
                    tok = "%s.%d" % (t, rnd)
                    args = {"a%d" % k: rng.choice(WORDS) for k in range(rng.choice([0, 0, 1, 3]))}
                    cmd = ["{tool}", "--out", str(on), "'<o %s>\n'" % tok, "--err", str(en), "'<e %s>\n'" % tok]
                    if rng.random() < 0.3:
                        cmd += ["--ms", str(rng.randrange(1, 30)), "--out", "1", "'<late %s>\n'" % tok]
                    late = "--ms" in cmd
                    if fate == "rc":
                        cmd += ["--rc", str(rng.choice([1, 2, 100, 254]))]
                    if fate == "rc255":
                        cmd += ["--rc", "255"]
                    if fate == "sig":
                        cmd += ["--sig", str(rng.choice([9, 11, 15, 6]))]
                    cmd += ["T=" + t] + ["{%s}" % a for a in args]
                    if rng.random() < 0.7:
                        cmd.append("{executable}")
                    if fate == "pattern":
                        cmd.append(rng.choice(["{unknown}", "{", "}", "{executable"]))
                    vals = {a: shlex.quote(v) for a, v in args.items()}
                    vals["tool"] = shlex.quote(w.tool("tst")) if fate != "nocmd" else "/nonexistent/tool"
                    a = {"do": "test", "b": t, "via": via, "command": " ".join(cmd), "args": vals, "output": mode}
                    uo, ue = True, True
                    if mode == "user":
                        uo, ue = rng.random() < 0.8, rng.random() < 0.8
                        a["user_out"], a["user_err"] = uo, ue
                    cwd = w.dir
                    x = rng.random()
                    if x < 0.3:
                        cwd = os.path.join(w.dir, rng.choice(["cw", "c w", "it's"]) + "%d" % rng.randrange(3))
                        os.makedirs(cwd, exist_ok=True)
                        a["cwd"] = cwd
                    elif x < 0.34 and fate == "ok":
                        a["cwd"] = os.path.join(w.dir, "missing")
                        fate = "nocwd"
                    tests.append(a)
                    want[t] = {"sel": via == [True, True], "fate": fate, "mode": mode, "cwd": cwd, "uo": uo, "ue": ue, "args": list(args.values()), "exe": "{executable}" in cmd,
                               "out": "<o %s>\n" % tok * on + ("<late %s>\n" % tok if late else ""), "err": "<e %s>\n" % tok * en, "tok": tok}
                rng.shuffle(tests)
                nw = rng.choice([1, 2, 4, 8])
                acts = p.actions(rng, tests=tests, post=[{"do": "mark", "key": "post"}] if rng.random() < 0.5 else None)
                r = w.run(acts, workers=nw)
                data = {"script": acts, "run": r.brief()}

                def bad(key, msg):
                    ck.violation(key, msg, data, ("tests", i))
                ran = {}
                for s in r.steps():
                    if s.kind == "test":
                        t = [x[2:] for x in s.argv if x.startswith("T=")]
                        ran.setdefault(t[0] if t else "?", []).append(s)
                red = {o["b"]: o for o in r.o("redirect")}
                sel = [t for t in want if want[t]["sel"]]
                anyfail = any(want[t]["fate"] != "ok" for t in sel)
                for t in sorted(want):
                    x = want[t]
                    ck.evaluated(1, dict(x, out=len(x["out"]), err=len(x["err"])) if i < 4 else None)
                    ck.see([x["mode"], x["fate"], len(x["out"]) // 5000, len(x["err"]) // 5000, x["sel"], x["cwd"] == w.dir, len(sel), nw, x["uo"], x["ue"]])
                    ck.count("fate_" + x["fate"] if x["sel"] else "not_selected")
                    n = len(ran.get(t, []))
                    exp = 1 if x["sel"] and x["fate"] not in ("pattern", "nocmd", "nocwd") else 0
                    if n != exp:
                        return bad("count", "test of %s (%s, selected: %s) ran %d times, expected %d" % (t, x["fate"], x["sel"], n, exp))
                    if not exp:
                        continue
                    s = ran[t][0]
                    k = s.argv.index("T=" + t)
                    exe = [os.path.join(p.target_dir(t), t)] if x["exe"] else []
                    tail = s.argv[k + 1:]
                    if tail[:len(x["args"])] != x["args"]:
                        return bad("arguments", "test of %s received %s, registered arguments %s" % (t, tail, x["args"]))
                    if x["exe"] and (len(tail) != len(x["args"]) + 1 or os.path.dirname(tail[-1]) != p.target_dir(t) or not os.path.isfile(tail[-1])):
                        return bad("arguments", "test of %s received %s as its executable" % (t, tail[len(x["args"]):]))
                    if os.path.realpath(s.cwd) != os.path.realpath(x["cwd"]):
                        return bad("cwd", "test of %s ran in %s instead of %s" % (t, s.cwd, x["cwd"]))
                    if x["mode"] == "user":
                        o = red.get(t, {"out": None, "err": None})
                        if x["fate"] == "sig" and o["err"] and o["err"].startswith(x["err"]):
                            o["err"] = x["err"]     # the shell may add its own message about the signal
                        if o["out"] != (x["out"] if x["uo"] else "") or o["err"] != (x["err"] if x["ue"] else ""):
                            return bad("output", "test of %s: user received %d and %d characters of %d and %d (or other text)" % (t, len(o["out"] or ""), len(o["err"] or ""), len(x["out"]), len(x["err"])))
                        if not x["uo"] and r.out.count("<o %s>" % x["tok"]) != x["out"].count("<o "):
                            return bad("output", "test of %s: stdout that is not redirected did not pass through" % t)
                        if x["uo"] and "<o %s>" % x["tok"] in r.out or x["ue"] and "<e %s>" % x["tok"] in r.err:
                            return bad("output", "test of %s: redirected output also appeared on the console" % t)
                    elif x["mode"] == "default":
                        if r.out.count("<o %s>" % x["tok"]) != x["out"].count("<o ") or r.err.count("<e %s>" % x["tok"]) != x["err"].count("<e "):
                            return bad("output", "test of %s: output did not pass through to the console" % t)
                    elif x["fate"] == "ok":
                        # printed through the log, whose chunks are joined by a space: short text comes in one chunk
                        if x["mode"] in ("stdout", "both") and 0 < len(x["out"]) < 500 and "<late" not in x["out"] and r.out.count("<o %s>" % x["tok"]) < 1:
                            return bad("output", "test of %s: its stdout was not printed" % t)
                        if x["mode"] in ("stderr", "both") and 0 < len(x["err"]) < 500 and r.out.count("<e %s>" % x["tok"]) < 1:
                            return bad("output", "test of %s: its stderr was not printed" % t)
                if set(ran) - set(want):
                    return bad("count", "tests ran that were not registered: %s" % sorted(set(ran) - set(want)))
                if r.timeout:
                    return bad("hang", "the run did not end")
                if r.rc < 0:
                    return bad("crash", "the run was ended by signal %d" % -r.rc)
                if (r.rc != 0) != anyfail:
                    return bad("status", "the run ended with status %s, failing tests: %s" % (r.rc, [(t, want[t]["fate"]) for t in sel if want[t]["fate"] != "ok"]))
                if r.leftover:
                    return bad("not-waited", "a test outlived the run")
        finally:
            w.close()

    ck.cases("tests", ck.n(700, 7000), case)
    return ck.finish()
