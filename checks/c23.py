"""C23: executing a command reports its true status and complete output, once, in the requested directory, also concurrently."""
import os
import shlex

from vlib.check import Check
from vlib.world import World

TXT = ["x", "line\n", "é名🙂", "a b\t", "\r\n", "y" * 700 + "\n", "%s{}\\", "\u0001\u007f"]
SIZES = [0, 0, 1, 1, 2, 50, 1000]
CWDS = ["cw", "c w", "it's", "é名", "$HOME", 'q"q', "a`id`b", "back\\slash", "-dash", "semi;colon", "*", "{x}"]


def main(only=None):
    ck = Check("C23", "trace_oracle",
               "one evaluation = one command executed through the library, alone or among concurrent ones: returned status, number of times it ran, argv, working directory, text received per redirected stream and text "
               "that passed through; distinct = distinct (way it ends, status, output sizes, redirections, working directory kind, concurrency)",
               ["a command is a POSIX shell command line (the process library the repository pins is replaced by a stand-in with the same contract: its sources are absent offline)", "outputs are valid UTF-8"], only)

    def item(rng, w, tag):
        """one command and what must be observed of it"""
        d = {"n": tag, "out": rng.random() < 0.6, "err": rng.random() < 0.6}
        x = {"out": "", "err": "", "runs": 1, "ok": True, "fate": "zero", "argv": [], "cwd": w.dir, "note": False}
        cmd = [w.tool("tst"), "ID=%d" % tag]
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            s = rng.choice(["out", "err"])
            t = "[%s%d]%s" % (s[0], tag, rng.choice(TXT))
            n = rng.choice(SIZES) if rng.random() < 0.9 else rng.choice([5000, 20000])
            cmd += ["--" + s, str(n), t]
            x[s] += t * n
            if rng.random() < 0.2:
                cmd += ["--ms", str(rng.randrange(1, 12))]
        fate = rng.choice(["zero"] * 6 + ["rc"] * 3 + ["sig", "missing", "noexec", "wrap0", "wrap", "selfkill", "background", "pipe", "syntax", "nocwd", "or", "and", "dir"])
        if fate == "rc":
            rc = rng.randrange(1, 256)
            cmd += ["--rc", str(rc)]
            x["ok"] = False
        if fate == "sig":
            cmd += ["--sig", str(rng.choice([1, 2, 3, 6, 9, 11, 13, 15]))]
            x["ok"], x["note"] = False, True
        words = [rng.choice(["a", "a b", "", "it's", 'q"', "$X", "*", "é", "\\", "z" * 2000]) for _ in range(rng.choice([0, 1, 3]))]
        cmd += words
        x["argv"] = list(cmd)
        line = " ".join(shlex.quote(c) for c in cmd)
        if fate in ("missing", "noexec", "syntax", "dir"):
            f = os.path.join(w.dir, "noexec")
            if not os.path.exists(f):
                open(f, "w").close()
            line = {"missing": "/nonexistent/cmd" + " x" * rng.randrange(3), "noexec": shlex.quote(f), "syntax": "'unterminated", "dir": shlex.quote(w.dir)}[fate]
            x.update(ok=False, runs=0, note=True, out="", err="")
        if fate == "wrap0":
            line = line + "; exit 0"
        if fate == "wrap":
            line = line + "; exit %d" % rng.choice([1, 3, 128, 255])
            x["ok"] = False
        if fate == "selfkill":
            line = line + "; kill -%d $$" % rng.choice([9, 15, 6])
            x["ok"], x["note"] = False, True
        if fate == "background":
            line = "{ (sleep 0.0%d; printf 'late%d') & " % (rng.randrange(1, 5), tag) + line + "; wait; }"
            x["late"] = "late%d" % tag
        if fate == "pipe":
            line = line + " | cat"
        if fate == "or":
            line = "false || " + line
        if fate == "and":
            line = "false && " + line
            x.update(ok=False, runs=0, out="", err="")
        c = rng.random()
        ck_cwd = "none"
        if fate == "nocwd":
            d["cwd"] = rng.choice([os.path.join(w.dir, "no such"), os.path.join(w.dir, "plainfile"), "relmissing"])
            open(os.path.join(w.dir, "plainfile"), "w").close()
            x.update(ok=False, runs=0, note=True, out="", err="")
            ck_cwd = "bad"
        elif c < 0.45:
            name = rng.choice(CWDS)
            p = os.path.join(w.dir, "dirs", name)
            os.makedirs(p, exist_ok=True)
            ck_cwd = name
            d["cwd"] = p if rng.random() < 0.6 else rng.choice(["dirs/" + name, "./dirs/" + name, "dirs/../dirs/" + name])
            x["cwd"] = p
        elif c < 0.5:
            d["cwd"] = rng.choice(["", ".", w.dir])
            ck_cwd = "same"
        d["command"] = line
        x["fate"], x["ck_cwd"] = fate, ck_cwd
        return d, x

    def judge(w, r, items, group, i, conc):
        data = {"items": [d for d, _ in items], "run": r.brief()}

        def bad(key, msg, d):
            ck.violation(key, "%s (command %s, cwd %s)" % (msg, d["command"][:200], d.get("cwd")), data, (group, i))
        if r.rc != 0 or r.timeout:
            ck.violation("driver", "the process executing the commands ended with status %s (timeout: %s)" % (r.rc, r.timeout), data, (group, i))
            return
        res = {o["n"]: o for o in r.o("execute")}
        ran = {}
        for s in r.steps():
            t = [a[3:] for a in s.argv if a.startswith("ID=")]
            ran.setdefault(int(t[0]) if t else None, []).append(s)
        for d, x in items:
            n = d["n"]
            o = res.get(n)
            ck.evaluated(1, {"command": d["command"][:200], "r": o and o.get("r")} if i < 3 else None)
            ck.see([x["fate"], d["out"], d["err"], len(x["out"]).bit_length(), len(x["err"]).bit_length(), x["ck_cwd"], conc])
            ck.count("fate_" + x["fate"])
            if o is None or "exc" in o:
                return bad("no-result", "the execution reported nothing (%s)" % (o,), d)
            if o["r"] != x["ok"]:
                return bad("status", "reported %s for a command that ends with %s (%s)" % ("success" if o["r"] else "failure", "status zero" if x["ok"] else "an error", x["fate"]), d)
            k = ran.get(n, [])
            if len(k) != x["runs"]:
                return bad("runs", "the command ran %d times, expected %d" % (len(k), x["runs"]), d)
            if k:
                if k[0].argv != x["argv"]:
                    return bad("argv", "the command received %s, given %s" % (k[0].argv, x["argv"]), d)
                if os.path.realpath(k[0].cwd) != os.path.realpath(x["cwd"]):
                    return bad("cwd", "the command ran in %s instead of %s" % (k[0].cwd, x["cwd"]), d)
            for st, text, console in (("out", x["out"], r.out), ("err", x["err"], r.err)):
                got = o[st]
                late = x.get("late") if st == "out" else None
                mark = "[%s%d]" % (st[0], n)
                if d[st]:
                    if late:
                        if got.count(late) != 1:
                            return bad("output", "text written late to std%s was lost" % st, d)
                        got = got.replace(late, "")
                    if st == "err" and x["note"]:
                        ok = got.startswith(text)       # followed by the shell's own message
                    else:
                        ok = got == text
                    if not ok:
                        return bad("output", "std%s delivered %d characters, %d were written (or other text)" % (st, len(got), len(text)), d)
                    if mark in console:
                        return bad("output", "redirected std%s also passed through" % st, d)
                else:
                    if got:
                        return bad("output", "std%s was not redirected but delivered %r" % (st, got[:50]), d)
                    if console.count(mark) != text.count(mark):
                        return bad("pass-through", "%d of %d pieces of std%s passed through" % (console.count(mark), text.count(mark), st), d)
                    if not conc and text and not x["note"] and text.replace("\r\n", "\n") not in console.replace("\r\n", "\n") and "late" not in x:
                        return bad("pass-through", "std%s passed through out of order or with other text" % st, d)
        if r.leftover:
            ck.violation("not-waited", "a command outlived the execution", data, (group, i))

    def seq(rng, i):
        w = World(subdir=rng.choice(["w", "w_é"]))
        try:
            items = [item(rng, w, k + 1) for k in range(rng.choice([1, 3, 6]))]
            acts = []
            for d, _ in items:
                acts.append(dict(d, do="execute"))
            r = w.run(acts, cwd=w.dir)
            judge(w, r, items, "seq", i, 0)
        finally:
            w.close()

    def par(rng, i):
        w = World()
        try:
            n = rng.choice([2, 4, 8, 16, 32])
            items = [item(rng, w, k + 1) for k in range(n)]
            r = w.run([{"do": "parallel_execute", "items": [d for d, _ in items]}], cwd=w.dir, env={"BCC_AS_LIMIT": str(48 << 30)} if w.variant == "plain" else None)
            judge(w, r, items, "par", i, n)
        finally:
            w.close()

    def empty(rng, i):
        w = World()
        try:
            r = w.run([{"do": "execute", "command": "", "n": 1, "out": bool(i & 1), "err": bool(i & 2)}], cwd=w.dir)
            ck.evaluated(1)
            if r.rc in (0, None) or r.rc < 0 or r.o("execute"):
                ck.violation("empty", "an empty command was not refused (status %s)" % r.rc, r.brief(), ("empty", i))
        finally:
            w.close()

    ck.cases("seq", ck.n(700, 7000), seq)
    ck.cases("par", ck.n(160, 1600), par, workers=4)
    ck.cases("empty", 4, empty)
    return ck.finish()
