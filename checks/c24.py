"""C24: template outputs hold exactly the current template text with the current values, through any history; unchanged ones are left alone."""
import os

from vlib.check import Check
from vlib.world import World

LIT = ["plain\n", "", "a b\tc\r\n", "{{x}}", "{{}}", "é名🙂\n", "#define X\n", "%s %d\\n\n", "\x01\x7f", "nul\0byte", "}}{{", "long " * 2000, "\n\n", "'\"`$HOME", "// {{ {{ }}\n"]
VAL = ["v", "", "a b", "é名", "x" * 500, "1", "-DQ=\\\"z\\\"", "line\nbreak", "$HOME", "%s", "'\"", "\t", "0"]


class T:
    def __init__(self):
        self.parts = []     # literal | ("k", key, spec)
        self.dirty = None


class G:
    def __init__(self, name, rel):
        self.name, self.rel = name, rel
        self.vals = {}
        self.tpl = {}       # input file -> output key (path)


def main(only=None):
    ck = Check("C24", "trace_oracle",
               "one evaluation = one template output after a successful build compared byte by byte with an independent rendering of its template, or one unchanged template found not regenerated; distinct = distinct "
               "(edit kinds, templates, regenerated, kept, outcome)",
               ["two templates do not write one output in the same build, nor does a template appear twice in one generator", "outputs are not edited by hand, and an output location is not handed from one generator to another"], only)

    def case(rng, i):
        w = World(subdir=rng.choice(["w", "w", "w é", "w'(&)"]))
        try:
            n = [0]

            def nid():
                n[0] += 1
                return n[0]
            gens, files, hist = [], {}, []
            odir = os.path.join(w.dir, "gen o")
            os.makedirs(odir)

            def keys(g):
                return list(g.vals) + ["project_root_dir", "project_build_dir", "current_build_dir"] + (["current_root_dir"] if g.rel else [])

            def text(g):
                parts = []
                for _ in range(rng.choice([0, 1, 2, 5, 12])):
                    if rng.random() < 0.5:
                        parts.append(rng.choice(LIT))
                    else:
                        k = rng.choice(keys(g))
                        parts.append("{%s}" % k if rng.random() < 0.85 or not all(ord(c) < 128 for c in g.vals.get(k, "é")) else "{%s:%s}" % (k, rng.choice([">10", "<7", "^5", ".3", "*^9"])))
                return "".join(parts)

            def put(f, t, back=False):
                files[f] = t
                w.write(f, t.encode("utf-8"), back=back)

            def outs():
                return {o for g in gens for o in g.tpl.values()}

            def newout(g):
                x = rng.random()
                free = [o for o in [os.path.join(odir, "%s_%d.txt" % (g.name, k)) for k in range(3)] if o not in outs()]
                if x < 0.5 and free:
                    return rng.choice(free)
                return os.path.join(w.out, g.name, rng.choice(["o%d.out", "o %d.h", "é%d"]) % nid())

            def add(g):
                f = os.path.join(w.proj, rng.choice(["", "sub/", "s d/"]) + "t%d.in" % nid())
                put(f, text(g))
                g.tpl[f] = newout(g)

            for k in range(rng.choice([1, 1, 2, 3])):
                rel = rng.choice(["", "", "sub"])
                os.makedirs(w.p("sub"), exist_ok=True)
                g = G("tg%d" % k, rel)
                for _ in range(rng.choice([0, 1, 3])):
                    g.vals["k%d" % nid()] = rng.choice(VAL)
                gens.append(g)
                for _ in range(rng.choice([1, 2, 4])):
                    add(g)
            failer = rng.random() < 0.4
            snap = None
            prev = None         # (generator, input) -> (input mtime, output, values) of the last build if it was successful
            for rnd in range(ck.n(8, 14)):
                kinds = []
                unknown = None
                if rnd:
                    for _ in range(rng.choice([0, 1, 1, 2, 3])):
                        g = rng.choice(gens)
                        e = rng.choice(["text", "text", "value", "value", "addval", "out", "out", "add", "del", "swap", "touch", "back", "moveval", "shrink", "delval"])
                        fs = sorted(g.tpl)
                        if e in ("text", "back") and fs:
                            put(rng.choice(fs), text(g), back=e == "back")
                        elif e == "touch" and fs:
                            w.stamp(rng.choice(fs))
                        elif e == "shrink" and fs:
                            f = rng.choice(fs)
                            put(f, "short")
                        elif e == "value" and g.vals:
                            k = rng.choice(sorted(g.vals))
                            v = rng.choice(VAL)
                            if all(ord(c) < 128 for c in v) or not any("{%s:" % k in files[f] for f in fs):
                                g.vals[k] = v
                        elif e == "addval":
                            g.vals["k%d" % nid()] = rng.choice(VAL)
                        elif e == "delval" and g.vals:
                            k = rng.choice(sorted(g.vals))
                            if not any("{%s}" % k in files[f] or "{%s:" % k in files[f] for f in fs):
                                del g.vals[k]
                        elif e == "moveval" and len(g.vals) > 1:
                            a, b = rng.sample(sorted(g.vals), 2)
                            if all(ord(c) < 128 for c in g.vals[a] + g.vals[b]):
                                g.vals[a], g.vals[b] = g.vals[b], g.vals[a]
                        elif e == "out" and fs:
                            f = rng.choice(fs)
                            del_o = g.tpl.pop(f)
                            g.tpl[f] = newout(g) if rng.random() < 0.8 else del_o
                        elif e == "add":
                            add(g)
                        elif e == "del" and len(fs) > 1:
                            del g.tpl[rng.choice(fs)]
                        elif e == "swap" and len(fs) > 1:
                            a, b = rng.sample(fs, 2)
                            g.tpl[a], g.tpl[b] = g.tpl[b], g.tpl[a]
                        kinds.append(e)
                    # back to how it was in the last successful build (files keep their current text)
                    if snap and rng.random() < (0.5 if prev is None else 0.12):
                        for g in gens:
                            t, v = snap[g.name]
                            g.tpl = dict(t)
                            for f in t:
                                if not os.path.exists(f):
                                    put(f, "back")
                            for k in v:
                                if k in g.vals and all(ord(c) < 128 for c in v[k]):
                                    g.vals[k] = v[k]
                            fk = set(g.vals) | set(keys(g))
                            for f in g.tpl:
                                try:
                                    files[f].format(**{k: "" for k in fk})
                                except KeyError:
                                    put(f, "lost key")
                        kinds.append("revert")
                    # re-add a template that was there before
                    if rng.random() < 0.15:
                        g = rng.choice(gens)
                        old = [f for f in files if not any(f in x.tpl for x in gens) and os.path.exists(f)]
                        if old:
                            f = rng.choice(sorted(old))
                            put(f, text(g))
                            g.tpl[f] = newout(g)
                            kinds.append("readd")
                save = None
                if rng.random() < 0.2:
                    g = rng.choice(gens)
                    if g.tpl:
                        f = rng.choice(sorted(g.tpl))
                        save = (f, files[f])
                        unknown = rng.choice(["{nope}", "{", "}", "{0}", "{}", "{:x}", "{k999}", "gone", "{nope:>5}"])
                        if unknown == "gone":
                            os.unlink(f)
                        else:
                            w.write(f, (files[f] + "tail " + unknown).encode("utf-8"))
                        kinds.append("bad " + unknown)
                fail = failer and rng.random() < 0.25
                acts, regs = [], []
                for g in gens:
                    acts.append({"do": "gen", "key": g.name, "cls": "template", "name": g.name, "env": {"rel": g.rel}})
                    vs = list(g.vals.items())
                    rng.shuffle(vs)
                    esc = {k: v.replace("{", "{{").replace("}", "}}") for k, v in vs}
                    ops = [["patterns", esc]] if rng.random() < 0.3 else [["pattern", k, v] for k, v in esc.items()]
                    fs = sorted(g.tpl)
                    rng.shuffle(fs)
                    for f in fs:
                        a = f
                        if rng.random() < 0.3 and f.startswith(w.proj):
                            a = "{project_root_dir}/" + os.path.relpath(f, w.proj)
                        o = g.tpl[f]
                        bdir = os.path.join(w.out, g.name)
                        if o.startswith(bdir + "/") and rng.random() < 0.6:
                            o = "{current_build_dir}/" + os.path.relpath(o, bdir)
                        ops.append(["template", a, o])
                    acts.append({"do": "ops", "b": g.name, "ops": ops})
                    regs.append({"do": "build", "b": g.name, "via": [True, True]})
                if fail:
                    acts.append({"do": "gen", "key": "zz", "cls": "custom", "name": "zz", "ops": [["id", "i%d" % rnd, [], ["{current_build_dir}/o"], {"ret": rng.choice(["false", "throw"])}]]})
                    regs.append({"do": "build", "b": "zz", "via": [True, True]})
                rng.shuffle(regs)
                before = {}
                for g in gens:
                    for f, o in g.tpl.items():
                        if os.path.exists(o):
                            w.stamp(o)
                            before[o] = os.stat(o).st_mtime_ns
                r = w.run(acts + regs + [{"do": "run"}], workers=rng.choice([1, 2, 4, 8]))
                hist.append(kinds)
                data = {"hist": hist, "script": acts, "run": r.brief()}

                def bad(key, msg):
                    ck.violation(key, "after %s: %s" % (hist[-3:], msg), data, ("hist", i))
                if fail or unknown:
                    ck.count("failing_builds")
                    if r.rc == 0:
                        return bad("unknown-accepted" if unknown else "failure-lost", "the build succeeded although %s" % ("a template names %r" % unknown if unknown else "a step failed"))
                    if r.rc is None or r.rc < 0 or r.timeout:
                        return bad("crash", "the build ended with status %s" % r.rc)
                    ck.evaluated(1)
                    ck.see([sorted(set(kinds)), "fail"])
                    if save:
                        put(*save)
                    prev = None
                    continue
                if not r.ok:
                    return bad("build-failed", "the build failed with status %s: %s" % (r.rc, r.out[-300:]))
                cur, regen, kept = {}, 0, 0
                for g in gens:
                    vals = dict(g.vals, project_root_dir=w.proj, project_build_dir=w.out, current_build_dir=os.path.join(w.out, g.name), current_root_dir=os.path.join(w.proj, g.rel))
                    for f, o in g.tpl.items():
                        want = files[f].format(**vals).encode("utf-8")
                        try:
                            with open(o, "rb") as fh:
                                got = fh.read()
                        except OSError as e:
                            return bad("missing", "the output %s of %s was not written" % (o, f))
                        ck.evaluated(1, {"template": files[f][:100], "output": got[:100].decode("utf-8", "replace")} if i < 2 else None)
                        if got != want:
                            return bad("content", "the output of %s holds %r, expected %r" % (f, got[:200], want[:200]))
                        k = (g.name, f)
                        cur[k] = (os.stat(f).st_mtime_ns, o, dict(g.vals), g.rel)
                        again = o not in before or os.stat(o).st_mtime_ns != before[o]
                        if again:
                            regen += 1
                        else:
                            kept += 1
                        if again and prev is not None and prev.get(k) == cur[k]:
                            return bad("regenerated", "the unchanged template %s was regenerated" % f)
                prev = cur
                snap = {g.name: (dict(g.tpl), dict(g.vals)) for g in gens}
                ck.count("regenerated", regen)
                ck.count("kept", kept)
                ck.see([sorted(set(kinds)), len(cur), regen, kept])
        finally:
            w.close()

    def revert(rng, i):
        """outputs are handed round among the templates of one generator, the build fails, everything is put back"""
        w = World()
        try:
            fs = [w.p("t%d.in" % k) for k in range(rng.choice([2, 3, 5, 8]))]
            os_ = [os.path.join(w.dir, "o%d" % k) for k in range(len(fs) + 2)]
            for k, f in enumerate(fs):
                w.write(f, "template %d {v}\n" % k)
            maps = [dict(zip(fs, os_))]
            cur = dict(maps[0])
            val = "v0"
            ok_before = False
            hist = []
            for rnd in range(6):
                if rnd % 2:
                    o = list(os_)
                    rng.shuffle(o)
                    cur = dict(zip(fs, o)) if rng.random() < 0.7 else dict(maps[0])
                    if rng.random() < 0.3:
                        cur.pop(rng.choice(fs))
                else:
                    cur = dict(maps[0])
                badf = rng.choice(sorted(cur)) if rnd % 2 and rng.random() < 0.8 else None
                if badf:
                    st = os.stat(badf).st_mtime_ns
                    w.write(badf, "{nope}")
                fl = sorted(cur)
                rng.shuffle(fl)
                acts = [{"do": "gen", "key": "g", "cls": "template", "name": "g", "ops": [["pattern", "v", val]] + [["template", f, cur[f]] for f in fl]},
                        {"do": "build", "b": "g", "via": [True, True]}, {"do": "run"}]
                r = w.run(acts, workers=rng.choice([1, 1, 2, 4]))
                hist.append((cur, badf, r.rc))
                if badf:
                    w.write(badf, "template %d {v}\n" % fs.index(badf), mtime=st)
                    if r.rc in (0, None) or r.rc < 0:
                        ck.violation("unknown-accepted", "a template naming an unknown value ended with status %s" % r.rc, {"hist": hist}, ("revert", i))
                        return
                    continue
                ck.see(["revert", len(fs), rnd, [h[2] for h in hist]])
                if not r.ok:
                    ck.violation("build-failed", "the build failed with status %s" % r.rc, {"hist": hist, "run": r.brief()}, ("revert", i))
                    return
                for f, o in cur.items():
                    ck.evaluated(1)
                    want = "template %d %s\n" % (fs.index(f), val)
                    got = open(o).read() if os.path.exists(o) else None
                    if got != want:
                        ck.violation("content", "after a failed build with other output locations the output of %s holds %r, expected %r" % (f, got, want), {"hist": hist, "run": r.brief()}, ("revert", i))
                        return
        finally:
            w.close()

    ck.cases("hist", ck.n(600, 6000), case)
    ck.cases("revert", ck.n(400, 4000), revert)
    return ck.finish()
