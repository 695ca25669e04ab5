"""C14: file generator commands run one after another, each once, stop at the first failure, and rerun when any command changes."""
from vlib.check import Check
from vlib.world import World

FAULTS = ["fail=1", "fail=2", "fail=127", "fail=255", "failw=1", "partial=9", "sig=9", "sig=11", "sig=6", "sigw=15"]


def main(only=None):
    ck = Check("C14", "trace_oracle",
               "one evaluation = one observed build of a project of file generators: the sequence of started commands must be exactly the added ones up to the first failure (or none when up to "
               "date), each ended before the next started; distinct = distinct (number of commands, failing position and fault, edit before the build, generators)",
               ["a command has failed iff it exits non-zero or dies by a signal"], only)

    def case(rng, i):
        w = World()
        try:
            uid = [0]

            def nid():
                uid[0] += 1
                return uid[0]
            style = rng.choice(["plain", "shell", "args", "pattern"])

            def newcmd():
                return {"id": nid(), "style": rng.choice(["plain", "plain", "args", "pattern", "shell", "space"]), "v": nid()}

            class G:
                pass
            gens = []
            for k in range(rng.choice([1, 1, 2, 3])):
                g = G()
                g.name = "g%d" % k
                g.inputs = ["i%d_%d.in" % (k, j) for j in range(rng.choice([0, 1, 2]))]
                for x in g.inputs:
                    w.write(x, "%d\n" % nid())
                g.nout = rng.choice([0, 1, 2])
                g.cmds = [newcmd() for _ in range(rng.choice([1, 2, 3, 5, 9]))]
                g.pat = {"p": "P%d" % nid()}
                g.ok = None          # configuration of the last success
                gens.append(g)
            dep = len(gens) > 1 and rng.random() < 0.4

            def marker(g, c):
                # what the command is expected to receive, in order
                m = ["-t", "%s.%d" % (g.name, c["id"])]
                if c["style"] == "args":
                    m.append("A%d" % c["v"])
                elif c["style"] == "pattern":
                    m.append(g.pat["p"])
                elif c["style"] == "space":
                    m.append("s p %d" % c["v"])
                elif c["style"] == "shell":
                    m.append("V%d" % c["v"])
                return m

            def ops(g):
                o = [["pattern", k, v] for k, v in g.pat.items()]
                o += [["input", "{current_root_dir}/" + x] for x in g.inputs]
                o += [["output", "{current_build_dir}/o%d.out" % k] for k in range(g.nout)]
                for c in g.cmds:
                    base = '"%s" -t %s.%d' % (w.tool("gen"), g.name, c["id"])
                    if c["style"] == "args":
                        o.append(["command", base + " {x}", {"x": "A%d" % c["v"]}])
                    elif c["style"] == "pattern":
                        o.append(["command", base + " {p}", {}])
                    elif c["style"] == "space":
                        o.append(["command", base + ' "s p %d"' % c["v"], {}])
                    elif c["style"] == "shell":
                        o.append(["command", "X=V%d; true && %s $X" % (c["v"], base), {}])
                    else:
                        o.append(["command", base, {}])
                return o

            def conf(g):
                import os
                return (tuple(tuple(marker(g, c)) + (c["style"],) for c in g.cmds), tuple((x, os.stat(w.p(x)).st_mtime_ns) for x in g.inputs), g.nout)

            def edit():
                g = rng.choice(gens)
                k = rng.choice(["none", "none", "value", "swap", "add", "insert", "del", "pat", "input", "style", "dup", "rotate", "nout"])
                if k == "value":
                    rng.choice(g.cmds)["v"] = nid()
                elif k == "swap" and len(g.cmds) > 1:
                    a, b = rng.sample(range(len(g.cmds)), 2)
                    g.cmds[a], g.cmds[b] = g.cmds[b], g.cmds[a]
                elif k == "add":
                    g.cmds.append(newcmd())
                elif k == "insert":
                    g.cmds.insert(rng.randrange(len(g.cmds) + 1), newcmd())
                elif k == "del" and len(g.cmds) > 1:
                    g.cmds.pop(rng.randrange(len(g.cmds)))
                elif k == "pat":
                    g.pat["p"] = "P%d" % nid()
                elif k == "input" and g.inputs:
                    w.write(rng.choice(g.inputs), "%d\n" % nid(), back=rng.random() < 0.5)
                elif k == "style":
                    c = rng.choice(g.cmds)
                    c["style"] = rng.choice(["plain", "args", "space"])
                elif k == "dup":     # the very same command twice is two commands
                    g.cmds.insert(rng.randrange(len(g.cmds) + 1), dict(rng.choice(g.cmds)))
                elif k == "rotate":
                    g.cmds.append(g.cmds.pop(0))
                elif k == "nout":
                    g.nout = rng.choice([0, 1, 2])
                return k
            for rnd in range(rng.choice([3, 4, 6])):
                ed = [edit() for _ in range(rng.choice([0, 1, 1, 2]))] if rnd else ["first"]
                plan, fail = [], {}
                for g in gens:
                    if rng.random() < 0.35:
                        k = rng.randrange(len(g.cmds))
                        f = rng.choice(FAULTS)
                        plan.append(("-t\x1f%s.%d\x1f" % (g.name, g.cmds[k]["id"]), f))
                        fail[g.name] = g.cmds[k]["id"]
                    if rng.random() < 0.5:
                        plan.append(("-t\x1f%s." % g.name, "sleepa=%d" % rng.choice([1, 3])))
                acts = []
                for g in gens:
                    acts.append({"do": "gen", "key": g.name, "cls": "file", "name": g.name})
                regs = [{"do": "build", "b": g.name, "via": [True, True], "ops": ops(g)} for g in gens]
                rng.shuffle(regs)
                acts += regs
                if dep:
                    acts.append({"do": "dep", "a": gens[1].name, "b": gens[0].name, "via": [True, True]})
                acts.append({"do": "run"})
                r = w.run(acts, workers=rng.choice([1, 2, 4, 8]), plan=plan)
                data = {"script": acts, "plan": plan, "edits": ed, "run": r.brief()}

                def bad(key, msg):
                    ck.violation(key, msg, data, ("gen", i))
                if r.timeout or r.crashed():
                    return bad("crash", "the build ended abnormally (status %s, timeout %s)" % (r.rc, r.timeout))
                steps = r.steps()
                anyfail, blocked = False, False
                for g in gens:
                    cur = conf(g)
                    mine = [s for s in steps if s.argv[2].split(".")[0] == g.name]
                    want = [marker(g, c) for c in g.cmds]
                    due = g.ok != cur
                    stop = None
                    if g.name in fail:
                        stop = [c["id"] for c in g.cmds].index(fail[g.name]) + 1
                    exp = want[:stop] if stop else want
                    got = [s.argv[1:] for s in mine]
                    ck.evaluated(1, {"commands": len(want), "ran": len(got), "edit": ed, "failing": stop} if i < 12 else None)
                    ck.see([len(want), stop, [f for m, f in plan if g.name in m], ed, len(got), len(gens), dep])
                    if due and got == [] and anyfail:
                        continue        # another generator failed first: this one need not have started
                    if not due:
                        if got:
                            return bad("needless", "generator %s ran %s although nothing changed (%s)" % (g.name, got, ed))
                        continue
                    if got == [] and any(n in fail for n in [x.name for x in gens if x is not g]) and not r.ok:
                        continue
                    if got != exp:
                        return bad("sequence", "generator %s ran %s, expected %s (failing command %s, edit %s)" % (g.name, got, exp, fail.get(g.name), ed))
                    for a, b in zip(mine, mine[1:]):
                        if a.t1 is None or a.t1 > b.t0:
                            return bad("overlap", "generator %s started %s before %s had ended" % (g.name, b.argv, a.argv))
                    if stop:
                        g.ok = None
                        anyfail = True
                        if mine[-1].rc == 0:
                            return bad("sequence", "internal: planned failure did not happen")
                    else:
                        g.ok = cur
                if r.ok == anyfail:
                    return bad("status", "status %s although failing commands: %s" % (r.rc, fail))
                if len(steps) != len([s for s in steps if s.argv[2].split(".")[0] in [g.name for g in gens]]):
                    return bad("foreign", "an unknown command ran")
        finally:
            w.close()

    ck.cases("gen", ck.n(700, 7000), case)
    return ck.finish()
