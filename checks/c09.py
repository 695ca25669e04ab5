"""C09: within a target: precompiled header, then objects, then one link, then recorded state."""
import os

from vlib.check import Check
from vlib.dag import Dag
from vlib.model import Model
from vlib.project import Project
from vlib.world import World


def main(only=None):
    ck = Check("C09", "exploration",
               "one evaluation = one target in one observed build: order of its precompile, compile and link steps, number of links, the link's objects, and the time its state was "
               "recorded; distinct = distinct (had pch, sources, recompiled sources, linked) combinations and interleavings",
               ["state recording is seen through the state file's modification time, with a delayed link and a tolerance of one clock tick"], only)

    def case(rng, i):
        w = World()
        try:
            p = Project(w).random(rng, ntargets=rng.choice([1, 2, 3]))
            m = Model(p)
            objs = {}
            hist = []
            for rnd in range(ck.n(5, 10)):
                if rnd:
                    for _ in range(rng.choice([1, 1, 2, 3])):
                        hist.append(p.random_edit(rng))
                plan = []
                for t in p.targets.values():
                    o = m.out_of(p, t)
                    plan.append((("rcs\x1f" if t.cls.startswith("static") else "-o\x1f") + o + "\x1f", "sleepa=%d" % rng.choice([30, 40])))
                    if t.pchs and rng.random() < 0.7:
                        plan.append((p.target_dir(t.name) + "/buildcc_pch.h.gch\x1f", rng.choice(["sleepa=8", "sleep=8"])))
                    for s in p.all_srcs(t):
                        if rng.random() < 0.4:
                            plan.append(("-c\x1f" + s + "\x1f", rng.choice(["sleepa=%d", "sleep=%d"]) % rng.randrange(1, 15)))
                acts = p.actions(rng)
                nw = rng.choice([1, 2, 4, 8])
                r = w.run(acts, workers=nw, plan=plan, direct=rng.random() < 0.2)
                if not r.ok:
                    ck.violation("build-failed", "a build with valid inputs failed (rc %s)" % r.rc, {"hist": hist, "run": r.brief(), "script": acts}, ("stage", i))
                    return
                st = [s for s in r.steps() if s.kind in ("pch", "compile", "link")]

                def bad(key, msg):
                    ck.violation(key, "after %s: %s" % (hist[-3:], msg), {"hist": hist, "run": r.brief(), "script": acts}, ("stage", i))
                for t in p.targets.values():
                    mine = [s for s in st if p.builder_of(s) == t.name]
                    pch = [s for s in mine if s.kind == "pch"]
                    com = [s for s in mine if s.kind == "compile"]
                    lnk = [s for s in mine if s.kind == "link"]
                    if len(pch) > 1 or len(lnk) > 1:
                        return bad("twice", "target %s: %d precompile and %d link steps in one build" % (t.name, len(pch), len(lnk)))
                    for a in pch:
                        for b in com + lnk:
                            if b.t0 < a.t1:
                                return bad("pch-order", "target %s: '%s' started before the precompiled header was finished" % (t.name, b.name()))
                    for a in com:
                        for b in lnk:
                            if b.t0 < a.t1:
                                return bad("link-order", "target %s: the link started before '%s' had finished" % (t.name, a.name()))
                    if (pch or com) and not lnk:
                        return bad("no-link", "target %s: something was rebuilt but it was not linked" % t.name)
                    for c in com:
                        objs[(t.name, c.src)] = c.out
                    if lnk:
                        want = sorted(objs.get((t.name, s), "?") for s in p.all_srcs(t))
                        got = sorted(lnk[0].objs)
                        if want != got:
                            return bad("objects", "target %s: linked %s instead of one object per source %s" % (t.name, got, want))
                        sf = [os.path.join(p.target_dir(t.name), f) for f in os.listdir(p.target_dir(t.name)) if f.endswith(".bin")]
                        if not sf:
                            return bad("no-state", "target %s was built but recorded no state" % t.name)
                        wall = [e["w"] for e in r.events if e["ev"] == "end" and e["pid"] == lnk[0].pid][-1]
                        if max(os.stat(f).st_mtime_ns for f in sf) < wall - 12_000_000:
                            return bad("state-early", "target %s: state was recorded %d ms before the link finished" % (t.name, (wall - max(os.stat(f).st_mtime_ns for f in sf)) / 1e6))
                        ck.count("links_checked")
                    ck.evaluated(1, {"target": t.cls, "pch": len(pch), "compiled": len(com), "sources": len(p.all_srcs(t)), "linked": len(lnk), "workers": nw} if i < 6 else None)
                    ck.see([t.cls, len(pch), len(com), len(p.all_srcs(t)), len(lnk), [s.kind for s in sorted(mine, key=lambda s: s.t0)], nw])
        finally:
            w.close()

    ck.cases("stage", ck.n(160, 2000), case)
    return ck.finish()
