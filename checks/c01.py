"""C01: after any history of edits, a successful build leaves what a clean build leaves."""
import os

from vlib.check import Check
from vlib.project import Project
from vlib.world import World, diff_snap


def main(only=None):
    ck = Check("C01", "exploration",
               "one evaluation = one build of a random multi-target project after random edits, whose outputs were compared byte for byte "
               "with a clean build of the same inputs; distinct = distinct (edit kinds, set of steps rerun) pairs",
               ["tools are stand-ins whose output is a fingerprint of their argv and of every byte they read"], only)

    def case(rng, i):
        w = World()
        try:
            p = Project(w).random(rng, ntargets=rng.choice([1, 2, 3, 4]))
            hist = []
            old = []
            rounds = ck.n(6, 14)
            raced = False
            for rnd in range(rounds):
                if rnd:
                    for _ in range(rng.choice([0, 0, 1, 2]) if raced else rng.choice([1, 1, 1, 2, 3])):
                        if old and rng.random() < 0.12:
                            # back to an earlier configuration (files on disk stay as they are)
                            q = rng.choice(old).clone_config()
                            q.uid = p.uid
                            q.files = p.files
                            p = q
                            hist.append("revert-config")
                        else:
                            hist.append(p.random_edit(rng))
                acts = p.actions(rng)
                nw = rng.choice([1, 2, 4, 8])
                # the user edits declared files while this build is running (each at most once, and not in the last round)
                plan = []
                if rnd < rounds - 1 and rng.random() < 0.35:
                    srcs = sorted({x for t in p.targets.values() for x in p.all_srcs(t)})
                    fs = p.declared()
                    for f in rng.sample(fs, min(len(fs), rng.choice([1, 1, 2, 4]))):
                        m = rng.choice(["-c\x1f%s\x1f" % p.abs(x) for x in srcs] + ["buildcc_pch.h.gch\x1f", "rcs\x1f", "-o\x1f"])
                        once = os.path.join(w.dir, "once%d_%d" % (rnd, len(plan)))
                        if rng.random() < 0.3:
                            plan.append((m, "once=%s,sleep=%d,touch=%s" % (once, rng.choice([1, 5, 20]), p.abs(f))))
                        else:
                            plan.append((m, "once=%s,touchr=%s" % (once, p.abs(f))))
                raced = bool(plan)
                r = w.run(acts, workers=nw, plan=plan, direct=rng.random() < 0.15)
                if r.timeout:
                    ck.violation("hang", "a build did not finish within 60 s", {"hist": hist}, ("hist", i))
                    return
                if r.rc != 0:
                    ck.violation("build-failed", "a build with valid inputs failed (rc %s) after %s" % (r.rc, hist[-3:]), {"hist": hist, "run": r.brief(), "script": acts}, ("hist", i))
                    return
                if raced:
                    k = sum(os.path.exists(os.path.join(w.dir, "once%d_%d" % (rnd, x))) for x in range(len(plan)))
                    hist.append("while-building x%d" % k)
                    ck.count("edits_while_building", k)
                    if k:
                        old.append(p.clone_config())
                        continue        # judged by the next build
                snap = w.snapshot()
                rc, clean = w.clean_build(acts, workers=nw)
                if not rc.ok:
                    ck.violation("clean-failed", "a clean build of valid inputs failed (rc %s)" % rc.rc, {"hist": hist, "run": rc.brief(), "script": acts}, ("hist", i))
                    return
                d = diff_snap(clean, snap)
                kinds = sorted({h.split()[0] for h in hist[-3:]})
                ran = sorted({s.kind for s in r.steps()})
                ck.evaluated(1, {"edits": hist[-2:], "steps": [s.name() for s in r.steps()][:5], "files_compared": len(clean)} if i < 12 and rnd == 2 else None)
                ck.count("files_compared", len(clean))
                ck.count("steps_observed", len(r.steps()))
                ck.see([kinds, ran, len(r.steps())])
                if d:
                    ck.violation("stale:" + hist[-1].split()[0], "stale output after %s: %s" % (hist[-3:], d[:2]),
                                 {"hist": hist, "diff": d, "script": acts, "run": r.brief()}, ("hist", i))
                    return
                old.append(p.clone_config())
        finally:
            w.close()

    ck.cases("hist", ck.n(400, 4000), case)
    return ck.finish()
