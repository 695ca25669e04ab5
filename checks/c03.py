"""C03: a failed build is completely recovered by the next one."""
import os

from vlib.check import Check
from vlib.faults import plan_for
from vlib.model import Model
from vlib.project import Project
from vlib.world import World, diff_snap


def main(only=None):
    ck = Check("C03", "fault_enumeration",
               "one evaluation = one observed build (failing or recovering); failing builds: injected step failures or missing inputs must be reported and only "
               "permitted steps run; recovering builds: exactly the outstanding steps run and outputs equal a clean build. distinct = distinct (failed step "
               "kinds and faults, steps run at recovery)",
               ["a step fails iff its tool exits non-zero or dies by a signal, or its callback returns false or throws"], only)

    def fail_status(r):
        return r.rc is not None and r.rc > 0

    def case(rng, i):
        w = World()
        try:
            p = Project(w).random(rng, ntargets=rng.choice([1, 2, 3]))
            m = Model(p)
            hist = []

            def judge(r, acts, what):
                bad = m.observe(p, r)
                if bad:
                    ck.violation(what + ":" + bad[0][0], "%s after %s: %s" % (what, hist[-4:], bad[0][1]), {"hist": hist, "bad": bad, "run": r.brief(), "script": acts}, ("fail", i))
                return not bad
            if rng.random() < 0.7:
                acts = p.actions(rng)
                r = w.run(acts, workers=rng.choice([1, 2, 4, 8]))
                if not r.ok:
                    ck.violation("build-failed", "a build with valid inputs failed rc %s" % r.rc, {"run": r.brief(), "script": acts}, ("fail", i))
                    return
                if not judge(r, acts, "first"):
                    return
            for rnd in range(ck.n(3, 6)):
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    hist.append(p.random_edit(rng))
                faults = []
                for nf in range(rng.choice([1, 1, 2])):
                    cur = m.inputs(p)
                    outstanding = [k for k in cur if m.okin.get(k, 0) != cur[k]] or list(cur)
                    keys = list(cur)
                    pick = [rng.choice(outstanding if rng.random() < 0.8 else keys) for _ in range(rng.choice([1, 1, 2, 3]))]
                    pick = sorted(set(pick))
                    plan, cbs, hit, moved = [], {}, set(), []
                    if rng.random() < 0.75:
                        plan, cbs, hit = plan_for(rng, p, m, pick)
                    else:
                        # a declared input is missing during this build
                        t = rng.choice(list(p.targets.values()))
                        cand = t.srcs + t.hdrs + t.pchs + t.cdeps + t.ldeps + [x for g in p.gens.values() for x in g.inputs + [y for d in g.ids.values() for y in d["inputs"]]]
                        if cand:
                            f = p.abs(rng.choice(cand))
                            os.rename(f, f + ".gone")
                            moved.append(f)
                    acts = p.actions(rng, cbs=cbs)
                    r = w.run(acts, workers=rng.choice([1, 2, 4, 8]), plan=plan, direct=rng.random() < 0.15)
                    ran_failed = [s for s in r.steps() if s.rc not in (0, None)]
                    hist.append("fail " + ",".join(sorted({k[0] for k in hit})) + ("missing" if moved else ""))
                    if r.timeout:
                        ck.violation("hang", "a failing build did not finish within 60 s", {"hist": hist, "run": r.brief()}, ("fail", i))
                        return
                    if (ran_failed or moved) and not fail_status(r):
                        ck.violation("failure-not-reported" if r.rc == 0 else "crash", "a build with failing steps %s%s ended with status %s" % (
                            [s.name() for s in ran_failed][:3], " and a missing input" if moved else "", r.rc), {"hist": hist, "run": r.brief(), "script": acts}, ("fail", i))
                        return
                    if not ran_failed and not moved and r.rc != 0:
                        ck.violation("spurious-failure", "a build in which no step failed ended with status %s" % r.rc, {"hist": hist, "run": r.brief(), "script": acts}, ("fail", i))
                        return
                    ok = judge(r, acts, "failing build")
                    for f in moved:
                        os.rename(f + ".gone", f)
                    ck.evaluated(1)
                    ck.count("failing_builds", 1 if r.rc else 0)
                    ck.count("failed_steps", len(ran_failed))
                    faults.append((sorted({k[0] for k in hit}), bool(moved), sorted({s.kind for s in ran_failed})))
                    if not ok:
                        return
                    if rng.random() < 0.3:
                        hist.append(p.random_edit(rng))
                # the cause is gone
                acts = p.actions(rng)
                r = w.run(acts, workers=rng.choice([1, 2, 4, 8]))
                if not r.ok:
                    ck.violation("not-recovered", "the build after %s did not succeed (rc %s)" % (hist[-3:], r.rc), {"hist": hist, "run": r.brief(), "script": acts}, ("fail", i))
                    return
                if not judge(r, acts, "recovery"):
                    return
                snap = w.snapshot()
                rc, clean = w.clean_build(acts)
                d = diff_snap(clean, snap)
                ck.evaluated(1, {"faults": faults, "recovered_steps": m.stats} if i < 12 else None)
                ck.see([faults, sorted({k[0] for k in m.ran}), m.stats["ran"]])
                if not rc.ok or d:
                    ck.violation("stale-after-failure", "outputs after recovery from %s differ from a clean build: %s" % (hist[-3:], d[:2]),
                                 {"hist": hist, "diff": d, "script": acts, "run": r.brief()}, ("fail", i))
                    return
        finally:
            w.close()

    ck.cases("fail", ck.n(260, 2500), case)
    return ck.finish()
