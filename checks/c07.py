"""C07: nothing runs before everything it depends on has finished; everything out of date runs exactly once."""
import os

from vlib.check import Check
from vlib.dag import Dag, happens_before, intervals
from vlib.model import Model
from vlib.world import World


def main(only=None):
    ck = Check("C07", "exploration",
               "one evaluation = one observed parallel build of a random graph of builders; every pair of steps of (transitively) dependent builders was checked for order and every "
               "step for exactly-once; distinct = distinct orders of step starts and ends (interleavings) seen",
               ["steps are ordered by the system-wide monotonic clock read inside the tool processes and callbacks"], only)

    def case(rng, i):
        w = World()
        try:
            p = Dag(w).build_random(rng, rng.choice([2, 3, 4, 5, 6, 8, 10]))
            m = Model(p)
            pairs = sum(len(x) for x in p.closure().values())
            for rnd in range(2):
                plan, cbs = p.delays(rng)
                acts = p.actions(rng, cbs=cbs)
                nw = rng.choice([1, 2, 3, 4, 8])
                r = w.run(acts, workers=nw, plan=plan)
                if not r.ok:
                    ck.violation("hang" if r.timeout else "build-failed", "a build of a valid graph ended with status %s" % r.rc, {"run": r.brief(), "script": acts, "deps": p.deps}, ("dag", i))
                    return
                bad = happens_before(p, r)
                evs = [(e["ev"], e.get("id") or e.get("pid")) for e in r.events]
                ids = {}
                ck.see([(e, ids.setdefault(x, len(ids))) for e, x in evs] + [len(p.deps), nw])
                ck.evaluated(1, {"builders": len(p.names), "deps": len(p.deps), "workers": nw, "steps": len(r.steps())} if i < 12 else None)
                ck.count("dependent_pairs", pairs)
                ck.count("steps", len(r.steps()))
                iv = intervals(p, r)
                over = 0
                allst = [(s.t0, s.t1, b) for b, ss in iv.items() for s in ss]
                for a in allst:
                    for b in allst:
                        if a[2] < b[2] and a[0] < b[1] and b[0] < a[1]:
                            over += 1
                ck.count("overlapping_steps_of_different_builders", over)
                if bad:
                    a, b, sa, sb = bad[0]
                    ck.violation("order", "%s depends on %s but '%s' started before '%s' had ended" % (a, b, sa, sb), {"deps": p.deps, "bad": bad[:5], "run": r.brief(), "script": acts}, ("dag", i))
                    return
                mb = m.observe(p, r)
                if mb:
                    ck.violation("once:" + mb[0][0], mb[0][1], {"deps": p.deps, "bad": mb, "run": r.brief(), "script": acts}, ("dag", i))
                    return
                for _ in range(rng.choice([1, 2, 4])):
                    f = rng.choice(sorted(p.files))
                    p.edit_file(rng, f)
        finally:
            w.close()

    def indep(rng, i):
        """independent builders meet at a rendezvous, which is only possible if neither waits for the other"""
        def once():
            w = World()
            try:
                p = Dag(w)
                p.build_random(rng, 2, density=0, kinds=("t",), pch=0)
                a, b = [p.targets[n] for n in p.names]
                extra = rng.random() < 0.5
                if extra:
                    # both depend on a third one
                    p2 = len(p.names)
                    p.build_random(rng, 1, kinds=("t",), pch=0)
                    c = [n for n in p.targets if n not in (a.name, b.name)][0]
                    p.deps += [(a.name, c), (b.name, c)]
                fa, fb = os.path.join(w.dir, "fa"), os.path.join(w.dir, "fb")
                plan = [("-c\x1f" + p.abs(a.srcs[0]) + "\x1f", "mk=%s,waitf=%s" % (fa, fb)), ("-c\x1f" + p.abs(b.srcs[0]) + "\x1f", "mk=%s,waitf=%s" % (fb, fa))]
                acts = p.actions(rng)
                r = w.run(acts, workers=rng.choice([2, 4, 8]), plan=plan, timeout=120)
                return r, acts
            finally:
                w.close()
        r, acts = once()
        if not r.ok:
            r, acts = once()
        ck.evaluated(1)
        ck.count("rendezvous", 1)
        if not r.ok:
            ck.violation("serialised", "two independent builders never ran at the same time although both were ready (rc %s)" % r.rc, {"run": r.brief(), "script": acts}, ("indep", i))

    ck.cases("dag", ck.n(450, 5000), case)
    ck.cases("indep", ck.n(30, 200), indep, workers=4)
    return ck.finish()
