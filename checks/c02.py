"""C02: builds run only the steps whose declared inputs changed (and nothing at all when nothing changed)."""
from vlib.check import Check
from vlib.model import Model
from vlib.project import Project
from vlib.world import World


def main(only=None):
    ck = Check("C02", "exploration",
               "one evaluation = one observed build of a random project after random edits whose executed steps were compared with the reference model "
               "(must <= ran <= may, each once), or one rebuild with nothing changed; distinct = distinct (edit kinds, executed step kinds, counts)",
               ["declared inputs are those the script declares; tools, command templates and undeclared files are not inputs"], only)

    def case(rng, i):
        w = World()
        try:
            p = Project(w).random(rng, ntargets=rng.choice([1, 2, 3, 4]))
            m = Model(p)
            hist = []
            old = []
            for rnd in range(ck.n(8, 16)):
                if rnd:
                    for _ in range(rng.choice([1, 1, 1, 1, 2, 3])):
                        if old and rng.random() < 0.1:
                            q = rng.choice(old).clone_config()
                            q.uid, q.files = p.uid, p.files
                            p = q
                            hist.append("revert-config")
                        else:
                            hist.append(p.random_edit(rng))
                acts = p.actions(rng)
                for again in range(2 if rng.random() < 0.5 else 1):
                    r = w.run(acts, workers=rng.choice([1, 2, 4, 8]), direct=rng.random() < 0.15)
                    if not r.ok:
                        ck.violation("build-failed", "a build with valid inputs failed (rc %s, timeout %s) after %s" % (r.rc, r.timeout, hist[-3:]),
                                     {"hist": hist, "run": r.brief(), "script": acts}, ("hist", i))
                        return
                    bad = m.observe(p, r)
                    kinds = {}
                    for k in m.ran:
                        kinds[k[0]] = kinds.get(k[0], 0) + 1
                    ck.evaluated(1, {"edits": hist[-2:], "ran": m.stats} if i < 12 and rnd == 3 else None)
                    ck.count("steps_ran", m.stats["ran"])
                    ck.count("steps_not_run", m.stats["steps"] - m.stats["ran"])
                    if again or (hist and hist[-1].startswith("nothing")):
                        ck.count("no_change_builds")
                    ck.see([sorted({h.split()[0] for h in hist[-3:]}), sorted(kinds.items()), again])
                    if bad:
                        ck.violation(bad[0][0], "after %s: %s" % (hist[-3:] if not again else "no change", bad[0][1]),
                                     {"hist": hist, "bad": bad, "script": acts, "run": r.brief()}, ("hist", i))
                        return
                old.append(p.clone_config())
        finally:
            w.close()

    ck.cases("hist", ck.n(350, 2500), case)
    return ck.finish()
