"""C10: a failing step stops dependents and fails the whole run; a run without failures succeeds and calls back once, between build and tests."""
import os

from vlib.check import Check
from vlib.dag import Dag, intervals
from vlib.faults import plan_for
from vlib.model import Model
from vlib.world import World


def main(only=None):
    ck = Check("C10", "fault_enumeration",
               "one evaluation = one observed run of a random graph with tests and a post-build callback, with or without injected failures: exit status, absence of dependents' steps, of later "
               "stages, of the callback and of tests, every started step ended before exit; distinct = distinct (failed kinds and faults, dependents held back, steps that ran, workers)",
               ["a step has failed iff its tool exited non-zero or died by a signal, its callback returned false or threw, or one of its declared inputs does not exist"], only)

    def case(rng, i):
        w = World()
        try:
            p = Dag(w).build_random(rng, rng.choice([1, 2, 3, 4, 5, 6, 8]))
            m = Model(p)
            clo = p.closure()
            dependents = {b: {a for a in clo if b in clo[a]} for b in clo}
            texe = [t for t in p.targets.values() if t.cls == "exe_gcc"]
            hist = []
            for rnd in range(2):
                direct = rng.random() < 0.15      # as the scripts of example/gcc: no tests, and the script reads the task state
                tests = [{"do": "test", "b": t.name, "via": [True, True], "command": '"%s" --rc 0 %s' % (w.tool("tst"), t.name)} for t in texe if rng.random() < 0.6 and not direct]
                cur = m.inputs(p)
                todo = [k for k in cur if m.okin.get(k, 0) != cur[k]]
                plan, cbs, hit, moved = [], {}, set(), None
                mode = rng.choice(["none", "step", "step", "steps", "missing"])
                if mode in ("step", "steps") and todo:
                    plan, cbs, hit = plan_for(rng, p, m, sorted(set(rng.choice(todo) for _ in range(1 if mode == "step" else rng.choice([2, 3, 4])))))
                elif mode == "missing":
                    b = rng.choice(p.names)
                    c = (p.targets[b].srcs + p.targets[b].pchs) if b in p.targets else (p.gens[b].inputs + [x for d in p.gens[b].ids.values() for x in d["inputs"]])
                    moved = (b, p.abs(rng.choice(c)))
                    os.rename(moved[1], moved[1] + ".gone")
                dp, dc = p.delays(rng)
                for k, v in dc.items():
                    cbs[k] = dict(cbs.get(k, {}), **v)
                plan = plan + dp
                acts = p.actions(rng, cbs=cbs, post=[{"do": "mark", "key": "post"}], tests=tests)
                nw = rng.choice([1, 2, 4, 8])
                r = w.run(acts, workers=nw, plan=plan, direct=direct)
                if r.timeout:
                    r2 = w.run(acts, workers=nw, plan=plan, timeout=90, direct=direct)
                    if not r2.timeout:
                        ck.count("slow_machine")
                        return
                if moved:
                    os.rename(moved[1] + ".gone", moved[1])
                case_ = ("run", i)
                data = {"deps": p.deps, "hit": sorted(map(str, hit)), "moved": moved, "run": r.brief(), "script": acts, "plan": plan}

                def bad(key, msg):
                    ck.violation(key, msg, data, case_)
                steps = r.steps()
                build = [s for s in steps if s.kind not in ("test", "query")]
                tst = [s for s in steps if s.kind == "test"]
                posts = [e for e in r.events if e["ev"] == "post"]
                ends = [e["t"] for e in r.events if e["ev"] == "atexit"]
                failed = {}
                for s in build:
                    if s.rc not in (0, None):
                        failed.setdefault(p.builder_of(s), []).append(s)
                fb = set(failed) | ({moved[0]} if moved else set())
                ck.evaluated(1, {"mode": mode, "failed": sorted({s.kind for x in failed.values() for s in x}), "rc": r.rc, "steps": len(build), "tests": len(tst), "workers": nw} if i < 12 else None)
                ck.see([mode, sorted({s.kind for x in failed.values() for s in x}), len(set().union(*[dependents[b] for b in fb])) if fb else 0, len(build), nw, len(tests)])
                ck.count("runs_with_failure" if fb else "runs_without_failure")
                if r.timeout:
                    return bad("hang", "the run did not end (failing steps: %s)" % sorted(fb))
                if r.rc < 0:
                    return bad("crash", "the run ended by signal %d (failing steps: %s)" % (-r.rc, sorted(fb)))
                if not ends:
                    return bad("crash", "the process ended without running its exit handlers (status %s)" % r.rc)
                for s in build + tst:
                    if s.t1 is None or s.t1 > ends[-1]:
                        return bad("not-waited", "step %s was still running when the process exited" % s.name())
                if r.leftover:
                    return bad("not-waited", "a process started by the run outlived it")
                if fb:
                    if r.rc == 0:
                        return bad("status", "the run succeeded although steps of %s failed" % sorted(fb))
                    if posts:
                        return bad("post", "the post-build callback ran although steps of %s failed" % sorted(fb))
                    if tst:
                        return bad("tests", "tests ran although steps of %s failed" % sorted(fb))
                    iv = intervals(p, r)
                    for b in fb:
                        for d in dependents[b]:
                            ck.count("dependents_checked")
                            if iv.get(d):
                                return bad("dependent", "%s depends on the failed %s but '%s' ran" % (d, b, iv[d][0].name()))
                    for b, ss in failed.items():
                        if b in p.targets:
                            later = {"pch": ("compile", "link"), "compile": ("link",), "link": ()}
                            for s in ss:
                                l = [x for x in iv[b] if x.kind in later[s.kind]]
                                if l:
                                    return bad("later-stage", "target %s: '%s' ran although '%s' failed" % (b, l[0].name(), s.name()))
                        elif p.gens[b].cls == "file":
                            for s in ss:
                                l = [x for x in iv[b] if x.t0 > s.t0]
                                if l:
                                    return bad("later-stage", "generator %s went on after its failed command" % b)
                    if moved and moved[0] in p.targets and [x for x in iv.get(moved[0], []) if x.kind == "link"]:
                        return bad("later-stage", "target %s was linked although its input %s does not exist" % moved)
                else:
                    if r.rc != 0:
                        return bad("spurious", "no step failed but the run ended with status %s" % r.rc)
                    if len(posts) != 1:
                        return bad("post", "the post-build callback ran %d times" % len(posts))
                    if any(s.t1 > posts[0]["t"] for s in build):
                        return bad("post-early", "the post-build callback ran before the last build step had ended")
                    if any(s.t0 < posts[0]["t"] for s in tst):
                        return bad("post-late", "a test started before the post-build callback")
                    names = sorted(s.argv[-1] for s in tst)
                    if names != sorted(t["b"] for t in tests):
                        return bad("tests", "tests that ran: %s, registered: %s" % (names, sorted(t["b"] for t in tests)))
                mb = [x for x in m.observe(p, r) if x[0] in ("twice",)]
                if mb:
                    return bad(*mb[0])
                for _ in range(rng.choice([0, 1, 2])):
                    p.edit_file(rng, rng.choice(sorted(p.files)))
        finally:
            w.close()

    def empty(rng, i):
        w = World()
        try:
            r = w.run([{"do": "run", "post": [{"do": "mark", "key": "p"}]}] if i else [{"do": "run"}])
            ck.evaluated(1)
            if not r.ok or len([e for e in r.events if e["ev"] == "post"]) != i:
                ck.violation("empty", "a run without builders: status %s" % r.rc, {"run": r.brief()}, ("empty", i))
        finally:
            w.close()

    ck.cases("run", ck.n(700, 7000), case)
    ck.cases("empty", 2, empty)
    return ck.finish()
