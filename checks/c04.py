"""C04: a build killed at any instant never makes a later build stale or fail."""
import os

from vlib import build as B
from vlib.check import Check
from vlib.faults import match_of
from vlib.model import Model
from vlib.project import Project
from vlib.world import World, diff_snap

TOOLKILL = ["kill", "killa", "killall", "killalla", "killp", "sleepa=5,killa", "kill,sleep=5"]


def main(only=None):
    ck = Check("C04", "fault_enumeration",
               "one evaluation = one build after a killed build (killed before, during or after a command, inside a generator callback, or at the k-th file operation "
               "of the build process, before, half way through or after it), with the same, earlier or newly edited inputs, whose outputs were compared with a clean build; "
               "distinct = distinct (kill point kind, file role, input choice)",
               ["SIGKILL; completed file operations of the killed process persist (no power loss model)"], only)
    iof = B.build_c("iofault.so", "iofault.c", ["-shared", "-fPIC", "-ldl"])

    def role(path):
        b = os.path.basename(path)
        return "state" if b.endswith((".bin", ".json")) else "pch" if b.startswith("buildcc_pch") else "dir" if "." not in b else "other"

    def after(i, group, rng, w, p, before, hist, tag):
        """the builds after the kill"""
        choice = rng.choice(["same", "before", "before", "edit"])
        if choice == "before" and before is not None:
            q, files = before
            # back to the configuration and the files (content and modification time) from before
            for rel, (data, mt) in files.items():
                w.write(rel, data, mtime=mt)
            p = q.clone_config()
            p.files = dict(q.files)
        elif choice == "edit":
            hist.append(p.random_edit(rng))
        acts = p.actions(rng)
        r = w.run(acts, workers=rng.choice([1, 2, 4, 8]))
        if r.timeout or r.rc != 0:
            ck.violation("not-recovered:" + tag, "the build after a kill (%s, inputs: %s) ended with status %s" % (tag, choice, r.rc), {"hist": hist, "run": r.brief(), "script": acts}, (group, i))
            return False
        snap = w.snapshot()
        rc, clean = w.clean_build(acts)
        d = diff_snap(clean, snap)
        ck.evaluated(1, {"kill": tag, "inputs": choice, "steps_rerun": len(r.steps()), "files_compared": len(clean)} if i < 12 else None)
        ck.count("inputs_" + choice)
        ck.see([tag, choice])
        if not rc.ok or d:
            ck.violation("stale-after-kill:" + tag.split(" ")[0], "after a kill (%s) and a build with inputs '%s' outputs differ from a clean build: %s" % (tag, choice, d[:2]),
                         {"hist": hist, "diff": d, "script": acts, "run": r.brief()}, (group, i))
            return False
        r2 = w.run(acts)
        if not r2.ok or r2.steps():
            ck.violation("state-not-recorded:" + tag.split(" ")[0], "after the recovery from a kill (%s) a build with nothing changed ran %s" % (tag, [s.name() for s in r2.steps()][:3]),
                         {"hist": hist, "run": r2.brief(), "script": acts}, (group, i))
            return False
        return True

    def prepare(rng, w, full=True):
        p = Project(w).random(rng, ntargets=rng.choice([1, 2, 3]))
        before = None
        hist = []
        if rng.random() < 0.85 or not full:
            r = w.run(p.actions(rng))
            if not r.ok:
                return None, None, None
            before = (p.clone_config(), {rel: (open(w.p(rel)).read(), os.stat(w.p(rel)).st_mtime_ns) for rel in p.files})
            before[0].files = dict(p.files)
            for _ in range(rng.choice([1, 1, 2, 3])):
                hist.append(p.random_edit(rng))
        return p, before, hist

    def tool_case(rng, i):
        w = World()
        try:
            p, before, hist = prepare(rng, w)
            if p is None:
                ck.violation("build-failed", "a build with valid inputs failed", None, ("tool", i))
                return
            m = Model(p)
            cur = m.inputs(p)
            keys = list(cur)
            k = rng.choice(keys)
            plan, cbs = [], {}
            act = rng.choice(TOOLKILL)
            if k[0] == "gen" and p.gens[k[1]].cls == "custom":
                act = rng.choice(["kill", "killa"])
                cbs = {(k[1], k[2]): {act: True}}
            elif k[0] == "gen":
                plan = [("-t\x1fT%d_" % p.gens[k[1]].text, act)]
            else:
                plan = [(match_of(p, m, k)[0], act)]
            if rng.random() < 0.4:
                # whatever step comes first
                plan, cbs = [("", act + ",once=" + os.path.join(w.dir, "once"))], {}
            r = w.run(p.actions(rng, cbs=cbs), workers=rng.choice([1, 2, 4, 8]), plan=plan)
            killed = r.rc == -9
            ck.count("killed" if killed else "kill_point_not_reached")
            if not killed and not r.ok:
                # only the tool died (killall): an ordinary failure
                ck.count("failed_instead")
            after(i, "tool", rng, w, p, before, hist, "%s at %s" % (act.split("=")[0], k[0]) if killed else "none")
        finally:
            w.close()

    def io_case(rng, i):
        """every file operation of one dirty build is a kill point"""
        w0 = World()
        try:
            p, before, hist = prepare(rng, w0, full=False)
            if p is None:
                ck.violation("build-failed", "a build with valid inputs failed", None, ("io", i))
                return
            acts = p.actions()
            saved = w0.out + ".base"
            os.rename(w0.out, saved)
            os.system("cp -a '%s' '%s'" % (saved, w0.out))
            log = os.path.join(w0.dir, "iolog")
            r = w0.run(acts, workers=1, preload=iof, env={"IOF_DIR": w0.out, "IOF_LOG": log})
            ops = [l.split(" ", 2) for l in open(log).read().splitlines()] if os.path.exists(log) else []
            if not ops:
                return
            files = {rel: (open(w0.p(rel)).read(), os.stat(w0.p(rel)).st_mtime_ns) for rel in p.files}
            points = [(int(n), op, path, mode) for n, op, path in ops for mode in (["kill", "killa", "half"] if op == "write" else ["kill", "killa"])
                      if op in ("openw", "write", "unlink", "rename", "mkdir")]
            ck.count("kill_points", len(points))
            rng.shuffle(points)
            for n, op, path, mode in points[:ck.n(8, 40)]:
                os.system("rm -rf '%s' && cp -a '%s' '%s'" % (w0.out, saved, w0.out))
                for rel, (data, mt) in files.items():
                    w0.write(rel, data, mtime=mt)
                q = p.clone_config()
                q.files = dict(p.files)
                r = w0.run(acts, workers=1, preload=iof, env={"IOF_DIR": w0.out, "IOF_AT": str(n), "IOF_MODE": mode})
                ck.count("killed" if r.rc == -9 else "kill_point_not_reached")
                if not after(i, "io", rng, w0, q, before, list(hist), "%s %s of %s" % (mode, op, role(path))):
                    return
        finally:
            w0.close()

    ck.cases("tool", ck.n(220, 3000), tool_case)
    ck.cases("io", ck.n(40, 400), io_case)
    return ck.finish()
