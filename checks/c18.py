"""C18: no data race, memory error, leak or undefined behaviour: the workloads of every other check, run in sanitizer builds.

The deciding oracle is the sanitizer (ThreadSanitizer, AddressSanitizer with leak detection, UndefinedBehaviorSanitizer, and
valgrind memcheck for uninitialised memory). The behavioural verdicts of the reused workloads are ignored here."""
import concurrent.futures as cf
import importlib
import os
import re
import time

import vlib.world as W
from vlib import hostile
from vlib.check import Check, Inconclusive
from vlib.dag import Dag
from vlib.faults import plan_for
from vlib.model import Model
from vlib.world import World

BUDGET = 450    # seconds after which the quick tier starts no further reused workload (a slow or busy machine)
HERE = os.path.dirname(os.path.abspath(__file__))
MARK = re.compile(r"WARNING: ThreadSanitizer: .*|ERROR: AddressSanitizer: .*|ERROR: LeakSanitizer: .*|.*runtime error: .*|==\d+== (?:Conditional jump|Use of uninit|Invalid (?:read|write|free)|Mismatched free|Source and destination overlap|Syscall param|Process terminating).*")
# workloads in which several threads run library code
THREADED = {"c03": 1, "c06": 1, "c07": 1, "c09": 1, "c10": 2, "c14": 1, "c17": 1, "c23": 0.3, "c01": 0.5, "c02": 0.5, "c24": 0.5, "c22": 0.5}


def frame(text):
    """the first frame in the library's own sources identifies a report"""
    m = re.findall(r"(?:#\d+ .*? in |by 0x[0-9A-F]+: |at 0x[0-9A-F]+: |#\d+ )(.*?)(?: \(|$| /)", text, re.M)
    for f in m:
        if "buildcc::" in f and "tf::" not in f.split("(")[0]:
            return re.sub(r"\(.*", "", f)[:120]
    return (m[0][:120] if m else "")


def main(only=None):
    ck = Check("C18", "sanitizer",
               "one evaluation = one observed run of the instrumented library (first, incremental, failing, damaged-state, killed, test and helper-function workloads taken from the other checks, plus dense "
               "parallel graphs); violation = a sanitizer report; distinct = distinct (tool, workload, workers, exit status, number of steps, parallel overlap)",
               ["the scheduler's fences are replaced by equivalent release stores for ThreadSanitizer, which does not model fences",
                "fmt, spdlog and the C++ runtime are not instrumented; uninitialised memory is therefore watched by valgrind",
                "leaks are judged on runs that reach the end of the script, which then destroys its own objects"], only)
    state = {"where": None}

    def on_run(w, r):
        ck.evaluated(1)
        steps = r.steps()
        over = 0
        ev = sorted([(s.t0, 1) for s in steps if s.t1] + [(s.t1, -1) for s in steps if s.t1])
        cur = 0
        for _, d in ev:
            cur += d
            over = max(over, cur)
        ck.see([w.variant, state["where"], r.rc, min(len(steps), 30), over])
        ck.count("runs_" + w.variant)
        m = MARK.search(r.err)
        if m is None:
            return
        if m.group(0).startswith("ERROR: LeakSanitizer") and not r.o("exit"):
            ck.count("leaks_not_judged_after_failing_exit")
            return      # a failing exit ends the process without destroying what the script owns
        if r.preload and "runtime does not come first" in r.err:
            return
        key = "%s: %s in %s" % (w.variant, re.sub(r"==\d+==|0x[0-9a-f]+|\d+", "", m.group(0)).strip()[:100], frame(r.err[m.start():]))
        ck.violation(key, m.group(0)[:200] + " [" + frame(r.err[m.start():]) + "]", {"report": r.err[m.start():m.start() + 6000], "script": r.script}, state.get("case"))

    class Shadow(Check):
        """runs a few cases of another check for their executions only"""
        budget, mult = 0, 1

        def cases(self, group, count, fn, workers=8):
            def one(rng, i):
                try:
                    fn(rng, i)
                except Inconclusive:
                    raise
                except (OSError, MemoryError):
                    raise
                except Exception:
                    ck.count("uninterpretable_by_reused_workload")
            if not ck.thorough and time.time() - ck.t0 > BUDGET:
                ck.count("groups_skipped_by_time_budget")
                return
            state["where"] = "%s/%s" % (self.pid, group)
            ck.cases("%s-%s-%s" % (W.FORCE, self.pid, group), min(count, max(1, int(self.budget))), one, workers)

        def violation(self, *a, **k):
            pass

        def finish(self):
            return 0

    def reuse(variant, mods, per):
        W.FORCE = variant

        def one(mname):
            if ck.viol and not ck.thorough:
                return
            t0 = time.time()
            m = importlib.import_module("checks." + mname)
            saved = m.Check
            m.Check = Shadow
            Shadow.budget = per * (THREADED.get(mname, 1) if variant == "tsan" else 0.4 if mname == "c23" else 1)
            try:
                m.main(None)
            finally:
                m.Check = saved
                if os.environ.get("VERIF_TIMING"):
                    print(variant, mname, round(time.time() - t0, 1), flush=True)
        with cf.ThreadPoolExecutor(max_workers=6 if variant == "valgrind" else 1) as ex:
            list(ex.map(one, mods))
        W.FORCE = None

    def dense(rng, i):
        """wide graphs without log output (the log's lock would order the threads) and with many workers"""
        w = World()
        try:
            state["where"] = "dense"
            p = Dag(w).build_random(rng, rng.choice([3, 8, 14]), density=rng.choice([0.0, 0.1, 0.4]), pch=0.4)
            for t in p.targets.values():
                for _ in range(rng.choice([0, 4, 10])):
                    t.srcs.append(p.new_file(rng, rng.choice([".c", ".cpp"])))
            m = Model(p)
            for rnd in range(3):
                tests = [{"do": "test", "b": t, "via": [True, True], "output": rng.choice(["default", "stdout", "both", "user"]), "command": '"%s" --out 50 abc --rc %d' % (w.tool("tst"), rng.random() < 0.1)}
                         for t in p.targets if rng.random() < 0.7]
                plan, cbs = [], {}
                if rng.random() < 0.4:
                    cur = m.inputs(p)
                    plan, cbs, _ = plan_for(rng, p, m, sorted(set(rng.choice(sorted(cur)) for _ in range(rng.choice([1, 3])))))
                dp, dc = p.delays(rng, prob=rng.choice([0.0, 0.5]), hi=6)
                for k, v in dc.items():
                    cbs[k] = dict(cbs.get(k, {}), **v)
                acts = p.actions(rng, cbs=cbs, tests=tests)
                lv = rng.choice(["off", "critical", "info", "trace"])
                args = w.base_args()
                args[args.index("--loglevel") + 1] = lv if lv != "off" else "critical"
                w.run(script={"argv": args, "actions": acts, "teardown": rng.random() < 0.5}, workers=rng.choice([2, 4, 8, 16]), plan=plan + dp)
                for _ in range(rng.choice([0, 1, 4])):
                    p.edit_file(rng, rng.choice(sorted(p.files)))
        finally:
            w.close()

    def helpers(rng, i):
        w = World()
        try:
            state["where"] = "helpers"
            ps = []
            for k in range(40):
                t = hostile.text(rng)
                ps.append(rng.choice([
                    {"f": "pattern_view", "s": rng.choice(["%v", "[%t] %v", "%", t.replace("\0", ""), "%v" * 40])},
                    {"f": "split", "s": t * rng.choice([0, 1, 50]), "d": rng.choice([":", ";", "a", "\n"])},
                    {"f": "trim", "s": rng.choice(["", " ", "\t\n", " a ", t])},
                    {"f": "pathstr", "s": rng.choice(["", "/", "a/../b", "//", " ", "./", t.replace("\0", "")])},
                    {"f": "save_null", "path": os.path.join(w.dir, "n%d" % k)},
                    {"f": "save", "path": os.path.join(w.dir, rng.choice(["f", "missing/f", "."])), "data": [rng.randrange(256) for _ in range(rng.choice([0, 1, 100]))], "repeat": rng.choice([1, 1, 700]),
                     "raw": rng.random() < 0.5, "binary": rng.random() < 0.5},
                    {"f": "load", "path": os.path.join(w.dir, rng.choice(["f", "missing/f", "."])), "binary": rng.random() < 0.5, "pre": rng.choice(["", "old" * 100])},
                    {"f": "getdef", "defs": [["a", t], ["b", ""]], "key": rng.choice(["a", "b", "c", ""])},
                    {"f": "nullarg", "pattern": rng.choice(["", "{a}", "x"])},
                    {"f": "construct", "defs": [["a", t]], "pattern": rng.choice(["{a}", "{a:>20}", "{a:{b}}", "{0}", "{}", "{a}{", t]), "args": {"b": "7"}},
                    {"f": "ext", "config": {}, "paths": [t.replace("\0", ""), "", ".", "..", ".c", "a.", "a.c.cpp"]},
                ]))
            w.run(script={"probes": ps, "clear": rng.random() < 0.5})
        finally:
            w.close()

    allm = sorted(f[:-3] for f in os.listdir(HERE) if re.match(r"c\d\d\.py$", f) and f != "c18.py")
    W.ON_RUN = on_run
    try:
        W.FORCE = "tsan"
        ck.cases("tsan-dense", ck.n(250, 3000), dense)
        W.FORCE = "asan"
        ck.cases("asan-dense", ck.n(40, 500), dense)
        ck.cases("asan-helpers", ck.n(100, 3000), helpers)
        reuse("tsan", [m for m in allm if m in THREADED], ck.n(30, 300))
        reuse("asan", allm, ck.n(16, 250))
        W.FORCE = "valgrind"
        ck.cases("valgrind-dense", ck.n(6, 60), dense)
        ck.cases("valgrind-helpers", ck.n(4, 60), helpers)
        slow = ("c01", "c02", "c03", "c04", "c05", "c06", "c09", "c19", "c22", "c24", "c26", "c27", "c28")     # many runs per case
        reuse("valgrind", [m for m in allm if ck.thorough or m not in slow], ck.n(1, 8))
    finally:
        W.FORCE = None
        W.ON_RUN = None
    return ck.finish()
