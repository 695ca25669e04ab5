"""Common frame of every check: cases, violations, known findings, evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import sys
import threading
import time
import traceback

from . import build as B
from . import world as W

VERIF = B.VERIF
OUT = os.environ.get("VERIF_OUT", VERIF)
KNOWN = os.path.join(VERIF, "known_findings.json")


class Inconclusive(Exception):
    pass


class Check:
    def __init__(self, pid, level, rule, assumptions=(), only=None):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.viol = []
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.inconclusive = []
        self.errors = []
        self.lock = threading.Lock()
        self.only = only

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *key):
        return random.Random("%s|%s|%s" % (self.pid, self.seed, "|".join(map(str, key))))

    def count(self, key, k=1):
        with self.lock:
            self.counters[key] = self.counters.get(key, 0) + k

    def see(self, what):
        """Record one distinct observed state / interleaving / outcome (anything hashable to text)."""
        h = hashlib.sha1((what if isinstance(what, str) else json.dumps(what, sort_keys=True, default=str)).encode("utf-8", "replace")).hexdigest()
        with self.lock:
            self.distinct.add(h)

    def evaluated(self, k=1, sample=None):
        with self.lock:
            self.evals += k
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)

    def violation(self, key, msg, data=None, case=None):
        """key: stable identity of the failing input / history (matched against known findings)."""
        with self.lock:
            self.viol.append({"key": key, "msg": msg, "data": data, "case": case})

    # -- running cases in parallel --
    def cases(self, group, count, fn, workers=8):
        """fn(rng, i) judges one case; exceptions of the harness are errors of the check, never violations."""
        def one(i):
            if self.only is not None and (group, i) != self.only:
                return
            with self.lock:
                if len(self.viol) >= 25 and not self.thorough:
                    return
                if self.viol and W.TIMEOUTS[0] >= 2:
                    return      # runs that hang are expensive and the verdict is known
            for attempt in (0, 1):
                try:
                    fn(self.rng(group, i), i)
                    return
                except Inconclusive as e:
                    with self.lock:
                        self.inconclusive.append("%s[%d]: %s" % (group, i, e))
                    return
                except B.BuildError:
                    with self.lock:
                        self.errors.append("%s[%d]: %s" % (group, i, traceback.format_exc()))
                        self.only = ("the code does not build", -1)     # nothing else can run
                    return
                except (OSError, MemoryError, RuntimeError):
                    with self.lock:
                        self.errors.append("%s[%d]: %s" % (group, i, traceback.format_exc()))
                    return
                except Exception:
                    # an observation the oracle cannot even interpret (a step without its output, a missing record):
                    # deterministic, so it must happen again before it is believed
                    if attempt:
                        self.violation("uninterpretable", "%s[%d]: the build did something the oracle cannot interpret: %s" % (group, i, traceback.format_exc()), None, (group, i))
        with cf.ThreadPoolExecutor(max_workers=workers) as ex:
            list(ex.map(one, range(count)))

    # -- result --
    def known(self):
        try:
            with open(KNOWN) as f:
                return [k for k in json.load(f).get("findings", []) if k.get("property") == self.pid and k.get("status") == "known"]
        except OSError:
            return []

    def finish(self):
        known = self.known()
        hit, new = {}, []
        for v in self.viol:
            m = next((k for k in known if k["key"] == v["key"]), None)
            if m is not None:
                hit.setdefault(m["key"], m)
            else:
                new.append(v)
        for m in hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, m["what"]))
        cov = {
            "evaluations": self.evals,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule,
            "samples": self.samples[:12] or ["(none)"],
            "driver_runs": W.RUNS[0],
            "events_observed": W.EVENTS[0],
            "counters": self.counters,
            "inconclusive": self.inconclusive[:20],
        }
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions,
            "violations": [{"key": v["key"], "message": v["msg"]} for v in new][:50],
            "known_findings_seen": sorted(hit),
            "wall_s": round(time.time() - self.t0, 2),
        }
        with open(os.path.join(OUT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s tier=%s seed=%d evaluations=%d distinct=%d runs=%d events=%d inconclusive=%d wall=%.1fs" % (
            self.pid, self.tier, self.seed, self.evals, len(self.distinct), W.RUNS[0], W.EVENTS[0], len(self.inconclusive), ev["wall_s"]))
        if new:
            rdir = os.path.join(OUT, "replay")
            os.makedirs(rdir, exist_ok=True)
            seen = set()
            for v in new:
                if v["key"] in seen:
                    continue
                seen.add(v["key"])
                rp = os.path.join(rdir, "%s-%s.json" % (self.pid, hashlib.sha1(v["key"].encode("utf-8", "replace")).hexdigest()[:10]))
                with open(rp, "w") as f:
                    json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "case": v["case"], "key": v["key"],
                               "message": v["msg"], "data": v["data"],
                               "how": "VERIF_SEED=%d VERIF_TIER=%s python3 /verif/run.py %s --case %s" % (self.seed, self.tier, self.pid, ":".join(map(str, v["case"] or [])))},
                              f, indent=1, default=str)
                if len(seen) <= 10:
                    print("  %s" % v["msg"][:600])
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if self.errors:
            print("HARNESS-ERROR (%d)" % len(self.errors), file=sys.stderr)
            print(self.errors[0], file=sys.stderr)
            return 2
        if self.evals == 0:
            print("nothing was evaluated", file=sys.stderr)
            return 2
        return 0
