"""C16: stored objects are unique, typed, stable and destroyed exactly once (model-based monitor, under AddressSanitizer and LeakSanitizer)."""
from vlib.check import Check
from vlib.world import World

IDS = ["", "a", "b", "A", "a b", "é", "x" * 200, "a\n", "tc", "{}", "0"] + ["n%d" % k for k in range(6)]
TY = list("TTBCNMQXYSIUD")
TRK = set("TBCNMQXY")     # types whose construction and destruction is logged


def main(only=None):
    ck = Check("C16", "sanitizer_trace_oracle",
               "one evaluation = one storage operation performed by the real code and compared with a model (name -> type, address, value), plus, per history, the conservation of constructions and "
               "destructions; distinct = distinct (operation, state of the name, type asked, type stored, objects alive) combinations; half of the histories run under ASan+UBSan+LSan",
               ["adding under a taken name may be refused or may hand out a second, unnamed object: both leave the first in place"], only)

    def judge(ops, obs, glob, data, where, rc):
        names, alive, refused_dup = {}, {}, 0
        born, died = {}, {}
        k = 0
        for o in obs:
            if o["o"] == "ctor":
                born[o["p"]] = o["v"]
                if o["p"] in alive:
                    return ("address", "an object was created at the address of a live one")
                alive[o["p"]] = o["v"]
            elif o["o"] == "dtor":
                if o["p"] not in alive:
                    return ("double", "an object was destroyed twice, or was never constructed")
                if alive.pop(o["p"]) != o["v"]:
                    return ("corrupt", "an object changed its value before destruction")
            elif o["o"] == "op":
                if o["op"] != ops[k]:
                    return ("order", "operations out of step")
                op, r = o["op"], o["r"]
                k += 1
                name = op[1] if len(op) > 1 else None
                ty = op[2] if len(op) > 2 else None
                st = names.get(name)
                ck.evaluated()
                ck.see([op[0], "taken" if st else "free", ty, st["ty"] if st else None, min(len(alive), 6), glob, "exc" in r])
                # every named object is still there, unchanged
                for n2, s2 in names.items():
                    if s2["ty"] in TRK and op[0] not in ("clear", "destroy") and alive.get(s2["p"]) != s2["v"]:
                        return ("vanished", "the object stored as %r was destroyed by %s" % (n2, op))
                if op[0] == "add":
                    v = op[3]
                    if v < 0 and ty in TRK:
                        if "exc" not in r:
                            return ("add", "a failing constructor was not reported")
                        continue
                    if st is not None:
                        if "exc" not in r and r["p"] == st["p"]:
                            if r.get("v", r.get("s")) != st.get("v", st.get("s")):
                                return ("replaced", "adding under the taken name %r replaced the object" % name)
                        continue
                    if "exc" in r:
                        return ("add", "adding under the free name %r was refused" % name)
                    if ty in TRK and (r["p"] not in alive or r["v"] != v) or ty in ("I", "U", "D") and r["v"] != v or ty == "S" and r["s"] != str(v):
                        return ("add", "Add(%r) returned something else than the new object: %s" % (name, r))
                    names[name] = dict(r, ty=ty)
                elif op[0] in ("ref", "cref"):
                    if st is None or st["ty"] != ty:
                        if "exc" not in r:
                            return ("lookup", "%s(%r) as %s was accepted, stored: %s" % (op[0], name, ty, st))
                    elif r != {x: st[x] for x in st if x != "ty"}:
                        return ("lookup", "%s(%r) returned %s, stored was %s" % (op[0], name, r, st))
                elif op[0] == "has":
                    if r.get("v") != (st is not None):
                        return ("contains", "Contains(%r) = %s" % (name, r))
                elif op[0] == "valid":
                    if r.get("v") != (st is not None and st["ty"] == ty):
                        return ("valid", "Valid<%s>(%r) = %s, stored: %s" % (ty, name, r, st))
                elif op[0] in ("clear", "destroy"):
                    if alive:
                        return ("leak", "%d objects survived %s" % (len(alive), op[0]))
                    names = {}
            elif o["o"] == "case_end":
                if alive:
                    return ("leak", "%d objects survived the destruction of their storage" % len(alive))
                names = {}
        if k != len(ops):
            return ("crash", "the process ended (status %s) after %d of %d operations" % (rc, k, len(ops)))
        if glob and alive:
            return ("leak", "%d objects of the global storage were never destroyed" % len(alive))
        return None

    def mkops(rng, glob):
        ops, n = [], 0
        ids = rng.sample(IDS, rng.choice([2, 4, 8]))
        tys = rng.choice([TY, TY, rng.sample(TY, 2), ["N", "M"], ["B", "C"], ["X", "Y"], ["I", "U", "D"], ["T"]])
        for _ in range(rng.choice([5, 20, 60])):
            x = rng.random()
            i = rng.choice(ids)
            n += 1
            if x < 0.35:
                ops.append(["add", i, rng.choice(tys), -1 if rng.random() < 0.05 else n])
                if ops[-1][3] < 0 and ops[-1][2] not in TRK:
                    ops[-1][3] = n
            elif x < 0.6:
                ops.append([rng.choice(["ref", "cref"]), i, rng.choice(tys)])
            elif x < 0.75:
                ops.append(["has", i])
            elif x < 0.9:
                ops.append(["valid", i, rng.choice(tys)])
            elif x < 0.93:
                ops.append(["clear"])
            elif x < 0.95 and not glob:
                ops.append(["destroy"])
        return ops

    def case(rng, i):
        w = World("asan" if i % 2 else "plain")
        try:
            for glob in (False, True):
                ops = mkops(rng, glob)
                clear = rng.random() < 0.5
                r = w.run(script={"probes": [{"f": "gstorage" if glob else "storage", "ops": ops, "n": 0}], "clear": clear})
                data = {"ops": ops, "run": r.brief()}
                v = judge(ops, r.obs, glob, data, i, r.rc)
                if v is None and r.rc != 0:
                    v = ("sanitizer", "status %s: %s" % (r.rc, r.err[:1500]))
                ck.count("histories")
                if v:
                    ck.violation(v[0], v[1], data, ("storage", i))
                    return
        finally:
            w.close()

    ck.cases("storage", ck.n(400, 5000), case)
    return ck.finish()
