"""C06: custom generator steps run exactly when they are out of date, once, with exactly their declared inputs, outputs and value."""
import os

from vlib import hostile
from vlib.check import Check
from vlib.faults import CB_FAULTS
from vlib.world import World, diff_snap


def main(only=None):
    ck = Check("C06", "exploration",
               "one evaluation = one observed build of random generators after random edits, failures or input changes made while the previous build ran; the set of callbacks "
               "that ran, how often and with which inputs, outputs and value was compared with the model; distinct = distinct (edit kinds, number of steps, steps run)",
               ["an input whose modification time is unchanged is unchanged"], only)

    def case(rng, i):
        w = World(subdir=rng.choice(["w", "w", "w z", "w&(z)"]))
        uid = [0]

        def nid():
            uid[0] += 1
            return uid[0]

        def newfile():
            f = "%sin%d.txt" % (rng.choice(["", "d/", "e f/"]), nid())
            w.write(f, "v%d\n" % nid())
            return w.p(f)

        def blob():
            return rng.choice([None, None, ["str", hostile.text(rng)], ["vec", [hostile.text(rng), str(nid())]], ["int", nid()], ["map", {"k": str(nid()), hostile.text(rng): ""}],
                               ["raw", [rng.randrange(256) for _ in range(rng.randrange(1, 9))]]])
        try:
            gens = {}
            for g in range(rng.choice([1, 1, 2, 3])):
                gens["g%d" % g] = {}
            deps = set()

            def newid(g):
                k = "i%d%s" % (nid(), rng.choice(["", "", " é", "/x"]))
                ins = {newfile() for _ in range(rng.choice([0, 1, 1, 2, 3]))}
                if g != "g0" and rng.random() < 0.4 and gens["g0"]:
                    o = rng.choice(list(gens["g0"].values()))["outputs"]
                    ins.add(sorted(o)[0])
                    deps.add((g, "g0"))
                gens[g][k] = {"inputs": ins, "outputs": {os.path.join(w.out, g, "o%d.out" % nid()) for _ in range(rng.choice([1, 1, 2]))}, "blob": blob()}
            for g in gens:
                for _ in range(rng.choice([1, 2, 3, 5])):
                    newid(g)
            okin, maybe = {}, set()
            hist = []

            def gen_made(f):
                return f.startswith(w.out + "/")

            def mts(made):
                res = {}
                for ids in gens.values():
                    for d in ids.values():
                        for f in d["inputs"]:
                            if gen_made(f) == made:
                                try:
                                    res[f] = os.stat(f).st_mtime_ns
                                except OSError:
                                    res[f] = None
                return res

            def scripts(cbs):
                acts = []
                for g, ids in gens.items():
                    acts.append({"do": "gen", "key": g, "cls": "custom", "name": g})
                    items = list(ids.items())
                    rng.shuffle(items)
                    acts.append({"do": "ops", "b": g, "ops": [["id", k, sorted(d["inputs"]), sorted(d["outputs"]), cbs.get((g, k), {}), d["blob"]] for k, d in items]})
                for g in gens:
                    acts.append({"do": "build", "b": g, "via": [True, True]})
                for a, b in sorted(deps):
                    acts.append({"do": "dep", "a": a, "b": b, "via": [True, True]})
                acts.append({"do": "run"})
                return acts

            for rnd in range(ck.n(7, 14)):
                # edits
                for _ in range(rng.choice([0, 1, 1, 2]) if rnd else 0):
                    g = rng.choice(list(gens))
                    e = rng.choice(["edit", "edit", "add", "del", "inputs", "outputs", "blob", "noblob", "rename", "readd", "none", "swap"])
                    ids = gens[g]
                    if e == "add":
                        newid(g)
                    elif ids and e == "del" and (len(ids) > 1 or rng.random() < 0.3):
                        k = rng.choice(list(ids))
                        if g == "g0" and any(o in x["inputs"] for gg in gens for x in gens[gg].values() for o in ids[k]["outputs"]):
                            continue  # still consumed by another generator
                        ids.pop(k)
                    elif ids and e == "edit":
                        c = [f for f in ids[rng.choice(list(ids))]["inputs"] if not gen_made(f)]
                        if not c:
                            continue
                        f = rng.choice(c)
                        w.write(f, "v%d\n" % nid(), back=rng.random() < 0.4)
                    elif ids and e == "inputs":
                        d = ids[rng.choice(list(ids))]
                        if d["inputs"] and rng.random() < 0.5:
                            d["inputs"].discard(rng.choice(sorted(d["inputs"])))
                        else:
                            d["inputs"].add(newfile())
                    elif ids and e == "outputs":
                        d = ids[rng.choice(list(ids))]
                        d["outputs"].add(os.path.join(w.out, g, "o%d.out" % nid()))
                    elif ids and e == "blob":
                        ids[rng.choice(list(ids))]["blob"] = blob()
                    elif ids and e == "noblob":
                        ids[rng.choice(list(ids))]["blob"] = None
                    elif ids and e == "rename":
                        k = rng.choice(list(ids))
                        ids["r%d" % nid()] = ids.pop(k)
                    elif len(ids) > 1 and e == "swap":
                        a, b = rng.sample(list(ids), 2)
                        ids[a]["blob"], ids[b]["blob"] = ids[b]["blob"], ids[a]["blob"]
                    else:
                        e = "none"
                    hist.append(e)
                # behaviour of this build
                cbs, touched = {}, {}
                for g, ids in gens.items():
                    for k, d in ids.items():
                        x = {}
                        if rng.random() < 0.07:
                            x["ret"] = rng.choice(CB_FAULTS)
                        if rng.random() < 0.15:
                            x["sleep"] = rng.choice([1, 3, 10])
                        if rng.random() < 0.12:
                            c = sorted(f for f in d["inputs"] if not gen_made(f))
                            if c:
                                x["touch"] = rng.choice(c)
                        if x:
                            cbs[(g, k)] = x
                pre = mts(False)
                acts = scripts(cbs)
                r = w.run(acts, workers=rng.choice([1, 2, 4, 8]))
                post = dict(pre)
                post.update(mts(True))
                if r.timeout:
                    ck.violation("hang", "a generator build did not finish", {"hist": hist, "run": r.brief()}, ("gen", i))
                    return
                ran, fails = {}, 0

                def bad(key, msg):
                    ck.violation(key, "after %s: %s" % (hist[-4:], msg), {"hist": hist, "run": r.brief(), "script": acts}, ("gen", i))
                for e in r.events:
                    if e["ev"] == "gstart":
                        k = (e["gen"], e["id"])
                        if k in ran:
                            return bad("twice", "step %s ran twice in one build" % (k,))
                        d = gens.get(e["gen"], {}).get(e["id"])
                        if d is None:
                            return bad("removed-ran", "step %s ran although it is not declared" % (k,))
                        if sorted(e["inputs"]) != sorted(d["inputs"]) or sorted(e["outputs"]) != sorted(d["outputs"]):
                            return bad("wrong-args", "step %s received inputs/outputs %s %s" % (k, e["inputs"], e["outputs"]))
                        want = d["blob"][1] if d["blob"] else []
                        if e["blob"] != want:
                            return bad("wrong-value", "step %s received value %r instead of %r" % (k, e["blob"], want))
                        ran[k] = cbs.get(k, {}).get("ret", "ok") == "ok"
                        if "touch" in cbs.get(k, {}):
                            touched[cbs[k]["touch"]] = k
                fails = [k for k in ran if not ran[k]]
                if bool(fails) != (r.rc != 0) or (r.rc or 0) < 0:
                    return bad("status", "failed steps %s but exit status %s" % (fails, r.rc))
                must, may = set(), set()
                cur = {}
                for g, ids in gens.items():
                    for k, d in ids.items():
                        cur[(g, k)] = (tuple(sorted((f, post.get(f)) for f in d["inputs"])), tuple(sorted(d["outputs"])), repr(d["blob"]))
                        if okin.get((g, k), "never") != cur[(g, k)]:
                            (may if (g, k) in maybe and okin.get((g, k)) == "uncertain" else must).add((g, k))
                        # an input shared with a step that changed it during this very build
                for k in ran:
                    other = [f for f in touched if touched[f] != k and f in gens[k[0]][k[1]]["inputs"]]
                    if k not in must and k not in may and not other:
                        return bad("needless", "step %s ran although it was up to date" % (k,))
                if r.rc == 0:
                    miss = sorted(must - set(ran))
                    if miss:
                        return bad("missed", "step %s did not run although it is out of date" % (miss[0],))
                # update
                for k in cur:
                    if k in ran:
                        other = [f for f in touched if touched[f] != k and f in gens[k[0]][k[1]]["inputs"]]
                        okin[k] = (cur[k] if not other else "uncertain") if ran[k] else None
                        (maybe.add if other else maybe.discard)(k)
                for k in list(okin):
                    if k not in cur:
                        if r.rc == 0:
                            okin.pop(k)
                            maybe.discard(k)
                        else:
                            okin[k] = "uncertain"
                            maybe.add(k)
                ck.evaluated(1, {"edits": hist[-2:], "steps": len(cur), "ran": len(ran), "failed": len(fails), "touched_during_build": len(touched)} if i < 12 and rnd == 2 else None)
                ck.count("callbacks_observed", len(ran))
                ck.count("callbacks_not_run", len(cur) - len(ran))
                ck.count("inputs_changed_during_build", len(touched))
                ck.count("failed_steps", len(fails))
                ck.see([hist[-2:], len(cur), len(ran), len(fails)])
                if r.rc == 0 and not touched:
                    snap = w.snapshot()
                    declared = {os.path.relpath(o, w.out) for ids in gens.values() for d in ids.values() for o in d["outputs"]}
                    rc, clean = w.clean_build(scripts({}))
                    d = diff_snap({k: v for k, v in clean.items() if k in declared}, snap)
                    if d or not rc.ok:
                        return bad("stale", "generator outputs differ from a clean build: %s" % d[:2])
        finally:
            w.close()

    ck.cases("gen", ck.n(500, 5000), case)
    return ck.finish()
