"""C05: recorded state round-trips for every text; damaged state is never trusted and never wedges a build."""
import json
import os

from vlib import hostile
from vlib.check import Check
from vlib.model import Model
from vlib.project import Project
from vlib.world import World, diff_snap


def damage(rng, data, others):
    """returns (kind, new bytes or None for removal)"""
    kind = rng.choice(["missing", "empty", "truncate", "flip", "flips", "append", "insert", "const", "dropkey", "typeswap", "typeswap", "nullify", "other", "binary",
                       "deep", "dup", "halfwrite", "emptystr", "listmut", "utf8"])
    if kind == "missing":
        return kind, None
    if kind == "empty":
        return kind, b""
    if kind in ("truncate", "halfwrite"):
        return kind, data[:rng.randrange(max(1, len(data)))]
    if kind in ("flip", "flips"):
        b = bytearray(data)
        for _ in range(1 if kind == "flip" else rng.randrange(2, 30)):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        return kind, bytes(b)
    if kind == "append":
        return kind, data + rng.choice([b"\n}", b"{}", b"\0" * 20, b" garbage", data])
    if kind == "insert":
        i = rng.randrange(len(data))
        return kind, data[:i] + rng.choice([b",", b"\"", b"[", b"{", b"\\", b"null", b"\xff\xfe"]) + data[i:]
    if kind == "const":
        return kind, rng.choice([b"{}", b"[]", b"null", b"0", b"\"x\"", b"true", b"[{}]", b"{\"name\":1}", b"\xef\xbb\xbf{}", b"//x\n{}"])
    if kind == "other":
        return kind, rng.choice(others)
    if kind == "binary":
        return kind, bytes(rng.randrange(256) for _ in range(rng.choice([1, 10, 400])))
    if kind == "deep":
        n = rng.choice([100, 20000])
        return kind, rng.choice([b"[", b"{\"a\":"]) * n
    if kind == "utf8":
        i = rng.randrange(len(data))
        return kind, data[:i] + b"\xc3\x28\xf0" + data[i + 3:]
    try:
        j = json.loads(data.decode("utf-8"))
    except ValueError:
        return "empty", b""

    # choose a random node
    def nodes(x, path=()):
        yield path
        if isinstance(x, dict):
            for k in x:
                yield from nodes(x[k], path + (k,))
        elif isinstance(x, list):
            for k in range(len(x)):
                yield from nodes(x[k], path + (k,))
    ns = [n for n in nodes(j) if n]
    if not ns:
        return "const", b"[]"
    n = rng.choice(ns)
    par = j
    for k in n[:-1]:
        par = par[k]
    if kind == "dropkey":
        del par[n[-1]]
    elif kind == "typeswap":
        par[n[-1]] = rng.choice([None, 1, -1, 1.5, "", "x", [], {}, True, False, [[]], [1], ["a"], {"a": 1}, [None], 2 ** 63, "y" * 70000])
    elif kind == "nullify":
        par[n[-1]] = None
    elif kind == "emptystr":
        par[n[-1]] = ""
    elif kind == "listmut" and isinstance(par, list):
        if rng.random() < 0.5:
            par.append(par[n[-1]])
        else:
            rng.shuffle(par)
    elif kind == "dup":
        if isinstance(par, dict):
            par["zz_extra"] = par[n[-1]]
    return kind, json.dumps(j, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 4])).encode("utf-8", "surrogatepass")


def main(only=None):
    ck = Check("C05", "fault_enumeration",
               "one evaluation = one rebuild with nothing changed after a build using hostile texts (must run nothing), or one build over damaged state files with or "
               "without an input edit (must succeed, equal a clean build, and be recognised afterwards); distinct = distinct (damage kind, builder kind, edit, steps rerun)",
               ["texts are valid UTF-8; paths do not contain the double quote, dollar or back quote of the shell"], only)

    def statefiles(w, p):
        res = []
        for n, t in p.targets.items():
            d = p.target_dir(n)
            res += [(n, t.cls, os.path.join(d, f)) for f in sorted(os.listdir(d)) if f.endswith(".bin")]
        for n in p.gens:
            d = os.path.join(w.out, n)
            res += [(n, "gen", os.path.join(d, f)) for f in sorted(os.listdir(d)) if f.endswith(".json")]
        return res

    def hostile_values(rng, p):
        for g in p.gens.values():
            if g.cls != "custom":
                continue
            ren = {}
            for k, d in g.ids.items():
                d["blob"] = rng.choice([None, ["str", hostile.text(rng)], ["vec", [hostile.text(rng) for _ in range(rng.randrange(4))]],
                                        ["int", rng.choice([0, -1, 2 ** 63 - 1, -2 ** 63, 7])],
                                        ["map", {hostile.text(rng): hostile.text(rng) for _ in range(rng.randrange(3))}],
                                        ["raw", [rng.randrange(256) for _ in range(rng.choice([1, 3, 300]))]]])
                ren[k + hostile.text(rng).replace("\0", "")] = d
            g.ids = ren

    def roundtrip(rng, i):
        w = World(subdir=rng.choice(["w", "w x", "w é", "(w)"]))
        try:
            p = Project(w, deco=hostile.name, flagtext=hostile.flagtext())
            p.TC = "tc" + rng.choice(["", " é", "名"])
            p.random(rng, ntargets=rng.choice([1, 2]))
            for _ in range(rng.choice([0, 0, 1])):
                p.add_gen(rng)
            hostile_values(rng, p)
            for rnd in range(2):
                acts = p.actions(rng)
                r = w.run(acts)
                if not r.ok:
                    ck.violation("hostile-build-failed", "a build with unusual but valid texts failed (rc %s): %s" % (r.rc, r.err[-300:]), {"run": r.brief(), "script": acts}, ("roundtrip", i))
                    return
                r2 = w.run(p.actions(rng))
                st = r2.steps()
                ck.evaluated(1, {"names": list(p.targets) + list(p.gens), "steps_first": len(r.steps()), "steps_second": len(st)} if i < 4 else None)
                ck.count("roundtrip_builds")
                ck.see(["rt", sorted(p.targets), len(r.steps())])
                if not r2.ok or st:
                    ck.violation("not-recognised", "a second build with nothing changed %s" % ("failed rc %s" % r2.rc if not r2.ok else "ran %s" % [s.name() for s in st][:3]),
                                 {"run": r2.brief(), "script": acts}, ("roundtrip", i))
                    return
                for _ in range(2):
                    p.random_edit(rng)
                hostile_values(rng, p) if rng.random() < 0.3 else None
        finally:
            w.close()

    def damaged(rng, i):
        w = World()
        try:
            p = Project(w).random(rng, ntargets=rng.choice([1, 2]))
            for _ in range(rng.choice([0, 1])):
                p.add_gen(rng)
            hostile_values(rng, p)
            r = w.run(p.actions(rng))
            if not r.ok:
                ck.violation("build-failed", "a build with valid inputs failed", {"run": r.brief()}, ("damaged", i))
                return
            for rnd in range(ck.n(4, 10)):
                sf = statefiles(w, p)
                if not sf:
                    ck.violation("no-state", "a successful build left no state file", None, ("damaged", i))
                    return
                picks = [rng.choice(sf)] if rng.random() < 0.8 else sf
                kinds = []
                others = [open(x[2], "rb").read() for x in sf]
                for n, cls, f in picks:
                    data = open(f, "rb").read()
                    k, new = damage(rng, data, others)
                    kinds.append((k, cls))
                    if new is None:
                        os.unlink(f)
                    else:
                        with open(f, "wb") as fh:
                            fh.write(new)
                edit = p.random_edit(rng) if rng.random() < 0.6 else "nothing"
                acts = p.actions(rng)
                r = w.run(acts, workers=rng.choice([1, 4]))
                if r.timeout or r.rc != 0:
                    ck.violation("damaged-state:" + kinds[0][0], "a build over damaged state %s ended with status %s%s" % (kinds, r.rc, " (timeout)" if r.timeout else ""),
                                 {"kinds": kinds, "run": r.brief(), "script": acts}, ("damaged", i))
                    return
                snap = w.snapshot()
                rc, clean = w.clean_build(acts)
                d = diff_snap(clean, snap)
                ck.evaluated(1, {"damage": kinds, "edit": edit, "steps": len(r.steps())} if i < 12 else None)
                ck.count("damaged_builds")
                ck.see([kinds[0], edit.split()[0], len(r.steps())])
                if d or not rc.ok:
                    ck.violation("trusted:" + kinds[0][0], "outputs after a build over damaged state %s (edit: %s) differ from a clean build: %s" % (kinds, edit, d[:2]),
                                 {"kinds": kinds, "diff": d, "script": acts}, ("damaged", i))
                    return
                r2 = w.run(p.actions(rng))
                if not r2.ok or r2.steps():
                    ck.violation("not-recognised-after-damage", "after recovering from damaged state %s a build with nothing changed ran %s (rc %s)" % (
                        kinds, [s.name() for s in r2.steps()][:3], r2.rc), {"kinds": kinds, "run": r2.brief()}, ("damaged", i))
                    return
        finally:
            w.close()

    ck.cases("roundtrip", ck.n(260, 2500), roundtrip)
    ck.cases("damaged", ck.n(200, 3000), damaged)
    return ck.finish()
