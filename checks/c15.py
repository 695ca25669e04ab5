"""C15: copying / inserting settings between targets transfers exactly what is asked."""
import itertools

from vlib.check import Check
from vlib.world import World

OPT = ["sources", "headers", "pchs", "libs", "extlibs", "incs", "libdirs", "f_pre", "f_common", "f_pchc", "f_pcho", "f_asm", "f_c", "f_cpp", "f_link", "cdeps", "ldeps"]
FL = [o for o in OPT if o.startswith("f_")]


def main(only=None):
    ck = Check("C15", "differential_oracle",
               "one evaluation = one Copy or Insert call on real targets, all 17 settings of both sides read before and after and compared with the reference (replace / append); distinct = distinct "
               "(operation, subset of settings, kinds of objects, empty or filled sides); every single setting, every pair and the full set are enumerated",
               ["settings named twice in one call are not exercised"], only)
    pairs = [list(c) for c in itertools.combinations(OPT, 2)]
    singles = [[o] for o in OPT] + [[]] + [list(OPT)]

    def case(rng, i):
        w = World()
        try:
            uid = [0]

            def nid():
                uid[0] += 1
                return uid[0]
            tool = w.tool
            ex = {"as": tool("as"), "cc": tool("gcc"), "cxx": tool("g++"), "ar": tool("ar"), "ld": tool("ld")}
            acts = [{"do": "toolchain", "key": "tc", "kind": "gcc", "name": "tc", "exes": ex, "flags": [[k, "-tc%d" % nid()] for k in FL if rng.random() < 0.3]}]
            for k in ("l1", "l2", "l3"):
                acts.append({"do": "target", "key": k, "cls": "static_gcc", "name": k, "tc": "tc"})

            def ops():
                o = []
                full = rng.choice([0.0, 0.3, 0.8, 1.0])
                for k in OPT:
                    for _ in range(rng.choice([0, 1, 1, 2, 3])):
                        if rng.random() > full:
                            continue
                        n = nid()
                        x = {"sources": ["src", "s%d.%s" % (n, rng.choice(["c", "cpp", "s"]))], "headers": ["hdr", "h%d.h" % n], "pchs": ["pch", "p%d.h" % n], "libs": ["lib", rng.choice(["l1", "l2", "l3"])],
                             "extlibs": ["extlib", "-lx%d" % n], "incs": ["inc", "i%d" % n], "libdirs": ["libdir", "ld%d" % n], "cdeps": ["cdep", "c%d.inc" % n], "ldeps": ["ldep", "l%d.ld" % n]}.get(k) or [k, "-F%d" % n]
                        o.append(x)
                        if rng.random() < 0.1:
                            o.append(list(x))
                rng.shuffle(o)
                return o
            objs = []
            for k in ("A", "B", "C"):
                kind = rng.choice(["info", "exe_gcc", "static_gcc", "dyn_gcc", "exe_generic"])
                env = rng.choice([None, {"rel": "sub" + k}])
                a = {"do": "info", "key": k, "tc": "tc", "ops": ops()} if kind == "info" else {"do": "target", "key": k, "cls": kind, "name": k, "tc": "tc", "ops": ops()}
                if env:
                    a["env"] = env
                acts.append(a)
                objs.append((k, kind))
            n = 0
            plan = []

            def dump():
                nonlocal n
                for k, _ in objs:
                    acts.append({"do": "info_dump", "b": k, "n": n})
                n += 1
            dump()
            for c in range(6):
                x = i * 6 + c
                if x < 2 * len(singles):
                    opt, op = singles[x // 2], ["copy", "insert"][x % 2]
                elif x < 2 * (len(singles) + len(pairs)):
                    x -= 2 * len(singles)
                    opt, op = pairs[x // 2], ["copy", "insert"][x % 2]
                else:
                    opt, op = rng.sample(OPT, rng.choice([0, 1, 2, 3, 4, 5, 6, 17])), rng.choice(["copy", "insert"])
                opt = list(opt)
                rng.shuffle(opt)
                d, s = rng.sample([k for k, _ in objs], 2)
                mv = rng.random() < 0.3
                acts.append({"do": "sync", "op": op, "dst": d, "src": s, "move": mv, "options": opt})
                plan.append((op, d, s, mv, opt))
                dump()
                if rng.random() < 0.3:
                    k = rng.choice(objs)[0]
                    acts.append({"do": "ops", "b": k, "ops": ops()})
                    plan.append(None)
                    dump()
            r = w.run(acts)
            data = {"script": acts, "run": r.brief()}
            got = {}
            for o in r.o("info_dump"):
                got.setdefault(o["n"], {})[o["b"]] = o["v"]
            moved = set()      # (object, setting) whose value is unspecified
            for k, p in enumerate(plan):
                if k + 1 not in got or len(got[k + 1]) != len(objs):
                    ck.violation("crash", "the process ended (status %s) during %s" % (r.rc, p), data, ("sync", i))
                    return
                if p is None:
                    continue
                op, d, s, mv, opt = p
                a, b = got[k], got[k + 1]
                ck.evaluated(1, {"op": op, "move": mv, "options": opt} if i < 3 else None)
                ck.see([op, mv, sorted(opt), dict(objs)[d], dict(objs)[s], [bool(a[d][o]) for o in sorted(opt)], [bool(a[s][o]) for o in sorted(opt)]])
                for o in OPT:
                    if o in opt:
                        exp = list(a[s][o]) if op == "copy" else list(a[d][o]) + list(a[s][o])
                    else:
                        exp = a[d][o]
                    if b[d][o] != exp:
                        ck.violation("%s:%s" % (op, o), "%s%s of %s: setting %s of the destination is %s, expected %s" % (op, " (handed over)" if mv else "", sorted(opt), o, b[d][o], exp), data, ("sync", i))
                        return
                    if not (mv and o in opt) and b[s][o] != a[s][o]:
                        ck.violation("source:%s" % o, "%s of %s changed setting %s of the source" % (op, sorted(opt), o), data, ("sync", i))
                        return
                third = [x for x, _ in objs if x not in (d, s)][0]
                if b[third] != a[third]:
                    ck.violation("third", "%s changed an uninvolved target" % op, data, ("sync", i))
                    return
        finally:
            w.close()

    ck.cases("sync", ck.n(700, 7000), case)
    return ck.finish()
