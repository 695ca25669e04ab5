"""C08: malformed registrations are refused before anything runs, well-formed ones are accepted promptly."""
from vlib.check import Check
from vlib.world import World

VIA = [True, True]


class Reg:
    """reference of what has been registered"""

    def __init__(self):
        self.built, self.tests = set(), set()
        self.dep = {}

    def reaches(self, a, b):
        """a depends (transitively) on b"""
        todo, seen = [a], set()
        while todo:
            x = todo.pop()
            for y in self.dep.get(x, ()):
                if y == b:
                    return True
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return False

    def apply(self, op):
        """returns None if the operation is well-formed, else why it is not"""
        if op[0] == "build":
            if op[1] in self.built:
                return "registered twice"
            self.built.add(op[1])
        elif op[0] == "dep":
            a, b = op[1], op[2]
            if a not in self.built or b not in self.built:
                return "dependency with an unregistered builder"
            if a == b:
                return "dependency on itself"
            if b in self.dep.get(a, ()):
                return "repeated dependency"
            if self.reaches(b, a):
                return "cycle"
            self.dep.setdefault(a, []).append(b)
        elif op[0] == "test":
            if op[1] not in self.built:
                return "test of an unregistered target"
            if op[1] in self.tests:
                return "test registered twice"
            self.tests.add(op[1])
        return None


def cycle_len(reg, a, b):
    """number of edges of the shortest path b -> a in depends-on"""
    d, todo = {b: 0}, [b]
    while todo:
        x = todo.pop(0)
        for y in reg.dep.get(x, ()):
            if y not in d:
                d[y] = d[x] + 1
                todo.append(y)
    return d.get(a)


def main(only=None):
    ck = Check("C08", "exploration",
               "one evaluation = one sequence of registration calls followed by a run; malformed ones must end with a failing status before any step starts, well-formed ones must run every "
               "builder in order; distinct = distinct (kind of defect, cycle length, position, builders, dependencies)",
               ["a program that does not end within 60 s is run again before it counts as not prompt"], only)

    def world_actions(w, rng, names, ops):
        acts = [{"do": "toolchain", "key": tc, "kind": "gcc", "name": tc,
                 "exes": {"as": w.tool("as"), "cc": w.tool("gcc"), "cxx": w.tool("g++"), "ar": w.tool("ar"), "ld": w.tool("ld")}} for tc in ("tca", "tcb")]
        for n, (kind, tc, name) in names.items():
            if kind == "t":
                w.write("s_%s.c" % n, "int x;\n")
                acts.append({"do": "target", "key": n, "cls": "exe_gcc", "name": name, "tc": tc, "ops": [["src", "s_%s.c" % n]]})
            elif kind == "f":
                acts.append({"do": "gen", "key": n, "cls": "file", "name": name, "ops": [["command", '"%s" -t %s' % (w.tool("gen"), n), {}]]})
            else:
                acts.append({"do": "gen", "key": n, "cls": "custom", "name": name, "ops": [["id", "i_" + n, [], ["{current_build_dir}/o_%s.out" % n], {}, None]]})
        for o in ops:
            if o[0] == "build":
                acts.append({"do": "build", "b": o[1], "via": VIA})
            elif o[0] == "dep":
                acts.append({"do": "dep", "a": o[1], "b": o[2], "via": VIA})
            else:
                acts.append({"do": "test", "b": o[1], "via": VIA, "command": '"%s" --rc 0 %s' % (w.tool("tst"), o[1])})
        acts.append({"do": "run"})
        return acts

    def mknames(rng, n):
        names = {}
        # nothing, or a long part that all names share, in front or behind
        pre, post = rng.choice([("", "")] * 5 + [("com.example.product.subsystem.component.module-", ""), ("", " of the group of builders that share the end of their name"), ("x" * 130, "y" * 70), ("é名 '#%&; ", "")])
        for k in range(n):
            kind = rng.choice("ttcf")
            # similar names: prefixes of each other, the same name under two toolchains, a generator named like a target
            base = rng.choice(["x", "x1", "x11", "lib", "lib lib", "X"]) if rng.random() < 0.4 else "n%d" % k
            tc = rng.choice(["tca", "tcb"])
            base = pre + base + post
            uid = ("[%s] %s" % (tc, base)) if kind == "t" else base
            # distinct builders need distinct identities
            if uid in [x[3] for x in names.values()]:
                base = pre + "n%d" % k + post
                uid = ("[%s] %s" % (tc, base)) if kind == "t" else base
            names["b%d" % k] = (kind, tc, base, uid)
        return {k: v[:3] for k, v in names.items()}

    def judge(case, w, r, names, ops, why, info):
        steps = [s for s in r.steps() if s.kind != "query"]
        data = {"ops": ops, "names": names, "run": r.brief(), "why": why}
        if why:
            if r.timeout:
                return ck.violation("hang", "a malformed registration (%s) hangs" % why, data, case)
            if r.rc == 0:
                return ck.violation("accepted:" + why, "a malformed registration was accepted: %s in %s" % (why, ops[-8:]), data, case)
            if r.rc < 0:
                return ck.violation("crash:" + why, "a malformed registration (%s) ended by signal %d" % (why, -r.rc), data, case)
            if steps:
                return ck.violation("ran:" + why, "steps ran although the registration is malformed (%s): %s" % (why, steps[:3]), data, case)
            return
        if r.timeout:
            return ck.violation("not-prompt", "an acyclic set of %d dependencies between %d builders was not accepted within 60 s" % (len([o for o in ops if o[0] == "dep"]), len(names)), data, case)
        if r.rc != 0:
            return ck.violation("refused", "a well-formed registration ended with status %s" % r.rc, data, case)
        ran = {}
        for s in steps:
            if s.kind == "gen":
                k = s.gen
            elif s.kind == "gencmd":
                k = s.argv[s.argv.index("-t") + 1]
            elif s.kind == "test":
                k = "test " + s.argv[-1]
            else:
                k = s.src and s.src.rsplit("/", 1)[1][2:-2]
            if k:
                ran[k] = ran.get(k, 0) + 1
        want = {o[1] for o in ops if o[0] == "build"} | {"test " + o[1] for o in ops if o[0] == "test"}
        if set(ran) != want:
            ck.violation("not-run", "accepted but ran %s instead of %s" % (sorted(set(ran))[:6], sorted(want)[:6]), data, case)
            return
        reg = Reg()
        for o in ops:
            reg.apply(o)
        t = {}
        for s in steps:
            k = s.gen if s.kind == "gen" else s.argv[s.argv.index("-t") + 1] if s.kind == "gencmd" else s.src.rsplit("/", 1)[1][2:-2] if s.src else None
            if k:
                t[k] = (s.t0, s.t1)
        for a, bs in reg.dep.items():
            for b in bs:
                if t[a][0] < t[b][1]:
                    ck.violation("order", "accepted dependency of %s on %s is not honoured" % (a, b), data, case)
                    return

    def case(rng, i):
        w = World()
        try:
            n = rng.choice([1, 2, 3, 4, 5, 7, 10, 14])
            names = mknames(rng, n)
            keys = list(names)
            order = list(keys)
            rng.shuffle(order)
            unreg = order.pop() if len(order) > 1 and rng.random() < 0.3 else None
            regops = [["build", k] for k in order]
            rank = {k: rng.random() for k in order}
            pairs = [(a, b) for a in order for b in order if rank[a] > rank[b]]
            rng.shuffle(pairs)
            deps = [["dep", a, b] for a, b in pairs[:rng.randrange(0, len(pairs) + 1)]]
            if rng.random() < 0.5:
                # a chain (long cycles) with a few more edges
                so = sorted(order, key=lambda k: rank[k])
                ch = {(b, a) for a, b in zip(so, so[1:])} | set(pairs[:rng.randrange(0, 3)])
                deps = [["dep", a, b] for a, b in sorted(ch)]
            tests = [["test", k] for k in order if names[k][0] == "t" and rng.random() < 0.4]
            ops = list(regops)
            late = deps + tests
            rng.shuffle(late)
            # interleave: a dependency may come as soon as both ends are registered
            for o in late:
                lo = max(ops.index(["build", x]) for x in o[1:]) + 1
                ops.insert(rng.randrange(lo, len(ops) + 1), o)
            bad = rng.random() < 0.6
            if bad:
                kind = rng.choice(["cycle", "cycle", "cycle", "self", "dup", "unreg_a", "unreg_b", "twice", "test_twice", "test_unreg", "early"])
                reg = Reg()
                for o in ops:
                    reg.apply(o)
                new = None
                if kind == "cycle":
                    c = [(a, b) for a in order for b in order if a != b and reg.reaches(b, a)]
                    if c:
                        c.sort(key=lambda p: cycle_len(reg, p[0], p[1]))
                        new = ["dep", *(c[-1] if rng.random() < 0.5 else rng.choice(c))]
                elif kind == "self":
                    k = rng.choice(order)
                    new = ["dep", k, k]
                elif kind == "dup" and deps:
                    new = list(rng.choice(deps))
                elif kind == "unreg_a" and unreg:
                    new = ["dep", unreg, rng.choice(order)]
                elif kind == "unreg_b" and unreg:
                    new = ["dep", rng.choice(order), unreg]
                elif kind == "twice":
                    new = ["build", rng.choice(order)]
                elif kind == "test_twice" and tests:
                    new = list(rng.choice(tests))
                elif kind == "test_unreg" and unreg and names[unreg][0] == "t":
                    new = ["test", unreg]
                elif kind == "early" and deps:
                    # a dependency declared before its builder is registered
                    d = rng.choice(deps)
                    ops.remove(d)
                    hi = max(ops.index(["build", x]) for x in d[1:])
                    ops.insert(rng.randrange(0, hi + 1), d)
                if new is not None:
                    pos = len(ops)
                    if rng.random() < 0.5 and kind not in ("cycle",):
                        pos = rng.randrange(len(ops) + 1)
                    ops.insert(pos, new)
            reg = Reg()
            why, at = None, None
            for k, o in enumerate(ops):
                why = reg.apply(o)
                if why:
                    at = k
                    break
            acts = world_actions(w, rng, names, ops)
            r = w.run(acts, workers=rng.choice([1, 4, 8]))
            if r.timeout:
                r = w.run(acts, workers=4, timeout=120)
            ck.evaluated(1, {"ops": len(ops), "defect": why, "rc": r.rc, "steps": len(r.steps())} if i < 12 else None)
            cl = cycle_len(reg, ops[at][1], ops[at][2]) if why == "cycle" else None
            ck.see([why, cl, at, len(names), len(reg.dep)])
            ck.count("defect:%s" % why)
            if cl:
                ck.count("cycle_length_%s" % (cl + 1 if cl < 5 else "6+"))
            judge(("seq", i), w, r, names, ops, why, None)
        finally:
            w.close()

    def dense(rng, i):
        """many builders: complete, layered and ladder shaped acyclic graphs in hostile declaration orders; with and without a closing edge"""
        w = World()
        try:
            n = rng.choice([24, 30, 40])
            names = {"b%d" % k: ("c", "tca", "n%d" % k) for k in range(n)}
            keys = list(names)
            shape = ["complete", "ladder", "layers", "chain"][i % 4]
            if shape == "complete":
                e = [(keys[a], keys[b]) for a in range(n) for b in range(a)]
            elif shape == "ladder":
                e = [(keys[a], keys[b]) for a in range(n) for b in (a - 1, a - 2) if b >= 0]
            elif shape == "layers":
                e = [(keys[a], keys[b]) for a in range(n) for b in range(n) if a // 3 == b // 3 + 1]
            else:
                e = [(keys[a], keys[a - 1]) for a in range(1, n)]
            mode = rng.choice(["fwd", "rev", "rand"])
            if mode == "rev":
                e.reverse()
            elif mode == "rand":
                rng.shuffle(e)
            ops = [["build", k] for k in keys] + [["dep", a, b] for a, b in e]
            why = None
            if rng.random() < 0.5:
                why = "cycle"
                ops.append(["dep", keys[0], keys[-1]])
            acts = world_actions(w, rng, names, ops)
            r = w.run(acts, workers=4)
            if r.timeout:
                r = w.run(acts, workers=4, timeout=90)
            ck.evaluated(1)
            ck.see([shape, mode, n, why])
            ck.count("dense_graphs")
            judge(("dense", i), w, r, names, ops, why, None)
        finally:
            w.close()

    ck.cases("seq", ck.n(2500, 20000), case)
    ck.cases("dense", ck.n(32, 240), dense)
    return ck.finish()
