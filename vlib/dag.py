"""Random graphs of builders (targets, file and custom generators) with random delays, and happens-before oracles."""
import os

from .project import Gen, Project, Target


class Dag(Project):
    def build_random(self, rng, n, density=None, kinds=("t", "t", "t", "f", "c"), pch=0.25):
        """n builders, random acyclic dependencies. Steps do not read each other's outputs: only the declared order can order them."""
        names = []
        # sometimes a long part that all names share
        pre = rng.choice([""] * 7 + ["com.example.product.subsystem.component.module-"])
        density = density if density is not None else rng.choice([0.1, 0.25, 0.5, 0.9])
        for i in range(n):
            k = rng.choice(kinds)
            if k == "t":
                t = Target("%st%d" % (pre, self.nid()), rng.choice(["exe_gcc", "static_gcc", "dyn_gcc"]))
                for _ in range(rng.choice([1, 1, 2, 4])):
                    t.srcs.append(self.new_file(rng, rng.choice([".c", ".cpp", ".s"])))
                if rng.random() < pch:
                    t.pchs = [self.new_file(rng, ".h")]
                self.targets[t.name] = t
                names.append(t.name)
            elif k == "f":
                g = Gen("%sgen%d" % (pre, self.nid()), "file")
                g.inputs = [self.new_file(rng, ".in")]
                g.ncmd = rng.choice([1, 2, 3])
                g.outputs = ["go%d.out" % self.nid() for _ in range(g.ncmd)]
                g.text = self.nid()
                self.gens[g.name] = g
                names.append(g.name)
            else:
                g = Gen("%sgen%d" % (pre, self.nid()), "custom")
                for _ in range(rng.choice([1, 2, 4])):
                    g.ids["id%d" % self.nid()] = {"inputs": [self.new_file(rng, ".in")], "outputs": ["go%d.out" % self.nid()], "blob": None}
                self.gens[g.name] = g
                names.append(g.name)
        order = list(names)
        rng.shuffle(order)
        for i, a in enumerate(order):
            for b in order[:i]:
                if rng.random() < density:
                    self.deps.append((a, b))
        self.names = names
        return self

    def closure(self):
        """builder -> set of builders it transitively depends on"""
        d = {n: set() for n in list(self.targets) + list(self.gens)}
        for a, b in self.deps:
            d[a].add(b)
        ch = True
        while ch:
            ch = False
            for a in d:
                for b in list(d[a]):
                    new = d[b] - d[a]
                    if new:
                        d[a] |= new
                        ch = True
        return d

    def delays(self, rng, prob=0.5, lo=1, hi=12):
        """random delays before and after tool outputs and inside callbacks"""
        plan, cbs = [], {}
        for t in self.targets.values():
            if rng.random() < prob:
                plan.append(("-o\x1f" + self.target_dir(t.name) + "/", "sleepa=%d" % rng.randrange(lo, hi)))
            if t.pchs and rng.random() < prob:
                plan.append((self.target_dir(t.name) + "/buildcc_pch.h.gch\x1f", "sleepa=%d" % rng.randrange(lo, hi)))
            for s in t.srcs:
                if rng.random() < prob:
                    plan.append(("-c\x1f" + self.abs(s) + "\x1f", rng.choice(["sleepa=%d", "sleep=%d"]) % rng.randrange(lo, hi)))
        for g in self.gens.values():
            if g.cls == "file" and rng.random() < prob:
                plan.append(("-t\x1fT%d_" % g.text, "sleepa=%d" % rng.randrange(lo, hi)))
            for k in g.ids:
                if rng.random() < prob:
                    cbs[(g.name, k)] = {"sleep": rng.randrange(lo, hi)}
        return plan, cbs


def intervals(p, run):
    """builder -> list of steps; steps without an end event have t1 None"""
    res = {}
    for s in run.steps():
        if s.kind in ("test", "query"):
            continue
        res.setdefault(p.builder_of(s), []).append(s)
    return res


def happens_before(p, run):
    """violations of: no step of a dependent starts before every step of its (transitive) dependencies has ended"""
    iv = intervals(p, run)
    bad = []
    for a, bs in p.closure().items():
        for b in bs:
            for sa in iv.get(a, []):
                for sb in iv.get(b, []):
                    if sb.t1 is None or sa.t0 < sb.t1:
                        bad.append((a, b, sa.name(), sb.name()))
    return bad
