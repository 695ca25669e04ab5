"""C13: pattern substitution is exact (differential against a reference formatter, on the real Command and through generators)."""
import os
import re

from vlib.check import Check
from vlib.world import World

NAMES = ["a", "b", "_x", "name", "Name", "name2", "output", "compiler", "current_build_dir", "A9_", "x" * 40, "default", "end"]
MANY = NAMES + ["n%d" % k for k in range(30)]
LIT = ["", " ", "x", "é名🙂", "%s", "\\", "\n", "\t", "\"", "'", "$a", "a", "name", "0", ":", "!", ".", "[", "]", "\u0001", "-o ", "//", "}}", "{{", "{{{{", "}}}}", "{{a}}", "{{{{a}}}}", "{{{a}}}"]
BAD = ["{", "}", "{ a}", "{a }", "{a", "a}", "{}", "{0}", "{1}", "{-a}", "{a b}", "{{}", "{}}", "{unknown}", "{a{b}}", "{Unknown_1}", "{é}", "{a.b}", "{a[0]}"] + ["{%s}" % k for k in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 19, 25, "00", "-1", "+1")]
VAL = ["", " ", "v", "a b", "{a}", "{", "}", "{{", "}}", "{unknown}", "{}", "%s", "é名", "\n", "\"q\"", "\\", "'", "x" * 5000, "{name}{name}", "$(id)", "\u0001", "0"]
IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*\Z")


class Fatal(Exception):
    pass


class Unspecified(Exception):
    pass


def ref(pattern, vals):
    """Reference: {name} -> value, {{ -> {, }} -> }, everything else kept, anything malformed or unknown fatal."""
    out, i, n = [], 0, len(pattern)
    while i < n:
        c = pattern[i]
        if c == "{":
            if i + 1 < n and pattern[i + 1] == "{":
                out.append("{")
                i += 2
                continue
            j = i + 1
            while j < n and pattern[j] not in "{}:!":
                j += 1
            name = pattern[i + 1:j]
            if j >= n or pattern[j] == "{":
                raise Fatal("unterminated field")
            if pattern[j] in ":!":
                raise Unspecified()
            if not IDENT.match(name):
                if name == "" or name.isdigit():
                    if len(vals) == 1:
                        raise Unspecified()
                raise Fatal("not a name: " + name)
            if name not in vals:
                raise Fatal("unknown value " + name)
            out.append(vals[name])
            i = j + 1
        elif c == "}":
            if i + 1 < n and pattern[i + 1] == "}":
                out.append("}")
                i += 2
                continue
            raise Fatal("lone }")
        else:
            out.append(c)
            i += 1
    return "".join(out)


def rpattern(rng, names, bad):
    parts = []
    for _ in range(rng.choice([1, 2, 3, 5, 9])):
        x = rng.random()
        if x < 0.45 and names:
            parts.append("{%s}" % rng.choice(names))
        elif x < 0.5 and bad:
            parts.append(rng.choice(BAD))
        else:
            parts.append(rng.choice(LIT))
    return "".join(parts)


def main(only=None):
    ck = Check("C13", "differential_oracle",
               "one evaluation = one substitution performed by the real code (Command::Construct with default and per-call values, generator patterns, inputs, outputs and commands) compared with "
               "the reference formatter; distinct = distinct (pattern, values, result) triples",
               ["format specifications ({name:...}) are outside the property", "a field without a name may stand for the value if exactly one value is given"], only)
    PER = 250

    def batch(rng, i):
        probes, want = [], []
        for k in range(PER):
            names = rng.sample(MANY, rng.choice([0, 1, 2, 4, 8, 12, 30]))
            defs, vals = [], {}
            for nm in names:
                for _ in range(rng.choice([1, 1, 2])):
                    v = rng.choice(VAL)
                    defs.append([nm, v])
                    vals.setdefault(nm, v)
            p = {"f": "construct", "defs": defs}
            if rng.random() < 0.3:
                dm = {nm: rng.choice(VAL) for nm in rng.sample(NAMES, rng.choice([1, 2, 3]))}
                p["defmap"] = dm
                for nm, v in dm.items():
                    vals.setdefault(nm, v)
            if rng.random() < 0.3:
                d2 = [[rng.choice(NAMES), rng.choice(VAL)] for _ in range(rng.choice([1, 2]))]
                p["defs2"] = d2
                for nm, v in d2:
                    vals.setdefault(nm, v)
            if rng.random() < 0.5:
                ar = {nm: rng.choice(VAL) for nm in rng.sample(NAMES, rng.choice([1, 2, 3]))}
                p["args"] = ar
                for nm, v in ar.items():
                    vals.setdefault(nm, v)
            p["pattern"] = rpattern(rng, sorted(vals) if rng.random() < 0.9 else NAMES, rng.random() < 0.35)


            probes.append(p)
            want.append(vals)
            if rng.random() < 0.1 and defs:
                key = rng.choice(NAMES)
                d = {}
                for a, b in defs:
                    d.setdefault(a, b)
                probes.append({"f": "getdef", "defs": defs, "key": key})
                want.append(("get", d.get(key)))
        probes.append({"f": "nullarg", "pattern": "x"})
        want.append(("null",))
        w = World()
        try:
            r = w.run(script={"probes": probes})
            res = {o["n"]: o["r"] for o in r.o("probe")}
            for k, (p, v) in enumerate(zip(probes, want)):
                if k not in res:
                    ck.violation("crash", "substitution of %r ended the process (status %s)" % (p, r.rc), {"probe": p, "run": r.brief()}, ("construct", i))
                    return
                got = res[k]
                ck.evaluated(1, {"pattern": p.get("pattern"), "got": got} if i == 0 and k < 8 else None)
                if isinstance(v, tuple):
                    ok = ("exc" in got) if (v[0] == "null" or v[1] is None) else got.get("v") == v[1]
                    if not ok:
                        ck.violation("lookup", "%s gave %s, expected %s" % (p, got, v), {"probe": p}, ("construct", i))
                    continue
                ck.see([p["pattern"], sorted(v.items()), got])
                try:
                    exp = ref(p["pattern"], v)
                except Unspecified:
                    ck.count("unspecified")
                    continue
                except Fatal as e:
                    ck.count("fatal_expected")
                    if "exc" not in got:
                        ck.violation("accepted", "malformed pattern %r (%s) gave %r instead of a fatal error" % (p["pattern"], e, got.get("v")), {"probe": p}, ("construct", i))
                    continue
                if got.get("v") != exp:
                    ck.violation("wrong", "pattern %r with %s gave %s, expected %r" % (p["pattern"], p, got, exp), {"probe": p}, ("construct", i))
        finally:
            w.close()

    # through generators: patterns built from patterns, inputs and outputs of a step, arguments of a file generator's commands
    GN = ["p1", "p2", "dir", "name", "q_9", "project_root_dir", "current_build_dir"]
    GL = ["", "x", "a/b", "{{", "}}", "{{p1}}", "-", "é", "~"]
    GV = ["v", "w1", "a", "{{k}}", "é", "z-1"]

    def gen(rng, i):
        w = World()
        try:
            name = rng.choice(["g", "g x", "gé"])
            root = w.proj
            env = None
            if rng.random() < 0.3:
                os.makedirs(w.p("sub"))
                env, root = {"rel": "sub"}, w.p("sub")
            # the spelling of the predefined directories (trailing slash) is observed, their identity is checked
            vals = {"project_root_dir": w.proj, "project_build_dir": w.out, "current_root_dir": root, "current_build_dir": os.path.join(w.out, name)}
            predef = dict(vals)
            ops = []
            fatal = False

            def pat(bad=0.0):
                return "".join("{%s}" % rng.choice(sorted(vals)) if rng.random() < 0.5 else "{nosuch}" if rng.random() < bad else rng.choice(GL) for _ in range(rng.choice([1, 2, 3])))
            for _ in range(rng.choice([0, 1, 3, 6])):
                nm = rng.choice(GN)
                tx = pat(0.04)
                if rng.random() < 0.2:
                    tx = rng.choice(GV)
                try:
                    v = ref(tx, vals)
                except Fatal:
                    fatal = True
                    v = None
                ops.append(["pattern", nm, tx] if rng.random() < 0.7 else ["patterns", {nm: tx}])
                if v is None:
                    break
                vals.setdefault(nm, v)
            exp_in, exp_out, ins, outs = [], [], [], []
            if not fatal:
                for kind in range(rng.choice([1, 2])):
                    t = "{current_root_dir}/in%d" % kind + rng.choice(["", "{{", "{{x}}", "é"])
                    v = ref(t, vals)
                    w.write(v, "in\n")
                    ins.append(t)
                    exp_in.append(v)
                for kind in range(rng.choice([1, 2])):
                    extra = [n for n in ("p1", "p2", "name", "q_9") if n in vals and "/" not in vals[n] and len(vals[n]) < 40]
                    t = "{current_build_dir}/o%d" % kind + "".join(rng.choice(["{%s}" % rng.choice(extra) if extra else "", "}}", "-"]) for _ in range(2)) + rng.choice(["", "", "", "{nosuch}" if rng.random() < 0.3 else ""])
                    try:
                        exp_out.append(ref(t, vals))
                    except Fatal:
                        fatal = True
                    outs.append(t)
                cmd = '"%s" %s %s' % (w.tool("tst"), " ".join("'{%s}'" % k for k in predef), " ".join("'A%d=%s'" % (k, pat()) for k in range(2)))
                ops.append(["id", "one", ins, outs, {"cmd": cmd}, None])
            acts = [{"do": "gen", "key": "g", "cls": "custom", "name": name, **({"env": env} if env else {})},
                    {"do": "build", "b": "g", "via": [True, True], "ops": ops}, {"do": "run"}]
            r = w.run(acts)
            data = {"script": acts, "run": r.brief()}
            ck.evaluated()
            ck.see(["gen", ops, r.rc])
            if fatal:
                if r.rc == 0 or r.crashed() or r.timeout:
                    ck.violation("gen-accepted", "a generator naming an unknown value was accepted (status %s)" % r.rc, data, ("gen", i))
                return
            ev = [e for e in r.events if e["ev"] == "gstart"]
            if not r.ok or len(ev) != 1:
                ck.violation("gen-refused", "a well-formed generator was refused (status %s)" % r.rc, data, ("gen", i))
                return
            a = [e["argv"] for e in r.events if e["ev"] == "start"]
            if len(a) != 1 or [os.path.normpath(x) for x in a[0][1:5]] != list(predef.values()):
                ck.violation("gen-predefined", "predefined patterns are %s, expected %s" % (a, predef), data, ("gen", i))
                return
            vals = dict(zip(predef, a[0][1:5]))
            for o in ops[:-1]:
                nm, tx = (o[1], o[2]) if o[0] == "pattern" else list(o[1].items())[0]
                vals.setdefault(nm, ref(tx, vals))
            exp_in = [os.path.normpath(ref(x, vals)) for x in ins]
            exp_out = [os.path.normpath(ref(x, vals)) for x in outs]
            if sorted(ev[0]["inputs"]) != sorted(exp_in) or sorted(ev[0]["outputs"]) != sorted(set(exp_out)):
                ck.violation("gen-wrong", "generator step got inputs %s outputs %s, expected %s and %s" % (ev[0]["inputs"], ev[0]["outputs"], exp_in, exp_out), data, ("gen", i))
                return
            exp = [ref(x, vals) for x in re.findall(r"'(A\d=[^']*)'", ops[-1][4]["cmd"])]
            if a[0][5:] != exp:
                ck.violation("gen-command", "the command constructed in a callback got %s, expected %s" % (a, exp), data, ("gen", i))
        finally:
            w.close()

    ck.cases("construct", ck.n(60, 1000), batch)
    ck.cases("gen", ck.n(600, 6000), gen)
    return ck.finish()
