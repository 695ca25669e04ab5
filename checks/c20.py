"""C20: toolchain lookup reports exactly the searched directories that hold every tool; verification picks the first and queries it."""
import os
import re

from vlib.check import Check
from vlib.world import World, scratch_root

KEYS = ["as", "cc", "cxx", "ar", "ld"]
POOL = ["gcc", "gcc-ar", "g++", "ar", "as", "ld", "cl", "lib", "link", "ml", "arm-none-eabi-gcc", "arm-none-eabi-g++", "clang-14", "gcc.exe", "a+b", "cc", "c", "x.y", "Gcc", "名", "ld.lld"]


def main(only=None):
    ck = Check("C20", "trace_oracle",
               "one evaluation = one Find, Verify or host executable search over a random layout of search paths compared with an independent scan; distinct = distinct (kinds of searched entries, number found, "
               "tools distinct, verification outcome)",
               ["a directory holds a tool iff it has a regular file (or a link to one) of exactly that name", "directories contain no double quote, dollar or back quote",
                "the answer of a compiler is compared without surrounding white space"], only)

    def layout(rng, w, names):
        """directories of many kinds; returns list of (kind, path)"""
        root = os.path.join(w.dir, "tc")
        os.makedirs(root, exist_ok=True)
        dirs = []
        for k in range(rng.choice([1, 2, 4, 7])):
            kind = rng.choice(["full", "full", "partial", "partial", "empty", "missing", "file", "dangling", "loop", "linkdir", "tooldirs", "prefix", "extra", "links", "badlinks", "long", "sub", "relative", "slash",
                               "empty_name", "locked", "locked_parent", "case"])
            d = os.path.join(root, "d%d" % k + rng.choice(["", "", "", " x", "&y", " (z)", "[1]", "'", ";true", "#"]))
            have = list(names)
            if kind == "missing":
                pass
            elif kind == "file":
                open(d, "w").write("x")
            elif kind == "dangling":
                os.symlink(d + "_no", d)
            elif kind == "loop":
                os.symlink(d, d)
            elif kind == "long":
                d = os.path.join(root, "n" * 300)
            elif kind == "empty_name":
                d = ""
            else:
                real = d
                if kind == "linkdir":
                    real = d + "_real"
                    os.symlink(real, d)
                if kind == "locked_parent":
                    real = d + "/inner"
                os.makedirs(real, exist_ok=True)
                if kind == "partial":
                    have = rng.sample(names, rng.randrange(0, len(names)))
                if kind == "empty":
                    have = []
                for n in have:
                    f = os.path.join(real, n)
                    if kind == "tooldirs" and n == have[0]:
                        os.makedirs(f)
                    elif kind == "prefix" and n == have[0]:
                        open(f + rng.choice(["-x", ".o", "2", ".exe"]), "w").close()
                        open(os.path.join(real, "x" + n), "w").close()
                    elif kind == "case" and n == have[0] and n.upper() != n:
                        open(os.path.join(real, n.upper()), "w").close()
                    elif kind == "links" or (kind == "badlinks" and n != have[0]):
                        os.symlink(w.fcc, f)
                    elif kind == "badlinks":
                        os.symlink(f + "_gone", f)
                    elif kind == "sub" and n == have[0]:
                        os.makedirs(os.path.join(real, "sub"))
                        os.symlink(w.fcc, os.path.join(real, "sub", n))
                    else:
                        os.symlink(w.fcc, f) if rng.random() < 0.7 else open(f, "w").close()
                if kind == "extra":
                    for n in rng.sample(POOL, 4):
                        if not os.path.lexists(os.path.join(real, n)):
                            open(os.path.join(real, n), "w").close()
                if kind == "locked":
                    os.chmod(real, rng.choice([0, 0o111]))
                if kind == "locked_parent":
                    os.chmod(d, 0)
                    d = real
                if kind == "relative":
                    d = os.path.relpath(d, w.dir)
                if kind == "slash":
                    d = d + rng.choice(["/", "/.", "//"])
            dirs.append((kind, d))
        return dirs

    def holds(w, kind, d, names, unpriv):
        if unpriv and kind in ("locked", "locked_parent"):
            return False
        if d == "":
            return False
        p = os.path.join(w.dir, d)
        try:
            ents = os.listdir(p)
        except OSError:
            return False
        return set(names) <= {e for e in ents if os.path.isfile(os.path.join(p, e))}

    def case(rng, i):
        w = World()
        os.chmod(scratch_root(), 0o755)
        try:
            kind = rng.choice(["gcc", "gcc", "mingw", "msvc", "plain"])
            names = rng.sample(POOL, 5)
            if rng.random() < 0.2:
                names[1] = names[2]
            exes = dict(zip(KEYS, names))
            dirs = layout(rng, w, sorted(set(names)))
            lookup = []
            env = {}
            split = rng.randrange(len(dirs) + 1)
            order = [rng.choice(dirs) for _ in range(len(dirs) + rng.choice([0, 0, 1, 2]))]     # with duplicates
            pths, rest = order[:split], order[split:]
            envs = []
            while rest:
                k = rng.randrange(1, len(rest) + 1)
                v = "VAR_%d" % len(envs)
                envs.append(v)
                env[v] = ":".join(d for _, d in rest[:k]) + rng.choice(["", "", ":"])
                rest = rest[k:]
            # an environment value cannot carry a name with a colon; none of ours has one
            if rng.random() < 0.2:
                envs.append("VAR_E")
                env["VAR_E"] = ""
            unpriv = rng.random() < 0.6
            if unpriv:
                env["BCC_UID"] = "65534"
                rd = os.path.join(w.dir, "run")
                os.makedirs(rd, exist_ok=True)
                for d in (w.base, w.dir, rd):
                    os.chmod(d, 0o777)
                for f in ("trace", "obs"):
                    pass
            ver = rng.choice(["11.2.0", "9", "13.0.0-rc1+é"])
            mach = rng.choice(["x86_64-linux-gnu", "arm-none-eabi", "m"])
            drc = rng.random() < 0.15
            env.update({"FCC_VERSION": ver, "FCC_MACHINE": mach})
            if drc:
                env["FCC_DUMP_RC"] = "1"
            if rng.random() < 0.2:
                env["FCC_SPLIT"] = "1"
            vs = {"VSCMD_VER": "17.1", "VSCMD_ARG_HOST_ARCH": "x64", "VSCMD_ARG_TGT_ARCH": "x86"}
            if kind == "msvc":
                miss = rng.choice([None, None, "VSCMD_VER", "VSCMD_ARG_HOST_ARCH", "VSCMD_ARG_TGT_ARCH"])
                env.update({k: v for k, v in vs.items() if k != miss})
            else:
                miss = None
            acts = [{"do": "toolchain", "key": "tc", "kind": kind, "name": "T", "exes": exes, "id": "custom"},
                    {"do": "find", "tc": "tc", "envs": envs, "paths": [d for _, d in pths], "n": 1},
                    {"do": "tc_dump", "tc": "tc"},
                    {"do": "verify", "tc": "tc", "envs": envs, "paths": [d for _, d in pths], "n": 2}]
            argv = w.base_args()
            script = {"argv": argv, "actions": acts}
            r = w.run(script=script, env=env, cwd=w.dir)
            uid = r.o("uid")
            if unpriv and not (uid and uid[0]["ok"]):
                ck.count("could_not_drop_privileges")
                unpriv = False
            want = [d for k, d in order if holds(w, k, d, names, unpriv)]
            data = {"exes": exes, "order": order, "envs": {k: env.get(k) for k in envs}, "want": want, "run": r.brief(), "obs": r.obs}
            ck.evaluated(1, {"searched": [k for k, _ in order], "found": len(want)} if i < 8 else None)
            ck.see([sorted({k for k, _ in order}), len(want), len(set(names)), kind, drc, miss, unpriv])

            def bad(key, msg):
                ck.violation(key, msg, data, ("find", i))
            f = r.o("find")
            if not f:
                return bad("find-failed", "looking up a toolchain failed (status %s) over %s" % (r.rc, [k for k, _ in order]))
            if f[0]["v"] != want:
                return bad("find", "reported %s, holding every tool: %s (searched: %s)" % (f[0]["v"], want, [k for k, _ in order]))
            ck.evaluated(1)
            v = r.o("verify")
            first = want[0] if want else None
            cxx = os.path.join(w.dir, first, exes["cxx"]) if first else None
            runnable = bool(first) and os.access(cxx, os.X_OK) and os.path.realpath(cxx) == os.path.realpath(w.fcc)
            if kind in ("gcc", "mingw"):
                ok = runnable and not drc
            elif kind == "msvc":
                ok = bool(first) and miss is None
            else:
                ok = False      # no way to query: refused
            ck.count("verified" if ok else "refused")
            if not ok:
                if v or r.rc == 0:
                    return bad("verify-accepted", "verification succeeded although %s" % ("nothing was found" if not first else "the compiler cannot be queried"))
                if r.rc < 0:
                    return bad("verify-crash", "verification crashed (signal %d)" % -r.rc)
                return
            if not v:
                return bad("verify-refused", "verification was refused (status %s): %s" % (r.rc, r.out[-200:]))
            v = v[0]
            if os.path.normpath(v["path"]) != os.path.normpath(first):
                return bad("verify-path", "verification picked %s, the first match is %s" % (v["path"], first))
            exp = {k: os.path.normpath(os.path.join(first, n)) for k, n in exes.items()}
            got = {k: os.path.normpath(x) for k, x in v["exes"].items()}
            if got != exp:
                return bad("verify-tools", "tools point at %s, expected %s" % (got, exp))
            wv, wm = (ver, mach) if kind != "msvc" else ("17.1", "x64_x86")
            if v["version"].strip() != wv or v["arch"].strip() != wm:
                return bad("verify-info", "reported version %r and architecture %r, the compiler answers %r and %r" % (v["version"], v["arch"], wv, wm))
        finally:
            os.system("chmod -R u+rwx '%s' 2>/dev/null" % w.base)
            w.close()

    def host(rng, i):
        w = World()
        try:
            names = rng.sample(POOL, 5)
            dirs = layout(rng, w, names)
            dirs = [(k, d) for k, d in dirs if k not in ("locked", "locked_parent")]
            env, envs, order = {}, [], []
            for v in range(rng.choice([1, 2, 3])):
                ds = [rng.choice(dirs) for _ in range(rng.randrange(0, 4))] if dirs else []
                envs.append("HV%d" % v)
                if rng.random() < 0.85:
                    env["HV%d" % v] = ":".join(d for _, d in ds)
                    order += ds
            pat = rng.choice([names[0].replace("+", "\\+"), "g.*", ".*", "gcc", "gcc.*", "[a-c]+", "(ar|as)", "x", "", ".*cc", "名"])
            r = w.run([{"do": "host_find", "name": pat, "envs": envs, "n": 1}], env=env, cwd=w.dir)
            want = []
            for k, d in order:
                if d == "":
                    continue
                try:
                    want += sorted(os.path.join(d, e) for e in os.listdir(os.path.join(w.dir, d)) if re.fullmatch(pat, e))
                except OSError:
                    pass
            h = r.o("host_find")
            ck.evaluated(1)
            ck.see(["host", pat, len(want), sorted({k for k, _ in order})])
            data = {"pattern": pat, "env": env, "run": r.brief(), "obs": r.obs}
            if not h or r.rc != 0:
                ck.violation("host-failed", "searching the host for %r failed (status %s)" % (pat, r.rc), data, ("host", i))
            elif sorted(map(os.path.normpath, h[0]["v"])) != sorted(map(os.path.normpath, want)) or h[0]["r"] != bool(want):
                ck.violation("host", "searching the host for %r found %s (%s), matching entries: %s" % (pat, h[0]["v"], h[0]["r"], want), data, ("host", i))
        finally:
            w.close()

    ck.cases("find", ck.n(1500, 15000), case)
    ck.cases("host", ck.n(500, 5000), host)
    return ck.finish()
