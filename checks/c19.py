"""C19: file save and load report the truth; a build that could not record its state reports failure."""
import os
import shutil
import zlib

from vlib import build as B
from vlib.check import Check
from vlib.project import Project
from vlib.world import World, diff_snap

ERR = {"EIO": 5, "ENOSPC": 28, "EDQUOT": 122, "EACCES": 13, "EMFILE": 24}


def main(only=None):
    ck = Check("C19", "fault_enumeration",
               "one evaluation = one save or load compared with the bytes on disk (with and without an injected failing file operation), or one build with a failing file operation, an unwritable or full state "
               "file (exit status compared with what the next build finds recorded); distinct = distinct (operation, target kind, fault, size class, reported result) and (fault, file role, outcome)",
               ["the file system itself reports failures truthfully; the operating system's caches are not part of the guarantee"], only)
    iof = B.build_c("iofault.so", "iofault.c", ["-shared", "-fPIC", "-ldl"])

    def blob(rng):
        k = rng.choice(["empty", "one", "zeros", "nl", "bytes", "text", "big", "edge", "crlf"])
        if k == "empty":
            return k, b"", 1
        if k == "one":
            return k, bytes([rng.randrange(256)]), 1
        if k == "zeros":
            return k, b"\0" * rng.randrange(1, 50), 1
        if k == "nl":
            return k, b"\n" * rng.randrange(1, 20), 1
        if k == "crlf":
            return k, b"a\r\nb\r\x1a\n\r", rng.choice([1, 500])
        if k == "bytes":
            return k, bytes(rng.randrange(256) for _ in range(rng.randrange(1, 300))), 1
        if k == "text":
            return k, "zeile é\n".encode(), rng.choice([1, 10])
        if k == "edge":
            return k, b"x", rng.choice([4095, 4096, 8191, 8192, 8193, 65535, 65536, 65537, 131072])
        return k, bytes(rng.randrange(256) for _ in range(97)), rng.choice([1000, 20000])

    def files(rng, i):
        w = World("asan" if i % 4 == 3 else "plain")
        try:
            d = os.path.join(w.dir, "f")
            os.makedirs(d + "/dir/sub")
            open(d + "/file", "wb").write(b"old content")
            os.symlink(d + "/file", d + "/link")
            os.symlink(d + "/nowhere/x", d + "/dangling")
            os.symlink(d + "/loop", d + "/loop")
            os.symlink("/dev/full", d + "/full")
            open(d + "/opaque", "wb").write(b"old")
            open(d + "/big", "wb").write(rng.choice([b"0123456789abcdef\n", b"\0\xff\r\nz"]) * rng.choice([3900, 4096, 8192, 20000]))
            good = [d + "/big", d + "/file", d + "/link", d + "/new", d + "/new é 名", d + "/a b", d + "/dir/x"]
            bad = [d + "/dir", d + "/missing/x", d + "/file/x", d + "/dangling", d + "/loop", "", d + "/" + "n" * 300, d + "/full", "/dev/full", d + "/dir/", d + "/dir/sub"]
            state = {}
            fault = i % 3 == 2
            ps, exp = [], []
            for k in range(6 if fault else 30):
                if rng.random() < 0.55:
                    kind, u, rep = blob(rng)
                    path = rng.choice(good) if fault or rng.random() < 0.75 else rng.choice(bad)
                    c = {"f": "save", "path": path, "data": list(u), "repeat": rep, "binary": rng.random() < 0.5, "raw": rng.random() < 0.5}
                    exp.append(("save", path, u * rep, kind))
                else:
                    path = d + "/big" if rng.random() < 0.4 else rng.choice(good) if fault or rng.random() < 0.8 else rng.choice([b for b in bad if not b.endswith("full")])     # endless to read
                    c = {"f": "load", "path": path, "binary": rng.random() < 0.5, "pre": rng.choice(["", "stale" * 40])}
                    exp.append(("load", path, None, None))
                ps.append(c)
            runs = [ps] if not fault else [[p] for p in ps]
            k = 0
            for sub in runs:
                env, what = {}, None
                if fault:
                    what = (rng.choice(["err", "err", "short"]), rng.choice(sorted(ERR)))
                    env = {"IOF_DIR": d, "IOF_AT": str(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])), "IOF_MODE": what[0], "IOF_ERRNO": str(ERR[what[1]])}
                if not fault:
                    # one process per few operations, the disk is inspected in between
                    pass
                before = {}
                for c in sub:
                    before[c["path"]] = open(c["path"], "rb").read() if c["path"] and os.path.isfile(c["path"]) else None
                r = w.run(script={"probes": sub}, preload=iof if fault else None, env=env)
                res = [o["r"] for o in r.o("probe")]
                if r.rc != 0 or len(res) != len(sub):
                    ck.violation("crash", "saving or loading ended the process (status %s) at %s" % (r.rc, exp[k + len(res)][:2] if k + len(res) < len(exp) else None), {"ops": sub, "run": r.brief()}, ("files", i))
                    return
                cont = {os.path.realpath(p): b for p, b in before.items() if b is not None}
                for c, rr in zip(sub, res):
                    op, path, data, kind = exp[k]
                    k += 1
                    rp = os.path.realpath(path) if path else ""
                    ck.evaluated(1, {"op": op, "path": os.path.basename(path), "reported": rr.get("v"), "n": rr.get("n"), "fault": what} if i < 3 else None)
                    ck.see([op, os.path.basename(path), kind, what, bool(rr.get("v"))])
                    if op == "save":
                        ck.count("save_ok" if rr.get("v") else "save_refused")
                        if path in good and not fault:
                            if rr.get("v") is not True:
                                ck.violation("save-refused", "saving %d bytes to a writable path was reported as failed" % len(data), {"ops": sub}, ("files", i))
                                return
                            cont[rp] = data
                        elif fault:
                            disk = open(rp, "rb").read() if os.path.isfile(rp) else None
                            if rr.get("v") is True and disk != data:
                                ck.violation("save-lied", "saving reported success under %s but the file holds %s of %d bytes" % (what, None if disk is None else len(disk), len(data)), {"ops": sub, "env": env}, ("files", i))
                                return
                        elif rr.get("v") is True:
                            if path.endswith("full") and not data:
                                continue    # nothing to write: nothing can be lost
                            ck.violation("save-lied", "saving %d bytes to %r reported success" % (len(data), path), {"ops": sub}, ("files", i))
                            return
                    else:
                        want = cont.get(rp) if not fault else before.get(path)
                        ck.count("load_ok" if rr.get("v") else "load_refused")
                        if path in bad:
                            want = None
                        if rr.get("v") is True:
                            if want is None:
                                ck.violation("load-lied", "loading %r reported success" % path, {"ops": sub}, ("files", i))
                                return
                            if rr["n"] != len(want) or rr["h"] != zlib.crc32(want):
                                ck.violation("load-lied", "loading returned %d bytes of a file of %d (or other bytes), fault %s" % (rr["n"], len(want), what), {"ops": sub, "env": env}, ("files", i))
                                return
                        elif want is not None and not fault:
                            ck.violation("load-refused", "loading an existing file of %d bytes was reported as failed" % len(want), {"ops": sub}, ("files", i))
                            return
                if not fault:
                    for p2, b in cont.items():
                        disk = open(p2, "rb").read() if os.path.isfile(p2) else None
                        if disk != b:
                            ck.violation("save-lied", "after successful saves the file holds %s bytes, the last one saved had %d (or other bytes)" % (None if disk is None else len(disk), len(b)), {"ops": sub}, ("files", i))
                            return
        finally:
            w.close()

    def role(p):
        b = os.path.basename(p)
        return "state" if b.endswith((".bin", ".json")) else "pch" if b.startswith("buildcc_pch") else "dir" if os.path.isdir(p) else "output"

    def builds(rng, i):
        w = World()
        try:
            p = Project(w).random(rng, ntargets=rng.choice([1, 1, 2]))
            for _ in range(rng.choice([0, 1])):
                p.add_gen(rng)
            pre = rng.random() < 0.6
            if pre:
                r = w.run(p.actions(rng))
                if not r.ok:
                    ck.violation("spurious", "a build with valid inputs failed", {"run": r.brief()}, ("build", i))
                    return
                for _ in range(rng.choice([1, 2])):
                    p.random_edit(rng)
            acts = p.actions()
            base = w.out + ".base"
            if os.path.isdir(w.out):
                shutil.copytree(w.out, base, symlinks=True)
            log = os.path.join(w.dir, "iolog")
            r = w.run(acts, workers=1, preload=iof, env={"IOF_DIR": w.out, "IOF_LOG": log})
            if not r.ok:
                ck.violation("spurious", "a build with valid inputs failed", {"run": r.brief()}, ("build", i))
                return
            ops = [l.split(" ", 2) for l in open(log).read().splitlines()] if os.path.exists(log) else []
            ref = w.snapshot()
            states = []
            for root, _, fs in os.walk(w.out):
                states += [os.path.join(root, f) for f in fs if f.endswith((".bin", ".json"))]
            points = [("io", int(n), op, path, mode) for n, op, path in ops for mode in (["err", "short"] if op == "write" else ["err"])]
            points += [("obstacle", 0, o, s, None) for s in states for o in ("dir",)]
            # failing writes of recorded state first, then anything else
            rng.shuffle(points)
            points.sort(key=lambda x: not (x[0] == "io" and x[2] == "write" and role(x[3]) == "state"))
            for what, n, op, path, mode in points[:2] + rng.sample(points[2:], min(len(points) - 2 if len(points) > 2 else 0, ck.n(5, 25))):
                shutil.rmtree(w.out, ignore_errors=True)
                if os.path.isdir(base):
                    shutil.copytree(base, w.out, symlinks=True)
                env = {}
                if what == "io":
                    e = rng.choice(["EIO", "ENOSPC", "EDQUOT"])
                    env = {"IOF_DIR": w.out, "IOF_AT": str(n), "IOF_MODE": mode, "IOF_ERRNO": str(ERR[e])}
                else:
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    if os.path.lexists(path):
                        os.unlink(path)
                    os.makedirs(path + "/keep")
                r = w.run(acts, workers=1, preload=iof if what == "io" else None, env=env)
                nsteps = len(r.steps())
                desc = "%s %s %s of %s" % (what, mode, op, role(path) if what == "io" else "state")
                ck.evaluated(1, {"fault": desc, "rc": r.rc, "steps": nsteps} if i < 4 else None)
                ck.see([desc, r.rc, min(nsteps, 8), pre])
                ck.count("build_reported_failure" if r.rc else "build_reported_success")
                data = {"fault": desc, "path": path, "run": r.brief(), "script": acts}
                if r.rc == -6 and op == "mkdir" and not r.events and "filesystem_error" in r.err:
                    ck.count("aborted_before_the_build")    # a failing status too: nothing had been started
                elif r.rc < 0 or r.timeout:
                    ck.violation("crash", "a build with a failing file operation (%s) crashed or hung (%s)" % (desc, r.rc), data, ("build", i))
                    return
                r2 = w.run(acts, workers=1)
                st = [s.name() for s in r2.steps()]
                if r.rc == 0:
                    if st or not r2.ok:
                        ck.violation("lied", "a build with a failing file operation (%s of %s) reported success, but the next build %s" % (desc, os.path.basename(path), "ran %s" % st[:3] if st else "failed"), data, ("build", i))
                        return
                elif what == "obstacle":
                    os.system("rm -rf '%s'" % path)
                    r2 = w.run(acts, workers=1)
                if not r2.ok:
                    ck.violation("wedged", "after a build that reported failure (%s) the next one, without the fault, failed too" % desc, dict(data, second=r2.brief()), ("build", i))
                    return
                df = diff_snap(ref, w.snapshot())
                if df:
                    ck.violation("stale", "after %s the outputs differ from those of an undisturbed build: %s" % (desc, df[:2]), data, ("build", i))
                    return
        finally:
            w.close()

    ck.cases("files", ck.n(240, 3000), files)
    ck.cases("build", ck.n(70, 900), builds)
    return ck.finish()
