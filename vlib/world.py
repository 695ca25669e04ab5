"""A scratch world in which the real build library runs: project tree, build directory, fake tools, and the record of
everything that was observed (tool start/end events, callback events, exit status, outputs left on disk)."""
import json
import os
import select
import shutil
import signal
import subprocess
import tempfile
import threading
import time

from . import build as B

SCRATCH = None
_lock = threading.Lock()
TOOLS = ["as", "gcc", "g++", "ar", "ld", "cl", "ml", "lib", "link", "gen", "tst"]
RUNS = [0]
EVENTS = [0]
TIMEOUTS = [0]
FORCE = None        # C18 runs the workloads of the other checks in sanitizer builds
ON_RUN = None       # called with (world, run) after every run


def scratch_root():
    global SCRATCH
    with _lock:
        if SCRATCH is None:
            SCRATCH = tempfile.mkdtemp(prefix="bccv.", dir="/tmp")
            import atexit
            atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))
    return SCRATCH


class Run:
    """One execution of the driver and what was observed."""

    def __init__(self):
        self.rc = None          # exit status, or -signal
        self.timeout = False
        self.events = []
        self.obs = []
        self.out = self.err = ""
        self.leftover = False
        self.script = None

    @property
    def ok(self):
        return self.rc == 0 and not self.timeout

    def o(self, kind):
        return [x for x in self.obs if x.get("o") == kind]

    def steps(self):
        return steps_of(self.events)

    def crashed(self):
        return self.rc is not None and self.rc < 0

    def brief(self):
        return {"rc": self.rc, "timeout": self.timeout, "out": self.out[-1500:], "err": self.err[-1500:],
                "events": self.events[-60:]}


class Step:
    """One tool invocation or generator callback."""
    __slots__ = ("kind", "tool", "argv", "src", "out", "outs", "t0", "t1", "rc", "pid", "cwd", "gen", "id", "ev", "objs")

    def __init__(self):
        self.t1 = None
        self.rc = None
        self.out = self.src = self.gen = self.id = None
        self.outs = []
        self.objs = []

    def name(self):
        return "%s:%s" % (self.kind, self.out or self.id or " ".join(self.argv))

    def __repr__(self):
        return "<%s rc=%s>" % (self.name(), self.rc)


def classify(s):
    a = s.argv
    base = os.path.basename(a[0])
    s.tool = a[0]
    if base == "tst":
        s.kind = "test"
        return
    if base == "gen":
        s.kind = "gencmd"
        s.outs = a[a.index("-o") + 1:] if "-o" in a else []
        s.out = s.outs[0] if s.outs else None
        return
    if len(a) == 2 and a[1] in ("-dumpversion", "-dumpmachine"):
        s.kind = "query"
        return
    if len(a) > 2 and a[1] == "rcs":
        s.kind, s.out = "link", a[2]
        s.objs = a[3:]
        return
    if "-c" in a or "/c" in a:
        c = a.index("-c") if "-c" in a else a.index("/c")
        s.src = a[c + 1] if c + 1 < len(a) else None
        if "-o" in a:
            s.out = a[a.index("-o") + 1] if a.index("-o") + 1 < len(a) else None
        for x in a:
            if x.startswith("/Fo"):
                s.out = x[3:]
        s.kind = "compile"
        if (s.out or "").endswith((".gch", ".pch")):
            s.kind = "pch"
        if any(x.startswith("/Yc") for x in a):
            s.kind = "pch"
            for x in a:
                if x.startswith("/Fp"):
                    s.out = x[3:]
        return
    s.kind = "link"
    if "-o" in a and a.index("-o") + 1 < len(a):
        s.out = a[a.index("-o") + 1]
    for x in a:
        if x.startswith("/OUT:"):
            s.out = x[5:]
    s.objs = [x for x in a[1:] if x.startswith("/") and (x.endswith(".o") or x.endswith(".obj")) and x != s.out]


def steps_of(events):
    steps, open_ = [], {}
    gopen = {}
    for e in events:
        if e["ev"] == "start":
            s = Step()
            s.argv, s.pid, s.t0, s.cwd, s.ev = e["argv"], e["pid"], e["t"], e["cwd"], e
            classify(s)
            steps.append(s)
            open_[e["pid"]] = s
        elif e["ev"] == "end":
            s = open_.pop(e["pid"], None)
            if s is not None:
                s.t1, s.rc = e["t"], e["rc"]
        elif e["ev"] == "gstart":
            s = Step()
            s.kind, s.gen, s.id, s.t0, s.ev, s.argv = "gen", e["gen"], e["id"], e["t"], e, []
            s.outs = e["outputs"]
            steps.append(s)
            gopen[(e["gen"], e["id"])] = s
        elif e["ev"] == "gend":
            s = gopen.pop((e["gen"], e["id"]), None)
            if s is not None:
                s.t1, s.rc = e["t"], 0 if e["ret"] == "ok" else 1
    return steps


def read_jsonl(p):
    out = []
    try:
        with open(p, "rb") as f:
            for line in f:
                try:
                    out.append(json.loads(line.decode("utf-8", "replace")))
                except ValueError:
                    pass  # a killed writer can leave half a line
    except OSError:
        pass
    return out


S = 1_000_000_000
EXTREME = (0, -1, 1, -S, S, 253402300799 * 10 ** 7, -86400 * 365 * S, (1 << 31) * S, (1 << 32) * S, 9_100_000_000_000_000_000, 315532800 * S)
STEPS = (1_000_000_007, 1, 1_000_003, 1000, S, 1_000_000, 1 << 32, 1 << 31, 1 << 16, 60 * S, 3600 * S, 7200 * S, 86400 * S, (1 << 32) * 1000, 1 << 48, (1 << 24) * S,
         999, 10_000_000, 256, 365 * 86400 * S, 100)


class World:
    lasttime = None
    T0 = 1_500_000_000_000_000_000

    def __init__(self, variant="plain", name=None, subdir="w"):
        self.variant = FORCE or variant
        self.wrap = []
        if self.variant == "valgrind":
            self.wrap = ["valgrind", "-q", "--error-exitcode=99", "--trace-children=no", "--num-callers=25", "--fair-sched=try", "--leak-check=no"]
        self.driver = B.build("plain" if self.variant == "valgrind" else self.variant)
        self.fcc = B.build_c("fcc", "fcc.c")
        with _lock:
            World._n = getattr(World, "_n", 0) + 1
            n = World._n
        self.base = os.path.join(scratch_root(), name or ("%05d" % n))
        os.makedirs(self.base)
        self.dir = os.path.join(self.base, subdir)
        self.proj = os.path.join(self.dir, "proj")
        self.out = os.path.join(self.dir, "out")
        self.bin = os.path.join(self.dir, "bin")
        for d in (self.proj, self.bin):
            os.makedirs(d)
        self.tick = 0
        self.used = {}
        # clocks are wrong now and then: worlds that live before 1970 or far in the future
        self.T0 = {3: -1_000_000_000_000_000_000, 11: 7_000_000_000_000_000_000}.get(n % 16, World.T0)
        for t in TOOLS:
            os.symlink(self.fcc, os.path.join(self.bin, t))
        self.nrun = 0

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    def tool(self, n):
        return os.path.join(self.bin, n)

    # -- files with explicit, distinct modification times --
    def p(self, rel):
        return os.path.join(self.proj, rel)

    def write(self, rel, text, back=False, mtime=None):
        p = rel if rel.startswith("/") else self.p(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        mode = "wb" if isinstance(text, bytes) else "w"
        with open(p, mode) as f:
            f.write(text)
        self.stamp(p, back, mtime)
        return p

    def stamp(self, p, back=False, mtime=None):
        self.tick += 1
        if mtime is None:
            # relative to the file's last time: from a nanosecond to years, in both directions, at the
            # places where a rounded or truncated time stays the same; never the same time twice
            # (of that file: another one may well have it, as after unpacking an archive)
            used = self.used.setdefault(p, [])
            other = self.lasttime
            if self.tick % 4 == 0 and other is not None and other not in used:
                t = other
            elif self.tick % 23 == 0 and EXTREME[self.tick // 23 % len(EXTREME)] not in used:
                t = EXTREME[self.tick // 23 % len(EXTREME)]
            elif used:
                t = used[-1]
                d = STEPS[(self.tick * 7 + len(used)) % len(STEPS)]
                if not -2_100_000_000_000_000_000 < t + (-d if back else d) < 9_000_000_000_000_000_000:
                    d = 1
                t += -d if back else d
                while t in used:
                    t += -1 if back else 1
            else:
                t = self.T0 + (-self.tick if back else self.tick) * STEPS[self.tick % 3]
            mtime = t
            self.lasttime = t
        self.used.setdefault(p, []).append(mtime)
        os.utime(p, ns=(mtime, mtime))

    # -- running --
    def base_args(self, extra=None, build_dir=None, root_dir=None):
        return ["driver", "--root_dir", root_dir or self.proj, "--build_dir", build_dir or self.out, "--loglevel", "info"] + (extra or [])

    def run(self, actions=None, script=None, workers=4, plan=None, env=None, timeout=60, out_dir=None, teardown=False, preload=None,
            cwd=None, driver=None, argv=None, direct=False):
        self.nrun += 1
        RUNS[0] += 1
        rd = os.path.join(self.dir, "run")
        os.makedirs(rd, exist_ok=True)
        for f in ("trace", "obs", "plan", "stdout", "stderr"):
            fp = os.path.join(rd, f)
            if os.path.exists(fp):
                os.unlink(fp)
        if argv is not None:
            script = {"argv": argv}
        elif script is None:
            script = {"argv": self.base_args(), "actions": actions}
            if direct:
                script = {"direct": {"root": self.proj, "build": self.out}, "actions": actions}
            if teardown:
                script["teardown"] = True
        if FORCE == "asan" and "actions" in script:
            script = dict(script, teardown=True)    # objects the script owns are destroyed before leaks are counted
        sp = os.path.join(rd, "script.json")
        with open(sp, "w") as f:
            json.dump(script, f)
        e = {"PATH": self.bin + ":/usr/bin:/bin", "HOME": self.dir, "LANG": "C.UTF-8", "BCC_TRACE": os.path.join(rd, "trace"),
             "BCC_OBS": os.path.join(rd, "obs"), "BCC_WORKERS": str(workers)}
        if plan:
            with open(os.path.join(rd, "plan"), "w") as f:
                f.write("".join("%s\t%s\n" % (m, a) for m, a in plan))
            e["BCC_PLAN"] = os.path.join(rd, "plan")
        if self.variant == "plain":
            e["BCC_AS_LIMIT"] = str(3 << 30)
        if self.variant == "asan":
            e["ASAN_OPTIONS"] = "detect_leaks=1:exitcode=101:abort_on_error=0:hard_rss_limit_mb=4000:allocator_may_return_null=1:detect_stack_use_after_return=1"
            e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=102"
            e["LSAN_OPTIONS"] = "exitcode=103"
        if self.variant == "tsan":
            e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4:atexit_sleep_ms=0:io_sync=0"
        if preload:
            e["LD_PRELOAD"] = preload
        if env:
            e.update(env)
        r = Run()
        r.script = script
        pr, pw = os.pipe()
        with open(os.path.join(rd, "stdout"), "wb") as so, open(os.path.join(rd, "stderr"), "wb") as se:
            p = subprocess.Popen(self.wrap + (argv or [driver or self.driver, sp]), cwd=cwd or self.dir, env=e, stdin=subprocess.DEVNULL, stdout=so, stderr=se,
                                 pass_fds=(pw,), start_new_session=True)
        os.close(pw)
        try:
            r.rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            r.timeout = True
            TIMEOUTS[0] += 1
            self._killtree(p)
            r.rc = p.wait()
        # wait until every descendant is gone (its copy of the pipe is closed)
        end = time.time() + 20
        while True:
            rl, _, _ = select.select([pr], [], [], max(0.0, end - time.time()))
            if not rl:
                r.leftover = True
                break
            if os.read(pr, 1) == b"":
                break
        os.close(pr)
        r.events = read_jsonl(os.path.join(rd, "trace"))
        r.obs = read_jsonl(os.path.join(rd, "obs"))
        EVENTS[0] += len(r.events) + len(r.obs)
        r.preload = preload
        for k, n in (("out", "stdout"), ("err", "stderr")):
            with open(os.path.join(rd, n), "rb") as f:
                setattr(r, k, f.read().decode("utf-8", "replace"))
        if ON_RUN is not None:
            ON_RUN(self, r)
        return r

    def _killtree(self, p):
        # descendants: tools run in their own process groups, find them by parent links
        try:
            kids = {}
            for d in os.listdir("/proc"):
                if d.isdigit():
                    try:
                        st = open("/proc/%s/stat" % d).read()
                        pp = int(st.rsplit(")", 1)[1].split()[1])
                        kids.setdefault(pp, []).append(int(d))
                    except (OSError, IndexError, ValueError):
                        pass
            todo, alln = [p.pid], []
            while todo:
                x = todo.pop()
                alln.append(x)
                todo += kids.get(x, [])
            for x in alln:
                try:
                    os.kill(x, signal.SIGKILL)
                except OSError:
                    pass
        except Exception:
            p.kill()

    # -- what the build left behind --
    def snapshot(self, d=None, extra=()):
        """Outputs in the build directory: tool fingerprints and generator outputs (state files are not compared)."""
        d = d or self.out
        res = {}
        for root, _, files in os.walk(d):
            for f in files:
                p = os.path.join(root, f)
                try:
                    with open(p, "rb") as fh:
                        b = fh.read()
                except OSError:
                    continue
                rel = os.path.relpath(p, d)
                if b.startswith(b"FCC ") or b.startswith(b"GEN ") or rel in extra or f.endswith(".out"):
                    res[rel] = b
        return res

    def clean_build(self, actions=None, script=None, workers=4, extra=(), before=None, **kw):
        """The reference: the same script into an empty build directory at the same path."""
        saved = self.out + ".saved"
        had = os.path.exists(self.out)
        if had:
            os.rename(self.out, saved)
        try:
            r = self.run(actions, script=script, workers=workers, **kw)
            snap = self.snapshot(extra=extra)
        finally:
            shutil.rmtree(self.out, ignore_errors=True)
            if had:
                os.rename(saved, self.out)
        return r, snap


def diff_snap(clean, inc):
    """Files of the clean build that the incremental one has not, or has with other content."""
    bad = []
    for k in sorted(clean):
        if k not in inc:
            bad.append((k, "missing"))
        elif inc[k] != clean[k]:
            a = clean[k].decode("utf-8", "replace").splitlines()
            b = inc[k].decode("utf-8", "replace").splitlines()
            d = [("-" + x) for x in a if x not in b][:6] + [("+" + x) for x in b if x not in a][:6]
            bad.append((k, d))
    return bad
