/* fcc: the fake tool started by the builds under observation (as, gcc, g++, ar, ld, gen, tst by argv[0]).
 *
 *  - appends {"ev":"start"...} / {"ev":"end"...} JSON lines to $BCC_TRACE (O_APPEND, one write each)
 *  - reads its inputs as a compiler does (recursive #include "x" through the including directory and -I,
 *    -include with .gch preferred) and writes a deterministic fingerprint: argv plus path and content
 *    hash of everything read
 *  - obeys $BCC_PLAN: lines "<match>\t<action>[,<action>...]"; match: substring of the joined argv (joined by \x1f).
 *    actions: fail=N (no output), failw=N (output then status N), partial=N (half an output then status N),
 *    sig=N, sigw=N (die by a signal before/after output), sleep=MS (before), sleepa=MS (after output), noout (status 0, no output),
 *    kill / killa (SIGKILL the build process before/after output), killall / killalla (also kills every other tool),
 *    killp (partial output then kill build), touch=PATH (append to PATH before reading), touchr=PATH (append to PATH after reading inputs)
 *    mk=PATH (create PATH at the start), waitf=PATH (wait up to 30 s for PATH, else status 97)
 *    once=FILE: the line only applies if FILE can be created exclusively.
 *  - $FCC_EXE: linked outputs start with "#!$FCC_EXE" so that running one starts that tool
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

static char *buf; static size_t blen, bcap;
static void put(const char *s, size_t n) {
  if (blen + n + 1 > bcap) { bcap = (blen + n + 1) * 2; buf = realloc(buf, bcap); }
  memcpy(buf + blen, s, n); blen += n; buf[blen] = 0;
}
static void puts_(const char *s) { put(s, strlen(s)); }
static void jstr(const char *s) {
  puts_("\"");
  for (; *s; s++) {
    unsigned char c = (unsigned char)*s; char t[8];
    if (c == '"' || c == '\\') { t[0] = '\\'; t[1] = c; put(t, 2); }
    else if (c < 0x20 || c == 0x7f) { snprintf(t, sizeof t, "\\u%04x", c); puts_(t); }
    else put((char *)&c, 1);
  }
  puts_("\"");
}
static long long now(void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000000000LL + ts.tv_nsec; }
/* answer of a compiler query; $FCC_SPLIT: in several writes with pauses */
static void say(const char *t) {
  if (!getenv("FCC_SPLIT")) { printf("%s\n", t); fflush(stdout); return; }
  size_t n = strlen(t), h = n / 2; struct timespec ts = {0, 15000000};
  if (write(1, t, h) < 0) return; nanosleep(&ts, NULL); if (write(1, t + h, n - h) < 0) return; nanosleep(&ts, NULL); if (write(1, "\n", 1) < 0) return;
}
static int g_argc; static char **g_argv;
static void trace(const char *ev, int rc) {
  const char *tf = getenv("BCC_TRACE"); if (!tf) return;
  int fd = open(tf, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644); if (fd < 0) return;
  char t[256]; char cwd[4096];
  blen = 0;
  struct timespec wt; clock_gettime(CLOCK_REALTIME, &wt);
  snprintf(t, sizeof t, "{\"ev\":\"%s\",\"t\":%lld,\"w\":%lld,\"pid\":%d,\"rc\":%d,\"src\":\"fcc\"", ev, now(), wt.tv_sec * 1000000000LL + wt.tv_nsec, getpid(), rc); puts_(t);
  if (!strcmp(ev, "start")) {
    puts_(",\"argv\":[");
    for (int i = 0; i < g_argc; i++) { if (i) puts_(","); jstr(g_argv[i]); }
    puts_("],\"cwd\":"); jstr(getcwd(cwd, sizeof cwd) ? cwd : "?");
  }
  puts_("}\n");
  ssize_t r = write(fd, buf, blen); (void)r; close(fd);
}
static uint64_t fnv(const char *p, size_t n) { uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 1099511628211ULL; } return h; }
static char *slurp(const char *path, size_t *n) {
  int fd = open(path, O_RDONLY | O_CLOEXEC); if (fd < 0) return NULL;
  struct stat st; if (fstat(fd, &st) || S_ISDIR(st.st_mode)) { close(fd); return NULL; }
  size_t cap = st.st_size + 4096, len = 0; char *b = malloc(cap + 1);
  for (;;) { ssize_t r = read(fd, b + len, cap - len); if (r <= 0) break; len += r; if (len == cap) { cap *= 2; b = realloc(b, cap + 1); } }
  b[len] = 0; close(fd); *n = len; return b;
}
static char *out; static size_t olen, ocap;
static void oput(const char *s) { size_t n = strlen(s); if (olen + n + 1 > ocap) { ocap = (olen + n + 1) * 2; out = realloc(out, ocap); } memcpy(out + olen, s, n + 1); olen += n; }
static void ohash(const char *kind, const char *path, const char *b, size_t n) { char t[64]; oput(kind); oput(" "); oput(path); snprintf(t, sizeof t, " %016llx %zu\n", (unsigned long long)fnv(b, n), n); oput(t); }
static char *seen[4096]; static int nseen;
static char *incdir[4096]; static int ninc;
static int missing;
static int readfile(const char *kind, const char *path, int follow);
static void scan(const char *path, const char *b) {
  for (const char *p = b; (p = strstr(p, "#include \"")); ) {
    p += 10; const char *e = strchr(p, '"'); if (!e) break;
    char name[4096]; size_t n = e - p; if (n >= sizeof name) { p = e; continue; } memcpy(name, p, n); name[n] = 0; p = e + 1;
    char cand[8192]; int ok = 0;
    if (name[0] == '/') ok = readfile("inc", name, 1);
    else {
      const char *sl = strrchr(path, '/');
      snprintf(cand, sizeof cand, "%.*s/%s", sl ? (int)(sl - path) : 1, sl ? path : ".", name);
      ok = readfile("inc", cand, 1);
      for (int i = 0; !ok && i < ninc; i++) { snprintf(cand, sizeof cand, "%s/%s", incdir[i], name); ok = readfile("inc", cand, 1); }
    }
    if (!ok) { oput("noinc "); oput(name); oput("\n"); }
  }
}
static int readfile(const char *kind, const char *path, int follow) {
  size_t n; char *b = slurp(path, &n); if (!b) return 0;
  char *rp = realpath(path, NULL);
  for (int i = 0; i < nseen; i++) if (rp && !strcmp(seen[i], rp)) { free(b); return 1; }
  if (nseen < 4096) seen[nseen++] = rp ? rp : strdup(path);
  ohash(kind, path, b, n);
  if (follow) scan(path, b);
  free(b); return 1;
}
static void must(const char *kind, const char *path, int follow) { if (!readfile(kind, path, follow)) { missing = 1; fprintf(stderr, "fcc: cannot read %s\n", path); } }
static int is_src(const char *a) { const char *d = strrchr(a, '.'); return d && (!strcmp(d, ".o") || !strcmp(d, ".obj") || !strcmp(d, ".a") || !strcmp(d, ".so") || !strcmp(d, ".lib") || !strcmp(d, ".dll")); }
struct act { char name[16]; char arg[4096]; };
static struct act acts[64]; static int nacts;
static struct act *act(const char *n) { for (int i = 0; i < nacts; i++) if (!strcmp(acts[i].name, n)) return &acts[i]; return NULL; }
static void killbuild(int all) {
  const char *p = getenv("BCC_DRIVER_PID"); if (!p) return;
  pid_t d = atoi(p); if (d > 1) kill(d, SIGKILL);
  if (all) { /* every other tool of this build: pids with a start event */
    const char *tf = getenv("BCC_TRACE"); size_t n; char *b = tf ? slurp(tf, &n) : NULL;
    for (char *q = b; q && (q = strstr(q, "\"pid\":")); ) { q += 6; pid_t t = atoi(q); if (t > 1 && t != getpid()) {
      char cm[64], link[4096]; snprintf(cm, sizeof cm, "/proc/%d/exe", t); ssize_t r = readlink(cm, link, sizeof link - 1), r2; char me[4096];
      r2 = readlink("/proc/self/exe", me, sizeof me - 1);
      if (r > 0 && r == r2 && !memcmp(link, me, r)) kill(t, SIGKILL); } }
  }
}
static void msleep(const char *a) { long ms = atol(a); struct timespec ts = {ms / 1000, (ms % 1000) * 1000000}; while (nanosleep(&ts, &ts) && errno == EINTR); }
static void dotouch(const char *p) { int fd = open(p, O_WRONLY | O_APPEND | O_CREAT, 0644); if (fd >= 0) { char t[64]; int n = snprintf(t, sizeof t, "// touched %lld\n", now()); ssize_t r = write(fd, t, n); (void)r; close(fd); } }
static void die(int rc) { trace("end", rc); exit(rc); }
static void bysig(int s) { trace("end", 1000 + s); signal(s, SIG_DFL); raise(s); exit(99); }
static void mkparent(const char *p) { (void)p; }
static int wr(const char *path, const char *b, size_t n) {
  /* two writes within one tick of the file system clock would look like one: keep modification times distinct */
  struct stat o, s; int had = stat(path, &o) == 0;
  int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0755); if (fd < 0) { fprintf(stderr, "fcc: cannot write %s: %s\n", path, strerror(errno)); return -1; }
  while (n) { ssize_t r = write(fd, b, n); if (r < 0) { close(fd); return -1; } b += r; n -= r; }
  if (had && fstat(fd, &s) == 0 && s.st_mtim.tv_sec == o.st_mtim.tv_sec && s.st_mtim.tv_nsec <= o.st_mtim.tv_nsec) {
    struct timespec ts[2]; ts[0] = s.st_atim; ts[1] = o.st_mtim; if (++ts[1].tv_nsec > 999999999) { ts[1].tv_nsec = 0; ts[1].tv_sec++; } futimens(fd, ts); }
  close(fd); return 0;
}
int main(int argc, char **argv) {
  g_argc = argc; g_argv = argv;
  const char *base = strrchr(argv[0], '/'); base = base ? base + 1 : argv[0];
  trace("start", -1);
  /* plan */
  const char *pf = getenv("BCC_PLAN");
  if (pf) {
    size_t n; char *b = slurp(pf, &n);
    if (b) {
      size_t jl = 0; for (int i = 0; i < argc; i++) jl += strlen(argv[i]) + 1;
      char *j = malloc(jl + 2); size_t o = 0; for (int i = 0; i < argc; i++) { size_t k = strlen(argv[i]); memcpy(j + o, argv[i], k); o += k; j[o++] = '\x1f'; } j[o] = 0;
      for (char *sv = NULL, *l = strtok_r(b, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) {
        char *tab = strchr(l, '\t'); if (!tab) continue; *tab = 0;
        if (*l && !strstr(j, l)) continue;
        int s = nacts;
        for (char *s2 = NULL, *a = strtok_r(tab + 1, ",", &s2); a && nacts < 64; a = strtok_r(NULL, ",", &s2)) {
          char *eq = strchr(a, '='); if (eq) *eq++ = 0;
          snprintf(acts[nacts].name, sizeof acts[0].name, "%s", a); snprintf(acts[nacts].arg, sizeof acts[0].arg, "%s", eq ? eq : ""); nacts++;
        }
        for (int i = s; i < nacts; i++) if (!strcmp(acts[i].name, "once")) { int fd = open(acts[i].arg, O_CREAT | O_EXCL | O_WRONLY, 0644); if (fd < 0) { nacts = s; break; } close(fd); }
      }
    }
  }
  struct act *a;
  if ((a = act("mk"))) { int fd = open(a->arg, O_CREAT | O_WRONLY, 0644); if (fd >= 0) close(fd); }
  if ((a = act("waitf"))) { struct stat ws; for (int i = 0; i < 6000 && stat(a->arg, &ws); i++) msleep("5"); if (stat(a->arg, &ws)) die(97); }
  if ((a = act("sleep"))) msleep(a->arg);
  if ((a = act("touch"))) dotouch(a->arg);
  if (act("kill")) { killbuild(0); }
  if (act("killall")) { killbuild(1); raise(SIGKILL); }
  if ((a = act("fail"))) die(atoi(a->arg));
  if ((a = act("sig"))) bysig(atoi(a->arg));

  if (argc == 2 && !strcmp(argv[1], "-dumpversion")) { const char *e = getenv("FCC_VERSION"); say(e ? e : "11.22.33"); die(getenv("FCC_DUMP_RC") ? atoi(getenv("FCC_DUMP_RC")) : 0); }
  if (argc == 2 && !strcmp(argv[1], "-dumpmachine")) { const char *e = getenv("FCC_MACHINE"); say(e ? e : "fake-arch-os"); die(getenv("FCC_DUMP_RC") ? atoi(getenv("FCC_DUMP_RC")) : 0); }

  oput("FCC "); oput(base); oput("\n");
  /* the order of object files on a link line is not specified: fingerprint them in sorted order */
  char **sv = malloc(sizeof(char *) * (argc + 1)); memcpy(sv, argv, sizeof(char *) * (argc + 1));
  { int pos[4096], np = 0; int linkish = 1;
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "-c") || !strcmp(argv[i], "/c")) linkish = 0;
    if (strcmp(base, "gen") && strcmp(base, "tst") && linkish) {
      for (int i = 1; i < argc && np < 4096; i++) { size_t l = strlen(argv[i]); if (argv[i][0] == '/' && strcmp(argv[i - 1], "-o") && strcmp(argv[i - 1], "rcs") && ((l > 2 && !strcmp(argv[i] + l - 2, ".o")) || (l > 4 && !strcmp(argv[i] + l - 4, ".obj")))) pos[np++] = i; }
      for (int a = 0; a < np; a++) for (int b = a + 1; b < np; b++) if (strcmp(sv[pos[a]], sv[pos[b]]) > 0) { char *t = sv[pos[a]]; sv[pos[a]] = sv[pos[b]]; sv[pos[b]] = t; } } }
  argv = sv;
  for (int i = 1; i < argc; i++) { oput("arg "); oput(argv[i]); oput("\n"); }
  const char *outs[256]; int nout = 0, linked = 0;
  if (!strcmp(base, "tst")) {
    /* tst [--out N TEXT] [--err N TEXT] [--rc N] [--mix N] [args...] : registered-test and Execute probe */
    int rc = 0;
    for (int i = 1; i < argc; i++) {
      if (!strcmp(argv[i], "--rc") && i + 1 < argc) rc = atoi(argv[++i]);
      else if (!strcmp(argv[i], "--sig") && i + 1 < argc) { fflush(stdout); bysig(atoi(argv[++i])); }
      else if (!strcmp(argv[i], "--ms") && i + 1 < argc) msleep(argv[++i]);
      else if ((!strcmp(argv[i], "--out") || !strcmp(argv[i], "--err")) && i + 2 < argc) {
        int fd = argv[i][2] == 'o' ? 1 : 2; long k = atol(argv[i + 1]); const char *t = argv[i + 2]; size_t n = strlen(t); i += 2;
        for (long q = 0; q < k; q++) { const char *b = t; size_t m = n; while (m) { ssize_t r = write(fd, b, m); if (r < 0) { if (errno == EINTR || errno == EAGAIN) continue; break; } b += r; m -= r; } }
      }
    }
    die(rc);
  }
  if (!strcmp(base, "gen")) {
    /* gen [-t TEXT] -i in... -o out... */
    int mode = 0;
    for (int i = 1; i < argc; i++) {
      if (!strcmp(argv[i], "-i")) mode = 1; else if (!strcmp(argv[i], "-o")) mode = 2; else if (!strcmp(argv[i], "-t")) { i++; mode = 0; }
      else if (mode == 1) must("in", argv[i], 0);
      else if (mode == 2 && nout < 256) outs[nout++] = argv[i];
    }
  } else if (argc > 3 && !strcmp(argv[1], "rcs")) {
    outs[nout++] = argv[2];
    for (int i = 3; i < argc; i++) must("obj", argv[i], 0);
  } else {
    int compile = 0; const char *input = NULL, *pchinc = NULL, *pchuse = NULL;
    for (int i = 1; i < argc; i++) {
      char *s = argv[i];
      if (!strcmp(s, "-c") || !strcmp(s, "/c")) { compile = 1; if (i + 1 < argc) input = argv[++i]; }
      else if (!strcmp(s, "-o") && i + 1 < argc) outs[nout++] = argv[++i];
      else if (!strcmp(s, "-include") && i + 1 < argc) pchinc = argv[++i];
      else if (!strncmp(s, "/Fo", 3)) outs[nout++] = s + 3;
      else if (!strncmp(s, "/OUT:", 5)) outs[nout++] = s + 5;
      else if (!strncmp(s, "/IMPLIB:", 8)) outs[nout++] = s + 8;
      else if (!strncmp(s, "/Yu", 3)) pchuse = s;
      else if (!strncmp(s, "-I", 2) || !strncmp(s, "/I", 2)) { if (s[2] && ninc < 4096) incdir[ninc++] = s + 2; }
    }
    if (!compile) for (int i = 1; i < argc; i++) if (!strncmp(argv[i], "-T/", 3)) readfile("script", argv[i] + 2, 0);
    int yc = 0; const char *fi = NULL, *fp = NULL;
    for (int i = 1; i < argc; i++) { if (!strncmp(argv[i], "/Yc", 3)) yc = 1; if (!strncmp(argv[i], "/FI", 3)) fi = argv[i] + 3; if (!strncmp(argv[i], "/Fp", 3)) fp = argv[i] + 3; }
    if (yc && fp) { outs[nout++] = fp; if (fi) must("pch", fi, 1); }
    if (pchuse && fp) must("usepch", fp, 0);
    if (pchinc) { char g[8192]; snprintf(g, sizeof g, "%s.gch", pchinc); if (!readfile("usepch", g, 0)) must("pchsrc", pchinc, 1); }
    if (compile) { if (input) must("src", input, 1); else missing = 1; }
    else for (int i = 1; i < argc; i++) if (argv[i][0] != '-' && is_src(argv[i]) && strncmp(argv[i], "/OUT:", 5) && strncmp(argv[i], "/IMPLIB:", 8)) { int o = 0; for (int k = 0; k < nout; k++) if (outs[k] == argv[i]) o = 1; if (!o) must("obj", argv[i], 0); }
    linked = !compile;
    if (!nout) { fprintf(stderr, "fcc: no output in command\n"); die(3); }
  }
  if ((a = act("touchr"))) dotouch(a->arg);
  if (missing) die(2);
  if (act("noout")) die(0);
  if (linked && getenv("FCC_EXE")) { char *o = out; out = malloc(olen + 8192); olen = sprintf(out, "#!%s\n%s", getenv("FCC_EXE"), o); }
  size_t n = olen; int rc = 0;
  if ((a = act("partial")) || act("killp")) n = olen / 2;
  for (int i = 0; i < nout; i++) if (wr(outs[i], out, n)) die(4);
  if (act("killp")) { killbuild(1); raise(SIGKILL); }
  if (a) die(atoi(a->arg));
  if ((a = act("sleepa"))) msleep(a->arg);
  if ((a = act("failw"))) rc = atoi(a->arg);
  if ((a = act("sigw"))) bysig(atoi(a->arg));
  if (act("killa")) { killbuild(0); }
  if (act("killalla")) { killbuild(1); raise(SIGKILL); }
  die(rc);
}
