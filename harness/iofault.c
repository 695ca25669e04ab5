/* LD_PRELOAD interposer: numbers the file operations a process makes under $IOF_DIR and, at operation $IOF_AT,
 *   IOF_MODE=kill   SIGKILLs the process before the operation
 *   IOF_MODE=killa  performs the operation, then SIGKILLs
 *   IOF_MODE=half   (writes) performs half of the write, then SIGKILLs
 *   IOF_MODE=err    makes the operation fail with errno $IOF_ERRNO (and every later write/flush of the same file)
 *   IOF_MODE=short  (writes) writes half and reports that, then the next write on that file fails
 * Every operation is appended to $IOF_LOG as "<n> <op> <path>". Only the process whose pid is $BCC_DRIVER_PID or, when unset at start,
 * the first process counts: the tools clear the variable by not being preloaded (LD_PRELOAD is removed from environ at load). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <pthread.h>

static char dir[4096]; static int at = -1, err = EIO; static char mode[16]; static char logf_[4096];
static int counter; static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int badfd = -1;
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static FILE *(*r_fopen64)(const char *, const char *);
static FILE *(*r_fopen)(const char *, const char *);
static int (*r_unlink)(const char *); static int (*r_remove)(const char *); static int (*r_mkdir)(const char *, mode_t);
static int (*r_rename)(const char *, const char *); static ssize_t (*r_read)(int, void *, size_t);
static int (*r_unlinkat)(int, const char *, int);

__attribute__((constructor)) static void init(void) {
  r_write = dlsym(RTLD_NEXT, "write"); r_writev = dlsym(RTLD_NEXT, "writev"); r_fopen64 = dlsym(RTLD_NEXT, "fopen64"); r_fopen = dlsym(RTLD_NEXT, "fopen");
  r_unlink = dlsym(RTLD_NEXT, "unlink"); r_remove = dlsym(RTLD_NEXT, "remove"); r_mkdir = dlsym(RTLD_NEXT, "mkdir"); r_rename = dlsym(RTLD_NEXT, "rename");
  r_read = dlsym(RTLD_NEXT, "read"); r_unlinkat = dlsym(RTLD_NEXT, "unlinkat");
  const char *e;
  if ((e = getenv("IOF_DIR"))) snprintf(dir, sizeof dir, "%s", e);
  if ((e = getenv("IOF_AT"))) at = atoi(e);
  if ((e = getenv("IOF_ERRNO"))) err = atoi(e);
  if ((e = getenv("IOF_MODE"))) snprintf(mode, sizeof mode, "%s", e);
  if ((e = getenv("IOF_LOG"))) snprintf(logf_, sizeof logf_, "%s", e);
  unsetenv("LD_PRELOAD");
}
static int under(const char *p) { return dir[0] && p && p[0] == '/' && !strncmp(p, dir, strlen(dir)); }
static int fdpath(int fd, char *b, size_t n) { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t r = readlink(l, b, n - 1); if (r < 0) return 0; b[r] = 0; return 1; }
/* 0: proceed, 1: hit */
static int hit(const char *op, const char *path) {
  pthread_mutex_lock(&mu);
  int n = counter++;
  if (logf_[0]) { char b[8300]; int k = snprintf(b, sizeof b, "%d %s %s\n", n, op, path); int fd = open(logf_, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644); if (fd >= 0) { r_write(fd, b, k); close(fd); } }
  int h = n == at;
  if (h && !strcmp(mode, "kill")) kill(getpid(), SIGKILL);
  pthread_mutex_unlock(&mu);
  return h;
}
static void after(int h) { if (h && (!strcmp(mode, "killa") || !strcmp(mode, "half"))) kill(getpid(), SIGKILL); }
static int fails(int h) { if (h && !strcmp(mode, "err")) { errno = err; return 1; } return 0; }

static FILE *do_fopen(FILE *(*f)(const char *, const char *), const char *p, const char *m) {
  if (!under(p)) return f(p, m);
  int h = hit(strpbrk(m, "wa+") ? "openw" : "openr", p);
  if (fails(h)) return NULL;
  FILE *r = f(p, m); after(h); return r;
}
FILE *fopen64(const char *p, const char *m) { return do_fopen(r_fopen64, p, m); }
FILE *fopen(const char *p, const char *m) { return do_fopen(r_fopen, p, m); }
ssize_t write(int fd, const void *b, size_t n) {
  char p[4096];
  if (!dir[0] || !fdpath(fd, p, sizeof p) || !under(p)) return r_write(fd, b, n);
  if (fd == badfd) { errno = err; return -1; }
  int h = hit("write", p);
  if (fails(h)) { badfd = fd; return -1; }
  if (h && !strcmp(mode, "half")) { r_write(fd, b, n / 2); after(h); }
  if (h && !strcmp(mode, "short")) { badfd = fd; return r_write(fd, b, n / 2 ? n / 2 : 1); }
  ssize_t r = r_write(fd, b, n); after(h); return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  char p[4096];
  if (!dir[0] || !fdpath(fd, p, sizeof p) || !under(p)) return r_writev(fd, v, c);
  if (fd == badfd) { errno = err; return -1; }
  int h = hit("write", p);
  if (fails(h)) { badfd = fd; return -1; }
  if (h && (!strcmp(mode, "half") || !strcmp(mode, "short"))) {
    size_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len; size_t k = t / 2 ? t / 2 : 1, d = 0;
    for (int i = 0; i < c && d < k; i++) { size_t m = v[i].iov_len < k - d ? v[i].iov_len : k - d; if (m) r_write(fd, v[i].iov_base, m); d += m; }
    after(h); badfd = fd; return d;
  }
  ssize_t r = r_writev(fd, v, c); after(h); return r;
}
ssize_t read(int fd, void *b, size_t n) {
  char p[4096];
  if (!dir[0] || !fdpath(fd, p, sizeof p) || !under(p)) return r_read(fd, b, n);
  int h = hit("read", p);
  if (fails(h)) return -1;
  if (h && !strcmp(mode, "short")) return r_read(fd, b, n / 2 ? n / 2 : 1); /* fewer bytes than asked for, no error */
  ssize_t r = r_read(fd, b, n); after(h); return r;
}
int unlink(const char *p) { if (!under(p)) return r_unlink(p); int h = hit("unlink", p); if (fails(h)) return -1; int r = r_unlink(p); after(h); return r; }
int remove(const char *p) { if (!under(p)) return r_remove(p); int h = hit("unlink", p); if (fails(h)) return -1; int r = r_remove(p); after(h); return r; }
int unlinkat(int d, const char *p, int f) { if (!under(p)) return r_unlinkat(d, p, f); int h = hit("unlink", p); if (fails(h)) return -1; int r = r_unlinkat(d, p, f); after(h); return r; }
int mkdir(const char *p, mode_t m) { if (!under(p)) return r_mkdir(p, m); int h = hit("mkdir", p); if (fails(h)) return -1; int r = r_mkdir(p, m); after(h); return r; }
int rename(const char *a, const char *b) { if (!under(a) && !under(b)) return r_rename(a, b); int h = hit("rename", b); if (fails(h)) return -1; int r = r_rename(a, b); after(h); return r; }
