/* LD_PRELOAD seam between the CPython process that runs crazy-complete and
 * the operating system.  Disarmed until shim_arm() is called in the forked
 * child that executes one simulated run.  When armed every libc file operation
 * on a path below the run's world directory (and on fd 0/1/2) is an event: it
 * is logged, and the plan decides whether a fault happens there.
 *
 * Plan grammar, one rule per line, tab separated:
 *    OP  PATH  NTH  ACTION  [ARG]  [ARG2]
 * OP is open|read|write|close|unlink|rename|mkdir|fork|any; PATH is relative to the world
 * ('*' = any); NTH counts matching events from 1 (0 = every one).
 * ACTION: errno N | short N | limit N(bytes written to path, then ENOSPC)
 *         | jump SECONDS (the wall clock is off by that much from here on; OP clock, NTH = n-th reading, 0 = always)
 *         | kill | int | replace SRC DST (before the op) | eintr | remove DST
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define MAXR 64
#define MAXFD 1024
struct rule { char op[12]; char path[256]; long nth; char act[12]; char a1[300]; char a2[300]; long seen; long fired; long bytes; };
static struct rule R[MAXR];
static int nr, armed, logfd = -1;
static char W[512], cwd_[512];      /* world dir, cwd at arm time */
static size_t Wl;
static pid_t mypid;
static long opno;
static char *fdname[MAXFD];
static const char *redir[] = {"/usr/share/zsh", "/usr/share/fish", "/usr/share/bash-completion", "/usr/local/share", NULL};

static void lg(const char *fmt, ...) {
  if (logfd < 0) return;
  char b[1024]; va_list ap; va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  syscall(SYS_write, logfd, b, n);
}
static int live(void) { return armed && getpid() == mypid; }

/* absolute, lexically cleaned */
static void absn(const char *p, char *o, size_t n) {
  char t[1200];
  if (p[0] == '/') snprintf(t, sizeof t, "%s", p);
  else snprintf(t, sizeof t, "%s/%s", cwd_, p);
  char *parts[200]; int k = 0; char *save, *q;
  for (q = strtok_r(t, "/", &save); q; q = strtok_r(NULL, "/", &save)) {
    if (!strcmp(q, ".")) continue;
    if (!strcmp(q, "..")) { if (k) k--; continue; }
    if (k < 200) parts[k++] = q;
  }
  size_t l = 0; o[0] = 0;
  for (int i = 0; i < k; i++) l += snprintf(o + l, l < n ? n - l : 0, "/%s", parts[i]);
  if (!k) snprintf(o, n, "/");
}
static const char *rel(const char *abs) {
  if (!strncmp(abs, W, Wl) && (abs[Wl] == '/' || !abs[Wl])) return abs[Wl] ? abs + Wl + 1 : ".";
  return NULL;
}
/* Rewrites *p for containment; returns the world-relative name or NULL when untracked. */
static const char *track(const char *p, int writing, char *buf, size_t n, const char **real) {
  char a[1200];
  *real = p;
  if (!p) return NULL;
  absn(p, a, sizeof a);
  const char *r = rel(a);
  if (r) { snprintf(buf, n, "%s", r); return buf; }
  if (!strncmp(a, "/dev/", 5) || !strncmp(a, "/proc/", 6)) {
    if (!strcmp(a, "/dev/stdin")) { snprintf(buf, n, "<stdin>"); return buf; }
    return NULL;
  }
  int m = writing;
  for (int i = 0; !m && redir[i]; i++) if (!strncmp(a, redir[i], strlen(redir[i]))) m = 1;
  if (!m) return NULL;
  snprintf(buf, n, "%s/root%s", W, a);
  *real = strdup(buf);
  memmove(buf, buf + Wl + 1, strlen(buf + Wl + 1) + 1);
  return buf;
}
static void do_replace(const char *src, const char *dst) {
  char a[900], b[900];
  snprintf(a, sizeof a, "%s/%s", W, src); snprintf(b, sizeof b, "%s/%s", W, dst);
  syscall(SYS_rename, a, b);
}
/* returns 0 to go on, else the errno to fail with; *lim = max bytes for a short op */
static int event(const char *op, const char *name, long want, long *lim) {
  if (!live() || !name) return 0;
  opno++;
  int err = 0; char did[96] = "";
#define DID(x) do { if (did[0]) strncat(did, "+", sizeof did - strlen(did) - 1); strncat(did, x, sizeof did - strlen(did) - 1); } while (0)
  char extra[64] = "";
  for (int i = 0; i < nr && !err; i++) {
    struct rule *r = &R[i];
    if (strcmp(r->op, "any") && strcmp(r->op, op)) continue;
    if (strcmp(r->path, "*") && strcmp(r->path, name)) continue;
    r->seen++;
    if (!strcmp(r->act, "limit")) {
      long cap = atol(r->a1);
      if (r->bytes + want > cap) {
        long left = cap - r->bytes;
        r->fired++;
        if (left <= 0) { err = ENOSPC; DID("limit"); }
        else { if (lim) *lim = left; r->bytes += left; DID("limitshort"); }
      } else r->bytes += want;
      continue;
    }
    if (r->nth && r->seen != r->nth) continue;
    r->fired++;
    DID(r->act);
    if (!strcmp(r->act, "errno")) err = atoi(r->a1);
    else if (!strcmp(r->act, "eintr")) err = EINTR;
    else if (!strcmp(r->act, "short")) { long v = atol(r->a1); if (lim && v < want) *lim = v > 0 ? v : 1; }
    else if (!strcmp(r->act, "kill")) { lg("%ld\t%s\t%s\t%ld\tkill\n", opno, op, name, want); kill(getpid(), SIGKILL); }
    else if (!strcmp(r->act, "int")) raise(SIGINT);
    else if (!strcmp(r->act, "term")) { lg("%ld\t%s\t%s\t%ld\tterm\n", opno, op, name, want); signal(SIGTERM, SIG_DFL); kill(getpid(), SIGTERM); }
    else if (!strcmp(r->act, "replace")) do_replace(r->a1, r->a2);
    else if (!strcmp(r->act, "remove")) { char b[900]; snprintf(b, sizeof b, "%s/%s", W, r->a1); syscall(SYS_unlink, b); }
  }
  lg("%ld\t%s\t%s\t%ld\t%s%s\n", opno, op, name, want, did, extra);
  return err;
}

void shim_arm(const char *world, const char *cwd, const char *plan, int lfd) {
  snprintf(W, sizeof W, "%s", world); Wl = strlen(W);
  snprintf(cwd_, sizeof cwd_, "%s", cwd);
  logfd = lfd; mypid = getpid(); nr = 0; opno = 0;
  char *p = strdup(plan), *sv, *l;
  for (l = strtok_r(p, "\n", &sv); l && nr < MAXR; l = strtok_r(NULL, "\n", &sv)) {
    char *f[6] = {0}; int k = 0; char *c = l;
    while (k < 6) { f[k++] = c; c = strchr(c, '\t'); if (!c) break; *c++ = 0; }
    if (k < 4) continue;
    struct rule *r = &R[nr++]; memset(r, 0, sizeof *r);
    snprintf(r->op, sizeof r->op, "%s", f[0]); snprintf(r->path, sizeof r->path, "%s", f[1]);
    r->nth = atol(f[2]); snprintf(r->act, sizeof r->act, "%s", f[3]);
    if (k > 4) snprintf(r->a1, sizeof r->a1, "%s", f[4]);
    if (k > 5) snprintf(r->a2, sizeof r->a2, "%s", f[5]);
  }
  fdname[0] = "<stdin>"; fdname[1] = "<stdout>"; fdname[2] = "<stderr>";
  armed = 1;
}
long shim_fired(int i) { return i < nr ? R[i].fired : -1; }
void shim_disarm(void) { armed = 0; }

#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__); if (!r_##name) r_##name = dlsym(RTLD_NEXT, #name)
static int wr(int f) { return (f & O_ACCMODE) != O_RDONLY || (f & (O_CREAT | O_TRUNC)); }

static int do_open(int at, const char *p, int fl, int mode) {
  char b[1300]; const char *real = p, *n = NULL;
  if (live() && (at == AT_FDCWD || (p && p[0] == '/'))) n = track(p, wr(fl), b, sizeof b, &real);
  if (n) {
    char lab[1400]; snprintf(lab, sizeof lab, "%s", n);
    int e = event(wr(fl) ? "openw" : "open", lab, 0, NULL);
    if (e) { errno = e; return -1; }
  }
  int fd = syscall(SYS_openat, at, real, fl, mode);
  if (n && fd >= 0 && fd < MAXFD) fdname[fd] = strdup(n);
  return fd;
}
#define MODE int mode = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, mode); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, mode); }
int openat(int at, const char *p, int fl, ...) { MODE return do_open(at, p, fl, mode); }
int openat64(int at, const char *p, int fl, ...) { MODE return do_open(at, p, fl, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t write(int fd, const void *b, size_t n) {
  if (live() && fd >= 0 && fd < MAXFD && fdname[fd] && fd != logfd) {
    long lim = -1; int e = event("write", fdname[fd], (long)n, &lim);
    if (e) { errno = e; return -1; }
    if (lim >= 0 && (size_t)lim < n) n = lim;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) {
  if (live() && fd >= 0 && fd < MAXFD && fdname[fd]) {
    long lim = -1; int e = event("read", fdname[fd], (long)n, &lim);
    if (e) { errno = e; return -1; }
    if (lim >= 0 && (size_t)lim < n) n = lim;
  }
  return syscall(SYS_read, fd, b, n);
}
int close(int fd) {
  if (live() && fd >= 0 && fd < MAXFD && fdname[fd] && fd != logfd) {
    int e = event("close", fdname[fd], 0, NULL);
    fdname[fd] = NULL;
    if (e) { syscall(SYS_close, fd); errno = e; return -1; }
  }
  return syscall(SYS_close, fd);
}
#define PATHOP(ret, name, opname, call) \
  { char b_[1300]; const char *real = p; const char *n_ = NULL; \
    if (live()) n_ = track(p, 1, b_, sizeof b_, &real); \
    if (n_) { int e = event(opname, n_, 0, NULL); if (e) { errno = e; return -1; } } \
    return call; }
int unlink(const char *p) PATHOP(int, unlink, "unlink", syscall(SYS_unlink, real))
int remove(const char *p) PATHOP(int, remove, "unlink", syscall(SYS_unlink, real))
int rmdir(const char *p) PATHOP(int, rmdir, "rmdir", syscall(SYS_rmdir, real))
int mkdir(const char *p, mode_t m) PATHOP(int, mkdir, "mkdir", syscall(SYS_mkdir, real, m))
int truncate64(const char *p, off_t l) PATHOP(int, truncate, "truncate", syscall(SYS_truncate, real, l))
int chmod(const char *p, mode_t m) PATHOP(int, chmod, "chmod", syscall(SYS_chmod, real, m))
int unlinkat(int at, const char *p, int fl) {
  if (at != AT_FDCWD && p[0] != '/') return syscall(SYS_unlinkat, at, p, fl);
  PATHOP(int, unlinkat, "unlink", syscall(SYS_unlinkat, AT_FDCWD, real, fl))
}
static int do_rename(const char *a, const char *c) {
  char b1[1300], b2[1300]; const char *ra = a, *rc = c, *n1 = NULL, *n2 = NULL;
  if (live()) { n1 = track(a, 1, b1, sizeof b1, &ra); n2 = track(c, 1, b2, sizeof b2, &rc); }
  if (n2) { int e = event("rename", n2, 0, NULL); if (e) { errno = e; return -1; } }
  (void)n1;
  return syscall(SYS_rename, ra, rc);
}
int rename(const char *a, const char *c) { return do_rename(a, c); }
int renameat(int x, const char *a, int y, const char *c) {
  if (x != AT_FDCWD || y != AT_FDCWD) return syscall(SYS_renameat, x, a, y, c);
  return do_rename(a, c);
}
int link(const char *a, const char *p) PATHOP(int, link, "link", syscall(SYS_link, a, real))
int symlink(const char *a, const char *p) PATHOP(int, symlink, "symlink", syscall(SYS_symlink, a, real))
#define STATOP(call) { char b_[1300]; const char *real = p; if (live()) track(p, 0, b_, sizeof b_, &real); return call; }
int stat64(const char *p, struct stat64 *s) STATOP(syscall(SYS_newfstatat, AT_FDCWD, real, s, 0))
int lstat64(const char *p, struct stat64 *s) STATOP(syscall(SYS_newfstatat, AT_FDCWD, real, s, AT_SYMLINK_NOFOLLOW))
int fstatat64(int at, const char *p, struct stat64 *s, int fl) {
  if (at != AT_FDCWD) return syscall(SYS_newfstatat, at, p, s, fl);
  STATOP(syscall(SYS_newfstatat, AT_FDCWD, real, s, fl))
}
int access(const char *p, int m) STATOP(syscall(SYS_faccessat, AT_FDCWD, real, m))
pid_t vfork(void) {
  REAL(pid_t, fork, void);
  if (live()) { int e = event("fork", "<proc>", 0, NULL); if (e) { errno = e; return -1; } }
  return r_fork();
}
pid_t fork(void) {
  REAL(pid_t, fork, void);
  if (live()) { int e = event("fork", "<proc>", 0, NULL); if (e) { errno = e; return -1; } }
  return r_fork();
}

/* wall clock: real time plus the skew and jumps of the plan */
static long long skew(void) {
  static long n; long long off = 0;
  if (!live()) return 0;
  n++;
  for (int i = 0; i < nr; i++) if (!strcmp(R[i].op, "clock") && n >= R[i].nth) { off += atoll(R[i].a1); R[i].fired++; }
  return off;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  int r = syscall(SYS_clock_gettime, c, t);
  if (!r && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += skew();
  return r;
}
time_t time(time_t *o) {
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
  if (o) *o = t.tv_sec;
  return t.tv_sec;
}
int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t); (void)tz;
  tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
