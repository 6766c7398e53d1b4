// LD_PRELOAD shim: turns the nondeterminism of one process into requests to the simulator.
// Every intercepted call sends one request over the control socket and obeys the verdict it gets back;
// the process runs only between a verdict and its next request, so the simulator decides every interleaving.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPEN=1, OP_READ=2, OP_WRITE=3, OP_CLOSE=4, OP_RENAME=5, OP_UNLINK=6, OP_MKDIR=7, OP_FSYNC=8, OP_TRUNC=9,
       OP_OPENDIR=10, OP_CONNECT=11, OP_BLOCK=12, OP_OUT=13, OP_STAT=14, OP_RMDIR=15, OP_LINK=16, OP_COPY=17, OP_START=18, OP_UNSUPPORTED=19 };
enum { A_GO=0, A_ERR=1, A_CRASH=2, A_SHORT=3, A_CRASH_AFTER=4, A_SHORT_CRASH=5, A_DIRERR=6 };

struct req { uint32_t op; int32_t fd; int64_t a, b; uint32_t l1, l2, l3; uint32_t pad; };
struct rep { int32_t act, err; int64_t val, now, mono; };

static int ctl = -1;
static char root[PATH_MAX];
static size_t rootlen;
static int64_t vnow;       // virtual time, ns since the epoch
static int64_t vmono;      // virtual monotonic time
static uint64_t rng;       // getrandom stream
static uint64_t dirseed;
static int dt_unknown;
static char pgbase[PATH_MAX]; // where the simulated servers really listen; they appear below /pg

#define MAXFD 1024
static char *fdpath[MAXFD];

static ssize_t raw_read(int fd, void *b, size_t n) { return syscall(SYS_read, fd, b, n); }
static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static void die(int code) { syscall(SYS_exit_group, code); __builtin_unreachable(); }

static void wr(const void *p, size_t n) {
  const char *c = p;
  while (n) { ssize_t k = syscall(SYS_sendto, ctl, c, n, MSG_NOSIGNAL, NULL, 0); if (k <= 0) { if (k < 0 && errno == EINTR) continue; die(137); } c += k; n -= (size_t)k; }
}
static void rd(void *p, size_t n) {
  char *c = p;
  while (n) { ssize_t k = raw_read(ctl, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; die(137); } c += k; n -= (size_t)k; }
}
static struct rep ask(uint32_t op, int fd, int64_t a, int64_t b, const char *p1, const char *p2, const void *data, size_t dlen) {
  int e = errno;
  struct req q = { op, fd, a, b, p1 ? (uint32_t)strlen(p1) : 0, p2 ? (uint32_t)strlen(p2) : 0, (uint32_t)dlen, 0 };
  struct iovec iov[4] = { { &q, sizeof q }, { (void *)p1, q.l1 }, { (void *)p2, q.l2 }, { (void *)data, dlen } };
  size_t total = sizeof q + q.l1 + q.l2 + dlen;
  struct msghdr mh = { 0 }; mh.msg_iov = iov; mh.msg_iovlen = 4;
  ssize_t k = syscall(SYS_sendmsg, ctl, &mh, MSG_NOSIGNAL);
  if (k < 0) die(137);
  if ((size_t)k < total) { // finish by hand
    size_t off = (size_t)k;
    for (int i = 0; i < 4; i++) {
      if (off >= iov[i].iov_len) { off -= iov[i].iov_len; continue; }
      wr((char *)iov[i].iov_base + off, iov[i].iov_len - off); off = 0;
    }
  }
  struct rep r; rd(&r, sizeof r);
  vnow = r.now; vmono = r.mono;
  if (r.act == A_CRASH) die(137);
  errno = e;
  return r;
}

static void *next(const char *name) { return dlsym(RTLD_NEXT, name); }
#define REAL(ret, name, args) static ret (*real_##name) args; if (!real_##name) real_##name = (ret (*) args)next(#name)

__attribute__((constructor)) static void init(void) {
  const char *c = getenv("PODOSIM_FD");
  if (!c) return;
  ctl = atoi(c);
  const char *r = getenv("PODOSIM_ROOT");
  if (r) { snprintf(root, sizeof root, "%s", r); rootlen = strlen(root); }
  const char *s = getenv("PODOSIM_SEED");
  rng = s ? strtoull(s, NULL, 10) : 1;
  s = getenv("PODOSIM_DIRSEED");
  dirseed = s ? strtoull(s, NULL, 10) : 0;
  s = getenv("PODOSIM_NOW");
  vnow = s ? strtoll(s, NULL, 10) : 0;
  dt_unknown = getenv("PODOSIM_DTUNKNOWN") != NULL;
  s = getenv("PODOSIM_PG");
  if (s) snprintf(pgbase, sizeof pgbase, "%s", s);
  fcntl(ctl, F_SETFD, FD_CLOEXEC);
  unsetenv("LD_PRELOAD"); unsetenv("PODOSIM_FD"); unsetenv("PODOSIM_ROOT"); unsetenv("PODOSIM_SEED");
  unsetenv("PODOSIM_DIRSEED"); unsetenv("PODOSIM_NOW"); unsetenv("PODOSIM_DTUNKNOWN"); unsetenv("PODOSIM_PG");
  ask(OP_START, 0, 0, 0, NULL, NULL, NULL, 0);
}

// absolute form of a path; NULL if it is outside the simulated tree
static const char *in_root(int dirfd, const char *p, char *buf) {
  if (ctl < 0 || !rootlen || !p || !*p) return NULL;
  if (p[0] == '/') snprintf(buf, PATH_MAX, "%s", p);
  else {
    char cwd[PATH_MAX];
    if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return NULL; }
    else if (dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd]) snprintf(cwd, sizeof cwd, "%s", fdpath[dirfd]);
    else return NULL;
    size_t l = strlen(cwd);
    if (l + strlen(p) + 2 > PATH_MAX) return NULL;
    memcpy(buf, cwd, l); buf[l] = '/'; strcpy(buf + l + 1, p);
  }
  if (strncmp(buf, root, rootlen) || (buf[rootlen] && buf[rootlen] != '/')) return NULL;
  return buf;
}
static void setfd(int fd, const char *p) {
  if (fd < 0 || fd >= MAXFD) return;
  free(fdpath[fd]); fdpath[fd] = p ? strdup(p) : NULL;
}
static const char *getfd(int fd) { return ctl >= 0 && fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL; }
static int64_t off(int fd) { return syscall(SYS_lseek, fd, 0, SEEK_CUR); }

// ---- open
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char b[PATH_MAX];
  const char *p = in_root(dirfd, path, b);
  if (!p) return (int)syscall(SYS_openat, dirfd, path, flags, mode);
  struct stat st; int existed = fstatat(AT_FDCWD, p, &st, AT_SYMLINK_NOFOLLOW) == 0;
  struct rep r = ask(OP_OPEN, -1, flags, existed, p, NULL, NULL, 0);
  if (r.act == A_ERR) { errno = r.err; return -1; }
  int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
  if (r.act == A_CRASH_AFTER) die(137);
  if (fd >= 0) setfd(fd, p);
  return fd;
}
static mode_t vmode(int flags, va_list ap) { return (flags & (O_CREAT | O_TMPFILE)) ? (mode_t)va_arg(ap, int) : 0; }
int open(const char *p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = vmode(f, ap); va_end(ap); return do_open(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = vmode(f, ap); va_end(ap); return do_open(AT_FDCWD, p, f | O_LARGEFILE, m); }
int openat(int d, const char *p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = vmode(f, ap); va_end(ap); return do_open(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = vmode(f, ap); va_end(ap); return do_open(d, p, f | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

// ---- data
static ssize_t do_write(int fd, const void *buf, size_t n) {
  if (ctl >= 0 && (fd == 1 || fd == 2)) {
    struct rep r = ask(OP_OUT, fd, (int64_t)n, fd, NULL, NULL, buf, n);
    if (r.act == A_ERR) { errno = r.err; return -1; }
    if (r.act == A_SHORT && (size_t)r.val < n) return (ssize_t)r.val;
    if (r.act == A_CRASH_AFTER) die(137);
    return (ssize_t)n;
  }
  const char *p = getfd(fd);
  if (!p) return raw_write(fd, buf, n);
  int64_t o = off(fd);
  struct rep r = ask(OP_WRITE, fd, (int64_t)n, o, p, NULL, buf, n);
  if (r.act == A_ERR) { errno = r.err; return -1; }
  if ((r.act == A_SHORT || r.act == A_SHORT_CRASH) && (size_t)r.val < n) n = (size_t)r.val;
  ssize_t k = raw_write(fd, buf, n);
  if (r.act == A_CRASH_AFTER || r.act == A_SHORT_CRASH) die(137);
  return k;
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n); }
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
  if (!(ctl >= 0 && (fd == 1 || fd == 2)) && !getfd(fd)) return syscall(SYS_writev, fd, iov, cnt);
  ssize_t total = 0;
  for (int i = 0; i < cnt; i++) {
    if (!iov[i].iov_len) continue;
    ssize_t k = do_write(fd, iov[i].iov_base, iov[i].iov_len);
    if (k < 0) return total ? total : -1;
    total += k;
    if ((size_t)k < iov[i].iov_len) break;
  }
  return total;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
  const char *p = getfd(fd);
  if (!p) return syscall(SYS_pwrite64, fd, buf, n, o);
  struct rep r = ask(OP_WRITE, fd, (int64_t)n, o, p, NULL, buf, n);
  if (r.act == A_ERR) { errno = r.err; return -1; }
  if ((r.act == A_SHORT || r.act == A_SHORT_CRASH) && (size_t)r.val < n) n = (size_t)r.val;
  ssize_t k = syscall(SYS_pwrite64, fd, buf, n, o);
  if (r.act == A_CRASH_AFTER || r.act == A_SHORT_CRASH) die(137);
  return k;
}
ssize_t read(int fd, void *buf, size_t n) {
  const char *p = getfd(fd);
  if (!p) return raw_read(fd, buf, n);
  struct rep r = ask(OP_READ, fd, (int64_t)n, off(fd), p, NULL, NULL, 0);
  if (r.act == A_ERR) { errno = r.err; return -1; }
  if (r.act == A_SHORT && (size_t)r.val < n) n = (size_t)r.val;
  return raw_read(fd, buf, n);
}
int close(int fd) {
  if (ctl >= 0 && fd == ctl) { errno = EBADF; return -1; }
  const char *p = getfd(fd);
  if (!p) return (int)syscall(SYS_close, fd);
  struct rep r = ask(OP_CLOSE, fd, 0, 0, p, NULL, NULL, 0);
  int k = (int)syscall(SYS_close, fd);
  setfd(fd, NULL);
  if (r.act == A_ERR) { errno = r.err; return -1; }
  return k;
}
static int do_sync(int fd, int nr, int64_t kind) {
  const char *p = getfd(fd);
  if (!p) return (int)syscall(nr, fd);
  struct rep r = ask(OP_FSYNC, fd, kind, 0, p, NULL, NULL, 0);
  if (r.act == A_ERR) { errno = r.err; return -1; }
  if (r.act == A_CRASH_AFTER) die(137);
  return 0;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync, 0); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync, 1); }
int ftruncate64(int fd, off64_t len) {
  const char *p = getfd(fd);
  if (!p) return (int)syscall(SYS_ftruncate, fd, len);
  struct rep r = ask(OP_TRUNC, fd, len, 0, p, NULL, NULL, 0);
  if (r.act == A_ERR) { errno = r.err; return -1; }
  int k = (int)syscall(SYS_ftruncate, fd, len);
  if (r.act == A_CRASH_AFTER) die(137);
  return k;
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }
// whole-file copies are carried out in user space so that they are ordinary reads and writes
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl) {
  if (!getfd(a) && !getfd(b)) return syscall(SYS_copy_file_range, a, ao, b, bo, n, fl);
  errno = ENOSYS; return -1;
}
ssize_t sendfile64(int o, int i, off64_t *of, size_t n) {
  if (!getfd(o) && !getfd(i)) return syscall(SYS_sendfile, o, i, of, n);
  errno = ENOSYS; return -1;
}
ssize_t sendfile(int o, int i, off_t *of, size_t n) { return sendfile64(o, i, of, n); }

// ---- names
static int two(uint32_t op, int d1, const char *p1, int d2, const char *p2, int nr, int flags) {
  char b1[PATH_MAX], b2[PATH_MAX];
  const char *q1 = in_root(d1, p1, b1), *q2 = in_root(d2, p2, b2);
  if (!q1 && !q2) return (int)syscall(nr, d1, p1, d2, p2, flags);
  struct rep r = ask(op, -1, flags, 0, q1 ? q1 : p1, q2 ? q2 : p2, NULL, 0);
  if (r.act == A_ERR) { errno = r.err; return -1; }
  int k = (int)syscall(nr, d1, p1, d2, p2, flags);
  if (r.act == A_CRASH_AFTER) die(137);
  return k;
}
int rename(const char *a, const char *b) { return two(OP_RENAME, AT_FDCWD, a, AT_FDCWD, b, SYS_renameat2, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return two(OP_RENAME, d1, a, d2, b, SYS_renameat2, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return two(OP_RENAME, d1, a, d2, b, SYS_renameat2, (int)f); }
int link(const char *a, const char *b) { return two(OP_LINK, AT_FDCWD, a, AT_FDCWD, b, SYS_linkat, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { return two(OP_LINK, d1, a, d2, b, SYS_linkat, f); }
int unlinkat(int d, const char *path, int flags) {
  char b[PATH_MAX]; const char *p = in_root(d, path, b);
  if (!p) return (int)syscall(SYS_unlinkat, d, path, flags);
  struct rep r = ask((flags & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, -1, flags, 0, p, NULL, NULL, 0);
  if (r.act == A_ERR) { errno = r.err; return -1; }
  int k = (int)syscall(SYS_unlinkat, d, path, flags);
  if (r.act == A_CRASH_AFTER) die(137);
  return k;
}
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int mkdirat(int d, const char *path, mode_t m) {
  char b[PATH_MAX]; const char *p = in_root(d, path, b);
  if (!p) return (int)syscall(SYS_mkdirat, d, path, m);
  struct rep r = ask(OP_MKDIR, -1, m, 0, p, NULL, NULL, 0);
  if (r.act == A_ERR) { errno = r.err; return -1; }
  int k = (int)syscall(SYS_mkdirat, d, path, m);
  if (r.act == A_CRASH_AFTER) die(137);
  return k;
}
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }

// ---- stat
static int stat_verdict(int d, const char *path) {
  char b[PATH_MAX]; const char *p = in_root(d, path, b);
  if (!p) return 0;
  struct rep r = ask(OP_STAT, -1, 0, 0, p, NULL, NULL, 0);
  if (r.act == A_ERR) { errno = r.err; return -1; }
  return 0;
}
int stat64(const char *p, struct stat64 *st) { if (stat_verdict(AT_FDCWD, p)) return -1; return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int lstat64(const char *p, struct stat64 *st) { if (stat_verdict(AT_FDCWD, p)) return -1; return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstatat64(int d, const char *p, struct stat64 *st, int f) {
  const char *volatile v = p; // declared nonnull, but null is passed to probe for the call
  if (v && *v && stat_verdict(d, p)) return -1;
  return (int)syscall(SYS_newfstatat, d, p, st, f);
}
int statx(int d, const char *p, int f, unsigned m, struct statx *st) {
  const char *volatile v = p; // declared nonnull, but null is passed to probe for the call
  if (v && *v && stat_verdict(d, p)) return -1;
  return (int)syscall(SYS_statx, d, p, f, m, st);
}
int access(const char *p, int m) { if (stat_verdict(AT_FDCWD, p)) return -1; return (int)syscall(SYS_faccessat, AT_FDCWD, p, m); }

// ---- directories
struct fake { DIR *real; int n, i, errat, err; struct dirent64 *e; uint64_t *h; };
#define MAXDIR 64
static struct fake *dirs[MAXDIR];
static struct fake *fakeof(DIR *d) { for (int i = 0; i < MAXDIR; i++) if (dirs[i] && dirs[i]->real == d) return dirs[i]; return NULL; }
static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
DIR *opendir(const char *path) {
  REAL(DIR *, opendir, (const char *));
  REAL(struct dirent64 *, readdir64, (DIR *));
  char b[PATH_MAX]; const char *p = in_root(AT_FDCWD, path, b);
  if (!p) return real_opendir(path);
  struct rep r = ask(OP_OPENDIR, -1, 0, 0, p, NULL, NULL, 0);
  if (r.act == A_ERR) { errno = r.err; return NULL; }
  DIR *d = real_opendir(path);
  if (!d) return NULL;
  struct fake *f = calloc(1, sizeof *f);
  f->real = d; f->errat = r.act == A_DIRERR ? (int)r.val : -1; f->err = r.err;
  struct dirent64 *e;
  while ((e = real_readdir64(d))) {
    f->e = realloc(f->e, sizeof *f->e * (size_t)(f->n + 1)); f->h = realloc(f->h, 8 * (size_t)(f->n + 1));
    memcpy(&f->e[f->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
    f->e[f->n].d_ino = 1 + (ino64_t)f->n; f->e[f->n].d_off = f->n; f->e[f->n].d_reclen = sizeof *e;
    if (dt_unknown) f->e[f->n].d_type = DT_UNKNOWN;
    uint64_t h = dirseed; for (const char *c = e->d_name; *c; c++) h = mix(h ^ (unsigned char)*c);
    f->h[f->n++] = h;
  }
  for (int i = 1; i < f->n; i++) // insertion sort by (hash, name): independent of the real directory order
    for (int j = i; j > 0 && (f->h[j - 1] > f->h[j] || (f->h[j - 1] == f->h[j] && strcmp(f->e[j - 1].d_name, f->e[j].d_name) > 0)); j--) {
      struct dirent64 t = f->e[j]; f->e[j] = f->e[j - 1]; f->e[j - 1] = t; uint64_t u = f->h[j]; f->h[j] = f->h[j - 1]; f->h[j - 1] = u;
    }
  for (int i = 0; i < MAXDIR; i++) if (!dirs[i]) { dirs[i] = f; break; }
  return d;
}
struct dirent64 *readdir64(DIR *d) {
  REAL(struct dirent64 *, readdir64, (DIR *));
  struct fake *f = fakeof(d);
  if (!f) return real_readdir64(d);
  if (f->errat >= 0 && f->i >= f->errat) { errno = f->err; f->errat = -1; f->i = f->n; return NULL; }
  return f->i < f->n ? &f->e[f->i++] : NULL;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
  REAL(int, closedir, (DIR *));
  for (int i = 0; i < MAXDIR; i++) if (dirs[i] && dirs[i]->real == d) { free(dirs[i]->e); free(dirs[i]->h); free(dirs[i]); dirs[i] = NULL; }
  return real_closedir(d);
}

// ---- sockets and blocking
int connect(int fd, const struct sockaddr *sa, socklen_t len) {
  if (ctl >= 0) {
    char where[128] = "other";
    if (sa->sa_family == AF_UNIX) snprintf(where, sizeof where, "%s", ((const struct sockaddr_un *)sa)->sun_path);
    struct rep r = ask(OP_CONNECT, fd, sa->sa_family, 0, where, NULL, NULL, 0);
    if (r.act == A_ERR) { errno = r.err; return -1; }
    if (sa->sa_family == AF_UNIX && !strncmp(where, "/pg/", 4) && pgbase[0]) {
      struct sockaddr_un un = { .sun_family = AF_UNIX };
      if ((size_t)snprintf(un.sun_path, sizeof un.sun_path, "%s%s", pgbase, where) >= sizeof un.sun_path) { errno = ENAMETOOLONG; return -1; }
      return (int)syscall(SYS_connect, fd, &un, (socklen_t)sizeof un);
    }
  }
  return (int)syscall(SYS_connect, fd, sa, len);
}
int epoll_wait(int ep, struct epoll_event *ev, int n, int timeout) {
  if (ctl < 0) return (int)syscall(SYS_epoll_pwait, ep, ev, n, timeout, NULL, 8);
  for (;;) {
    int k = (int)syscall(SYS_epoll_pwait, ep, ev, n, 0, NULL, 8);
    if (k != 0 || timeout == 0) return k;
    struct rep r = ask(OP_BLOCK, ep, timeout, 0, NULL, NULL, NULL, 0);
    if (r.act == A_ERR) { errno = r.err; return -1; } // EINTR
    if (r.act == A_SHORT) return 0;                   // timeout elapsed in virtual time
  }
}
int epoll_pwait(int ep, struct epoll_event *ev, int n, int timeout, const sigset_t *s) { (void)s; return epoll_wait(ep, ev, n, timeout); }

// ---- clocks and randomness
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (ctl < 0) return (int)syscall(SYS_clock_gettime, c, ts);
  int64_t t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? vnow : vmono;
  ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
  if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
static int sleep_unsupported(void) { ask(OP_UNSUPPORTED, 0, 1, 0, "sleep", NULL, NULL, 0); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { (void)b; if (ctl < 0) return (int)syscall(SYS_nanosleep, a, b);
  ask(OP_BLOCK, -1, a->tv_sec * 1000 + a->tv_nsec / 1000000, 0, NULL, NULL, NULL, 0); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { (void)c; (void)b; if (ctl < 0) return (int)syscall(SYS_clock_nanosleep, c, f, a, b);
  int64_t ms = a->tv_sec * 1000 + a->tv_nsec / 1000000; if (f) ms -= (c == CLOCK_REALTIME ? vnow : vmono) / 1000000; if (ms < 0) ms = 0; (void)sleep_unsupported;
  ask(OP_BLOCK, -1, ms, 0, NULL, NULL, NULL, 0); return 0; }
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (ctl < 0) return syscall(SYS_getrandom, buf, n, fl);
  unsigned char *c = buf;
  for (size_t i = 0; i < n; i++) { if (i % 8 == 0) rng = mix(rng); c[i] = (unsigned char)(rng >> (8 * (i % 8))); }
  return (ssize_t)n;
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) < 0 ? -1 : 0; }
pid_t gettid(void) { if (ctl < 0) return (pid_t)syscall(SYS_gettid); return 4242; }
pid_t getpid(void) { if (ctl < 0) return (pid_t)syscall(SYS_getpid); return 4242; }
