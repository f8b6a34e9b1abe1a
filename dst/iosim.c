/* Disk seam of the simulator: an LD_PRELOAD shim that puts every system call
 * made on files below one scratch prefix under the control of a fault plan.
 * It performs the real call on the real scratch file unless the plan says
 * otherwise.  No clock, no randomness: the plan decides everything.
 *
 * Each intercepted call on a tracked file is one "disk event", numbered from
 * 0.  A plan entry is (event, kind, arg):
 *   1 EIO      the call fails with EIO                       (nothing done)
 *   2 ENOSPC   the call fails with ENOSPC                    (nothing done)
 *   3 SHORT    read/write moves only arg bytes (>=1)         (legal POSIX)
 *   4 EINTR    the call fails once with EINTR                (nothing done)
 *   5 CRASH    the process stops dead; a write is torn after arg bytes
 *   6 TORNERR  a write moves arg bytes, then the call fails with ENOSPC
 *   7 EACCES / EMFILE style failure of open (arg = errno)
 *   8 STICKY   from this event on every write fails with ENOSPC (disk full)
 *  10 EINTR of a read or write only                        (legal POSIX)
 *   9 FLIP     a read returns its data with one byte changed (arg = offset)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXPLAN 64
#define MAXLOG 8192

enum { OP_OPEN=1, OP_READ=2, OP_WRITE=3, OP_TRUNC=4, OP_SYNC=5, OP_CLOSE=6,
       OP_RENAME=7, OP_UNLINK=8 };

static char prefix[1024];
static size_t prefix_len = 0;
static int enabled = 0;
static char tracked[MAXFD];
static long ev = 0;
static struct { long event; int kind; long arg; } plan[MAXPLAN];
static int nplan = 0;
static int sticky = 0;
static struct { int op; long size; long off; int fault; } logv[MAXLOG];
static long nlog = 0;
static long fired[16];

void iosim_prefix(const char *p) { strncpy(prefix, p, sizeof prefix - 1); prefix_len = strlen(prefix); }
void iosim_enable(int on) { enabled = on; }
void iosim_reset(void) { ev = 0; nplan = 0; sticky = 0; nlog = 0; memset(fired, 0, sizeof fired); }
void iosim_plan(long event, int kind, long arg) { if (nplan < MAXPLAN) { plan[nplan].event = event; plan[nplan].kind = kind; plan[nplan].arg = arg; nplan++; } }
long iosim_events(void) { return ev; }
long iosim_fired(int kind) { return fired[kind & 15]; }
long iosim_nlog(void) { return nlog; }
void iosim_log(long i, long *out) { out[0] = logv[i].op; out[1] = logv[i].size; out[2] = logv[i].off; out[3] = logv[i].fault; }
int iosim_present(void) { return 1; }

static int match(const char *path) {
  return enabled && prefix_len && path && strncmp(path, prefix, prefix_len) == 0;
}
static int is_tracked(int fd) { return enabled && fd >= 0 && fd < MAXFD && tracked[fd]; }

/* returns plan kind for this event or 0; *arg set */
static int step(int op, long size, long off, long *arg) {
  int kind = 0; *arg = 0;
  for (int i = 0; i < nplan; i++) if (plan[i].event == ev) { kind = plan[i].kind; *arg = plan[i].arg; }
  if (kind == 8) { sticky = 1; kind = 0; fired[8]++; }
  if (!kind && sticky && (op == OP_WRITE)) kind = 2;
  /* a kind that has no meaning for this call does nothing */
  if (kind == 3 && op != OP_WRITE && op != OP_READ) kind = 0;
  if (kind == 6 && op != OP_WRITE) kind = 0;
  if (kind == 2 && op != OP_WRITE && op != OP_TRUNC && op != OP_OPEN && op != OP_SYNC) kind = 0;
  if (kind == 7 && op != OP_OPEN) kind = 0;
  if (kind == 9 && op != OP_READ) kind = 0;
  if (kind == 4 && op != OP_WRITE && op != OP_READ && op != OP_OPEN && op != OP_TRUNC && op != OP_SYNC) kind = 0;
  if (kind == 10) kind = (op == OP_WRITE || op == OP_READ) ? 4 : 0;
  if ((kind == 3) && size <= 1) kind = 0;
  if (nlog < MAXLOG) { logv[nlog].op = op; logv[nlog].size = size; logv[nlog].off = off; logv[nlog].fault = kind; nlog++; }
  if (kind) fired[kind & 15]++;
  ev++;
  return kind;
}

#define REAL(name, ret, ...) static ret (*real)(__VA_ARGS__) = 0; if (!real) real = dlsym(RTLD_NEXT, name)
static void die(void) { _exit(77); }

#define OPEN_BODY(name, ...) \
  mode_t mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

static int post_open(int fd) { if (fd >= 0 && fd < MAXFD) tracked[fd] = 1; return fd; }
static int pre_open(void) {
  long arg; int k = step(OP_OPEN, 0, 0, &arg);
  if (k == 5) die();
  if (k == 1) { errno = EIO; return -1; }
  if (k == 2) { errno = ENOSPC; return -1; }
  if (k == 4) { errno = EINTR; return -1; }
  if (k == 7) { errno = (int)arg; return -1; }
  return 0;
}
int open(const char *path, int flags, ...) {
  OPEN_BODY("open")
  REAL("open", int, const char *, int, ...);
  if (!match(path)) return real(path, flags, mode);
  if (pre_open()) return -1;
  return post_open(real(path, flags, mode));
}
int open64(const char *path, int flags, ...) {
  OPEN_BODY("open64")
  REAL("open64", int, const char *, int, ...);
  if (!match(path)) return real(path, flags, mode);
  if (pre_open()) return -1;
  return post_open(real(path, flags, mode));
}
int openat(int dfd, const char *path, int flags, ...) {
  OPEN_BODY("openat")
  REAL("openat", int, int, const char *, int, ...);
  if (!match(path)) return real(dfd, path, flags, mode);
  if (pre_open()) return -1;
  return post_open(real(dfd, path, flags, mode));
}
int openat64(int dfd, const char *path, int flags, ...) {
  OPEN_BODY("openat64")
  REAL("openat64", int, int, const char *, int, ...);
  if (!match(path)) return real(dfd, path, flags, mode);
  if (pre_open()) return -1;
  return post_open(real(dfd, path, flags, mode));
}

#define WRITE_BODY(callfull, callpart) \
  long arg; int k = step(OP_WRITE, (long)n, (long)OFF, &arg); \
  if (k == 0) return callfull; \
  if (k == 1) { errno = EIO; return -1; } \
  if (k == 2) { errno = ENOSPC; return -1; } \
  if (k == 4) { errno = EINTR; return -1; } \
  size_t part = arg < 0 ? 0 : ((size_t)arg > n ? n : (size_t)arg); \
  if (k == 3) { if (part < 1) part = 1; if (part >= n) part = n - 1; return callpart; } \
  if (k == 5) { if (part) { ssize_t r_ = callpart; (void)r_; } die(); } \
  if (k == 6) { if (part) { ssize_t r_ = callpart; (void)r_; } errno = ENOSPC; return -1; } \
  return callfull;

ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
  REAL("pwrite", ssize_t, int, const void *, size_t, off_t);
  if (!is_tracked(fd)) return real(fd, buf, n, off);
#define OFF off
  WRITE_BODY(real(fd, buf, n, off), real(fd, buf, part, off))
#undef OFF
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
  REAL("pwrite64", ssize_t, int, const void *, size_t, off64_t);
  if (!is_tracked(fd)) return real(fd, buf, n, off);
#define OFF off
  WRITE_BODY(real(fd, buf, n, off), real(fd, buf, part, off))
#undef OFF
}
ssize_t write(int fd, const void *buf, size_t n) {
  REAL("write", ssize_t, int, const void *, size_t);
  if (!is_tracked(fd)) return real(fd, buf, n);
#define OFF 0
  WRITE_BODY(real(fd, buf, n), real(fd, buf, part))
#undef OFF
}

#define READ_BODY(callfull, callpart) \
  long arg; int k = step(OP_READ, (long)n, (long)OFF, &arg); \
  if (k == 5) die(); \
  if (k == 1) { errno = EIO; return -1; } \
  if (k == 4) { errno = EINTR; return -1; } \
  if (k == 3) { size_t part = arg < 1 ? 1 : (size_t)arg; if (part >= n) part = n - 1; return callpart; } \
  ssize_t r_ = callfull; \
  if (k == 9 && r_ > 0) ((unsigned char *)buf)[(size_t)arg % (size_t)r_] ^= 0x55; \
  return r_;

ssize_t pread(int fd, void *buf, size_t n, off_t off) {
  REAL("pread", ssize_t, int, void *, size_t, off_t);
  if (!is_tracked(fd)) return real(fd, buf, n, off);
#define OFF off
  READ_BODY(real(fd, buf, n, off), real(fd, buf, part, off))
#undef OFF
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
  REAL("pread64", ssize_t, int, void *, size_t, off64_t);
  if (!is_tracked(fd)) return real(fd, buf, n, off);
#define OFF off
  READ_BODY(real(fd, buf, n, off), real(fd, buf, part, off))
#undef OFF
}
ssize_t read(int fd, void *buf, size_t n) {
  REAL("read", ssize_t, int, void *, size_t);
  if (!is_tracked(fd)) return real(fd, buf, n);
#define OFF 0
  READ_BODY(real(fd, buf, n), real(fd, buf, part))
#undef OFF
}

static int simple(int op, long size) {
  long arg; int k = step(op, size, 0, &arg);
  if (k == 5) die();
  if (k == 1) { errno = EIO; return -1; }
  if (k == 2) { errno = ENOSPC; return -1; }
  if (k == 4) { errno = EINTR; return -1; }
  return 0;
}
int ftruncate(int fd, off_t len) {
  REAL("ftruncate", int, int, off_t);
  if (is_tracked(fd) && simple(OP_TRUNC, (long)len)) return -1;
  return real(fd, len);
}
int ftruncate64(int fd, off64_t len) {
  REAL("ftruncate64", int, int, off64_t);
  if (is_tracked(fd) && simple(OP_TRUNC, (long)len)) return -1;
  return real(fd, len);
}
int fsync(int fd) {
  REAL("fsync", int, int);
  if (is_tracked(fd) && simple(OP_SYNC, 0)) return -1;
  return real(fd);
}
int fdatasync(int fd) {
  REAL("fdatasync", int, int);
  if (is_tracked(fd) && simple(OP_SYNC, 0)) return -1;
  return real(fd);
}
int close(int fd) {
  REAL("close", int, int);
  if (is_tracked(fd)) {
    long arg; int k = step(OP_CLOSE, 0, 0, &arg);
    tracked[fd] = 0;
    if (k == 5) die();
    if (k == 1) { real(fd); errno = EIO; return -1; }
  } else if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
  return real(fd);
}
int rename(const char *a, const char *b) {
  REAL("rename", int, const char *, const char *);
  if ((match(a) || match(b)) && simple(OP_RENAME, 0)) return -1;
  return real(a, b);
}
int unlink(const char *a) {
  REAL("unlink", int, const char *);
  if (match(a) && simple(OP_UNLINK, 0)) return -1;
  return real(a);
}
