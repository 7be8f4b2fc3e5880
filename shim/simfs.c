/* simfs: LD_PRELOAD seam between a simulated process ("node") and the operating system.
 *
 * Inactive (the default) every wrapper is a plain system call.  After simfs_activate() in a forked
 * child, every file-system call that touches the scratch root is first announced to the simulator
 * (parent process) over a pipe; the simulator decides when it happens and with which result.
 * Clock, sleeps, process id and random bytes are virtual.  All policy lives in the simulator.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { K_OPEN = 1, K_READ, K_PREAD, K_WRITE, K_PWRITE, K_CLOSE, K_FSYNC, K_FTRUNC, K_TRUNC, K_UNLINK, K_RENAME, K_LINK,
       K_MKDIR, K_RMDIR, K_STAT, K_ACCESS, K_LOCK, K_MMAP, K_SLEEP, K_MARK, K_RESULT, K_SENDFILE, K_CHMOD };
enum { A_GO = 0, A_ERR, A_SHORT, A_KILL_BEFORE, A_KILL_AFTER, A_KILL_PARTIAL };

struct req { uint32_t kind; int32_t fd; int64_t off, len, prev_ret; int32_t prev_err; uint16_t l1, l2; };
struct rep { uint32_t action; int32_t err; int64_t n, mono, real; };

#define MAXFD 4096
static int active, detrand;
static int rq_fd = -1, rp_fd = -1;
static char root[512], cwd[512];
static size_t rootlen;
static char *fdpath[MAXFD];
static char URANDOM[] = "\1urandom";
static int64_t mono_ns, real_ns;
static int vpid;
static uint64_t rstate;
static int64_t last_ret; static int last_err;

static uint64_t rnd(void) { rstate += 0x9E3779B97F4A7C15ull; uint64_t z = rstate; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static void fillrnd(void *p, size_t n) { unsigned char *b = p; while (n--) *b++ = (unsigned char)(rnd() >> 24); }

static void die(int code) { syscall(SYS_exit_group, code); for (;;) ; }

static void wr_all(int fd, const void *p, size_t n) {
  const char *c = p;
  while (n) { long r = syscall(SYS_write, fd, c, n); if (r < 0) { if (errno == EINTR) continue; die(99); } c += r; n -= r; }
}
static void rd_all(int fd, void *p, size_t n) {
  char *c = p;
  while (n) { long r = syscall(SYS_read, fd, c, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) die(99); c += r; n -= r; }
}

static const char *rel(const char *abs) { return strncmp(abs, root, rootlen) == 0 ? abs + rootlen : abs; }

static void gate(int kind, int fd, const char *p1, const char *p2, int64_t off, int64_t len, struct rep *out) {
  char buf[sizeof(struct req) + 2048];
  struct req *r = (struct req *)buf;
  int e = errno;
  size_t l1 = p1 ? strlen(p1) : 0, l2 = p2 ? strlen(p2) : 0;
  if (l1 > 1000) l1 = 1000;
  if (l2 > 1000) l2 = 1000;
  r->kind = kind; r->fd = fd; r->off = off; r->len = len; r->prev_ret = last_ret; r->prev_err = last_err; r->l1 = l1; r->l2 = l2;
  if (l1) memcpy(buf + sizeof *r, p1, l1);
  if (l2) memcpy(buf + sizeof *r + l1, p2, l2);
  wr_all(rq_fd, buf, sizeof *r + l1 + l2);
  rd_all(rp_fd, out, sizeof *out);
  mono_ns = out->mono; real_ns = out->real;
  last_ret = 0; last_err = 0;
  if (out->action == A_KILL_BEFORE) die(137);
  errno = e;
}
static long done(long ret, struct rep *a) {
  last_ret = ret; last_err = ret < 0 ? errno : 0;
  if (a->action == A_KILL_AFTER || a->action == A_KILL_PARTIAL) die(137);
  return ret;
}
#define FAIL(a) do { if ((a).action == A_ERR) { last_ret = -1; last_err = (a).err; errno = (a).err; return -1; } } while (0)

/* absolute path if inside the root, else NULL */
static const char *inroot(int dirfd, const char *path, char *buf, size_t n) {
  if (!active || !path || !*path) return NULL;
  if (path[0] == '/') { if (strncmp(path, root, rootlen) == 0 && (path[rootlen] == '/' || !path[rootlen])) { snprintf(buf, n, "%s", path); return buf; } return NULL; }
  if (dirfd == AT_FDCWD) { if (!cwd[0]) return NULL; snprintf(buf, n, "%s/%s", cwd, path); return buf; }
  if (dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd] && fdpath[dirfd] != URANDOM) { snprintf(buf, n, "%s%s/%s", root, fdpath[dirfd], path); return buf; }
  return NULL;
}
static int tracked(int fd) { return active && fd >= 0 && fd < MAXFD && fdpath[fd] && fdpath[fd] != URANDOM; }
static void track(int fd, const char *abs) { if (fd >= 0 && fd < MAXFD) { if (fdpath[fd] && fdpath[fd] != URANDOM) free(fdpath[fd]); fdpath[fd] = strdup(rel(abs)); } }
static void untrack(int fd) { if (fd >= 0 && fd < MAXFD) { if (fdpath[fd] && fdpath[fd] != URANDOM) free(fdpath[fd]); fdpath[fd] = NULL; } }
static void duptrack(int ofd, int nfd) { if (active && nfd >= 0 && nfd < MAXFD && ofd >= 0 && ofd < MAXFD && ofd != nfd) { untrack(nfd); if (fdpath[ofd]) fdpath[nfd] = fdpath[ofd] == URANDOM ? URANDOM : strdup(fdpath[ofd]); } }

/* ---- control ---- */
void simfs_activate(int rq, int rp, const char *r, int pid, uint64_t seed, int64_t mono, int64_t real) {
  rq_fd = rq; rp_fd = rp; snprintf(root, sizeof root, "%s", r); rootlen = strlen(root);
  char c[512]; cwd[0] = 0;
  long n = syscall(SYS_getcwd, c, sizeof c);
  if (n > 0 && strncmp(c, root, rootlen) == 0) snprintf(cwd, sizeof cwd, "%s", c);
  memset(fdpath, 0, sizeof fdpath);
  vpid = pid; rstate = seed; mono_ns = mono; real_ns = real; last_ret = 0; last_err = 0; active = 1; detrand = 1;
}
void simfs_deactivate(void) { active = 0; detrand = 0; }
void simfs_detrand(uint64_t seed) { rstate = seed; detrand = 1; }
void simfs_mark(const char *s) { struct rep a; if (active) gate(K_MARK, -1, s, NULL, 0, 0, &a); }
int simfs_present(void) { return 1; }

/* ---- open ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char b[1200];
  if (detrand && path && !strcmp(path, "/dev/urandom")) {
    int fd = syscall(SYS_openat, AT_FDCWD, "/dev/zero", O_RDONLY | (flags & O_CLOEXEC));
    if (fd >= 0 && fd < MAXFD) fdpath[fd] = URANDOM;
    return fd;
  }
  const char *abs = inroot(dirfd, path, b, sizeof b);
  if (!abs) { int fd = syscall(SYS_openat, dirfd, path, flags, mode); if (active) untrack(fd); return fd; }
  struct rep a; gate(K_OPEN, -1, rel(abs), NULL, flags, 0, &a); FAIL(a);
  int fd = syscall(SYS_openat, dirfd, path, flags, mode);
  if (fd >= 0) track(fd, abs);
  return done(fd, &a);
}
#define GETMODE(fl) mode_t mode = 0; if ((fl) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { GETMODE(fl) return do_open(AT_FDCWD, p, fl, mode); }
int open64(const char *p, int fl, ...) { GETMODE(fl) return do_open(AT_FDCWD, p, fl | O_LARGEFILE, mode); }
int openat(int d, const char *p, int fl, ...) { GETMODE(fl) return do_open(d, p, fl, mode); }
int openat64(int d, const char *p, int fl, ...) { GETMODE(fl) return do_open(d, p, fl, mode); }
int __open_2(const char *p, int fl) { return do_open(AT_FDCWD, p, fl, 0); }
int __open64_2(const char *p, int fl) { return do_open(AT_FDCWD, p, fl, 0); }
int __openat_2(int d, const char *p, int fl) { return do_open(d, p, fl, 0); }
int __openat64_2(int d, const char *p, int fl) { return do_open(d, p, fl, 0); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

/* ---- data ---- */
#define LIMIT(a, n) do { if ((a).action == A_SHORT || (a).action == A_KILL_PARTIAL) { if ((int64_t)(n) > (a).n) (n) = (a).n; } } while (0)
ssize_t read(int fd, void *p, size_t n) {
  if (detrand && fd >= 0 && fd < MAXFD && fdpath[fd] == URANDOM) { fillrnd(p, n); return n; }
  if (!tracked(fd)) return syscall(SYS_read, fd, p, n);
  struct rep a; gate(K_READ, fd, fdpath[fd], NULL, -1, n, &a); FAIL(a); LIMIT(a, n);
  return done(syscall(SYS_read, fd, p, n), &a);
}
ssize_t __read_chk(int fd, void *p, size_t n, size_t bl) { (void)bl; return read(fd, p, n); }
static ssize_t do_pread(int fd, void *p, size_t n, off_t o) {
  if (!tracked(fd)) return syscall(SYS_pread64, fd, p, n, o);
  struct rep a; gate(K_PREAD, fd, fdpath[fd], NULL, o, n, &a); FAIL(a); LIMIT(a, n);
  return done(syscall(SYS_pread64, fd, p, n, o), &a);
}
ssize_t pread(int fd, void *p, size_t n, off_t o) { return do_pread(fd, p, n, o); }
ssize_t pread64(int fd, void *p, size_t n, off64_t o) { return do_pread(fd, p, n, o); }
ssize_t write(int fd, const void *p, size_t n) {
  if (!tracked(fd)) return syscall(SYS_write, fd, p, n);
  struct rep a; gate(K_WRITE, fd, fdpath[fd], NULL, -1, n, &a); FAIL(a); LIMIT(a, n);
  return done(syscall(SYS_write, fd, p, n), &a);
}
static ssize_t do_pwrite(int fd, const void *p, size_t n, off_t o) {
  if (!tracked(fd)) return syscall(SYS_pwrite64, fd, p, n, o);
  struct rep a; gate(K_PWRITE, fd, fdpath[fd], NULL, o, n, &a); FAIL(a); LIMIT(a, n);
  return done(syscall(SYS_pwrite64, fd, p, n, o), &a);
}
ssize_t pwrite(int fd, const void *p, size_t n, off_t o) { return do_pwrite(fd, p, n, o); }
ssize_t pwrite64(int fd, const void *p, size_t n, off64_t o) { return do_pwrite(fd, p, n, o); }
static size_t iovlen(const struct iovec *v, int c) { size_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len; return t; }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!tracked(fd)) return syscall(SYS_readv, fd, v, c);
  struct rep a; gate(K_READ, fd, fdpath[fd], NULL, -1, iovlen(v, c), &a); FAIL(a);
  if (a.action == A_SHORT && c > 0) { size_t n = v[0].iov_len; LIMIT(a, n); return done(syscall(SYS_read, fd, v[0].iov_base, n), &a); }
  return done(syscall(SYS_readv, fd, v, c), &a);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!tracked(fd)) return syscall(SYS_writev, fd, v, c);
  struct rep a; gate(K_WRITE, fd, fdpath[fd], NULL, -1, iovlen(v, c), &a); FAIL(a);
  if ((a.action == A_SHORT || a.action == A_KILL_PARTIAL) && c > 0) { size_t n = v[0].iov_len; LIMIT(a, n); return done(syscall(SYS_write, fd, v[0].iov_base, n), &a); }
  return done(syscall(SYS_writev, fd, v, c), &a);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  if (!tracked(o)) return syscall(SYS_sendfile, o, i, off, n);
  struct rep a; gate(K_SENDFILE, o, fdpath[o], NULL, -1, n, &a); FAIL(a); LIMIT(a, n);
  return done(syscall(SYS_sendfile, o, i, off, n), &a);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, (off64_t *)off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
  if (!tracked(o)) return syscall(SYS_copy_file_range, i, io, o, oo, n, f);
  struct rep a; gate(K_SENDFILE, o, fdpath[o], NULL, -1, n, &a); FAIL(a); LIMIT(a, n);
  return done(syscall(SYS_copy_file_range, i, io, o, oo, n, f), &a);
}
int close(int fd) {
  if (!active || fd < 0 || fd >= MAXFD || !fdpath[fd]) return syscall(SYS_close, fd);
  if (fdpath[fd] == URANDOM) { fdpath[fd] = NULL; return syscall(SYS_close, fd); }
  struct rep a; gate(K_CLOSE, fd, fdpath[fd], NULL, 0, 0, &a);
  untrack(fd);
  int r = syscall(SYS_close, fd);
  FAIL(a);
  return done(r, &a);
}
int dup(int fd) { int r = syscall(SYS_dup, fd); duptrack(fd, r); return r; }
int dup2(int o, int n) { int r = syscall(SYS_dup2, o, n); duptrack(o, r); return r; }
int dup3(int o, int n, int f) { int r = syscall(SYS_dup3, o, n, f); duptrack(o, r); return r; }
static int do_fcntl(int fd, int cmd, long arg) {
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { int r = syscall(SYS_fcntl, fd, cmd, arg); duptrack(fd, r); return r; }
  if (tracked(fd) && (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW)) {
    struct flock *fl = (struct flock *)arg;
    struct rep a; gate(K_LOCK, fd, fdpath[fd], fl->l_type == F_UNLCK ? "un" : fl->l_type == F_RDLCK ? "rd" : "wr", fl->l_start, fl->l_len, &a); FAIL(a);
    /* never block for real: a blocking lock polls in virtual time */
    int nb = cmd == F_SETLKW ? F_SETLK : cmd == F_OFD_SETLKW ? F_OFD_SETLK : cmd;
    for (;;) {
      int r = syscall(SYS_fcntl, fd, nb, arg);
      if (r == 0 || nb == cmd || (errno != EAGAIN && errno != EACCES)) return done(r, &a);
      struct rep b; gate(K_SLEEP, -1, "lock", NULL, 0, 1000000, &b);
    }
  }
  return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, arg); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, arg); }
int flock(int fd, int op) {
  if (!tracked(fd)) return syscall(SYS_flock, fd, op);
  struct rep a; gate(K_LOCK, fd, fdpath[fd], "flock", op, 0, &a); FAIL(a);
  for (;;) {
    int r = syscall(SYS_flock, fd, op | 4 /* LOCK_NB */);
    if (r == 0 || (op & 4) || errno != EWOULDBLOCK) return done(r, &a);
    struct rep b; gate(K_SLEEP, -1, "flock", NULL, 0, 1000000, &b);
  }
}
int lockf64(int fd, int cmd, off64_t len) {
  struct flock fl; memset(&fl, 0, sizeof fl); fl.l_whence = SEEK_CUR; fl.l_len = len; fl.l_type = cmd == F_ULOCK ? F_UNLCK : F_WRLCK;
  return do_fcntl(fd, cmd == F_LOCK ? F_SETLKW : F_SETLK, (long)&fl);
}
int fsync(int fd) { if (!tracked(fd)) return syscall(SYS_fsync, fd); struct rep a; gate(K_FSYNC, fd, fdpath[fd], NULL, 0, 0, &a); FAIL(a); return done(0, &a); }
int fdatasync(int fd) { if (!tracked(fd)) return syscall(SYS_fdatasync, fd); struct rep a; gate(K_FSYNC, fd, fdpath[fd], NULL, 1, 0, &a); FAIL(a); return done(0, &a); }
static int do_ftrunc(int fd, off_t n) { if (!tracked(fd)) return syscall(SYS_ftruncate, fd, n); struct rep a; gate(K_FTRUNC, fd, fdpath[fd], NULL, n, 0, &a); FAIL(a); return done(syscall(SYS_ftruncate, fd, n), &a); }
int ftruncate(int fd, off_t n) { return do_ftrunc(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_ftrunc(fd, n); }

/* ---- names ---- */
#define PATHOP(kind, dirfd, path, off, call) \
  char b_[1200]; const char *abs_ = inroot(dirfd, path, b_, sizeof b_); \
  if (!abs_) return call; \
  struct rep a; gate(kind, -1, rel(abs_), NULL, off, 0, &a); FAIL(a); \
  return done(call, &a);
int truncate(const char *p, off_t n) { PATHOP(K_TRUNC, AT_FDCWD, p, n, syscall(SYS_truncate, p, n)) }
int truncate64(const char *p, off64_t n) { PATHOP(K_TRUNC, AT_FDCWD, p, n, syscall(SYS_truncate, p, n)) }
int unlink(const char *p) { PATHOP(K_UNLINK, AT_FDCWD, p, 0, syscall(SYS_unlink, p)) }
int unlinkat(int d, const char *p, int f) { PATHOP(K_UNLINK, d, p, f, syscall(SYS_unlinkat, d, p, f)) }
int rmdir(const char *p) { PATHOP(K_RMDIR, AT_FDCWD, p, 0, syscall(SYS_rmdir, p)) }
int mkdir(const char *p, mode_t m) { PATHOP(K_MKDIR, AT_FDCWD, p, m, syscall(SYS_mkdir, p, m)) }
int mkdirat(int d, const char *p, mode_t m) { PATHOP(K_MKDIR, d, p, m, syscall(SYS_mkdirat, d, p, m)) }
int access(const char *p, int m) { PATHOP(K_ACCESS, AT_FDCWD, p, m, syscall(SYS_access, p, m)) }
int faccessat(int d, const char *p, int m, int f) { PATHOP(K_ACCESS, d, p, m, f ? syscall(SYS_faccessat2, d, p, m, f) : syscall(SYS_faccessat, d, p, m)) }
int stat(const char *p, struct stat *s) { PATHOP(K_STAT, AT_FDCWD, p, 0, syscall(SYS_newfstatat, AT_FDCWD, p, s, 0)) }
int stat64(const char *p, struct stat64 *s) { PATHOP(K_STAT, AT_FDCWD, p, 0, syscall(SYS_newfstatat, AT_FDCWD, p, s, 0)) }
int lstat(const char *p, struct stat *s) { PATHOP(K_STAT, AT_FDCWD, p, 1, syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW)) }
int lstat64(const char *p, struct stat64 *s) { PATHOP(K_STAT, AT_FDCWD, p, 1, syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW)) }
int fstatat(int d, const char *p, struct stat *s, int f) { PATHOP(K_STAT, d, p, f, syscall(SYS_newfstatat, d, p, s, f)) }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { PATHOP(K_STAT, d, p, f, syscall(SYS_newfstatat, d, p, s, f)) }
int chmod(const char *p, mode_t m) { PATHOP(K_CHMOD, AT_FDCWD, p, m, syscall(SYS_chmod, p, m)) }
static int two(int kind, int d1, const char *p1, int d2, const char *p2, int which, unsigned fl) {
  char b1[1200], b2[1200];
  const char *a1 = inroot(d1, p1, b1, sizeof b1), *a2 = inroot(d2, p2, b2, sizeof b2);
#define CALL2 (which == 0 ? syscall(SYS_renameat2, d1, p1, d2, p2, fl) : which == 1 ? syscall(SYS_linkat, d1, p1, d2, p2, fl) : syscall(SYS_symlinkat, p1, d2, p2))
  if (!a1 && !a2) return CALL2;
  struct rep a; gate(kind, -1, a1 ? rel(a1) : p1, a2 ? rel(a2) : p2, which, 0, &a); FAIL(a);
  return done(CALL2, &a);
}
int rename(const char *o, const char *n) { return two(K_RENAME, AT_FDCWD, o, AT_FDCWD, n, 0, 0); }
int renameat(int d1, const char *o, int d2, const char *n) { return two(K_RENAME, d1, o, d2, n, 0, 0); }
int renameat2(int d1, const char *o, int d2, const char *n, unsigned f) { return two(K_RENAME, d1, o, d2, n, 0, f); }
int link(const char *o, const char *n) { return two(K_LINK, AT_FDCWD, o, AT_FDCWD, n, 1, 0); }
int linkat(int d1, const char *o, int d2, const char *n, int f) { return two(K_LINK, d1, o, d2, n, 1, f); }
int symlink(const char *o, const char *n) { return two(K_LINK, AT_FDCWD, o, AT_FDCWD, n, 2, 0); }

/* ---- memory maps ---- */
static void *do_mmap(void *ad, size_t n, int pr, int fl, int fd, off_t o) {
  if (fd < 0 || !tracked(fd)) return (void *)syscall(SYS_mmap, ad, n, pr, fl, fd, o);
  struct rep a; gate(K_MMAP, fd, fdpath[fd], NULL, o, n, &a);
  if (a.action == A_ERR) { last_ret = -1; last_err = a.err; errno = a.err; return MAP_FAILED; }
  void *r = (void *)syscall(SYS_mmap, ad, n, pr, fl, fd, o);
  done(r == MAP_FAILED ? -1 : 0, &a);
  return r;
}
void *mmap(void *ad, size_t n, int pr, int fl, int fd, off_t o) { return do_mmap(ad, n, pr, fl, fd, o); }
void *mmap64(void *ad, size_t n, int pr, int fl, int fd, off64_t o) { return do_mmap(ad, n, pr, fl, fd, o); }

/* ---- clock, sleep, identity, randomness ---- */
int clock_gettime(clockid_t id, struct timespec *t) {
  if (!active) return syscall(SYS_clock_gettime, id, t);
  mono_ns += 1000; real_ns += 1000;
  int64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? real_ns : mono_ns;
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *t, void *z) {
  (void)z;
  if (!active) return syscall(SYS_gettimeofday, t, NULL);
  real_ns += 1000; mono_ns += 1000;
  if (t) { t->tv_sec = real_ns / 1000000000; t->tv_usec = (real_ns % 1000000000) / 1000; }
  return 0;
}
time_t time(time_t *t) {
  time_t v;
  if (!active) v = syscall(SYS_time, NULL); else { real_ns += 1000; mono_ns += 1000; v = real_ns / 1000000000; }
  if (t) *t = v;
  return v;
}
static int vsleep(int64_t ns) { struct rep a; gate(K_SLEEP, -1, "sleep", NULL, 0, ns, &a); return 0; }
int nanosleep(const struct timespec *r, struct timespec *rem) { if (!active) return syscall(SYS_nanosleep, r, rem); if (rem) rem->tv_sec = rem->tv_nsec = 0; return vsleep(r->tv_sec * 1000000000ll + r->tv_nsec); }
int clock_nanosleep(clockid_t id, int fl, const struct timespec *r, struct timespec *rem) {
  if (!active) { long x = syscall(SYS_clock_nanosleep, id, fl, r, rem); return x < 0 ? errno : 0; }
  int64_t ns = r->tv_sec * 1000000000ll + r->tv_nsec;
  if (fl & TIMER_ABSTIME) ns -= (id == CLOCK_REALTIME ? real_ns : mono_ns);
  return vsleep(ns > 0 ? ns : 0);
}
int usleep(useconds_t u) { if (!active) { struct timespec t = { u / 1000000, (u % 1000000) * 1000l }; return syscall(SYS_nanosleep, &t, NULL); } return vsleep(u * 1000ll); }
unsigned sleep(unsigned s) { if (!active) { struct timespec t = { s, 0 }; syscall(SYS_nanosleep, &t, NULL); return 0; } vsleep(s * 1000000000ll); return 0; }
pid_t getpid(void) { return active ? vpid : syscall(SYS_getpid); }
ssize_t getrandom(void *p, size_t n, unsigned f) { if (!detrand) return syscall(SYS_getrandom, p, n, f); fillrnd(p, n); return n; }
int getentropy(void *p, size_t n) { if (!detrand) { return syscall(SYS_getrandom, p, n, 0) == (long)n ? 0 : -1; } fillrnd(p, n); return 0; }
