/* wrappers around every system call on files: shadow descriptor table, injected faults */
#include <sys/file.h>
#include <sys/uio.h>
/* ------------------------------------------------------------------ shadow descriptors */
enum { K_OPEN, K_READ, K_WRITE, K_CLOSE, K_FSYNC, K_LOCK, K_LSEEK, K_TRUNC, K_FSTAT, K_ACCESS, NK };
static const char *KN[] = {"open", "read", "write", "close", "fsync", "lock", "lseek", "ftruncate", "fstat", "access"};
typedef struct { int open, lock, dirty, lockfailed, opened, closed, wrote, closeerr; } FD;
#define NFD 4096
static FD F[NFD];
static int tracking;             /* wrappers watch and inject only while the library runs */
static int need_lock;            /* content may be touched only under a lock */
static int check_locks, check_close;
static long ncalls, kcalls[NK];
static int kind_of[200000];
static int read_done, write_done;     /* content accesses seen */
/* faults */
enum { A_NONE, A_ERR, A_ERRALL, A_SHORT, A_EINTR };
static const char *AN[] = {"none", "one error", "persistent error", "short count", "interrupted"};
static long f_at; static int f_act, f_kind;
static int rand_short;                /* percentage of short counts / interruptions on healthy transfers */
static int close_failed;
static int f_errno = EIO;             /* what an injected error says */
static int rerr(void) { static const int E_[] = {EIO, ENOSPC, EBADF, EDQUOT, EFBIG, ENXIO, EISDIR, EINVAL, EFAULT, EPERM, ETIMEDOUT, ENOLCK, EDEADLK, ESTALE, ENOMEM, EPIPE}; return rn(2) ? EIO : E_[rn(16)]; }

static int hit(int k, int fd) {
  int a = A_NONE;
  if (!tracking) return A_NONE;
  if (ncalls < 200000) kind_of[ncalls] = k;
  if (f_act) {
    if (ncalls == f_at) { f_kind = k; a = f_act; }
    else if (f_act == A_ERRALL && ncalls > f_at && k == f_kind) a = A_ERRALL;
  }
  ncalls++; kcalls[k]++;
  CHECK(kcalls[k] < 3000000, "the operation does not terminate: %ld %s calls", kcalls[k], KN[k]);
  if (a == A_NONE && (k == K_READ || k == K_WRITE) && rand_short && rn(100) < rand_short) a = rn(4) ? A_SHORT : A_EINTR;
  return a;
}
static int fails(int a) {
  if (a == A_ERR || a == A_ERRALL) { errno = f_errno; return 1; }
  if (a == A_EINTR) { errno = EINTR; return 1; }
  return 0;
}
#define REALSYM(r, n, ...) r __real_##n(__VA_ARGS__)
int __real_open(const char *, int, ...); int __real_openat(int, const char *, int, ...);
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
ssize_t __real_pread(int, void *, size_t, off_t); ssize_t __real_pwrite(int, const void *, size_t, off_t);
ssize_t __real_readv(int, const struct iovec *, int); ssize_t __real_writev(int, const struct iovec *, int);
int __real_close(int); int __real_fsync(int); int __real_fdatasync(int); int __real_flock(int, int);
int __real_fcntl(int, int, ...); int __real_lockf(int, int, off_t); off_t __real_lseek(int, off_t, int);
int __real_ftruncate(int, off_t); int __real_truncate(const char *, off_t); int __real_fstat(int, struct stat *);
int __real_access(const char *, int); int __real_usleep(useconds_t);

static int did_open(int fd, int flags) {
  if (fd >= 0 && tracking) {
    CHECK(fd < NFD, "descriptor too large");
    memset(&F[fd], 0, sizeof(FD));
    F[fd].open = 1; F[fd].opened = 1;
    if (need_lock && check_locks) CHECK(!(flags & O_TRUNC), "the file is emptied on open, before the lock is held");
  }
  return fd;
}
int __wrap_open(const char *p, int fl, ...) {
  mode_t m = 0;
  if (fl & (O_CREAT)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
  if (fails(hit(K_OPEN, -1))) return -1;
  return did_open(__real_open(p, fl, m), fl);
}
int __wrap_open64(const char *p, int fl, ...) {
  mode_t m = 0;
  if (fl & (O_CREAT)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
  return __wrap_open(p, fl, m);
}
int __wrap_creat(const char *p, mode_t m) { return __wrap_open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int __wrap_openat(int d, const char *p, int fl, ...) {
  mode_t m = 0;
  if (fl & (O_CREAT)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
  if (fails(hit(K_OPEN, -1))) return -1;
  return did_open(__real_openat(d, p, fl, m), fl);
}
static void known(int fd, const char *op) {
  if (!tracking) return;
  if (check_close || check_locks) CHECK(fd >= 0 && fd < NFD && F[fd].open, "%s on descriptor %d, which the library did not open or already closed", op, fd);
}
static void content(int fd, int wr, const char *op) {
  if (!tracking) return;
  known(fd, op);
  if (wr) write_done++; else read_done++;
  if (check_locks && need_lock && fd >= 0 && fd < NFD) {
    CHECK(!F[fd].lockfailed, "%s although the lock could not be obtained", op);
    CHECK(F[fd].lock >= (wr ? 2 : 1), "%s while the %s lock is not held", op, wr ? "exclusive" : "shared or exclusive");
  }
  if (wr && fd >= 0 && fd < NFD) { F[fd].dirty = 1; F[fd].wrote = 1; }
}
/* scripted transfers for C14 */
static int scripted; static char *sc_base; static size_t sc_size, sc_done; static long sc_calls, sc_eof; static int sc_mode;
static unsigned char *sc_data;
static ssize_t script(int fd, const void *buf, size_t n, int wr) {
  CHECK(fd == 900, "transfer on another descriptor");
  sc_calls++;
  CHECK(sc_calls < 2000000, "the transfer does not terminate");
  CHECK((const char *)buf == sc_base + sc_done, "transfer %ld starts %lld bytes into the buffer, expected %zu", sc_calls, (long long)((const char *)buf - sc_base), sc_done);
  CHECK(n <= sc_size - sc_done, "transfer of %zu bytes overruns the buffer (%zu left)", n, sc_size - sc_done);
  CHECK(n > 0, "empty transfer requested");
  /* mode: 0 healthy with splits, 1 with EINTR/EAGAIN bursts, 2 one hard error at some point, 3 persistent error, 4 EOF/zero */
  if (sc_mode >= 1 && sc_mode != 3 && rn(3) == 0) { errno = rn(2) ? EINTR : EAGAIN; return -1; }
  if (sc_mode == 2 && rn(6) == 0) { errno = EIO; return -1; }
  if (sc_mode == 3 && sc_done >= (size_t)sc_eof) { errno = f_errno; return -1; }
  size_t k = n > 0x7ffff000 ? 0x7ffff000 : n;
  if (sc_mode == 4) {
    if (sc_done >= (size_t)sc_eof) return 0;
    if (k > (size_t)sc_eof - sc_done) k = (size_t)sc_eof - sc_done;
  }
  if (sc_mode == 3 && k > (size_t)sc_eof - sc_done) k = (size_t)sc_eof - sc_done;
  int z = rn(4);
  if (sc_size > 100000000) { if (z == 0) k = 1 + rnd() % k; else if (z == 1 && k > 0x40000000) k = 0x40000000 + rnd() % 0x100; }
  else { if (z == 0) k = 1; else if (z == 1) k = 1 + rnd() % k; }
  if (sc_data) { if (wr) memcpy(sc_data + sc_done, buf, k); else memcpy((void *)buf, sc_data + sc_done, k); }
  sc_done += k;
  errno = rn(2) ? EINTR : EIO;      /* a successful call says nothing about errno */
  return (ssize_t)k;
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (scripted) return script(fd, b, n, 0);
  int a = hit(K_READ, fd);
  content(fd, 0, "read");
  if (fails(a)) return -1;
  if (a == A_SHORT && n > 1) n = 1 + rnd() % (n - 1);
  return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (scripted) return script(fd, b, n, 1);
  int a = hit(K_WRITE, fd);
  content(fd, 1, "write");
  if (fails(a)) return -1;
  if (a == A_SHORT && n > 1) n = 1 + rnd() % (n - 1);
  return __real_write(fd, b, n);
}
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) {
  int a = hit(K_READ, fd); content(fd, 0, "pread");
  if (fails(a)) return -1;
  if (a == A_SHORT && n > 1) n = 1 + rnd() % (n - 1);
  return __real_pread(fd, b, n, o);
}
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) {
  int a = hit(K_WRITE, fd); content(fd, 1, "pwrite");
  if (fails(a)) return -1;
  if (a == A_SHORT && n > 1) n = 1 + rnd() % (n - 1);
  return __real_pwrite(fd, b, n, o);
}
ssize_t __wrap_readv(int fd, const struct iovec *v, int n) { int a = hit(K_READ, fd); content(fd, 0, "readv"); return fails(a) ? -1 : __real_readv(fd, v, n); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) { int a = hit(K_WRITE, fd); content(fd, 1, "writev"); return fails(a) ? -1 : __real_writev(fd, v, n); }
int __wrap_close(int fd) {
  if (!tracking) return __real_close(fd);
  int a = hit(K_CLOSE, fd);
  known(fd, "close");
  if (fd >= 0 && fd < NFD && F[fd].open) {
    if (check_close) CHECK(!F[fd].dirty, "the file is closed without flushing what was written");
    F[fd].open = 0; F[fd].lock = 0; F[fd].closed++;
  }
  int r = __real_close(fd);          /* the descriptor is gone whatever is reported */
  if (fails(a)) { close_failed++; return -1; }
  return r;
}
int __wrap_fsync(int fd) {
  int a = hit(K_FSYNC, fd);
  known(fd, "fsync");
  if (tracking && fd >= 0 && fd < NFD) F[fd].dirty = 0;
  if (fails(a)) return -1;
  return 0;                          /* scratch files need not reach the disk */
}
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
static int locked(int fd, int what_, int r) {
  if (tracking && fd >= 0 && fd < NFD) {
    if (r == 0) { F[fd].lock = what_; F[fd].lockfailed = 0; }
    else if (what_) F[fd].lockfailed = 1;
  }
  return r;
}
int __wrap_flock(int fd, int op) {
  int a = hit(K_LOCK, fd);
  known(fd, "flock");
  int w = (op & LOCK_EX) ? 2 : (op & LOCK_SH) ? 1 : 0;
  if (fails(a)) return locked(fd, w, -1);
  return locked(fd, w, __real_flock(fd, op));
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd);
  void *p = va_arg(ap, void *);
  va_end(ap);
  if (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW) {
    int a = hit(K_LOCK, fd);
    known(fd, "fcntl");
    struct flock *l = p;
    int w = l->l_type == F_WRLCK ? 2 : l->l_type == F_RDLCK ? 1 : 0;
    if (tracking && check_locks) CHECK(l->l_whence == SEEK_SET && l->l_start == 0 && l->l_len == 0, "the lock does not cover the whole file");
    if (fails(a)) return locked(fd, w, -1);
    return locked(fd, w, __real_fcntl(fd, cmd, p));
  }
  return __real_fcntl(fd, cmd, p);
}
int __wrap_lockf(int fd, int cmd, off_t n) {
  int a = hit(K_LOCK, fd);
  known(fd, "lockf");
  int w = cmd == F_ULOCK ? 0 : 2;
  if (tracking && check_locks) CHECK(n == 0, "the lock does not cover the whole file");
  if (fails(a)) return locked(fd, w, -1);
  return locked(fd, w, __real_lockf(fd, cmd, n));
}
off_t __wrap_lseek(int fd, off_t o, int w) { int a = hit(K_LSEEK, fd); known(fd, "lseek"); return fails(a) ? (off_t)-1 : __real_lseek(fd, o, w); }
int __wrap_ftruncate(int fd, off_t n) { int a = hit(K_TRUNC, fd); content(fd, 1, "ftruncate"); return fails(a) ? -1 : __real_ftruncate(fd, n); }
int __wrap_truncate(const char *p, off_t n) {
  int a = hit(K_TRUNC, -1);
  if (tracking && need_lock && check_locks) {
    int ok = 0;
    for (int i = 0; i < NFD; i++) if (F[i].open && F[i].lock == 2) ok = 1;
    CHECK(ok, "truncate while the exclusive lock is not held");
  }
  return fails(a) ? -1 : __real_truncate(p, n);
}
int __wrap_fstat(int fd, struct stat *s) { int a = hit(K_FSTAT, fd); known(fd, "fstat"); return fails(a) ? -1 : __real_fstat(fd, s); }
int __wrap_access(const char *p, int m) { return fails(hit(K_ACCESS, -1)) ? -1 : __real_access(p, m); }
int __wrap_usleep(useconds_t u) { return 0; }

static void lib_start(void) {
  memset(F, 0, sizeof F);
  ncalls = 0; memset(kcalls, 0, sizeof kcalls); read_done = write_done = 0; close_failed = 0; f_kind = -1;
  tracking = 1;
}
static void lib_stop(void) { tracking = 0; }
static void all_closed(const char *op) {
  if (!check_close) return;
  for (int i = 0; i < NFD; i++) if (F[i].opened) {
    CHECK(!F[i].open, "%s leaves descriptor %d open", op, i);
    CHECK(F[i].closed == 1, "%s closes descriptor %d %d times", op, i, F[i].closed);
  }
}

