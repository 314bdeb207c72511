/* Storage seam of the Python-side simulator: every operation of this process that changes
 * the file system below one directory is numbered, recorded in a hash, and can be made the
 * point where the process dies, or where the operation fails.  Nothing happens before
 * shim_arm() or outside the armed directory. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { CRASH_BEFORE, CRASH_AFTER, CRASH_TORN, FAIL, SHORT_FAIL, SHORT_OK, FAIL_ALL };
#define NF 64
static struct { long n; int act; long arg; int fired; } flt[NF];
static int nflt, armed, noerr, sticky;
static long count;
static uint64_t hash;
static char pre[PATH_MAX];
static size_t prelen;
static signed char fdin[4096];
static char lastop[64];

long shim_count(void) { return count; }
uint64_t shim_hash(void) { return hash; }
int shim_fired(int i) { return i < nflt ? flt[i].fired : 0; }
void shim_noerr(int v) { noerr = v; }
const char *shim_last(void) { return lastop; }
void shim_fault(long n, int act, long arg) {
  if (nflt < NF) { flt[nflt].n = n; flt[nflt].act = act; flt[nflt].arg = arg; nflt++; }
}
void shim_arm(const char *dir) {
  snprintf(pre, sizeof pre, "%s", dir);
  prelen = strlen(pre);
  armed = 1;
  count = 0; hash = 1469598103934665603ull; sticky = 0;
}
void shim_disarm(void) { armed = 0; }

static int logfd = -1;
void shim_log(int fd) { logfd = fd; }

static int inside(int dirfd, const char *p) {
  char b[PATH_MAX * 2], c[PATH_MAX];
  if (!armed || !p) return 0;
  if (p[0] == '/') snprintf(b, sizeof b, "%s", p);
  else {
    if (dirfd == AT_FDCWD) { if (!getcwd(c, sizeof c)) return 0; }
    else {
      char l[64];
      snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
      ssize_t k = readlink(l, c, sizeof c - 1);
      if (k < 0) return 0;
      c[k] = 0;
    }
    snprintf(b, sizeof b, "%s/%s", c, p);
  }
  return strncmp(b, pre, prelen) == 0 && (b[prelen] == '/' || b[prelen] == 0);
}

static void note(const char *k, const char *p, long extra) {
  const char *s = p ? p : "";
  if (strncmp(s, pre, prelen) == 0) s += prelen;
  for (const char *q = k; *q; q++) hash = (hash ^ (unsigned char)*q) * 1099511628211ull;
  for (const char *q = s; *q; q++) hash = (hash ^ (unsigned char)*q) * 1099511628211ull;
  hash = (hash ^ (uint64_t)extra) * 1099511628211ull;
}

static void die(const char *what, long n, int act) {
  if (logfd >= 0) {
    char b[256];
    int k = snprintf(b, sizeof b, "{\"ev\": \"crash\", \"n\": %ld, \"act\": %d, \"op\": \"%s\", \"hash\": \"%lx\"}\n", n, act, what, (unsigned long)hash);
    syscall(SYS_write, logfd, b, k);
  }
  syscall(SYS_exit_group, 137);
}

/* returns the index of the fault for this operation or -1 */
static int point(const char *k, const char *p, long extra) {
  count++;
  note(k, p, extra);
  snprintf(lastop, sizeof lastop, "%s", k);
  int hit = -1;
  for (int i = 0; i < nflt; i++)
    if (flt[i].n == count && !(noerr && flt[i].act >= FAIL)) hit = i;
  if (hit >= 0) {
    flt[hit].fired = 1;
    if (flt[hit].act == FAIL_ALL) sticky = (int)flt[hit].arg;
    if (flt[hit].act == CRASH_BEFORE) die(k, count, CRASH_BEFORE);
  }
  return hit;
}
static int fails(int h) { return (h >= 0 && (flt[h].act == FAIL || flt[h].act == FAIL_ALL || flt[h].act == SHORT_FAIL)) || (sticky && !noerr); }
static int err(int h) { return sticky && !noerr ? sticky : (flt[h].act == SHORT_FAIL ? ENOSPC : (int)flt[h].arg); }
static void after(int h, const char *k) {
  if (h >= 0 && (flt[h].act == CRASH_AFTER || flt[h].act == CRASH_TORN)) die(k, count, CRASH_AFTER);
}

#define REAL(name) \
  static __typeof__(name) *r_##name; \
  if (!r_##name) r_##name = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static int do_open(int dirfd, const char *p, int fl, mode_t m) {
  int in = inside(dirfd, p) && (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC));
  int h = -1;
  if (in) {
    h = point("open", p, fl & (O_CREAT | O_TRUNC | O_EXCL | O_APPEND));
    if (fails(h)) { errno = err(h); return -1; }
  }
  int fd = (int)syscall(SYS_openat, dirfd, p, fl, m);
  if (fd >= 0 && fd < 4096) fdin[fd] = (signed char)in;
  if (in) { int e = errno; after(h, "open"); errno = e; }
  return fd;
}
#define GETMODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { GETMODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { GETMODE return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { GETMODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { GETMODE return do_open(d, p, fl, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
  if (fd >= 0 && fd < 4096) fdin[fd] = 0;
  return (int)syscall(SYS_close, fd);
}
int dup2(int a, int b) {
  int r = (int)syscall(SYS_dup2, a, b);
  if (r >= 0 && r < 4096 && a >= 0 && a < 4096) fdin[r] = fdin[a];
  return r;
}

static ssize_t do_write(int fd, const void *b, size_t n, long off) {
  int in = armed && fd >= 0 && fd < 4096 && fdin[fd];
  if (!in) return off < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, off);
  int h = point("write", "", (long)n);
  size_t k = n;
  if (h >= 0 && (flt[h].act == CRASH_TORN || flt[h].act == SHORT_FAIL || flt[h].act == SHORT_OK)) {
    k = n * (size_t)(flt[h].arg % 1000) / 1000;
    if (flt[h].act == SHORT_OK && k == 0) k = 1;
    if (flt[h].act == SHORT_FAIL) sticky = ENOSPC;
    if (k == 0 && flt[h].act == SHORT_FAIL) { errno = ENOSPC; return -1; }
  } else if (fails(h)) { errno = err(h); return -1; }
  ssize_t r = off < 0 ? syscall(SYS_write, fd, b, k) : syscall(SYS_pwrite64, fd, b, k, off);
  after(h, "write");
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!(armed && fd >= 0 && fd < 4096 && fdin[fd])) return syscall(SYS_writev, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { (void)o; (void)i; (void)off; (void)n; errno = ENOSYS; return -1; }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { (void)o; (void)i; (void)off; (void)n; errno = ENOSYS; return -1; }
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = EXDEV; return -1; }

static int do_trunc(int fd, off_t n) {
  int in = armed && fd >= 0 && fd < 4096 && fdin[fd], h = -1;
  if (in) { h = point("ftruncate", "", n); if (fails(h)) { errno = err(h); return -1; } }
  int r = (int)syscall(SYS_ftruncate, fd, n);
  if (in) after(h, "ftruncate");
  return r;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_trunc(fd, n); }
static int do_sync(int fd) {
  int in = armed && fd >= 0 && fd < 4096 && fdin[fd], h = -1;
  if (in) { h = point("fsync", "", 0); if (fails(h)) { errno = err(h); return -1; } after(h, "fsync"); }
  return 0;
}
int fsync(int fd) { return do_sync(fd); }
int fdatasync(int fd) { return do_sync(fd); }

#define PATHOP(cond, k, p, callexpr) \
  int in = (cond), h = -1; \
  if (in) { h = point(k, p, 0); if (fails(h)) { errno = err(h); return -1; } } \
  int r = (int)(callexpr); \
  if (in) { int e = errno; after(h, k); errno = e; } \
  return r;
int mkdir(const char *p, mode_t m) { PATHOP(inside(AT_FDCWD, p), "mkdir", p, syscall(SYS_mkdir, p, m)) }
int mkdirat(int d, const char *p, mode_t m) { PATHOP(inside(d, p), "mkdir", p, syscall(SYS_mkdirat, d, p, m)) }
int rmdir(const char *p) { PATHOP(inside(AT_FDCWD, p), "rmdir", p, syscall(SYS_rmdir, p)) }
int unlink(const char *p) { PATHOP(inside(AT_FDCWD, p), "unlink", p, syscall(SYS_unlink, p)) }
int remove(const char *p) { struct stat s; if (lstat(p, &s) == 0 && S_ISDIR(s.st_mode)) return rmdir(p); return unlink(p); }
int unlinkat(int d, const char *p, int f) { PATHOP(inside(d, p), "unlink", p, syscall(SYS_unlinkat, d, p, f)) }
int rename(const char *a, const char *b) { PATHOP(inside(AT_FDCWD, b) || inside(AT_FDCWD, a), "rename", b, syscall(SYS_rename, a, b)) }
int renameat(int d, const char *a, int e2, const char *b) { PATHOP(inside(e2, b), "rename", b, syscall(SYS_renameat, d, a, e2, b)) }
int symlink(const char *a, const char *b) { PATHOP(inside(AT_FDCWD, b), "symlink", b, syscall(SYS_symlink, a, b)) }
int symlinkat(const char *a, int d, const char *b) { PATHOP(inside(d, b), "symlink", b, syscall(SYS_symlinkat, a, d, b)) }
int link(const char *a, const char *b) { PATHOP(inside(AT_FDCWD, b), "link", b, syscall(SYS_link, a, b)) }
int truncate(const char *a, off_t n) { PATHOP(inside(AT_FDCWD, a), "truncate", a, syscall(SYS_truncate, a, n)) }

static FILE *do_fopen(const char *p, const char *m, const char *sym) {
  FILE *(*f)(const char *, const char *) = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, sym);
  int in = strpbrk(m, "wa+") && inside(AT_FDCWD, p), h = -1;
  if (in) { h = point("open", p, 1); if (fails(h)) { errno = err(h); return NULL; } }
  FILE *r = f(p, m);
  if (r) { int fd = fileno(r); if (fd >= 0 && fd < 4096) fdin[fd] = (signed char)in; }
  if (in) after(h, "open");
  return r;
}
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m, "fopen64"); }

/* address randomisation: what the session asked for; the real one is left alone */
static unsigned long pers;
int personality(unsigned long p) {
  int o = (int)pers;
  if (p != 0xffffffffUL)
    pers = p;
  return o;
}
long shim_personality(void) { return (long)pers; }
