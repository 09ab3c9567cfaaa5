/* LD_PRELOAD shim: observes the operations of one process on checkpoint files.
     SHIM_SNAP=DIR   after every operation copy all checkpoint files of the working directory to DIR/NNNNN
     SHIM_LOG=FILE   one line per operation
     SHIM_KILL=N     end the process (as a crash does) instead of performing operation N
     SHIM_RANK=R     only rank R (OMPI_COMM_WORLD_RANK) is observed / ended */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#define REAL(ret, name, ...) \
  static ret (*real)(__VA_ARGS__); \
  if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static __thread int busy;
static long count;
static int fds[4096];

static int active(void)
{
  static int a = -1;
  if (a < 0) {
    const char *r = getenv("OMPI_COMM_WORLD_RANK"), *w = getenv("SHIM_RANK");
    a = (getenv("SHIM_SNAP") || getenv("SHIM_KILL") || getenv("SHIM_LOG")) && (!w || !r || !strcmp(w, r));
  }
  return a && !busy;
}

static int ours(const char *p)
{
  if (!p) return 0;
  const char *b = strrchr(p, '/');
  b = b ? b + 1 : p;
  return strstr(b, "checkpoint") != NULL && strstr(b, ".lock") == NULL && strstr(b, "_cid-") == NULL;
}

static void copy(const char *from, const char *to)
{
  static int (*ropen)(const char *, int, ...);
  if (!ropen) ropen = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
  static ssize_t (*rwrite)(int, const void *, size_t);
  if (!rwrite) rwrite = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
  static int (*rclose)(int);
  if (!rclose) rclose = (int (*)(int))dlsym(RTLD_NEXT, "close");
  int i = ropen(from, O_RDONLY), o = ropen(to, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  char buf[65536];
  ssize_t n;
  while (i >= 0 && o >= 0 && (n = read(i, buf, sizeof buf)) > 0)
    if (rwrite(o, buf, n) != n) break;
  if (i >= 0) rclose(i);
  if (o >= 0) rclose(o);
}

static void before(void)
{
  const char *k = getenv("SHIM_KILL");
  if (k && count == atol(k)) _exit(137);
}

static void after(const char *op, const char *path)
{
  busy = 1;
  const char *l = getenv("SHIM_LOG"), *s = getenv("SHIM_SNAP");
  if (l) {
    FILE *f = fopen(l, "a");
    if (f) fprintf(f, "%ld %s %s\n", count, op, path ? path : ""), fclose(f);
  }
  if (s) {
    char d[4096], a[8192];
    snprintf(d, sizeof d, "%s/%05ld", s, count);
    mkdir(d, 0755);
    DIR *dir = opendir(".");
    struct dirent *e;
    while (dir && (e = readdir(dir)))
      if (ours(e->d_name)) {
        snprintf(a, sizeof a, "%s/%s", d, e->d_name);
        copy(e->d_name, a);
      }
    if (dir) closedir(dir);
  }
  ++count;
  busy = 0;
}

static void reg(int fd, const char *path, int on) { (void)path; if (fd >= 0 && fd < 4096) fds[fd] = on; }

#define OPENLIKE(name) \
int name(const char *path, int flags, ...) \
{ \
  REAL(int, name, const char *, int, ...); \
  mode_t m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
  const int w = active() && ours(path) && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)); \
  if (w) before(); \
  const int fd = real(path, flags, m); \
  reg(fd, path, w); \
  if (w && fd >= 0) after("open", path); \
  return fd; \
}
OPENLIKE(open)
OPENLIKE(open64)

int openat(int at, const char *path, int flags, ...)
{
  REAL(int, openat, int, const char *, int, ...);
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  const int w = active() && ours(path) && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC));
  if (w) before();
  const int fd = real(at, path, flags, m);
  reg(fd, path, w);
  if (w && fd >= 0) after("open", path);
  return fd;
}

#define FOPENLIKE(name) \
FILE *name(const char *path, const char *mode) \
{ \
  REAL(FILE *, name, const char *, const char *); \
  const int w = active() && ours(path) && strpbrk(mode, "wa+"); \
  if (w) before(); \
  FILE *f = real(path, mode); \
  if (f) reg(fileno(f), path, w); \
  if (w && f) after("fopen", path); \
  return f; \
}
FOPENLIKE(fopen)
FOPENLIKE(fopen64)

static int mine(int fd) { return fd >= 0 && fd < 4096 && fds[fd] && active(); }

#define WRAP(ret, name, params, args, fd, op) \
ret name params \
{ \
  static ret (*real) params; \
  if (!real) real = (ret (*) params)dlsym(RTLD_NEXT, #name); \
  const int w = mine(fd); \
  if (w) before(); \
  ret r = real args; \
  if (w) after(op, 0); \
  return r; \
}
WRAP(ssize_t, write, (int f, const void *b, size_t n), (f, b, n), f, "write")
WRAP(ssize_t, pwrite, (int f, const void *b, size_t n, off_t o), (f, b, n, o), f, "write")
WRAP(ssize_t, pwrite64, (int f, const void *b, size_t n, off64_t o), (f, b, n, o), f, "write")
WRAP(ssize_t, writev, (int f, const struct iovec *v, int n), (f, v, n), f, "write")
WRAP(ssize_t, pwritev, (int f, const struct iovec *v, int n, off_t o), (f, v, n, o), f, "write")
WRAP(ssize_t, pwritev64, (int f, const struct iovec *v, int n, off64_t o), (f, v, n, o), f, "write")
WRAP(int, ftruncate, (int f, off_t o), (f, o), f, "truncate")
WRAP(int, ftruncate64, (int f, off64_t o), (f, o), f, "truncate")

size_t fwrite(const void *b, size_t s, size_t n, FILE *f)
{
  REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
  const int w = f && mine(fileno(f));
  if (w) before();
  const size_t r = real(b, s, n, f);
  if (w) { busy = 1; fflush(f); busy = 0; after("fwrite", 0); }
  return r;
}
int fclose(FILE *f)
{
  REAL(int, fclose, FILE *);
  const int fd = f ? fileno(f) : -1, w = mine(fd);
  if (w) before();
  const int r = real(f);
  if (fd >= 0 && fd < 4096) fds[fd] = 0;
  if (w) after("close", 0);
  return r;
}
int close(int fd)
{
  REAL(int, close, int);
  const int w = mine(fd);
  if (w) before();
  const int r = real(fd);
  if (fd >= 0 && fd < 4096) fds[fd] = 0;
  if (w) after("close", 0);
  return r;
}
int rename(const char *a, const char *b)
{
  REAL(int, rename, const char *, const char *);
  const int w = active() && (ours(a) || ours(b));
  if (w) before();
  const int r = real(a, b);
  if (w && r == 0) after("rename", a);
  return r;
}
int renameat(int x, const char *a, int y, const char *b)
{
  REAL(int, renameat, int, const char *, int, const char *);
  const int w = active() && (ours(a) || ours(b));
  if (w) before();
  const int r = real(x, a, y, b);
  if (w && r == 0) after("rename", a);
  return r;
}
int renameat2(int x, const char *a, int y, const char *b, unsigned fl)
{
  REAL(int, renameat2, int, const char *, int, const char *, unsigned);
  const int w = active() && (ours(a) || ours(b));
  if (w) before();
  const int r = real(x, a, y, b, fl);
  if (w && r == 0) after("rename", a);
  return r;
}
#define PATHOP(name, op) \
int name(const char *a) \
{ \
  REAL(int, name, const char *); \
  const int w = active() && ours(a); \
  if (w) before(); \
  const int r = real(a); \
  if (w && r == 0) after(op, a); \
  return r; \
}
PATHOP(unlink, "unlink")
PATHOP(remove, "unlink")
int unlinkat(int d, const char *a, int fl)
{
  REAL(int, unlinkat, int, const char *, int);
  const int w = active() && ours(a);
  if (w) before();
  const int r = real(d, a, fl);
  if (w && r == 0) after("unlink", a);
  return r;
}
int truncate(const char *a, off_t n)
{
  REAL(int, truncate, const char *, off_t);
  const int w = active() && ours(a);
  if (w) before();
  const int r = real(a, n);
  if (w && r == 0) after("truncate", a);
  return r;
}
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned fl)
{
  REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
  const int w = mine(o);
  if (w) before();
  const ssize_t r = real(i, oi, o, oo, n, fl);
  if (w) after("write", 0);
  return r;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n)
{
  REAL(ssize_t, sendfile, int, int, off_t *, size_t);
  const int w = mine(o);
  if (w) before();
  const ssize_t r = real(o, i, off, n);
  if (w) after("write", 0);
  return r;
}
