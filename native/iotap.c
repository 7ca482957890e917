// LD_PRELOAD shim: reports every file modification below a watched directory to a callback, before it happens.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

typedef void (*tap_t)(int kind, const char *path, long off, const void *data, long len);
static tap_t tap = 0;
static char watch[4096];
static size_t nwatch = 0;
static __thread int inside = 0;

void iotap_set(tap_t t, const char *dir) { tap = t; strncpy(watch, dir, sizeof watch - 1); nwatch = strlen(watch); }

static int fdpath(int fd, char *buf, size_t n) {
  char p[64];
  snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  ssize_t r = readlink(p, buf, n - 1);
  if (r <= 0) return 0;
  buf[r] = 0;
  return nwatch && strncmp(buf, watch, nwatch) == 0;
}
static void note_fd(int kind, int fd, long off, const void *data, long len) {
  char buf[4096];
  if (!tap || inside) return;
  if (fdpath(fd, buf, sizeof buf)) { inside = 1; tap(kind, buf, off, data, len); inside = 0; }
}
static void note_path(int kind, const char *path, const char *to) {
  if (!tap || inside || !path) return;
  if (nwatch && strncmp(path, watch, nwatch) == 0) { inside = 1; tap(kind, path, 0, to ? to : "", to ? (long)strlen(to) : 0); inside = 0; }
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = 0; if (!real) real = dlsym(RTLD_NEXT, #name)

ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t); note_fd(1, fd, o, b, n); return real(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, pwrite, int, const void *, size_t, off_t); note_fd(1, fd, o, b, n); return real(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); if (tap && !inside && fd > 2) { long o = lseek(fd, 0, SEEK_CUR); if (o >= 0) { int fl = fcntl(fd, F_GETFL); if (fl >= 0 && (fl & O_APPEND)) o = -1; note_fd(1, fd, o, b, n); } } return real(fd, b, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); note_fd(2, fd, n, "", 0); return real(fd, n); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); note_fd(2, fd, n, "", 0); return real(fd, n); }
int unlink(const char *p) { REAL(int, unlink, const char *); note_path(3, p, 0); return real(p); }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); note_path(4, a, b); return real(a, b); }
