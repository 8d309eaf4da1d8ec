/* LD_PRELOAD: ends the process inside the saving of the cache.  Operations that change a file whose name contains
   ".aquascope-cache" (or that it is renamed to) are counted; the process dies before operation number CRASH_OP, or, with
   CRASH_BYTES=n, in the middle of writing, when n bytes have been written to such a file. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static long ops, bytes;
static long env(const char *n) { const char *s = getenv(n); return s ? atol(s) : -1; }
static int ours(int fd) {
  char p[64], t[4096]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(p, t, sizeof t - 1);
  if (n <= 0) return 0;
  t[n] = 0;
  return strstr(t, ".aquascope-cache") != 0;
}
static void op(void) { if (__atomic_fetch_add(&ops, 1, __ATOMIC_SEQ_CST) == env("CRASH_OP")) _exit(77); }
#define REAL(name) __typeof__(&name) real = dlsym(RTLD_NEXT, #name)
ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  if (ours(fd)) {
    op();
    long lim = env("CRASH_BYTES");
    if (lim >= 0) {
      if (bytes + (long)n > lim) { real(fd, b, lim - bytes); _exit(77); }
      bytes += n;
    }
  }
  return real(fd, b, n);
}
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (ours(fd)) op(); return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (ours(fd)) op(); return real(fd, n); }
int rename(const char *a, const char *b) { REAL(rename); if (strstr(b, ".aquascope-cache")) op(); return real(a, b); }
int unlink(const char *a) { REAL(unlink); if (strstr(a, ".aquascope-cache")) op(); return real(a); }
