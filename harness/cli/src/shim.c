/* Fault injector, preloaded into the tool under test.
   MC_FAULT=op:index:action  the index-th call of op fails with errno `action`, or kills the process (action 0)
   MC_SHORT=n                reads and writes transfer at most n bytes
   Only calls on descriptors opened by the tool below MC_ROOT, and standard output, count. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
static int count[5], target = -1, at = -1, action, lim, ready;
static char ours[4096];
static const char *root;
static void init(void) {
  if (ready) return;
  ready = 1;
  root = getenv("MC_ROOT");
  if (getenv("MC_SHORT")) lim = atoi(getenv("MC_SHORT"));
  char *f = getenv("MC_FAULT");
  if (f) { target = strchr("orwm", f[0]) - "orwm"; char *p = strchr(f, ':') + 1; at = atoi(p); action = atoi(strchr(p, ':') + 1); }
}
/* 0: go on; otherwise the call fails */
static int fault(int op) {
  if (target == op && count[op]++ == at) {
    if (!action) _exit(137);
    errno = action;
    return 1;
  }
  return 0;
}
static int mine(int fd) { return fd == 1 || (fd >= 0 && fd < 4096 && ours[fd]); }
static int opened(const char *path, int flags, mode_t mode, const char *sym) {
  init();
  int (*real)(const char *, int, ...) = dlsym(RTLD_NEXT, sym);
  int in = root && (path[0] != '/' || !strncmp(path, root, strlen(root)));
  if (in && !(flags & O_DIRECTORY) && fault(0)) return -1;
  int fd = real(path, flags, mode);
  if (in && fd >= 0 && fd < 4096) ours[fd] = 1;
  return fd;
}
#define MODE(fl) mode_t m = 0; if ((fl) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { MODE(fl) return opened(p, fl, m, "open"); }
int open64(const char *p, int fl, ...) { MODE(fl) return opened(p, fl, m, "open64"); }
ssize_t read(int fd, void *b, size_t n) {
  init();
  ssize_t (*real)(int, void *, size_t) = dlsym(RTLD_NEXT, "read");
  if (mine(fd)) { if (fault(1)) return -1; if (lim && n > (size_t)lim) n = lim; }
  return real(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  init();
  ssize_t (*real)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
  if (mine(fd)) { if (fault(2)) return -1; if (lim && n > (size_t)lim) n = lim; }
  return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  for (int i = 0; i < n; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
int close(int fd) {
  int (*real)(int) = dlsym(RTLD_NEXT, "close");
  if (fd > 2 && fd < 4096) ours[fd] = 0;
  return real(fd);
}
int mkdir(const char *p, mode_t m) {
  init();
  int (*real)(const char *, mode_t) = dlsym(RTLD_NEXT, "mkdir");
  if (fault(3)) return -1;
  return real(p, m);
}
