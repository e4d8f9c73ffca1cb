/* numbered file-changing calls, preloaded into the generator by C24: logs them, and at number MC_AT does what MC_MODE says
   (stop: end the process before the call; half: make half of the write, then end; error: this call fails; full: this and all later writes fail; pause: run MC_HOOK first; directory: no directory can be made) */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
static int count, at = -2, log_fd = -1, full; static char mode = ' ';
#define NEXT(f) __typeof__(f) *next = (__typeof__(f) *)dlsym(RTLD_NEXT, #f)
static void init(void) {
  if (at != -2) return;
  const char *a = getenv("MC_AT"), *m = getenv("MC_MODE"), *l = getenv("MC_LOG"); at = a ? atoi(a) : -1; mode = m ? m[0] : ' ';
  if (l) { int f = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0644); if (f >= 0) { log_fd = fcntl(f, F_DUPFD_CLOEXEC, 500); syscall(SYS_close, f); } }
}
/* 0: go on, 1: make half of it and end, -1: fail */
static int event(const char *what, const char *path, int writes) {
  init(); int k = count++;
  if (log_fd >= 0) { char b[9000], cwd[4096] = ""; if (path && path[0] != '/') if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0; int n = snprintf(b, sizeof b, "%d %s %s%s%s\n", k, what, cwd, cwd[0] ? "/" : "", path ? path : "-"); syscall(SYS_write, log_fd, b, n); }
  if (full && writes) { errno = ENOSPC; return -1; }
  if (mode == 'd' && !strcmp(what, "mkdir")) { errno = EACCES; return -1; }
  if (k != at) return 0;
  if (mode == 's') _exit(137);
  if (mode == 'h') { if (!writes) _exit(137); return 1; }
  if (mode == 'e') { errno = writes ? EIO : EACCES; return -1; }
  if (mode == 'f') { full = 1; if (writes) { errno = ENOSPC; return -1; } return 0; }
  if (mode == 'p') { int e = errno; const char *h = getenv("MC_HOOK"); unsetenv("LD_PRELOAD"); if (h && system(h)) {} errno = e; }
  return 0;
}
static const char *of(int fd, char *b) { char n[64]; snprintf(n, sizeof n, "/proc/self/fd/%d", fd); int l = readlink(n, b, 4095); b[l < 0 ? 0 : l] = 0; return b; }
static int regular(int fd) { struct stat s; return fd > 2 && fd != log_fd && !fstat(fd, &s) && S_ISREG(s.st_mode); }
static int changes(int fl) { return (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)); }
#define OPEN(name) int name(const char *p, int fl, ...) { NEXT(name); va_list v; va_start(v, fl); mode_t m = va_arg(v, int); va_end(v); if (changes(fl) && event("open", p, 0) < 0) return -1; return next(p, fl, m); }
OPEN(open) OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int fl, ...) { NEXT(name); va_list v; va_start(v, fl); mode_t m = va_arg(v, int); va_end(v); if (changes(fl) && event("open", p, 0) < 0) return -1; return next(d, p, fl, m); }
OPENAT(openat) OPENAT(openat64)
int creat(const char *p, mode_t m) { NEXT(creat); if (event("open", p, 0) < 0) return -1; return next(p, m); }
#define FOPEN(name) FILE *name(const char *p, const char *m) { NEXT(name); if ((m[0] != 'r' || strchr(m, '+')) && event("open", p, 0) < 0) return NULL; return next(p, m); }
FOPEN(fopen) FOPEN(fopen64)
ssize_t write(int fd, const void *b, size_t n) { if (!regular(fd)) return syscall(SYS_write, fd, b, n); char t[4096]; int e = event("write", of(fd, t), 1); if (e < 0) return -1; if (e) { syscall(SYS_write, fd, b, n / 2); _exit(137); } return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int n) { if (!regular(fd)) return syscall(SYS_writev, fd, v, n); char t[4096]; int e = event("write", of(fd, t), 1); if (e < 0) return -1; if (e) { for (int i = 0; i < n; i++) syscall(SYS_write, fd, v[i].iov_base, i + 1 < n ? v[i].iov_len : v[i].iov_len / 2); _exit(137); } return syscall(SYS_writev, fd, v, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { char t[4096]; int e = event("write", of(fd, t), 1); if (e < 0) return -1; if (e) { syscall(SYS_pwrite64, fd, b, n / 2, o); _exit(137); } return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t sendfile(int o, int i, off_t *f, size_t n) { NEXT(sendfile); char t[4096]; int e = event("write", of(o, t), 1); if (e < 0) return -1; if (e) { next(o, i, f, n / 2); _exit(137); } return next(o, i, f, n); }
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) { NEXT(sendfile64); char t[4096]; int e = event("write", of(o, t), 1); if (e < 0) return -1; if (e) { next(o, i, f, n / 2); _exit(137); } return next(o, i, f, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *f, size_t n, unsigned g) { NEXT(copy_file_range); char t[4096]; int e = event("write", of(o, t), 1); if (e < 0) return -1; if (e) { next(i, a, o, f, n / 2, g); _exit(137); } return next(i, a, o, f, n, g); }
int ftruncate(int fd, off_t n) { NEXT(ftruncate); char t[4096]; if (event("truncate", of(fd, t), 0) < 0) return -1; return next(fd, n); }
int truncate(const char *p, off_t n) { NEXT(truncate); if (event("truncate", p, 0) < 0) return -1; return next(p, n); }
int rename(const char *a, const char *b) { NEXT(rename); event("rename-from", a, 0); if (event("rename", b, 0) < 0) return -1; return next(a, b); }
int link(const char *a, const char *b) { NEXT(link); if (event("link", b, 0) < 0) return -1; return next(a, b); }
int symlink(const char *a, const char *b) { NEXT(symlink); if (event("link", b, 0) < 0) return -1; return next(a, b); }
int unlink(const char *p) { NEXT(unlink); if (event("remove", p, 0) < 0) return -1; return next(p); }
int unlinkat(int d, const char *p, int f) { NEXT(unlinkat); if (event("remove", p, 0) < 0) return -1; return next(d, p, f); }
int remove(const char *p) { NEXT(remove); if (event("remove", p, 0) < 0) return -1; return next(p); }
int rmdir(const char *p) { NEXT(rmdir); if (event("remove", p, 0) < 0) return -1; return next(p); }
int mkdir(const char *p, mode_t m) { NEXT(mkdir); if (event("mkdir", p, 0) < 0) return -1; return next(p, m); }
int chmod(const char *p, mode_t m) { NEXT(chmod); if (event("chmod", p, 0) < 0) return -1; return next(p, m); }
int fchmod(int fd, mode_t m) { NEXT(fchmod); char t[4096]; if (event("chmod", of(fd, t), 0) < 0) return -1; return next(fd, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { NEXT(fchmodat); if (event("chmod", p, 0) < 0) return -1; return next(d, p, m, f); }
