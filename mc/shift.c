/* another day, another host, another user and another process number: preloaded into the generator by C18 */
#define _GNU_SOURCE
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/utsname.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#define SHIFT (401L * 86400 + 11 * 3600 + 1234)
time_t time(time_t *t) { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); time_t r = s.tv_sec + SHIFT; if (t) *t = r; return r; }
int gettimeofday(struct timeval *v, void *z) { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); (void)z; if (v) { v->tv_sec = s.tv_sec + SHIFT; v->tv_usec = s.tv_nsec / 1000; } return 0; }
int clock_gettime(clockid_t c, struct timespec *s) { int r = syscall(SYS_clock_gettime, c, s); if (!r && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) s->tv_sec += SHIFT; return r; }
int gethostname(char *n, size_t l) { strncpy(n, "another-host", l); return 0; }
int uname(struct utsname *u) { int r = syscall(SYS_uname, u); strcpy(u->nodename, "another-host"); return r; }
pid_t getpid(void) { return syscall(SYS_getpid) + 100000; }
uid_t getuid(void) { return 4321; }
uid_t geteuid(void) { return 4321; }
char *getlogin(void) { return (char *)"someone"; }
