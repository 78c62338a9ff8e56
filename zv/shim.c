/* Linked into the instrumented binaries: makes a run a function of its environment.
 *   ZV_SEED=n        rand() is a deterministic 31-bit generator seeded by n, srand() is ignored
 *   ZV_RAND=max|zero|mixN   every / about one in N rand() result is RAND_MAX or 0 (hostile but legal draws)
 *   ZV_CLOCK=x       gettimeofday()/time() are virtual: each call advances by at least 0.001*x s and 0.04 %
 *   ZV_CLOCK_JUMP=n  at the n-th gettimeofday() call the virtual clock jumps 1000 s and only crawls from then on
 *   ZV_CLOCK_SIG=n   raise SIGINT at the n-th gettimeofday() call
 *   ZV_SIG_ARM=m     raise SIGINT at the m-th gettimeofday() call after a handler for it has been installed
 *   ZV_SIG_DELAY=us  ... not there, but by a timer this much later (in the middle of whatever runs then)
 *   ZV_SIG_REPEAT=us ... and again every so often
 *   ZV_KILL_AT=n     SIGKILL at the n-th file operation (fopen, write, writev to a file, rename, unlink, remove)
 *   ZV_KILL_MODE=before|half|after   relative to that operation (half: half of a write is done)
 *   ZV_PEAKS=file append one line per write: the position it reached, path
 *   ZV_KILL_LOG=file append one line per file operation: number, name, path
 *   ZV_FAIL_AT=n     the n-th file operation fails instead (ZV_FAIL_ERR: errno, default ENOSPC)
 *   ZV_FAIL_MODE=one|half|full|while   only that one; after half of it was written; every write from then on;
 *                    every write among the next ZV_FAIL_LEN operations
 *   ZV_TRACE=file    append the number of rand/clock calls at exit
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/uio.h>

static int inited, det, mode, mixn, vclock;
static long sig_at, nclock, nrand, jump_at;
static uint64_t st, orig;
static double vnow, vstep = 0.001;
static const char *trace, *klog, *peaks;
static long arm_at, narm, kill_at, nfile;
static int kill_mode; /* 0 before, 1 half, 2 after */
static long fail_at, fail_len;
static int fail_mode, fail_err = ENOSPC; /* 0 one, 1 half, 2 full, 3 while */
static long sig_delay = -1, sig_repeat;

static void (*user_int)(int);
static volatile sig_atomic_t was_int;
static double int_at;
static void at_end(void) {
  FILE *f = fopen(trace, "a");
  if (f) {
    fprintf(f, "rand %ld clock %ld now %.3f\n", nrand, nclock, vnow);
    if (was_int) fprintf(f, "sigint at %.3f\n", int_at);
    fclose(f);
  }
}
static void on_int(int s) {
  if (!was_int) { was_int = 1; int_at = vnow; }
  if (user_int) user_int(s);
}
static void init(void) {
  const char *s;
  if (inited) return;
  inited = 1;
  if ((s = getenv("ZV_SEED"))) { det = 1; st = strtoull(s, 0, 10) * 0x9E3779B97F4A7C15ull + 12345; }
  else st = 88172645463325252ull ^ (uint64_t)getpid();
  if ((s = getenv("ZV_RAND"))) {
    if (!strcmp(s, "max")) mode = 1;
    else if (!strcmp(s, "zero")) mode = 2;
    else if (!strncmp(s, "mix", 3)) { mode = 3; mixn = atoi(s + 3); if (mixn < 2) mixn = 2; }
  }
  if ((s = getenv("ZV_CLOCK"))) { vclock = 1; vstep = 0.001 * atof(s); }
  if ((s = getenv("ZV_CLOCK_JUMP"))) jump_at = atol(s);
  if ((s = getenv("ZV_CLOCK_SIG"))) sig_at = atol(s);
  if ((s = getenv("ZV_SIG_ARM"))) arm_at = atol(s);
  if ((s = getenv("ZV_SIG_DELAY"))) sig_delay = atol(s);
  if ((s = getenv("ZV_SIG_REPEAT"))) sig_repeat = atol(s);
  if ((s = getenv("ZV_KILL_AT"))) kill_at = atol(s);
  if ((s = getenv("ZV_KILL_MODE"))) kill_mode = !strcmp(s, "after") ? 2 : !strcmp(s, "half") ? 1 : 0;
  klog = getenv("ZV_KILL_LOG");
  peaks = getenv("ZV_PEAKS");
  if ((s = getenv("ZV_FAIL_AT"))) fail_at = atol(s);
  if ((s = getenv("ZV_FAIL_LEN"))) fail_len = atol(s);
  if ((s = getenv("ZV_FAIL_ERR"))) fail_err = atoi(s);
  if ((s = getenv("ZV_FAIL_MODE"))) fail_mode = !strcmp(s, "half") ? 1 : !strcmp(s, "full") ? 2 : !strcmp(s, "while") ? 3 : 0;
  if ((trace = getenv("ZV_TRACE"))) atexit(at_end);
}
static uint64_t next(void) {
  uint64_t z = (st += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
void srand(unsigned x) {
  init();
  if (!det) st = x * 0x9E3779B97F4A7C15ull + 777;
}
int rand(void) {
  init();
  nrand++;
  if (mode == 1) return RAND_MAX;
  if (mode == 2) return 0;
  if (mode == 3) {
    uint64_t k = next() % mixn;
    if (k == 0) return RAND_MAX;
    if (k == 1) return 0;
  }
  return (int)(next() >> 33);
}
long random(void) { return rand(); }
int sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
  static int (*f)(int, const struct sigaction *, struct sigaction *);
  if (!f) f = dlsym(RTLD_NEXT, "sigaction");
  if (sig == SIGINT && a && a->sa_handler != SIG_DFL && a->sa_handler != SIG_IGN && !(a->sa_flags & SA_SIGINFO)) {
    struct sigaction b = *a;
    user_int = a->sa_handler;
    b.sa_handler = on_int;
    return f(sig, &b, o);
  }
  return f(sig, a, o);
}
typedef void (*hnd)(int);
hnd signal(int sig, hnd h) {
  static hnd (*f)(int, hnd);
  if (!f) f = dlsym(RTLD_NEXT, "signal");
  if (sig == SIGINT && h != SIG_DFL && h != SIG_IGN) {
    user_int = h;
    return f(sig, on_int);
  }
  return f(sig, h);
}
static void armed(void) {
  struct sigaction sa;
  if (!narm) {
    if (sigaction(SIGINT, 0, &sa) || sa.sa_handler == SIG_DFL || sa.sa_handler == SIG_IGN) return;
  }
  if (++narm != arm_at) return;
  if (sig_delay < 0) { raise(SIGINT); return; }
  timer_t t;
  struct sigevent ev;
  memset(&ev, 0, sizeof ev);
  ev.sigev_notify = SIGEV_SIGNAL;
  ev.sigev_signo = SIGINT;
  if (timer_create(CLOCK_MONOTONIC, &ev, &t)) return;
  struct itimerspec is;
  memset(&is, 0, sizeof is);
  is.it_value.tv_sec = sig_delay / 1000000;
  is.it_value.tv_nsec = sig_delay % 1000000 * 1000 + 1;
  is.it_interval.tv_sec = sig_repeat / 1000000;
  is.it_interval.tv_nsec = sig_repeat % 1000000 * 1000;
  timer_settime(t, 0, &is, 0);
}
int gettimeofday(struct timeval *tv, void *tz) {
  init();
  nclock++;
  if (sig_at && nclock == sig_at) raise(SIGINT);
  if (arm_at) armed();
  if (!vclock) {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
  }
  if (jump_at && nclock >= jump_at) vnow += nclock == jump_at ? 1000 : 2e-6;
  else vnow += vnow * 0.0004 > vstep ? vnow * 0.0004 : vstep;
  if (vnow > 4e9) vnow = 4e9;
  tv->tv_sec = 1600000000 + (time_t)vnow;
  tv->tv_usec = (suseconds_t)((vnow - (double)(time_t)vnow) * 1e6);
  return 0;
}
time_t time(time_t *t) {
  init();
  time_t r;
  if (vclock) r = 1600000000 + (time_t)vnow;
  else {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    r = ts.tv_sec;
  }
  if (t) *t = r;
  return r;
}

/* file operations as crash points */
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
static int fileop(const char *what, const char *path) {
  init();
  if (!kill_at && !klog && !fail_at) return 0;
  nfile++;
  if (klog) {
    char b[600];
    int n = snprintf(b, sizeof b, "%ld %s %s\n", nfile, what, path ? path : "");
    int fd = syscall(SYS_open, klog, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) { syscall(SYS_write, fd, b, n < (int)sizeof b ? n : (int)sizeof b); syscall(SYS_close, fd); }
  }
  if (fail_at && (nfile == fail_at ||
                  (what[0] == 'w' && ((fail_mode == 2 && nfile > fail_at) ||
                                      (fail_mode == 3 && nfile > fail_at && nfile < fail_at + fail_len))))) {
    errno = fail_err;
    return -1;
  }
  if (!kill_at || nfile != kill_at) return 0;
  if (kill_mode == 0) die();
  return 1;
}
static const char *fdname(int fd) { /* absolute, so that it differs from the names other operations log */
  static char b[500];
  char p[40];
  if (!klog && !peaks) return 0;
  snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(p, b, sizeof b - 1);
  b[n < 0 ? 0 : n] = 0;
  return b;
}
int rename(const char *a, const char *b) {
  int k = fileop("rename", a);
  if (k < 0) return -1;
  int r = syscall(SYS_rename, a, b);
  if (k) die();
  return r;
}
int unlink(const char *a) {
  int k = fileop("unlink", a);
  if (k < 0) return -1;
  int r = syscall(SYS_unlink, a);
  if (k) die();
  return r;
}
int remove(const char *a) {
  int k = fileop("remove", a);
  if (k < 0) return -1;
  int r = syscall(SYS_unlink, a);
  if (k) die();
  return r;
}
static FILE *openit(const char *nm, const char *a, const char *m) {
  static FILE *(*f)(const char *, const char *);
  int w = m && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'));
  if (!f) f = dlsym(RTLD_NEXT, nm);
  int k = w ? fileop("fopen", a) : 0;
  if (k < 0) return NULL;
  FILE *r = f(a, m);
  if (k) die();
  return r;
}
FILE *fopen(const char *a, const char *m) { return openit("fopen", a, m); }
FILE *fopen64(const char *a, const char *m) { return openit("fopen64", a, m); }
static void peak(int fd) { /* how far the files have been written, beside the log of operations */
  if (!peaks || fd <= 2) return;
  int e = errno;
  char b[600];
  const char *nm = fdname(fd);
  long pos = syscall(SYS_lseek, fd, 0L, SEEK_CUR);
  int n = snprintf(b, sizeof b, "%ld %s\n", pos, nm ? nm : "");
  int out = syscall(SYS_open, peaks, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (out >= 0) { syscall(SYS_write, out, b, n < (int)sizeof b ? n : (int)sizeof b); syscall(SYS_close, out); }
  errno = e;
}
ssize_t write(int fd, const void *b, size_t n) {
  int k = 0;
  if (fd > 2) k = fileop("write", fdname(fd));
  if (k < 0) {
    if (fail_mode == 1 && n > 1) return syscall(SYS_write, fd, b, n / 2);
    errno = fail_err;
    return -1;
  }
  if (k && kill_mode == 1) { syscall(SYS_write, fd, b, n / 2); die(); }
  ssize_t r = syscall(SYS_write, fd, b, n);
  peak(fd);
  if (k) die();
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  int k = 0;
  if (fd > 2) k = fileop("writev", fdname(fd));
  if (k < 0) {
    errno = fail_err;
    return -1;
  }
  if (k && kill_mode == 1) { if (n > 0) syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2); die(); }
  ssize_t r = syscall(SYS_writev, fd, v, n);
  peak(fd);
  if (k) die();
  return r;
}
