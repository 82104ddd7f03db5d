// Preloaded into the shells that run the release scripts: decides which of the processes of a pipeline gets on first.
// A forked child is normally let run until it has started its program before its parent goes on; a stalled one
// (chosen from QLCREL_SCHED) waits, before it expands its arguments, until its parent has nothing left to do.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <sys/stat.h>
#include <errno.h>
#include <poll.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

#define STARTED 97
static unsigned forks;
static int gate[2] = {-1, -1};

static uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static void release_gate(void) {
  if (gate[1] >= 0) { close(gate[1]); close(gate[0]); gate[0] = gate[1] = -1; }
}
static void wait_eof(int fd, int ms) {
  struct pollfd p = {fd, POLLIN, 0};
  while (poll(&p, 1, ms) < 0 && errno == EINTR) ;
}
__attribute__((constructor)) static void started(void) {
  if (!strcmp(program_invocation_short_name, "qlc") || getenv("QLCREL_TOOL")) return;
  char exe[512];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (n > 0) { exe[n] = 0; if (strstr(exe, "/reltool")) return; }
  close(STARTED); // any other program counts as started once it is loaded
}
pid_t fork(void) {
  static pid_t (*real)(void);
  if (!real) real = dlsym(RTLD_NEXT, "fork");
  const char *s = getenv("QLCREL_SCHED");
  if (!s) return real();
  uint64_t sched = strtoull(s, NULL, 10);
  unsigned n = ++forks;
  int stall = sched && gate[0] < 0 && mix(sched ^ mix(n)) % 3 == 0; // one at a time, so that the order stays decided
  int p[2];
  if (pipe(p)) return real();
  if (stall) {
    if (pipe(gate)) stall = 0;
    else {
      int a = dup2(gate[0], 95), b = dup2(gate[1], 94);
      close(gate[0]); close(gate[1]);
      gate[0] = a; gate[1] = b;
    }
  }
  pid_t c = real();
  if (c < 0) { close(p[0]); close(p[1]); return c; }
  if (c == 0) {
    int g = gate[0];
    if (gate[1] >= 0) { close(gate[1]); gate[1] = -1; }
    if (stall) {
      close(p[0]); close(p[1]);
      close(STARTED);
      wait_eof(g, 400);
    } else {
      dup2(p[1], STARTED);
      close(p[0]); close(p[1]);
    }
    if (g >= 0) close(g);
    gate[0] = -1;
    return 0;
  }
  close(p[1]);
  if (!stall) wait_eof(p[0], 5000);
  close(p[0]);
  return c;
}
pid_t waitpid(pid_t pid, int *st, int opt) {
  static pid_t (*real)(pid_t, int *, int);
  if (!real) real = dlsym(RTLD_NEXT, "waitpid");
  if (!(opt & WNOHANG)) release_gate();
  return real(pid, st, opt);
}
ssize_t read(int fd, void *b, size_t n) {
  static ssize_t (*real)(int, void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "read");
  release_gate();
  return real(fd, b, n);
}
// What the shell itself writes to files (echo, printf) can hit a full disk as well.
int fflush(FILE *f) {
  static int (*real)(FILE *);
  static int done;
  if (!real) real = dlsym(RTLD_NEXT, "fflush");
  const char *s = getenv("QLCREL_FULL");
  struct stat st;
  if (s && f && f == stdout && __fpending(f) > 0 && fstat(fileno(f), &st) == 0 && S_ISREG(st.st_mode) && ++done == atoi(s)) {
    char p[4096], w[64];
    snprintf(p, sizeof p, "%s/fired", getenv("QLCREL"));
    int n = snprintf(w, sizeof w, "bash %s partial 0\n", s), fd = open(p, O_WRONLY | O_APPEND | O_CREAT, 0644);
    if (fd >= 0) { if (write(fd, w, n) != n) { } close(fd); }
    __fpurge(f);
    f->_flags |= 0x20; // the error mark
    errno = ENOSPC;
    return EOF;
  }
  return real(f);
}
// Line buffering would flush out of sight; builtins flush their output anyway.
int setvbuf(FILE *f, char *b, int mode, size_t n) {
  static int (*real)(FILE *, char *, int, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "setvbuf");
  return real(f, b, getenv("QLCREL_FULL") && mode == _IOLBF ? _IOFBF : mode, n);
}
