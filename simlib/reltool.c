// Stands for every program the release scripts start: counts and logs the call, injects the planned fault, then runs
// the real program (coreutils, tar, sed, grep ...) or a stand-in (cargo, the released binary, ghr, yarn, nix, just).
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#define STARTED 97
static const char *ctl;
static char name[64];

static void path(char *o, size_t n, const char *f) { snprintf(o, n, "%s/%s", ctl, f); }
static void die(const char *w) { fprintf(stderr, "%s: %s\n", name, w); exit(1); }

static int run_real(char **argv, int capture) {
  // Returns the wait status; with capture, fd 1 of the program is the returned pipe's writing end.
  (void)capture;
  char p[256];
  const char *dirs[] = {"/usr/bin", "/bin", "/usr/local/bin"};
  for (int i = 0; i < 3; i++) {
    snprintf(p, sizeof p, "%s/%s", dirs[i], name);
    if (access(p, X_OK) == 0) { execv(p, argv); break; }
  }
  fprintf(stderr, "%s: not found\n", name);
  _exit(127);
}
static void copy_file(const char *from, const char *to) {
  char b[65536];
  ssize_t n;
  int i = open(from, O_RDONLY), o = open(to, O_WRONLY | O_CREAT | O_TRUNC, 0755);
  if (i < 0 || o < 0) die("cannot write the binary");
  while ((n = read(i, b, sizeof b)) > 0) if (write(o, b, n) != n) die("cannot write the binary");
  close(i); close(o);
  chmod(to, 0755);
  struct timeval t[2] = {{1700000000, 0}, {1700000000, 0}};
  utimes(to, t);
}
static void mkdirs(char *p) {
  for (char *c = p + 1; *c; c++) if (*c == '/') { *c = 0; mkdir(p, 0755); *c = '/'; }
  mkdir(p, 0755);
}
static int cargo(int argc, char **argv) {
  const char *target = getenv("CARGO_BUILD_TARGET"), *tdir = getenv("CARGO_TARGET_DIR");
  int release = 0, build = 0;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "build") || !strcmp(argv[i], "b")) build = 1;
    else if (!strncmp(argv[i], "--target=", 9)) target = argv[i] + 9;
    else if (!strcmp(argv[i], "--target") && i + 1 < argc) target = argv[++i];
    else if (!strncmp(argv[i], "--target-dir=", 13)) tdir = argv[i] + 13;
    else if (!strcmp(argv[i], "--target-dir") && i + 1 < argc) tdir = argv[++i];
    else if (!strcmp(argv[i], "--release") || !strcmp(argv[i], "-r") || !strcmp(argv[i], "--profile=release")) release = 1;
  }
  if (!build) return 0;
  char dir[4096], to[8192], from[8192];
  if (!getcwd(dir, sizeof dir)) return 101;
  for (;;) {
    snprintf(to, sizeof to, "%s/Cargo.toml", dir);
    if (access(to, R_OK) == 0) break;
    char *s = strrchr(dir, '/');
    if (!s || s == dir) { fprintf(stderr, "error: could not find `Cargo.toml`\n"); return 101; }
    *s = 0;
  }
  if (tdir && tdir[0] == '/') snprintf(to, sizeof to, "%s", tdir);
  else snprintf(to, sizeof to, "%s/%s", dir, tdir ? tdir : "target");
  if (target) { strncat(to, "/", 8000 - strlen(to)); strncat(to, target, 8000 - strlen(to)); }
  strncat(to, release ? "/release" : "/debug", 8000 - strlen(to));
  mkdirs(to);
  strncat(to, "/qlc", 8100 - strlen(to));
  snprintf(from, sizeof from, "%s/bins/%s%s", ctl, target ? target : "host", release ? "" : "-debug");
  if (access(from, R_OK)) { fprintf(stderr, "error: no such target %s\n", target ? target : "host"); return 101; }
  copy_file(from, to);
  fprintf(stderr, "    Finished\n");
  return 0;
}
// A program outside of any pipeline counts as started only once it has ended, so that programs in the background, and
// the ones they start, come one after the other; what is stalled (relgate.c) still comes late.
static void started(void) {
  struct stat a, b;
  if ((fstat(0, &a) == 0 && S_ISFIFO(a.st_mode)) || (fstat(1, &b) == 0 && S_ISFIFO(b.st_mode))) close(STARTED);
}
static int do_tee(int argc, char **argv, long limit) {
  int fd[32], n = 0, bad = 0, append = 0;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "-a") || !strcmp(argv[i], "--append")) append = 1;
    else if (argv[i][0] != '-' && n < 32) {
      fd[n] = open(argv[i], O_WRONLY | O_CREAT | (append ? O_APPEND : O_TRUNC), 0644);
      if (fd[n] < 0) { perror("tee"); bad = 1; } else n++;
    }
  }
  close(STARTED);
  char b[65536];
  ssize_t k;
  long done = 0;
  while ((k = read(0, b, sizeof b)) > 0) {
    if (write(1, b, k) != k) bad = 1;
    for (int i = 0; i < n; i++) {
      long m = k;
      if (limit >= 0 && done + m > limit) { m = limit > done ? limit - done : 0; bad = 1; }
      if (m && write(fd[i], b, m) != m) bad = 1;
    }
    done += k;
  }
  if (bad) fprintf(stderr, "tee: No space left on device\n");
  return bad;
}
int main(int argc, char **argv) {
  ctl = getenv("QLCREL");
  const char *s = strrchr(argv[0], '/');
  snprintf(name, sizeof name, "%s", s ? s + 1 : argv[0]);
  if (!ctl) die("no simulation");
  // Count, log and look the fault up.
  char p[4096];
  path(p, sizeof p, "lock");
  int lock = open(p, O_RDWR | O_CREAT, 0666);
  flock(lock, LOCK_EX);
  path(p, sizeof p, "calls");
  FILE *f = fopen(p, "a+");
  if (!f) die("no log");
  rewind(f);
  long total = 1, mine = 1;
  char *line = NULL;
  size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    total++;
    size_t l = strlen(name);
    if (!strncmp(line, name, l) && (line[l] == ' ' || line[l] == '\n')) mine++;
  }
  fseek(f, 0, SEEK_END);
  fprintf(f, "%s", name);
  for (int i = 1; i < argc; i++) { fputc(' ', f); for (char *c = argv[i]; *c; c++) fputc(*c == '\n' ? '|' : *c, f); }
  fputc('\n', f);
  fclose(f);
  char how[32] = "";
  long arg = 0;
  path(p, sizeof p, "faults");
  f = fopen(p, "r");
  if (f) {
    char tool[64], h[32];
    long nth, a;
    while (fscanf(f, "%63s %ld %31s %ld", tool, &nth, h, &a) == 4)
      if ((!strcmp(tool, name) && nth == mine) || (!strcmp(tool, "*") && nth == total)) {
        snprintf(how, sizeof how, "%s", h);
        arg = a;
        char q[4096];
        path(q, sizeof q, "fired");
        FILE *g = fopen(q, "a");
        if (g) { fprintf(g, "%s %ld %s %ld\n", tool, nth, h, a); fclose(g); }
      }
    fclose(f);
  }
  close(lock);
  setenv("QLCREL_TOOL", "1", 1);
  if (!strcmp(how, "lost")) { kill(0, SIGKILL); pause(); }
  if (!strcmp(how, "die")) { kill(getpid(), SIGKILL); pause(); }
  if (!strcmp(how, "fail")) { close(STARTED); fprintf(stderr, "%s: simulated failure\n", name); return arg ? (int)arg : 1; }
  int partial = !strcmp(how, "partial"), after = !strcmp(how, "after");
  if (!strcmp(name, "tee")) return do_tee(argc, argv, partial ? arg : -1) | after;
  started();
  if (!strcmp(name, "nix")) {
    for (int i = 1; i + 1 < argc; i++)
      if (!strcmp(argv[i], "--command") || !strcmp(argv[i], "-c")) { unsetenv("QLCREL_TOOL"); execvp(argv[i + 1], argv + i + 1); return 127; }
    return partial || after;
  }
  if (!strcmp(name, "just")) return partial || after;
  if (!strcmp(name, "cargo")) return partial ? 101 : (cargo(argc, argv) ? 101 : after ? 101 : 0);
  pid_t c;
  int st, out[2];
  if (partial) { if (pipe(out)) die("pipe"); }
  else if (!after && strcmp(name, "qlc")) {
    if (!strcmp(name, "ghr") || !strcmp(name, "yarn") || !strcmp(name, "npm") || !strcmp(name, "git") || !strcmp(name, "curl") || !strcmp(name, "wget") || !strcmp(name, "gh")) goto child;
    unsetenv("LD_PRELOAD");
    unsetenv("QLCREL_SCHED");
    run_real(argv, 0);
  }
  c = fork();
  if (c == 0) {
    if (partial) { dup2(out[1], 1); close(out[0]); close(out[1]); }
  child:
    unsetenv("LD_PRELOAD");
    unsetenv("QLCREL_SCHED");
    if (!strcmp(name, "qlc")) {
      path(p, sizeof p, "version");
      if (argc < 2 || (strcmp(argv[1], "--version") && strcmp(argv[1], "-V"))) { fprintf(stderr, "error: unexpected use\n"); exit(2); }
      int i = open(p, O_RDONLY);
      char b[256];
      ssize_t n = read(i, b, sizeof b);
      if (n > 0 && write(1, b, n) != n) exit(1);
      exit(0);
    }
    if (!strcmp(name, "ghr") || !strcmp(name, "yarn") || !strcmp(name, "npm") || !strcmp(name, "git") || !strcmp(name, "curl") || !strcmp(name, "wget") || !strcmp(name, "gh")) {
      char **a = calloc(argc + 3, sizeof *a), n[32];
      path(p, sizeof p, "stub.js");
      a[0] = "node"; a[1] = p; a[2] = name;
      for (int i = 1; i < argc; i++) a[i + 2] = argv[i];
      if (partial) { snprintf(n, sizeof n, "%ld", arg); setenv("QLCREL_PARTIAL", n, 1); }
      execv("/usr/bin/node", a);
      execvp("node", a);
      _exit(127);
    }
    run_real(argv, 0);
  }
  if (partial) {
    close(out[1]);
    char b[65536];
    ssize_t n;
    long done = 0;
    while ((n = read(out[0], b, sizeof b)) > 0) {
      long m = n;
      if (done + m > arg) m = arg > done ? arg - done : 0;
      if (m && write(1, b, m) < 0) { }
      done += n;
    }
  }
  waitpid(c, &st, 0);
  if (partial && !strcmp(name, "tar"))
    for (int i = 1; i < argc; i++) {
      struct stat sb;
      size_t l = strlen(argv[i]);
      if (((l > 3 && !strcmp(argv[i] + l - 3, ".gz")) || (l > 4 && (!strcmp(argv[i] + l - 4, ".tgz") || !strcmp(argv[i] + l - 4, ".tar")))) && stat(argv[i], &sb) == 0)
        if (truncate(argv[i], sb.st_size * (arg % 100) / 100)) { }
    }
  if (partial || after) { fprintf(stderr, "%s: simulated failure\n", name); return 1; }
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
