/* A stand-in for `cargo`: `cargo new` makes an empty project; `cargo [..] aquascope ..` does what the program in
   src/main.rs tells it to.  A line `//stub OPERATION BEHAVIOUR [N]` of the program (OPERATION `*`: every one) says what:
     ok          prints a result that echoes the operation, the arguments and the program
     slow N      the same, after N ms
     big N       the same, with N more bytes
     bigerr N    the same, after N bytes on stderr
     fail        exit code 1 and a message
     sig         dies by a signal
     err, errobj, build   prints a result that says that the analysis failed
     garbage, empty, nonutf8, nonutf8err   prints something else
     space       prints white space only;  both: a result, a warning and exit code 1
     broken      fails if $STUB_BROKEN is set
     odd         prints a result of another shape
     hang        never ends;  hangtree: neither does a child of it
   A run of a program with `//gate NAME` waits until $STUB_CTL/NAME exists; no project is made while $STUB_CTL/newfail does.
   Every run is appended to $STUB_LOG.  A run of a program that contains $STUB_KILL kills its parent, if that is `mdh`. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

static char *buf;
static size_t len, cap;
static void put(const char *s, size_t n) {
  if (len + n + 1 > cap) buf = realloc(buf, cap = (len + n + 1) * 2);
  memcpy(buf + len, s, n); len += n; buf[len] = 0;
}
static void puts_(const char *s) { put(s, strlen(s)); }
static void json(const char *s, size_t n) {
  puts_("\"");
  for (size_t i = 0; i < n; i++) {
    unsigned char c = s[i]; char t[8];
    if (c == '"' || c == '\\') { t[0] = '\\'; t[1] = c; put(t, 2); }
    else if (c < 32) { sprintf(t, "\\u%04x", c); puts_(t); }
    else put(s + i, 1);
  }
  puts_("\"");
}
static void out(int fd, const char *s, size_t n) {
  while (n) { ssize_t k = write(fd, s, n); if (k <= 0) _exit(9); s += k; n -= k; }
}
static void logrun(const char *what, int argc, char **argv, const char *code, size_t n) {
  const char *f = getenv("STUB_LOG");
  if (!f) return;
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "?");
  char t[64]; struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  len = 0; puts_("{\"what\":"); json(what, strlen(what));
  sprintf(t, ",\"pid\":%d,\"t\":%lld,\"cwd\":", getpid(), (long long)ts.tv_sec * 1000000000 + ts.tv_nsec); puts_(t); json(cwd, strlen(cwd));
  puts_(",\"args\":[");
  for (int i = 1; i < argc; i++) { if (i > 1) puts_(","); json(argv[i], strlen(argv[i])); }
  puts_("],\"code\":"); json(code, n); puts_("}\n");
  int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd >= 0) { out(fd, buf, len); close(fd); }
}

int main(int argc, char **argv) {
  int a = 1;
  while (a < argc && (argv[a][0] == '-' || argv[a][0] == '+')) a++;
  if (a < argc && !strcmp(argv[a], "new")) {
    const char *dir = 0;
    for (int i = a + 1; i < argc; i++) if (argv[i][0] != '-') dir = argv[i];
    
    const char *ctl = getenv("STUB_CTL");
    if (ctl) { char p[4200]; snprintf(p, sizeof p, "%s/newfail", ctl); if (!access(p, F_OK)) { logrun("newfail", argc, argv, "", 0); fprintf(stderr, "error: no project today\n"); return 101; } }
    if (getenv("STUB_NEW_FAIL")) { fprintf(stderr, "error: no project today\n"); return 101; }
    logrun("new", argc, argv, "", 0);
    char p[4096];
    if (!dir || mkdir(dir, 0755)) { fprintf(stderr, "error: destination exists\n"); return 101; }
    snprintf(p, sizeof p, "%s/src", dir); mkdir(p, 0755);
    snprintf(p, sizeof p, "%s/src/main.rs", dir);
    FILE *f = fopen(p, "w"); fputs("fn main() {\n    println!(\"Hello, world!\");\n}\n", f); fclose(f);
    return 0;
  }
  if (a >= argc || strcmp(argv[a], "aquascope")) { fprintf(stderr, "stub: what?\n"); return 102; }
  const char *op = "";
  for (int i = a + 1; i < argc; i++) if (argv[i][0] != '-') { op = argv[i]; break; }
  size_t n = 0, c = 1 << 16; char *code = malloc(c);
  int fd = open("src/main.rs", O_RDONLY); ssize_t k;
  if (fd < 0) { fprintf(stderr, "stub: no program\n"); return 103; }
  while ((k = read(fd, code + n, c - n - 1)) > 0) { n += k; if (c - n < 4096) code = realloc(code, c *= 2); }
  code[n] = 0;
  close(fd);
  logrun("run", argc, argv, code, n);
  char beh[64] = "ok"; long num = 0;
  for (char *l = code; l; l = strchr(l, '\n'), l = l ? l + 1 : 0) {
    char o[64], b[64]; long x = 0;
    int m = sscanf(l, "//stub %63s %63s %ld", o, b, &x);
    if (m >= 2 && (!strcmp(o, op) || !strcmp(o, "*"))) { strcpy(beh, b); num = m == 3 ? x : 0; break; }
  }
  const char *victim = getenv("STUB_KILL");
  if (victim && *victim && strstr(code, victim)) {
    char p[64], comm[32] = ""; int pp = getppid();
    snprintf(p, sizeof p, "/proc/%d/comm", pp);
    FILE *f = fopen(p, "r");
    if (f) { if (!fgets(comm, sizeof comm, f)) *comm = 0; fclose(f); }
    if (pp > 1 && !strcmp(comm, "mdh\n")) kill(pp, SIGKILL);
    return 7;
  }
#define IS(s) (!strcmp(beh, s))
  const char *ctl = getenv("STUB_CTL");
  if (ctl) {
    char g[64] = "", p[4200]; const char *l = strstr(code, "//gate ");
    if (l && sscanf(l, "//gate %63s", g) == 1) {
      snprintf(p, sizeof p, "%s/%s", ctl, g);
      while (access(p, F_OK)) usleep(2000);
    }
  }
  if (IS("hangtree")) { if (!fork()) for (;;) { logrun("alive", argc, argv, code, n); sleep(1000); } }
  if (IS("hang") || IS("hangtree")) for (;;) sleep(1000);
  if (IS("slow")) { struct timespec ts = {num / 1000, (num % 1000) * 1000000L}; nanosleep(&ts, 0); }
  logrun("end", argc, argv, code, n);
  if (IS("broken") && getenv("STUB_BROKEN")) strcpy(beh, "fail");
  if (IS("fail")) { fprintf(stderr, "stub failure of %s: %.200s\n", op, code); return 1; }
  if (IS("sig")) { fprintf(stderr, "stub death\n"); kill(getpid(), SIGKILL); }
  if (IS("empty")) return 0;
  if (IS("space")) { out(1, " \n\t\n", 4); out(2, "said nothing", 12); return 0; }
  if (IS("both")) { out(2, "warned", 6); }
  if (IS("garbage")) { out(1, "not a result", 12); return 0; }
  if (IS("nonutf8")) { out(1, "[\"\xff\xfe\"]", 6); return 0; }
  if (IS("nonutf8err")) { out(2, "\xff\xfe!", 3); }
  if (IS("nonutf8fail")) { out(2, "\xff\xfe!", 3); return 1; }
  if (IS("err")) { puts("[{\"Ok\":{}},{\"Err\":{\"type\":\"AnalysisError\",\"error\":\"stub\"}}]"); return 0; }
  if (IS("errobj")) { puts("{\"Err\":\"stub\"}"); return 0; }
  if (IS("build")) { puts("{\"type\":\"BuildError\",\"range\":null}"); return 0; }
  if (IS("bigerr")) { char *x = malloc(num); memset(x, 'e', num); out(2, x, num); }
  len = 0;
  if (!IS("odd")) puts_("[");
  puts_("{\"Ok\":{\"op\":"); json(op, strlen(op)); puts_(",\"args\":[");
  for (int i = 1; i < argc; i++) { if (i > 1) puts_(","); json(argv[i], strlen(argv[i])); }
  puts_("],\"code\":"); json(code, n);
  if (IS("big")) { char *x = malloc(num); memset(x, 'b', num); puts_(",\"pad\":"); json(x, num); }
  if (IS("odd")) puts_(",\"Err\":1}}\n"); else puts_("}}]\n");
  out(1, buf, len);
  return IS("both");
}
