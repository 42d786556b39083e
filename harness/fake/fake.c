/* Stand-in for cargo and rustc, for the programs that start them (mdbook-aquascope, aquascope_serve).
   VFAKE: a directory.
     VFAKE/log        one line of JSON per invocation, appended
     VFAKE/plan/KEY   what to do for a program that contains the identifier vf_KEY:
                      "exit sleep_ms out_repeat err_repeat [fork]\n"; KEY.out and KEY.err are the outputs, if present.
                      KEY.OP is preferred over KEY. An exit of 1000+N: ends itself with signal N.
                      `cargo new` uses the plan "new", if present (a non-zero exit: no project is made).
                      With fork, a process of its own does that, as cargo-aquascope starts cargo, which starts the compiler.
     VFAKE/ends       with VFAKE_ENDS set: "PID same|changed" when a run is over: is the code still what it was?
   Without a plan it answers {"echo":{...}} with everything it was given. */
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

struct buf { char *p; size_t n, cap; };
static void put(struct buf *b, const char *s, size_t n) {
  if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2; b->p = realloc(b->p, b->cap); }
  memcpy(b->p + b->n, s, n); b->n += n; b->p[b->n] = 0;
}
static void puts_(struct buf *b, const char *s) { put(b, s, strlen(s)); }
static void jstr(struct buf *b, const char *s, size_t n) {
  puts_(b, "\"");
  for (size_t i = 0; i < n; i++) {
    unsigned char c = s[i];
    char t[8];
    if (c == '"' || c == '\\') { t[0] = '\\'; t[1] = c; put(b, t, 2); }
    else if (c < 0x20) { sprintf(t, "\\u%04x", c); puts_(b, t); }
    else put(b, (char *)&c, 1);
  }
  puts_(b, "\"");
}
static struct buf slurp(const char *path) {
  struct buf b = {0};
  put(&b, "", 0);
  int fd = open(path, O_RDONLY);
  if (fd < 0) return b;
  char t[65536];
  ssize_t k;
  while ((k = read(fd, t, sizeof t)) > 0) put(&b, t, k);
  close(fd);
  return b;
}
static void wr(int fd, const char *p, size_t n) {
  while (n) { ssize_t k = write(fd, p, n); if (k <= 0) { if (errno == EINTR) continue; return; } p += k; n -= k; }
}
static void spill(const char *path, const char *s) {
  int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  wr(fd, s, strlen(s)); close(fd);
}
static void field(struct buf *b, const char *k, const char *v) {
  puts_(b, ","); jstr(b, k, strlen(k)); puts_(b, ":");
  if (v) jstr(b, v, strlen(v)); else puts_(b, "null");
}

int main(int argc, char **argv) {
  const char *dir = getenv("VFAKE");
  if (!dir) { fprintf(stderr, "fake: no VFAKE\n"); return 99; }
  const char *me = strrchr(argv[0], '/');
  me = me ? me + 1 : argv[0];
  char path[4096], cwd[4096];
  if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "?");
  struct buf rec = {0};
  puts_(&rec, "{\"me\":"); jstr(&rec, me, strlen(me));
  puts_(&rec, ",\"args\":[");
  for (int i = 1; i < argc; i++) { if (i > 1) puts_(&rec, ","); jstr(&rec, argv[i], strlen(argv[i])); }
  puts_(&rec, "]");
  char num[32];
  sprintf(num, "%d", (int)getpid());
  field(&rec, "cwd", cwd);
  puts_(&rec, ",\"pid\":"); puts_(&rec, num);
  field(&rec, "SYSROOT", getenv("SYSROOT"));
  field(&rec, "MIRI_SYSROOT", getenv("MIRI_SYSROOT"));
  field(&rec, "LD_LIBRARY_PATH", getenv("LD_LIBRARY_PATH"));
  field(&rec, "RUST_BACKTRACE", getenv("RUST_BACKTRACE"));
  int isnew = 0, isaq = 0;
  const char *op = "", *name = "example";
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "new")) isnew = 1;
    else if (!strcmp(argv[i], "aquascope")) isaq = 1;
    else if (argv[i][0] != '-') { if (isnew) name = argv[i]; else if (isaq && !*op) op = argv[i]; }
  }
  struct buf code = {0};
  if (isaq) { code = slurp("src/main.rs"); puts_(&rec, ",\"code\":"); jstr(&rec, code.p, code.n); }
  puts_(&rec, "}");
  snprintf(path, sizeof path, "%s/log", dir);
  int fd = open(path, O_WRONLY | O_APPEND | O_CREAT, 0644);
  struct buf line = {0};
  put(&line, rec.p, rec.n); puts_(&line, "\n");
  wr(fd, line.p, line.n);
  close(fd);

  if (!strcmp(me, "rustc")) { printf("%s/libdir\n", dir); return 0; }
  if (isnew) {
    snprintf(path, sizeof path, "%s/plan/new-fails", dir);
    if (!access(path, F_OK)) return 101;
    int nrc = 0, nms = 0;
    snprintf(path, sizeof path, "%s/plan/new", dir);
    struct buf np = slurp(path);
    if (np.n) {
      sscanf(np.p, "%d %d", &nrc, &nms);
      if (nms) { struct timespec t = {nms / 1000, (nms % 1000) * 1000000L}; nanosleep(&t, 0); }
      snprintf(path, sizeof path, "%s/plan/new.err", dir);
      struct buf ne = slurp(path);
      wr(2, ne.p, ne.n);
      if (nrc) return nrc;
    }
    mkdir(name, 0755);
    snprintf(path, sizeof path, "%s/src", name); mkdir(path, 0755);
    snprintf(path, sizeof path, "%s/src/main.rs", name); spill(path, "fn main() {\n    println!(\"Hello, world!\");\n}\n");
    snprintf(path, sizeof path, "%s/Cargo.toml", name); spill(path, "[package]\nname = \"example\"\nversion = \"0.1.0\"\nedition = \"2021\"\n");
    return 0;
  }
  if (!isaq) { fprintf(stderr, "fake: unexpected arguments\n"); return 98; }

  char key[256] = "";
  char *k = strstr(code.p, "vf_");
  if (k) { int i = 0; k += 3; while (i < 200 && (k[i] >= '0' && k[i] <= '9' || k[i] >= 'a' && k[i] <= 'z')) { key[i] = k[i]; i++; } key[i] = 0; }
  char base[4096];
  struct buf plan = {0};
  if (*key) {
    snprintf(base, sizeof base, "%s/plan/%s.%s", dir, key, op);
    plan = slurp(base);
    if (!plan.n) { snprintf(base, sizeof base, "%s/plan/%s", dir, key); plan = slurp(base); }
  }
  if (!plan.n) {
    struct buf out = {0};
    puts_(&out, "{\"echo\":"); put(&out, rec.p, rec.n); puts_(&out, "}\n");
    wr(1, out.p, out.n);
    return 0;
  }
  int rc = 0, ms = 0, ro = 1, re = 1, forks = 0;
  sscanf(plan.p, "%d %d %d %d %d", &rc, &ms, &ro, &re, &forks);
  if (forks) {
    pid_t child = fork();
    if (child > 0) {
      int st;
      while (waitpid(child, &st, 0) < 0 && errno == EINTR);
      return WIFEXITED(st) ? WEXITSTATUS(st) : 1;
    }
  }
  char tmp[4200];
  snprintf(tmp, sizeof tmp, "%s.err", base);
  struct buf err = slurp(tmp);
  snprintf(tmp, sizeof tmp, "%s.out", base);
  struct buf out = slurp(tmp);
  for (int i = 0; i < re; i++) wr(2, err.p, err.n);
  if (ms) { struct timespec t = {ms / 1000, (ms % 1000) * 1000000L}; nanosleep(&t, 0); }
  for (int i = 0; i < ro; i++) wr(1, out.p, out.n);
  if (getenv("VFAKE_ENDS")) {
    struct buf now = slurp("src/main.rs");
    snprintf(tmp, sizeof tmp, "%s/ends", dir);
    int ef = open(tmp, O_WRONLY | O_APPEND | O_CREAT, 0644);
    snprintf(tmp, sizeof tmp, "%s %s\n", num, now.n == code.n && !memcmp(now.p, code.p, code.n) ? "same" : "changed");
    wr(ef, tmp, strlen(tmp));
    close(ef);
  }
  if (rc >= 1000) { raise(rc - 1000); pause(); }
  return rc;
}
