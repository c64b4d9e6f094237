// Scripted stand-in for the `cargo` and `rustc` child processes.  Statically linked: it is not
// under the shim but speaks the simulator's protocol itself, one request per action.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>
#include "proto.h"

extern char **environ;
static int conn;
static int64_t prev_ret;
static char rbuf[sizeof(struct rep) + REQ_MAX];
static char *cmd; static size_t cmdlen;

static void ask(uint32_t op, int flags, int64_t n, const char *p, size_t pl, const char *p2, size_t p2l) {
  static char b[REQ_MAX]; struct req *q = (struct req *)b;
  if (pl > 30000) pl = 30000;
  if (p2l > 30000) p2l = 30000;
  memset(q, 0, sizeof *q);
  q->op = op; q->fd = (int)getpid(); q->flags = flags; q->n = n; q->prev_ret = prev_ret; q->plen = (uint32_t)pl; q->p2len = (uint32_t)p2l;
  memcpy(q->data, p, pl); memcpy(q->data + pl, p2, p2l);
  if (send(conn, b, sizeof *q + pl + p2l, MSG_NOSIGNAL) < 0) _exit(114);
  ssize_t r; do r = recv(conn, rbuf, sizeof rbuf - 1, 0); while (r < 0 && errno == EINTR);
  if (r < (ssize_t)sizeof(struct rep)) _exit(114);
  struct rep *rp = (struct rep *)rbuf;
  cmd = rbuf + sizeof *rp; cmdlen = rp->len; cmd[cmdlen] = 0;
  if (rp->action == ACT_DIE) { kill(getpid(), SIGKILL); pause(); }
}

static int put(int fd, const char *p, size_t n) {
  static int moved;
  while (n) {
    ssize_t w = write(fd, p, n);
    if (w > 0) { p += w; n -= (size_t)w; moved = 1; continue; }
    if (w < 0 && errno == EINTR) continue;
    if (w < 0 && errno == EAGAIN) { ask(OP_BLOCK, OP_WRITE, moved, "<stub-pipe>", 11, "", 0); moved = 0; continue; }
    return -errno;
  }
  return 0;
}
static void mkdirs(char *p) {
  for (char *s = p + 1; *s; s++) if (*s == '/') { *s = 0; mkdir(p, 0777); *s = '/'; }
  mkdir(p, 0777);
}
static size_t joinv(char **v, char *out, size_t cap) {
  size_t n = 0; for (; *v; v++) { size_t l = strlen(*v) + 1; if (n + l > cap) break; memcpy(out + n, *v, l); n += l; }
  return n;
}

int main(int argc, char **argv) {
  (void)argc;
  const char *sp = getenv("VSIM_SOCK"); if (!sp) return 115;
  signal(SIGPIPE, SIG_IGN);
  conn = socket(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0);
  int hi = fcntl(conn, F_DUPFD_CLOEXEC, 900); if (hi >= 0) { close(conn); conn = hi; }
  struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, sp);
  if (connect(conn, (struct sockaddr *)&a, sizeof a) < 0) return 116;
  for (int fd = 1; fd <= 2; fd++) { struct stat st; if (fstat(fd, &st) == 0 && S_ISFIFO(st.st_mode)) fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
  static char av[30000], evb[30000]; char cwd[PATH_MAX];
  size_t an = joinv(argv, av, sizeof av - PATH_MAX);
  if (getcwd(cwd, sizeof cwd)) {}
  // argv, then an empty string, then the working directory
  av[an++] = 0; size_t cl = strlen(cwd); memcpy(av + an, cwd, cl); an += cl;
  size_t en = 0;  // simulator variables are left out
  for (char **v = environ; *v; v++) if (strncmp(*v, "VSIM_", 5) && strncmp(*v, "LD_PRELOAD", 10)) { size_t l = strlen(*v) + 1; if (en + l > sizeof evb) break; memcpy(evb + en, *v, l); en += l; }
  ask(OP_HELLO, 2, getpid(), av, an, evb, en);
  int started = 0;
  for (;;) {
    ask(OP_STUB, started, 0, "", 0, "", 0); started = 1;
    char *c = cmd; prev_ret = 0;
    if (!strncmp(c, "exit ", 5)) _exit(atoi(c + 5));
    if (!strncmp(c, "kill ", 5)) {
      int n = atoi(c + 5); sigset_t all; sigfillset(&all);
      signal(n, SIG_DFL); sigprocmask(SIG_UNBLOCK, &all, 0);
      kill(getpid(), n); pause();
    }
    if (!strncmp(c, "fill ", 5)) {
      int fd; long n; sscanf(c + 5, "%d %ld", &fd, &n);
      static char z[4096]; memset(z, 'w', sizeof z); z[sizeof z - 1] = '\n';
      while (n > 0) { long k = n < 4096 ? n : 4096; prev_ret = put(fd, z, (size_t)k); if (prev_ret) break; n -= k; }
    } else if (!strncmp(c, "out ", 4)) {
      int fd, used; long off, n; sscanf(c + 4, "%d %ld %ld %n", &fd, &off, &n, &used);
      int f = open(c + 4 + used, O_RDONLY);
      if (f < 0) { prev_ret = -errno; continue; }
      static char b[65536];
      while (n > 0) { ssize_t k = pread(f, b, n < (long)sizeof b ? (size_t)n : sizeof b, off); if (k <= 0) break; prev_ret = put(fd, b, (size_t)k); if (prev_ret) break; n -= k; off += k; }
      close(f);
    } else if (!strncmp(c, "raw ", 4)) {
      int fd, used; sscanf(c + 4, "%d %n", &fd, &used);
      prev_ret = put(fd, c + 4 + used, cmdlen - 4 - (size_t)used);
    } else if (!strncmp(c, "close ", 6)) { prev_ret = close(atoi(c + 6)); }
    else if (!strncmp(c, "mkdirs ", 7)) { mkdirs(c + 7); }
    else if (!strncmp(c, "mk1 ", 4)) { prev_ret = mkdir(c + 4, 0777) < 0 ? -errno : 0; }
    else if (!strncmp(c, "touch ", 6)) { int f = open(c + 6, O_CREAT | O_WRONLY, 0666); if (f < 0) prev_ret = -errno; else { if (write(f, "x", 1) < 0) {} close(f); } }
    else if (!strncmp(c, "stat ", 5)) { struct stat st; prev_ret = stat(c + 5, &st) < 0 ? -errno : (S_ISDIR(st.st_mode) ? 2 : 1); }
    else if (!strncmp(c, "nop", 3)) {}
    else if (!strncmp(c, "spawn", 6)) {
      // "spawn\0cwd\0NAME=VALUE\0...\0\0argv0\0argv1..."  (an empty string ends the variables)
      char *p = c + 6, *dir = p; p += strlen(p) + 1;
      char *vars[64]; int nv = 0; while (*p && nv < 63) { vars[nv++] = p; p += strlen(p) + 1; } p++;
      char *nargv[256]; int na = 0; while (p < c + cmdlen && na < 255) { nargv[na++] = p; p += strlen(p) + 1; } nargv[na] = 0;
      pid_t pid = fork();
      if (pid == 0) {
        fcntl(1, F_SETFL, fcntl(1, F_GETFL) & ~O_NONBLOCK);
        if (chdir(dir)) _exit(117);
        int o = open("/dev/null", O_RDWR); dup2(o, 0);
        const char *outp = 0;
        for (int i = 0; i < nv; i++) { if (!strncmp(vars[i], "VSIM_STDOUT=", 12)) outp = vars[i] + 12; putenv(vars[i]); }
        if (outp) { int f = open(outp, O_CREAT | O_TRUNC | O_WRONLY, 0666); dup2(f, 1); char eb[PATH_MAX]; snprintf(eb, sizeof eb, "%s.err", outp); f = open(eb, O_CREAT | O_TRUNC | O_WRONLY, 0666); dup2(f, 2); }
        execv(nargv[0], nargv); _exit(118);
      }
      ask(OP_AFTERSPAWN, 0, pid, "", 0, "", 0);
      ask(OP_WAIT, 0, pid, "", 0, "", 0);
      int st = 0; waitpid(pid, &st, 0); prev_ret = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    }
  }
}
