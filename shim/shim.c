// libvsim.so: LD_PRELOAD seam between an unmodified program and the simulator.
//
// Every system-level operation the program performs on the simulated world (any path below
// VSIM_ROOT, its standard output, its pipes, any modifying operation anywhere), every process or
// thread it starts or waits for, every contended lock, and its sources of randomness and time are
// routed here.  The calling thread parks on a socket until the simulator tells it what to do.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include "proto.h"

#define TLS __thread __attribute__((tls_model("initial-exec")))
#define EXPORT __attribute__((visibility("default")))

static TLS int conn = -1;      // this thread's link to the simulator
static TLS int depth;          // >0: inside the shim, pass everything through
static TLS int64_t prev_ret;
static TLS int prev_errno;
static TLS uint32_t preempt_left;
static TLS uint64_t rnd_state;
static TLS uint64_t heap_state;

static int on;                 // simulation active in this process
static char root[512]; static size_t rootlen;
static char sockpath[108];
static uint64_t seed, heapseed, dirseed;
static int64_t vclock;         // virtual nanoseconds
static int fakepid;
static int nthreads;
static uintptr_t exe_lo, exe_hi;
static pthread_key_t exitkey;

// ---------------------------------------------------------------- raw system calls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
#define RAW(n, a, b, c, d, e, f) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static inline long fin(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

static uint64_t splitmix(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static void die(const char *m) {
  RAW(SYS_write, 2, "vsim-shim: ", 11, 0, 0, 0);
  RAW(SYS_write, 2, m, strlen(m), 0, 0, 0);
  RAW(SYS_write, 2, "\n", 1, 0, 0, 0);
  RAW(SYS_exit_group, 113, 0, 0, 0, 0, 0);
}

// ---------------------------------------------------------------- fd table
enum { F_NONE = 0, F_FILE = 1, F_PIPE = 2, F_STDOUT = 3 };
#define NFD 1024
static struct { unsigned char kind; char *path; } fdt[NFD];

static void fd_set_kind(int fd, int kind, const char *path) {
  if (fd < 0 || fd >= NFD) return;
  fdt[fd].kind = (unsigned char)kind;
  if (path) {
    size_t l = strlen(path) + 1;
    char *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { fdt[fd].path = 0; return; }
    if (l > 4096) l = 4096;
    memcpy(p, path, l); p[l - 1] = 0;
    if (fdt[fd].path) munmap(fdt[fd].path, 4096);
    fdt[fd].path = p;
  }
}
static int fd_kind(int fd) { return fd >= 0 && fd < NFD ? fdt[fd].kind : 0; }
static const char *fd_path(int fd) { return fd >= 0 && fd < NFD && fdt[fd].path ? fdt[fd].path : "?"; }

// ---------------------------------------------------------------- path resolution (textual)
static void absolutise(int dirfd, const char *p, char *out, size_t cap) {
  char buf[PATH_MAX * 2];
  if (p[0] == '/') snprintf(buf, sizeof buf, "%s", p);
  else {
    char cwd[PATH_MAX];
    if (dirfd == AT_FDCWD) { if (RAW(SYS_getcwd, cwd, sizeof cwd, 0, 0, 0, 0) <= 0) strcpy(cwd, "/"); }
    else if (fd_kind(dirfd) && fdt[dirfd].path) snprintf(cwd, sizeof cwd, "%s", fdt[dirfd].path);
    else {
      char lk[64]; snprintf(lk, sizeof lk, "/proc/self/fd/%d", dirfd);
      long n = RAW(SYS_readlink, lk, cwd, sizeof cwd - 1, 0, 0, 0);
      if (n < 0) n = 0;
      cwd[n] = 0;
    }
    snprintf(buf, sizeof buf, "%s/%s", cwd, p);
  }
  // normalise "." and ".." and double slashes textually
  char *o = out, *end = out + cap - 1; const char *s = buf; *o = 0;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) break;
    const char *e = s; while (*e && *e != '/') e++;
    size_t l = (size_t)(e - s);
    if (l == 1 && s[0] == '.') {}
    else if (l == 2 && s[0] == '.' && s[1] == '.') { while (o > out && *--o != '/') {} *o = 0; }
    else if (o + 1 + l < end) { *o++ = '/'; memcpy(o, s, l); o += l; *o = 0; }
    s = e;
  }
  if (o == out) { *o++ = '/'; *o = 0; }
}
static int in_root(const char *abs) {
  return strncmp(abs, root, rootlen) == 0 && (abs[rootlen] == '/' || abs[rootlen] == 0);
}
static int exempt(const char *abs) {
  return strncmp(abs, "/dev/", 5) == 0 ? strncmp(abs, "/dev/shm/", 9) != 0
       : strncmp(abs, "/proc/", 6) == 0;
}

// ---------------------------------------------------------------- talking to the simulator
static int dial(void) {
  int s = (int)RAW(SYS_socket, AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0, 0, 0, 0);
  if (s < 0) die("socket");
  int hi = (int)RAW(SYS_fcntl, s, F_DUPFD_CLOEXEC, 900, 0, 0, 0);
  if (hi >= 0) { RAW(SYS_close, s, 0, 0, 0, 0, 0); s = hi; }
  struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
  strcpy(a.sun_path, sockpath);
  long r;
  do r = RAW(SYS_connect, s, &a, sizeof a, 0, 0, 0); while (r == -EINTR || r == -EAGAIN);
  if (r < 0) die("connect");
  return s;
}

static void ask(uint32_t op, int fd, int flags, int64_t n, int64_t aux, const char *p, size_t plen,
                const char *p2, size_t p2len, struct rep *rep) {
  static TLS char buf[REQ_MAX];
  struct req *q = (struct req *)buf;
  if (plen > 30000) plen = 30000;
  if (p2len > 30000) p2len = 30000;
  q->op = op; q->fd = fd; q->flags = flags; q->n = n; q->aux = aux;
  q->prev_ret = prev_ret; q->prev_errno = prev_errno;
  q->plen = (uint32_t)plen; q->p2len = (uint32_t)p2len;
  memcpy(q->data, p, plen); if (p2len) memcpy(q->data + plen, p2, p2len);
  long r;
  do r = RAW(SYS_sendto, conn, buf, sizeof *q + plen + p2len, MSG_NOSIGNAL, 0, 0); while (r == -EINTR);
  if (r < 0) RAW(SYS_exit_group, 114, 0, 0, 0, 0, 0);
  do r = RAW(SYS_recvfrom, conn, rep, sizeof *rep, 0, 0, 0); while (r == -EINTR);
  if (r != (long)sizeof *rep) RAW(SYS_exit_group, 114, 0, 0, 0, 0, 0);
  preempt_left = rep->preempt;
  if (rep->action == ACT_DIE) { RAW(SYS_kill, RAW(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0); for (;;) RAW(SYS_pause, 0, 0, 0, 0, 0, 0); }
}
static void suicide(void) { RAW(SYS_kill, RAW(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0); for (;;) RAW(SYS_pause, 0, 0, 0, 0, 0, 0); }

#define ACTIVE (on && conn >= 0 && depth == 0)
static struct rep ev(uint32_t op, int fd, int flags, int64_t n, const char *p, const char *p2) {
  struct rep rep; depth++;
  ask(op, fd, flags, n, 0, p ? p : "", p ? strlen(p) : 0, p2 ? p2 : "", p2 ? strlen(p2) : 0, &rep);
  depth--; return rep;
}
static long done(long r) { prev_ret = r; prev_errno = r < 0 && r > -4096 ? (int)-r : 0; return fin(r); }
static long done_errno(long r) { prev_ret = r < 0 ? -1 : r; prev_errno = r < 0 ? errno : 0; return r; }
static long fail(int e) { prev_ret = -e; prev_errno = e; errno = e; return -1; }

static int exe_cb(struct dl_phdr_info *i, size_t sz, void *d) {
  (void)sz; (void)d;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
      exe_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      exe_hi = exe_lo + i->dlpi_phdr[k].p_memsz;
    }
  return 1;  // the first object is the executable
}

static void thread_gone(void *v) {
  (void)v;
  depth++;
  if (conn >= 0) { struct rep r; ask(OP_NOTE, -1, 0, 0, 0, "bye", 3, "", 0, &r); }
  int c = conn; conn = -1;
  __atomic_sub_fetch(&nthreads, 1, __ATOMIC_SEQ_CST);
  if (c >= 0) RAW(SYS_close, c, 0, 0, 0, 0, 0);
}

static uint64_t envu(const char *k) { const char *s = getenv(k); return s ? strtoull(s, 0, 10) : 0; }

static void *(*p_realpath)(const char *, char *);
#define NEXT(var, name) static typeof(name) *var; if (!var) var = (typeof(name) *)dlsym(RTLD_NEXT, #name)

__attribute__((constructor)) static void init(void) {
  depth++;
  const char *s = getenv("VSIM_SOCK"), *r = getenv("VSIM_ROOT");
  if (s && r) {
    snprintf(sockpath, sizeof sockpath, "%s", s);
    snprintf(root, sizeof root, "%s", r); rootlen = strlen(root);
    seed = envu("VSIM_SEED"); heapseed = envu("VSIM_HEAP"); dirseed = envu("VSIM_DIR");
    vclock = (int64_t)envu("VSIM_CLOCK"); fakepid = (int)envu("VSIM_PID");
    rnd_state = seed; heap_state = heapseed;
    dl_iterate_phdr(exe_cb, 0);
    pthread_key_create(&exitkey, thread_gone);
    fd_set_kind(1, F_STDOUT, "<stdout>");
    nthreads = 1;
    *(void **)&p_realpath = dlsym(RTLD_NEXT, "realpath");
    if (heapseed) {
      // displace the heap by a seeded amount with seeded holes
      uint64_t h = heapseed; int k = 1 + (int)(splitmix(&h) % 400); void *keep[400];
      extern void *__libc_malloc(size_t); extern void __libc_free(void *);
      for (int i = 0; i < k; i++) keep[i] = __libc_malloc(16 + splitmix(&h) % 2000);
      for (int i = 0; i < k; i++) if (splitmix(&h) & 1) __libc_free(keep[i]);
    }
    conn = dial();
    struct rep rep;
    int pid = (int)RAW(SYS_getpid, 0, 0, 0, 0, 0, 0);
    ask(OP_HELLO, pid, 0, pid, 0, "", 0, "", 0, &rep);
    on = 1;
  }
  depth--;
}

// ---------------------------------------------------------------- open / close
static int want_open(const char *abs, int flags) {
  int mut = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  return in_root(abs) || (mut && !exempt(abs));
}
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  if (!(flags & O_CREAT) && (flags & O_TMPFILE) != O_TMPFILE) mode = 0; /* not passed */
  if (!ACTIVE) return (int)fin(RAW(SYS_openat, dirfd, path, flags, mode, 0, 0));
  char abs[PATH_MAX]; absolutise(dirfd, path, abs, sizeof abs);
  if (!want_open(abs, flags)) {
    long fd = RAW(SYS_openat, dirfd, path, flags, mode, 0, 0);
    if (fd >= 0 && fd < NFD) fdt[fd].kind = F_NONE;
    return (int)fin(fd);
  }
  struct rep r = ev(OP_OPEN, -1, flags, mode, abs, 0);
  if (r.action == ACT_FAIL) return (int)fail(r.err);
  long fd = RAW(SYS_openat, dirfd, path, flags, mode, 0, 0);
  if (fd >= 0) fd_set_kind((int)fd, F_FILE, abs);
  return (int)done(fd);
}
EXPORT int open(const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(AT_FDCWD, p, flags, m); }
EXPORT int open64(const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(AT_FDCWD, p, flags, m); }
EXPORT int openat(int d, const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(d, p, flags, m); }
EXPORT int openat64(int d, const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(d, p, flags, m); }
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int close(int fd) {
  if (fd >= 900 && fd < NFD && on) { if (fd == conn) { errno = EBADF; return -1; } }
  if (fd >= 0 && fd < NFD) fdt[fd].kind = F_NONE;
  return (int)fin(RAW(SYS_close, fd, 0, 0, 0, 0, 0));
}
static void fd_copy(int from, int to) { if (from >= 0 && from < NFD && to >= 0 && to < NFD) fd_set_kind(to, fdt[from].kind, fdt[from].path); }
EXPORT int dup(int fd) { long r = RAW(SYS_dup, fd, 0, 0, 0, 0, 0); if (r >= 0) fd_copy(fd, (int)r); return (int)fin(r); }
EXPORT int dup2(int fd, int to) { long r = RAW(SYS_dup2, fd, to, 0, 0, 0, 0); if (r >= 0) fd_copy(fd, (int)r); return (int)fin(r); }
EXPORT int dup3(int fd, int to, int fl) { long r = RAW(SYS_dup3, fd, to, fl, 0, 0, 0); if (r >= 0) fd_copy(fd, (int)r); return (int)fin(r); }
static int do_fcntl(int fd, int cmd, long arg) {
  if (ACTIVE && (cmd == F_SETLKW || cmd == F_OFD_SETLKW)) {
    int nb = cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK;
    for (;;) {
      long r = RAW(SYS_fcntl, fd, nb, arg, 0, 0, 0);
      if (r == -EAGAIN || r == -EACCES) { ev(OP_BLOCK, fd, OP_LOCK, 0, fd_path(fd), 0); continue; }
      return (int)done(r);
    }
  }
  long r = RAW(SYS_fcntl, fd, cmd, arg, 0, 0, 0);
  if (r >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) fd_copy(fd, (int)r);
  return (int)fin(r);
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return do_fcntl(fd, cmd, x); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return do_fcntl(fd, cmd, x); }
EXPORT int flock(int fd, int op) {
  if (!ACTIVE) return (int)fin(RAW(SYS_flock, fd, op, 0, 0, 0, 0));
  if (fd_kind(fd) == F_FILE && !(op & LOCK_UN)) { struct rep r = ev(OP_LOCK, fd, op, 0, fd_path(fd), 0); if (r.action == ACT_FAIL) return (int)fail(r.err); }
  for (;;) {
    long r = RAW(SYS_flock, fd, op | LOCK_NB, 0, 0, 0, 0);
    if (r == -EWOULDBLOCK && !(op & LOCK_NB) && !(op & LOCK_UN)) { ev(OP_BLOCK, fd, OP_LOCK, 0, fd_path(fd), 0); continue; }
    return (int)done(r);
  }
}
EXPORT int pipe2(int fds[2], int flags) {
  long r = RAW(SYS_pipe2, fds, flags, 0, 0, 0, 0);
  if (r == 0) { fd_set_kind(fds[0], F_PIPE, "<pipe>"); fd_set_kind(fds[1], F_PIPE, "<pipe>"); }
  return (int)fin(r);
}
EXPORT int pipe(int fds[2]) { return pipe2(fds, 0); }

// ---------------------------------------------------------------- read / write
static void pipe_wait(int fd, int events) {
  // a blocking transfer on a pipe parks until the peer (another actor) has moved
  int fl = (int)RAW(SYS_fcntl, fd, F_GETFL, 0, 0, 0, 0);
  if (fl >= 0 && (fl & O_NONBLOCK)) return;
  for (;;) {
    struct pollfd p = {fd, (short)events, 0};
    long r = RAW(SYS_poll, &p, 1, 0, 0, 0, 0);
    if (r != 0) return;
    ev(OP_BLOCK, fd, events == POLLIN ? OP_READ : OP_WRITE, 0, "<pipe>", 0);
  }
}
static ssize_t xfer(int wr, int fd, const struct iovec *iov, int cnt, off_t off, int has_off) {
  long nr = wr ? (has_off ? SYS_pwritev : SYS_writev) : (has_off ? SYS_preadv : SYS_readv);
  int k = fd_kind(fd);
  if (!ACTIVE || k == F_NONE || (fd == 2)) return fin(RAW(nr, fd, iov, cnt, off, 0, 0));
  if (k == F_STDOUT && !wr) return fin(RAW(nr, fd, iov, cnt, off, 0, 0));
  size_t tot = 0; for (int i = 0; i < cnt; i++) tot += iov[i].iov_len;
  if (k == F_PIPE) pipe_wait(fd, wr ? POLLOUT : POLLIN);
  struct rep r = ev(wr ? OP_WRITE : OP_READ, fd, k, (int64_t)tot, k == F_PIPE ? "<pipe>" : fd_path(fd), 0);
  if (r.action == ACT_FAIL) return fail(r.err);
  if ((r.action == ACT_SHORT || r.action == ACT_TORN) && tot > 0) {
    size_t lim = (size_t)r.arg; if (lim > tot) lim = tot;
    if (lim == 0 && r.action == ACT_SHORT) lim = 1;
    struct iovec v[16]; int c = 0; size_t left = lim;
    for (int i = 0; i < cnt && left && c < 16; i++) {
      v[c] = iov[i]; if (v[c].iov_len > left) v[c].iov_len = left;
      left -= v[c].iov_len; c++;
    }
    long n = c ? RAW(nr, fd, v, c, off, 0, 0) : 0;
    if (r.action == ACT_TORN) suicide();
    return done(n);
  }
  long n = RAW(nr, fd, iov, cnt, off, 0, 0);
  if (r.action == ACT_CORRUPT && n > 0) {
    size_t at = (size_t)(r.arg % n);
    for (int i = 0; i < cnt; i++) {
      if (at < iov[i].iov_len) { ((unsigned char *)iov[i].iov_base)[at] = (unsigned char)r.err; break; }
      at -= iov[i].iov_len;
    }
  }
  return done(n);
}
EXPORT ssize_t read(int fd, void *b, size_t n) { struct iovec v = {b, n}; return xfer(0, fd, &v, 1, 0, 0); }
EXPORT ssize_t write(int fd, const void *b, size_t n) { struct iovec v = {(void *)b, n}; return xfer(1, fd, &v, 1, 0, 0); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) { return xfer(0, fd, v, c, 0, 0); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) { return xfer(1, fd, v, c, 0, 0); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { struct iovec v = {b, n}; return xfer(0, fd, &v, 1, o, 1); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { struct iovec v = {b, n}; return xfer(0, fd, &v, 1, o, 1); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { struct iovec v = {(void *)b, n}; return xfer(1, fd, &v, 1, o, 1); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { struct iovec v = {(void *)b, n}; return xfer(1, fd, &v, 1, o, 1); }
// in-kernel copies are declined so that std falls back to read/write, which are seams
EXPORT ssize_t copy_file_range(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) { if (ACTIVE) { errno = ENOSYS; return -1; } return fin(RAW(SYS_copy_file_range, a, x, b, y, n, f)); }
EXPORT ssize_t sendfile64(int o, int i, off_t *x, size_t n) { if (ACTIVE) { errno = EINVAL; return -1; } return fin(RAW(SYS_sendfile, o, i, x, n, 0, 0)); }
EXPORT ssize_t sendfile(int o, int i, off_t *x, size_t n) { if (ACTIVE) { errno = EINVAL; return -1; } return fin(RAW(SYS_sendfile, o, i, x, n, 0, 0)); }
EXPORT ssize_t splice(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) { if (ACTIVE) { errno = EINVAL; return -1; } return fin(RAW(SYS_splice, a, x, b, y, n, f)); }
EXPORT void *mmap64(void *a, size_t l, int prot, int flags, int fd, off_t o) {
  if (ACTIVE && fd_kind(fd) == F_FILE) {
    struct rep r = ev(OP_MMAP, fd, prot, (int64_t)l, fd_path(fd), 0);
    if (r.action == ACT_FAIL) { fail(r.err); return MAP_FAILED; }
  }
  return (void *)fin(RAW(SYS_mmap, a, l, prot, flags, fd, o));
}

// ---------------------------------------------------------------- metadata operations
static int meta(uint32_t op, int dirfd, const char *path, int fd, int flags, struct rep *r) {
  // returns 1 when the call must not be made (failure already set)
  if (!ACTIVE) return 0;
  char abs[PATH_MAX];
  if (path) {
    absolutise(dirfd, path, abs, sizeof abs);
    int mut = op != OP_STAT && op != OP_READLINK && op != OP_REALPATH && op != OP_OPENDIR;
    if (!in_root(abs) && (!mut || exempt(abs))) return 0;
  } else {
    if (fd_kind(fd) != F_FILE) return 0;
    snprintf(abs, sizeof abs, "%s", fd_path(fd));
  }
  *r = ev(op, fd, flags, 0, abs, 0);
  if (r->action == ACT_FAIL) { fail(r->err); return 1; }
  return 0;
}
#define META(op, dfd, path, fd, flags, call) do { struct rep r_; if (meta(op, dfd, path, fd, flags, &r_)) return -1; return (int)done(call); } while (0)
EXPORT int stat64(const char *p, struct stat64 *s) { META(OP_STAT, AT_FDCWD, p, -1, 0, RAW(SYS_newfstatat, AT_FDCWD, p, s, 0, 0, 0)); }
EXPORT int stat(const char *p, struct stat *s) { META(OP_STAT, AT_FDCWD, p, -1, 0, RAW(SYS_newfstatat, AT_FDCWD, p, s, 0, 0, 0)); }
EXPORT int lstat64(const char *p, struct stat64 *s) { META(OP_STAT, AT_FDCWD, p, -1, 1, RAW(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW, 0, 0)); }
EXPORT int lstat(const char *p, struct stat *s) { META(OP_STAT, AT_FDCWD, p, -1, 1, RAW(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW, 0, 0)); }
EXPORT int fstat64(int fd, struct stat64 *s) { META(OP_STAT, 0, (char *)0, fd, 2, RAW(SYS_fstat, fd, s, 0, 0, 0, 0)); }
EXPORT int fstat(int fd, struct stat *s) { META(OP_STAT, 0, (char *)0, fd, 2, RAW(SYS_fstat, fd, s, 0, 0, 0, 0)); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *s, int fl) { META(OP_STAT, d, p, -1, 0, RAW(SYS_newfstatat, d, p, s, fl, 0, 0)); }
EXPORT int fstatat(int d, const char *p, struct stat *s, int fl) { META(OP_STAT, d, p, -1, 0, RAW(SYS_newfstatat, d, p, s, fl, 0, 0)); }
EXPORT int statx(int d, const char *p, int fl, unsigned m, struct statx *s) {
  const char *volatile q = p;  // the standard library probes with a null path; the declaration says nonnull
  if (!q) { errno = EFAULT; return -1; }
  if (p && !*p && (fl & AT_EMPTY_PATH)) META(OP_STAT, 0, (char *)0, d, 2, RAW(SYS_statx, d, p, fl, m, s, 0));
  META(OP_STAT, d, p, -1, (fl & AT_SYMLINK_NOFOLLOW) ? 1 : 0, RAW(SYS_statx, d, p, fl, m, s, 0));
}
EXPORT int access(const char *p, int m) { META(OP_STAT, AT_FDCWD, p, -1, 3, RAW(SYS_faccessat, AT_FDCWD, p, m, 0, 0, 0)); }
EXPORT int faccessat(int d, const char *p, int m, int fl) { META(OP_STAT, d, p, -1, 3, RAW(SYS_faccessat2, d, p, m, fl, 0, 0)); }
EXPORT int mkdir(const char *p, mode_t m) { META(OP_MKDIR, AT_FDCWD, p, -1, 0, RAW(SYS_mkdirat, AT_FDCWD, p, m, 0, 0, 0)); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { META(OP_MKDIR, d, p, -1, 0, RAW(SYS_mkdirat, d, p, m, 0, 0, 0)); }
EXPORT int unlink(const char *p) { META(OP_UNLINK, AT_FDCWD, p, -1, 0, RAW(SYS_unlinkat, AT_FDCWD, p, 0, 0, 0, 0)); }
EXPORT int unlinkat(int d, const char *p, int fl) { META((fl & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, d, p, -1, fl, RAW(SYS_unlinkat, d, p, fl, 0, 0, 0)); }
EXPORT int rmdir(const char *p) { META(OP_RMDIR, AT_FDCWD, p, -1, 0, RAW(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR, 0, 0, 0)); }
EXPORT int truncate64(const char *p, off_t n) { META(OP_TRUNC, AT_FDCWD, p, -1, 0, RAW(SYS_truncate, p, n, 0, 0, 0, 0)); }
EXPORT int ftruncate64(int fd, off_t n) { META(OP_TRUNC, 0, (char *)0, fd, 0, RAW(SYS_ftruncate, fd, n, 0, 0, 0, 0)); }
EXPORT int ftruncate(int fd, off_t n) { META(OP_TRUNC, 0, (char *)0, fd, 0, RAW(SYS_ftruncate, fd, n, 0, 0, 0, 0)); }
EXPORT int fallocate64(int fd, int m, off_t o, off_t n) { META(OP_TRUNC, 0, (char *)0, fd, 0, RAW(SYS_fallocate, fd, m, o, n, 0, 0)); }
EXPORT int posix_fallocate64(int fd, off_t o, off_t n) { META(OP_TRUNC, 0, (char *)0, fd, 0, RAW(SYS_fallocate, fd, 0, o, n, 0, 0)); }
EXPORT int chmod(const char *p, mode_t m) { META(OP_CHMOD, AT_FDCWD, p, -1, 0, RAW(SYS_fchmodat, AT_FDCWD, p, m, 0, 0, 0)); }
EXPORT int fchmodat(int d, const char *p, mode_t m, int fl) { (void)fl; META(OP_CHMOD, d, p, -1, 0, RAW(SYS_fchmodat, d, p, m, 0, 0, 0)); }
EXPORT int fchmod(int fd, mode_t m) { META(OP_CHMOD, 0, (char *)0, fd, 0, RAW(SYS_fchmod, fd, m, 0, 0, 0, 0)); }
EXPORT int chown(const char *p, uid_t u, gid_t g) { META(OP_CHMOD, AT_FDCWD, p, -1, 0, RAW(SYS_fchownat, AT_FDCWD, p, u, g, 0, 0)); }
EXPORT int utimensat(int d, const char *p, const struct timespec t[2], int fl) {
  if (!p) META(OP_UTIME, 0, (char *)0, d, 0, RAW(SYS_utimensat, d, p, t, fl, 0, 0));
  META(OP_UTIME, d, p, -1, 0, RAW(SYS_utimensat, d, p, t, fl, 0, 0));
}
EXPORT int futimens(int fd, const struct timespec t[2]) { META(OP_UTIME, 0, (char *)0, fd, 0, RAW(SYS_utimensat, fd, 0, t, 0, 0, 0)); }
EXPORT int fsync(int fd) { META(OP_FSYNC, 0, (char *)0, fd, 0, RAW(SYS_fsync, fd, 0, 0, 0, 0, 0)); }
EXPORT int fdatasync(int fd) { META(OP_FSYNC, 0, (char *)0, fd, 0, RAW(SYS_fdatasync, fd, 0, 0, 0, 0, 0)); }
EXPORT int chdir(const char *p) { META(OP_CHDIR, AT_FDCWD, p, -1, 0, RAW(SYS_chdir, p, 0, 0, 0, 0, 0)); }
EXPORT ssize_t readlink(const char *p, char *b, size_t n) { struct rep r; if (meta(OP_READLINK, AT_FDCWD, p, -1, 0, &r)) return -1; return done(RAW(SYS_readlinkat, AT_FDCWD, p, b, n, 0, 0)); }
EXPORT ssize_t readlinkat(int d, const char *p, char *b, size_t n) { struct rep r; if (meta(OP_READLINK, d, p, -1, 0, &r)) return -1; return done(RAW(SYS_readlinkat, d, p, b, n, 0, 0)); }
static int two(uint32_t op, int d1, const char *a, int d2, const char *b, int flags) {
  if (!ACTIVE) return 0;
  char x[PATH_MAX], y[PATH_MAX];
  if (op == OP_SYMLINK) snprintf(x, sizeof x, "%s", a); else absolutise(d1, a, x, sizeof x);
  absolutise(d2, b, y, sizeof y);
  struct rep r = ev(op, -1, flags, 0, x, y);
  if (r.action == ACT_FAIL) { fail(r.err); return 1; }
  return 0;
}
EXPORT int rename(const char *a, const char *b) { if (two(OP_RENAME, AT_FDCWD, a, AT_FDCWD, b, 0)) return -1; return (int)done(RAW(SYS_rename, a, b, 0, 0, 0, 0)); }
EXPORT int renameat(int d, const char *a, int e, const char *b) { if (two(OP_RENAME, d, a, e, b, 0)) return -1; return (int)done(RAW(SYS_renameat, d, a, e, b, 0, 0)); }
EXPORT int renameat2(int d, const char *a, int e, const char *b, unsigned f) { if (two(OP_RENAME, d, a, e, b, (int)f)) return -1; return (int)done(RAW(SYS_renameat2, d, a, e, b, f, 0)); }
EXPORT int link(const char *a, const char *b) { if (two(OP_LINK, AT_FDCWD, a, AT_FDCWD, b, 0)) return -1; return (int)done(RAW(SYS_link, a, b, 0, 0, 0, 0)); }
EXPORT int linkat(int d, const char *a, int e, const char *b, int f) { if (two(OP_LINK, d, a, e, b, f)) return -1; return (int)done(RAW(SYS_linkat, d, a, e, b, f, 0)); }
EXPORT int symlink(const char *a, const char *b) { if (two(OP_SYMLINK, AT_FDCWD, a, AT_FDCWD, b, 0)) return -1; return (int)done(RAW(SYS_symlink, a, b, 0, 0, 0, 0)); }
EXPORT int symlinkat(const char *a, int e, const char *b) { if (two(OP_SYMLINK, AT_FDCWD, a, e, b, 0)) return -1; return (int)done(RAW(SYS_symlinkat, a, e, b, 0, 0, 0)); }
EXPORT char *realpath(const char *p, char *out) {
  struct rep r;
  if (meta(OP_REALPATH, AT_FDCWD, p, -1, 0, &r)) return 0;
  depth++; char *x = p_realpath ? (char *)p_realpath(p, out) : 0; depth--;
  done_errno(x ? 0 : -1);
  return x;
}

// ---------------------------------------------------------------- directories (listing order is seeded)
#define MAXDIR 64
static struct dl { DIR *d; struct dirent64 *ents; int n, pos; } dls[MAXDIR];
static int load_dir(DIR *d) {
  NEXT(nx, readdir64);
  int i; for (i = 0; i < MAXDIR && dls[i].d; i++) {}
  if (i == MAXDIR) return -1;
  int cap = 64, n = 0; struct dirent64 *e, *v = malloc(sizeof *v * (size_t)cap);
  while ((e = nx(d))) { if (n == cap) { cap *= 2; v = realloc(v, sizeof *v * (size_t)cap); } memcpy(&v[n++], e, e->d_reclen); }
  // canonical order first, then a seeded shuffle
  for (int a = 1; a < n; a++) for (int b = a; b > 0 && strcmp(v[b - 1].d_name, v[b].d_name) > 0; b--) { struct dirent64 t = v[b]; v[b] = v[b - 1]; v[b - 1] = t; }
  uint64_t s = dirseed ^ 0xD1F; for (int a = n - 1; a > 0 && dirseed; a--) { int b = (int)(splitmix(&s) % (uint64_t)(a + 1)); struct dirent64 t = v[a]; v[a] = v[b]; v[b] = t; }
  dls[i].d = d; dls[i].ents = v; dls[i].n = n; dls[i].pos = 0;
  return i;
}
EXPORT struct dirent64 *readdir64(DIR *d) {
  NEXT(nx, readdir64);
  if (!ACTIVE) return nx(d);
  depth++;
  int i; for (i = 0; i < MAXDIR && dls[i].d != d; i++) {}
  if (i == MAXDIR) i = load_dir(d);
  struct dirent64 *r = i < 0 ? nx(d) : dls[i].pos < dls[i].n ? &dls[i].ents[dls[i].pos++] : 0;
  depth--;
  return r;
}
EXPORT struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
EXPORT int closedir(DIR *d) {
  NEXT(nx, closedir);
  depth++;
  for (int i = 0; i < MAXDIR; i++) if (dls[i].d == d) { free(dls[i].ents); dls[i].d = 0; }
  int f = dirfd(d); if (f >= 0 && f < NFD) fdt[f].kind = F_NONE;
  int r = nx(d); depth--; return r;
}
EXPORT DIR *opendir(const char *p) {
  NEXT(nx, opendir);
  struct rep r; if (meta(OP_OPENDIR, AT_FDCWD, p, -1, 0, &r)) return 0;
  depth++; DIR *d = nx(p); depth--;
  if (ACTIVE) done_errno(d ? 0 : -1);
  return d;
}

// ---------------------------------------------------------------- processes
static size_t join_argv(char *const *v, char *out, size_t cap) {
  size_t n = 0;
  for (int i = 0; v && v[i]; i++) { size_t l = strlen(v[i]) + 1; if (n + l > cap) break; memcpy(out + n, v[i], l); n += l; }
  return n;
}
static int pre_spawn(const char *file, char *const argv[]) {
  struct rep r; static TLS char buf[30000];
  size_t n = join_argv(argv, buf, sizeof buf);
  depth++; ask(OP_SPAWN, -1, 0, 0, 0, file, strlen(file), buf, n, &r); depth--;
  if (r.action == ACT_FAIL) { prev_ret = -r.err; prev_errno = r.err; return r.err; }
  return 0;
}
static void post_spawn(int rc, pid_t pid) {
  prev_ret = -rc; prev_errno = rc;
  struct rep r; depth++; ask(OP_AFTERSPAWN, -1, rc, rc ? 0 : pid, 0, "", 0, "", 0, &r); depth--;
}
EXPORT int posix_spawnp(pid_t *pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  NEXT(nx, posix_spawnp);
  if (!ACTIVE) return nx(pid, f, fa, at, argv, envp);
  int e = pre_spawn(f, argv); if (e) return e;
  pid_t tmp = 0; depth++; e = nx(&tmp, f, fa, at, argv, envp); depth--;
  if (pid) *pid = tmp;
  post_spawn(e, tmp); return e;
}
EXPORT int posix_spawn(pid_t *pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  NEXT(nx, posix_spawn);
  if (!ACTIVE) return nx(pid, f, fa, at, argv, envp);
  int e = pre_spawn(f, argv); if (e) return e;
  pid_t tmp = 0; depth++; e = nx(&tmp, f, fa, at, argv, envp); depth--;
  if (pid) *pid = tmp;
  post_spawn(e, tmp); return e;
}
typedef int (*pidfd_spawn_t)(int *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
static int pidfd_of(int pidfd) {
  static pid_t (*gp)(int); if (!gp) *(void **)&gp = dlsym(RTLD_NEXT, "pidfd_getpid");
  return gp ? gp(pidfd) : -1;
}
static struct { int pidfd, pid; } pidfds[64]; static int npidfds;
static int do_pidfd_spawn(const char *name, int *pidfd, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  pidfd_spawn_t nx; *(void **)&nx = dlsym(RTLD_NEXT, name);
  if (!nx) return ENOSYS;
  if (!ACTIVE) return nx(pidfd, f, fa, at, argv, envp);
  int e = pre_spawn(f, argv); if (e) return e;
  int tmp = -1; depth++; e = nx(&tmp, f, fa, at, argv, envp);
  pid_t pid = 0; if (!e) { pid = pidfd_of(tmp); pidfds[npidfds % 64].pidfd = tmp; pidfds[npidfds++ % 64].pid = pid; }
  depth--;
  if (pidfd) *pidfd = tmp;
  post_spawn(e, pid); return e;
}
EXPORT int pidfd_spawnp(int *pidfd, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return do_pidfd_spawn("pidfd_spawnp", pidfd, f, fa, at, argv, envp); }
EXPORT int pidfd_spawn(int *pidfd, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return do_pidfd_spawn("pidfd_spawn", pidfd, f, fa, at, argv, envp); }
EXPORT pid_t fork(void) {
  NEXT(nx, fork);
  if (!ACTIVE) return nx();
  struct rep r = ev(OP_FORK, -1, 0, 0, "fork", 0);
  if (r.action == ACT_FAIL) return (pid_t)fail(r.err);
  depth++; pid_t p = nx();
  if (p == 0) { int c = conn; conn = -1; on = 0; RAW(SYS_close, c, 0, 0, 0, 0, 0); return 0; }
  depth--;
  post_spawn(p < 0 ? errno : 0, p);
  return p;
}
static void await_child(int pid) { struct rep r; depth++; ask(OP_WAIT, -1, 0, pid, 0, "", 0, "", 0, &r); depth--; }
EXPORT pid_t waitpid(pid_t pid, int *st, int fl) {
  if (ACTIVE && pid > 0) {
    if (fl & WNOHANG) { struct rep r; depth++; ask(OP_WAIT, -1, 1, pid, 0, "", 0, "", 0, &r); depth--; if (r.arg == 0) return 0; fl &= ~WNOHANG; }
    else await_child(pid);
  }
  return (pid_t)fin(RAW(SYS_wait4, pid, st, fl, 0, 0, 0));
}
EXPORT pid_t wait4(pid_t pid, int *st, int fl, struct rusage *ru) {
  if (ACTIVE && pid > 0 && !(fl & WNOHANG)) await_child(pid);
  return (pid_t)fin(RAW(SYS_wait4, pid, st, fl, ru, 0, 0));
}
EXPORT int waitid(idtype_t t, id_t id, siginfo_t *si, int fl) {
  if (ACTIVE) {
    int pid = t == P_PID ? (int)id : -1;
    if (t == P_PIDFD) for (int i = 0; i < 64; i++) if (pidfds[i].pidfd == (int)id && pidfds[i].pid) pid = pidfds[i].pid;
    if (pid > 0) {
      if (fl & WNOHANG) { struct rep r; depth++; ask(OP_WAIT, -1, 1, pid, 0, "", 0, "", 0, &r); depth--; if (r.arg) fl &= ~WNOHANG; }
      else await_child(pid);
    }
  }
  return (int)fin(RAW(SYS_waitid, t, id, si, fl, 0, 0));
}
EXPORT int poll(struct pollfd *p, nfds_t n, int timeout) {
  int pipes = 0;
  for (nfds_t i = 0; i < n; i++) if (fd_kind(p[i].fd) == F_PIPE) pipes = 1;
  if (!ACTIVE || !pipes) return (int)fin(RAW(SYS_poll, p, n, timeout, 0, 0, 0));
  struct rep r = ev(OP_POLL, -1, 0, (int64_t)n, "<pipe>", 0);
  if (r.action == ACT_FAIL) return (int)fail(r.err);
  for (;;) {
    long k = RAW(SYS_poll, p, n, 0, 0, 0, 0);
    if (k != 0 || timeout == 0) return (int)done(k);
    ev(OP_BLOCK, -1, OP_POLL, 0, "<pipe>", 0);
  }
}
EXPORT int kill(pid_t p, int s) {
  if (ACTIVE && p == fakepid && fakepid) p = (pid_t)RAW(SYS_getpid, 0, 0, 0, 0, 0, 0);
  if (ACTIVE) ev(OP_KILL, -1, s, p, "", 0);
  return (int)fin(RAW(SYS_kill, p, s, 0, 0, 0, 0));
}
/* the machine's size is the simulator's choice too */
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *set) {
  if (!on) { long r = RAW(SYS_sched_getaffinity, p, n, set, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } memset((char *)set + r, 0, n - (size_t)r); return 0; }
  memset(set, 0, n);
  for (int i = 0; i <= fakepid % 8; i++) CPU_SET_S((size_t)i, n, set);
  return 0;
}
EXPORT pid_t getpid(void) { return on && fakepid ? fakepid : (pid_t)RAW(SYS_getpid, 0, 0, 0, 0, 0, 0); }

// ---------------------------------------------------------------- threads and locks
struct tstart { void *(*fn)(void *); void *arg; uint32_t token; };
static uint32_t tokens;
static struct { pthread_t t; uint32_t token; } tids[256]; static int ntids;
static void *tramp(void *v) {
  struct tstart s = *(struct tstart *)v;
  depth++;
  extern void __libc_free(void *); __libc_free(v);
  rnd_state = seed ^ (0xABCDEF12345ull * (s.token + 1)); heap_state = heapseed + s.token;
  conn = dial();
  pthread_setspecific(exitkey, (void *)1);
  struct rep r; int pid = (int)RAW(SYS_getpid, 0, 0, 0, 0, 0, 0);
  ask(OP_HELLO, pid, 1, pid, s.token, "", 0, "", 0, &r);
  depth--;
  return s.fn(s.arg);
}
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  NEXT(nx, pthread_create);
  if (!ACTIVE) return nx(t, a, fn, arg);
  depth++;
  extern void *__libc_malloc(size_t);
  struct tstart *s = __libc_malloc(sizeof *s);
  s->fn = fn; s->arg = arg; s->token = ++tokens;
  uint32_t tok = s->token;
  struct rep r;
  ask(OP_THREAD, -1, 0, 0, tok, "", 0, "", 0, &r);
  if (r.action == ACT_FAIL) { depth--; return r.err; }
  __atomic_add_fetch(&nthreads, 1, __ATOMIC_SEQ_CST);
  int e = nx(t, a, tramp, s);
  if (!e) { tids[ntids % 256].t = *t; tids[ntids++ % 256].token = tok; }
  ask(OP_THREAD, -1, e ? 2 : 1, 0, tok, "", 0, "", 0, &r);
  depth--;
  return e;
}
EXPORT int pthread_join(pthread_t t, void **v) {
  NEXT(nx, pthread_join);
  if (ACTIVE) for (int i = 0; i < 256; i++) if (tids[i].token && pthread_equal(tids[i].t, t)) {
    struct rep r; depth++; ask(OP_JOIN, -1, 0, 0, tids[i].token, "", 0, "", 0, &r); depth--; tids[i].token = 0; break;
  }
  depth++; int e = nx(t, v); depth--;
  return e;
}
EXPORT int sched_yield(void) { if (ACTIVE && nthreads > 1) ev(OP_PREEMPT, -1, 0, 0, "yield", 0); return 0; }

EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  extern ssize_t getrandom(void *, size_t, unsigned);
  switch (n) {
    case SYS_getrandom: return getrandom((void *)a, (size_t)b, (unsigned)c);
    case SYS_futex: {
      int op = (int)b & FUTEX_CMD_MASK;
      if (!ACTIVE || nthreads <= 1) break;
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        if (__atomic_load_n((uint32_t *)a, __ATOMIC_SEQ_CST) != (uint32_t)c) { errno = EAGAIN; return -1; }
        ev(OP_BLOCK, -1, OP_FUTEX, 0, "<lock>", 0);
        return 0;  // a (possibly spurious) wake-up; callers re-check
      }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) return 0;  // parked waiters re-check by themselves
      break;
    }
    case SYS_copy_file_range: return copy_file_range((int)a, (off_t *)b, (int)c, (off_t *)d, (size_t)e, (unsigned)f);
    case SYS_statx: return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
    case SYS_openat: return do_open((int)a, (const char *)b, (int)c, (mode_t)d);
    case SYS_renameat2: return renameat2((int)a, (const char *)b, (int)c, (const char *)d, (unsigned)e);
    case SYS_read: return read((int)a, (void *)b, (size_t)c);
    case SYS_write: return write((int)a, (void *)b, (size_t)c);
    case SYS_clock_gettime: return clock_gettime((clockid_t)a, (struct timespec *)b);
    default: break;
  }
  return fin(RAW(n, a, b, c, d, e, f));
}

// ---------------------------------------------------------------- randomness and time
EXPORT ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!on) return fin(RAW(SYS_getrandom, b, n, fl, 0, 0, 0));
  unsigned char *p = b;
  for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(splitmix(&rnd_state) >> 17);
  return (ssize_t)n;
}
EXPORT int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
static int64_t tick(void) {
  uint64_t s = seed ^ (uint64_t)vclock;
  return __atomic_add_fetch(&vclock, 1000 + (int64_t)(splitmix(&s) % 1000000), __ATOMIC_SEQ_CST);
}
EXPORT int clock_gettime(clockid_t c, struct timespec *t) {
  if (!on) return (int)fin(RAW(SYS_clock_gettime, c, t, 0, 0, 0, 0));
  int64_t v = tick(); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
}
EXPORT int gettimeofday(struct timeval *t, void *z) {
  (void)z; if (!on) return (int)fin(RAW(SYS_gettimeofday, t, z, 0, 0, 0, 0));
  int64_t v = tick(); t->tv_sec = v / 1000000000; t->tv_usec = v % 1000000000 / 1000; return 0;
}
EXPORT time_t time(time_t *o) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
static int vsleep(const struct timespec *r) {
  int64_t d = (int64_t)r->tv_sec * 1000000000 + r->tv_nsec;
  __atomic_add_fetch(&vclock, d, __ATOMIC_SEQ_CST);
  ev(OP_SLEEP, -1, 0, d, "sleep", 0); return 0;
}
EXPORT int nanosleep(const struct timespec *r, struct timespec *m) { if (!ACTIVE) return (int)fin(RAW(SYS_nanosleep, r, m, 0, 0, 0, 0)); return vsleep(r); }
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *m) {
  if (!ACTIVE) { long k = RAW(SYS_clock_nanosleep, c, fl, r, m, 0, 0); return (int)-k; }
  if (fl & TIMER_ABSTIME) { struct timespec d = *r; int64_t t = (int64_t)r->tv_sec * 1000000000 + r->tv_nsec - vclock; if (t < 0) t = 0; d.tv_sec = t / 1000000000; d.tv_nsec = t % 1000000000; return vsleep(&d); }
  return vsleep(r);
}
EXPORT int usleep(useconds_t u) { struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&t, 0); }
EXPORT unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, 0); return 0; }

// ---------------------------------------------------------------- allocator
extern void *__libc_malloc(size_t); extern void *__libc_realloc(void *, size_t); extern void *__libc_calloc(size_t, size_t);
static inline void maybe_preempt(void *ra) {
  if (preempt_left && depth == 0 && conn >= 0 && (uintptr_t)ra >= exe_lo && (uintptr_t)ra < exe_hi) {
    if (--preempt_left == 0) ev(OP_PREEMPT, -1, 1, 0, "alloc", 0);
  }
}
static inline size_t pad(size_t n) {
  if (!heapseed || !on) return n;
  return n + (splitmix(&heap_state) % 5) * 16;
}
EXPORT void *malloc(size_t n) { maybe_preempt(__builtin_return_address(0)); return __libc_malloc(pad(n)); }
EXPORT void *calloc(size_t a, size_t b) { maybe_preempt(__builtin_return_address(0)); return __libc_calloc(a, b); }
EXPORT void *realloc(void *p, size_t n) { maybe_preempt(__builtin_return_address(0)); return __libc_realloc(p, n); }
