// Wire protocol between simulated actors and the simulator (SOCK_SEQPACKET).
#ifndef VSIM_PROTO_H
#define VSIM_PROTO_H
#include <stdint.h>

enum {
  OP_HELLO = 1, OP_OPEN, OP_READ, OP_WRITE, OP_STAT, OP_MKDIR, OP_UNLINK, OP_RMDIR,
  OP_RENAME, OP_LINK, OP_SYMLINK, OP_TRUNC, OP_CHMOD, OP_UTIME, OP_FSYNC,
  OP_REALPATH, OP_READLINK, OP_OPENDIR, OP_SPAWN, OP_AFTERSPAWN, OP_WAIT,
  OP_BLOCK, OP_POLL, OP_FUTEX, OP_THREAD, OP_JOIN, OP_PREEMPT, OP_FORK, OP_LOCK,
  OP_EXEC, OP_MMAP, OP_KILL, OP_STUB, OP_NOTE, OP_SLEEP, OP_CHDIR,
};

enum { ACT_PROCEED = 0, ACT_FAIL = 1, ACT_SHORT = 2, ACT_TORN = 3, ACT_CORRUPT = 4, ACT_DIE = 5 };

struct req {
  uint32_t op;
  int32_t fd;
  int32_t flags;
  int32_t prev_errno;
  int64_t n;
  int64_t prev_ret;
  int64_t aux;
  uint32_t plen, p2len;
  char data[];
};

struct rep {
  uint32_t action;
  int32_t err;
  int64_t arg;
  uint32_t preempt;   // park again after this many allocations (0: never)
  uint32_t len;       // extra bytes following (stub scripts)
};
#define REQ_MAX 65536
#endif
