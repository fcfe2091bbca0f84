#include "kernel.h"
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timeb.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/sysmacros.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

extern char **environ;

namespace sim {

const char *op_name[OP_NKINDS] = {"none","open","read","write","close","lseek","stat","access","getcwd","rename","unlink",
  "mkdir","trunc","sync","ioctl","clock","exit","signal","spawn","other","alloc","mutate","crash","start"};
const char *eff_name[E_NEFF] = {"none","error","short","crash","crash-after","crash-mid","media","clock-step","replace",
  "close-lost-data","quota","alloc-fail"};

uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *)p;
  while (n >= 8) { uint64_t w; memcpy(&w, c, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; c += 8; n -= 8; }
  while (n--) { h = (h ^ *c++) * 1099511628211ULL; h ^= h >> 31; }
  return h;
}

// ---------------------------------------------------------------- raw system calls
asm(R"(
  .section .text
  .globl sim_raw_begin
  .globl sim_raw_end
  .globl sim_raw_syscall
sim_raw_begin:
sim_raw_syscall:
  movq %rdi, %rax
  movq %rsi, %rdi
  movq %rdx, %rsi
  movq %rcx, %rdx
  movq %r8, %r10
  movq %r9, %r8
  movq 8(%rsp), %r9
  syscall
sim_raw_end:
  ret
)");
extern "C" long sim_raw_syscall(long nr, long a1, long a2, long a3, long a4, long a5, long a6);
extern "C" char sim_raw_begin[], sim_raw_end[];
static inline long raw(long nr, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  return sim_raw_syscall(nr, a, b, c, d, e, f);
}

// ---------------------------------------------------------------- the arena
enum { MAXPATHS = 1024, PATHLEN = 256, MAXINO = 1024, MAXDIRENT = 768, MAXNODE = 6, MAXFD = 128, MAXRULE = 96, MAXMUT = 16,
       MAXTRACE = 400000 };
static const uintptr_t ARENA_ADDR = 0x100000000000ULL, HEAP_ADDR = 0x200000000000ULL, STACK_ADDR = 0x300000000000ULL;
static const size_t GARB = 16u << 20, HEAP_SIZE = 4 * GARB, STACK_SIZE = 8u << 20;
static const size_t BLOB_SIZE = 512u << 20;

struct Inode { uint8_t type, perm; uint64_t size, cap, off; int64_t mtime; };
struct Dirent { int path, ino; };
struct Ofd { int refs, ino, flags, path; uint64_t off; bool wrote; uint64_t lo; };
struct RRule { int node; uint32_t opmask; int path; uint32_t skip, count; uint8_t eff; int64_t arg; uint32_t seen, fired; int64_t acc; };
struct RMut { int path; bool remove; uint64_t off, len; };
enum { ST_NONE, ST_READY, ST_RUNNING, ST_DONE };
struct NodeCtl {
  std::atomic<int> state;
  int exited, status, signal, crashed, hung, corrupt;
  uint32_t ops, allocs, allocfails, peak;
  int16_t fds[MAXFD]; uint8_t cloexec[MAXFD];
  int nopen;
  Ofd ofds[MAXFD];
  int cwd, out_ino, err_ino;
  int fdlimit; uint32_t rchunk, wchunk, blksize, lat_us; uint8_t tty, fakeenv;
  uint64_t rng, rng2, seed;
  int pid;
  int has_alloc_rules;
  uint64_t utime, live; uint32_t nmarks; uint32_t marks[64];
};
struct Arena {
  std::atomic<int> turn;
  int multi, nnodes, lastino_err;
  uint32_t max_ops;
  NodeCtl nodes[MAXNODE];
  int64_t clock_us; uint64_t sim_us;
  int npaths, nino, ndir, nrules, nmuts;
  Inode inodes[MAXINO];
  Dirent dirents[MAXDIRENT];
  RRule rules[MAXRULE];
  RMut muts[MAXMUT];
  uint32_t fired[E_NEFF];
  uint32_t ntrace;
  uint64_t blob_used;
  char paths[MAXPATHS][PATHLEN];
  OpRec trace[MAXTRACE];
};
static Arena *A;
static uint8_t *BLOB;
static int garbage_fd[4];

static int g_me = -1;               // node index inside a child, -1 in driver/worker
bool in_node() { return g_me >= 0; }
static NodeCtl &me() { return A->nodes[g_me]; }

static uint64_t rnext(uint64_t &s) { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }

static int intern(const char *p) {
  for (int i = 0; i < A->npaths; i++) if (!strcmp(A->paths[i], p)) return i;
  if (A->npaths >= MAXPATHS) return MAXPATHS - 1;
  strncpy(A->paths[A->npaths], p, PATHLEN - 1);
  A->paths[A->npaths][PATHLEN - 1] = 0;
  return A->npaths++;
}
static int lookup(int path) { for (int i = 0; i < A->ndir; i++) if (A->dirents[i].path == path) return i; return -1; }
static int new_inode(int type, int perm) {
  if (A->nino >= MAXINO) return -1;
  Inode &n = A->inodes[A->nino]; n.type = type; n.perm = perm; n.size = n.cap = n.off = 0; n.mtime = A->clock_us;
  return A->nino++;
}
static bool grow(Inode &n, uint64_t want) {
  if (want <= n.cap) return true;
  uint64_t cap = n.cap ? n.cap : 256; while (cap < want) cap *= 2;
  if (A->blob_used + cap > BLOB_SIZE) return false;
  uint64_t off = A->blob_used; A->blob_used += cap;
  if (n.size) memcpy(BLOB + off, BLOB + n.off, n.size);
  n.off = off; n.cap = cap;
  return true;
}
static bool put(Inode &n, uint64_t at, const void *p, uint64_t len) {
  if (!grow(n, at + len)) return false;
  n.mtime = A->clock_us;
  if (at > n.size) memset(BLOB + n.off + n.size, 0, at - n.size);
  memcpy(BLOB + n.off + at, p, len);
  if (at + len > n.size) n.size = at + len;
  return true;
}

static OpRec *rec(uint8_t kind, int path, int64_t a, int64_t b, int64_t ret, uint8_t eff) {
  if (A->ntrace >= MAXTRACE) return &A->trace[MAXTRACE - 1];
  OpRec &r = A->trace[A->ntrace++];
  r.node = g_me < 0 ? 255 : g_me; r.kind = kind; r.eff = eff; r.path = path; r.a = a; r.b = b; r.ret = ret;
  r.err = ret < 0 && ret > -4096 ? (int)-ret : 0; r.t_us = A->sim_us;
  return &r;
}

// ---------------------------------------------------------------- stopping a node
static void futex_wake(std::atomic<int> *p) { raw(SYS_futex, (long)p, FUTEX_WAKE, 64, 0, 0, 0); }
static void futex_wait(std::atomic<int> *p, int val, const struct timespec *ts) { raw(SYS_futex, (long)p, FUTEX_WAIT, val, (long)ts, 0, 0); }

static void __attribute__((noreturn)) node_stop() {
  me().state.store(ST_DONE);
  if (A->multi) { A->turn.store(0); futex_wake(&A->turn); }
  raw(SYS_exit_group, 0);
  for (;;) raw(SYS_exit_group, 0);
}
static void __attribute__((noreturn)) node_crash(int path) {
  me().crashed = 1; rec(OP_CRASH, path, 0, 0, 0, E_CRASH); node_stop();
}
static void wait_turn() {
  if (!A->multi) return;
  me().state.store(ST_READY);
  A->turn.store(0); futex_wake(&A->turn);
  int t;
  while ((t = A->turn.load()) != g_me + 1) futex_wait(&A->turn, t, nullptr);
  me().state.store(ST_RUNNING);
}

// ---------------------------------------------------------------- fault plan
struct Decision { uint8_t eff = E_NONE; int64_t arg = 0; RRule *rule = nullptr; };
static void apply_mutation(int m) {
  if (m < 0 || m >= A->nmuts) return;
  RMut &mu = A->muts[m];
  int d = lookup(mu.path);
  if (mu.remove) { if (d >= 0) A->dirents[d] = A->dirents[--A->ndir]; }
  else {
    int ino = new_inode(F_REG, 6);
    if (ino < 0) return;
    put(A->inodes[ino], 0, BLOB + mu.off, mu.len);
    if (d >= 0) A->dirents[d].ino = ino; else { A->dirents[A->ndir].path = mu.path; A->dirents[A->ndir++].ino = ino; }
  }
  rec(OP_MUTATE, mu.path, m, mu.len, 0, E_MUTATE);
}
static Decision decide(uint8_t kind, int path, int64_t size) {
  Decision d;
  for (int i = 0; i < A->nrules; i++) {
    RRule &r = A->rules[i];
    if (r.node != g_me || !(r.opmask & (1u << kind))) continue;
    if (r.path >= 0 && r.path != path) continue;
    uint32_t k = r.seen++;
    if (k < r.skip) continue;
    if (r.count && k >= r.skip + r.count) continue;
    if (r.eff == E_CLOCK) { A->clock_us += r.arg * 1000; r.fired++; A->fired[E_CLOCK]++; continue; }
    if (r.eff == E_MUTATE) { apply_mutation((int)r.arg); r.fired++; A->fired[E_MUTATE]++; continue; }
    if (d.eff == E_NONE) { d.eff = r.eff; d.arg = r.arg; d.rule = &r; }
  }
  (void)size;
  return d;
}
static void fire(Decision &d) { if (d.rule) d.rule->fired++; A->fired[d.eff]++; }

// common prologue of an I/O operation: schedule, time, bound, fault decision
static Decision begin(uint8_t kind, int path, int64_t size) {
  wait_turn();
  NodeCtl &n = me();
  uint32_t lat = n.lat_us ? 1 + rnext(n.rng2) % (2 * n.lat_us) : 0;
  A->sim_us += lat; A->clock_us += lat;
  if (++n.ops > A->max_ops) { n.hung = 1; node_stop(); }
  Decision d = decide(kind, path, size);
  if (d.eff == E_CRASH) { fire(d); node_crash(path); }
  return d;
}
static long finish(uint8_t kind, int path, int64_t a, int64_t b, long ret, Decision &d) {
  rec(kind, path, a, b, ret, d.eff);
  if (d.eff == E_CRASH_AFTER || d.eff == E_CRASH_MID) { fire(d); node_crash(path); }
  return ret;
}

// ---------------------------------------------------------------- paths
static bool norm(const char *p, char *out) {
  char tmp[PATHLEN * 2];
  if (p[0] == '/') { if (strlen(p) >= PATHLEN) return false; strcpy(tmp, p); }
  else {
    const char *c = A->paths[me().cwd];
    if (strlen(c) + strlen(p) + 2 >= sizeof tmp) return false;
    strcpy(tmp, c); strcat(tmp, "/"); strcat(tmp, p);
  }
  size_t o = 0; const char *s = tmp; out[0] = 0;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) break;
    const char *e = s; while (*e && *e != '/') e++;
    size_t l = e - s;
    if (l == 1 && s[0] == '.') {}
    else if (l == 2 && s[0] == '.' && s[1] == '.') { while (o && out[o - 1] != '/') o--; if (o) o--; out[o] = 0; }
    else { if (o + l + 2 >= PATHLEN) return false; out[o++] = '/'; memcpy(out + o, s, l); o += l; out[o] = 0; }
    s = e;
  }
  if (!o) strcpy(out, "/");
  return true;
}
// 0 when the parent chain is searchable directories, else errno
static int parents_ok(const char *p) {
  char tmp[PATHLEN];
  for (size_t i = 1; p[i]; i++) if (p[i] == '/') {
    memcpy(tmp, p, i); tmp[i] = 0;
    int id = -1;
    for (int k = 0; k < A->npaths; k++) if (!strcmp(A->paths[k], tmp)) { id = k; break; }
    int d = id < 0 ? -1 : lookup(id);
    if (d < 0) return ENOENT;
    Inode &n = A->inodes[A->dirents[d].ino];
    if (n.type != F_DIR) return ENOTDIR;
    if (!(n.perm & 4)) return EACCES;
  }
  return 0;
}
static int parent_writable(const char *p) {
  char tmp[PATHLEN]; strcpy(tmp, p);
  char *s = strrchr(tmp, '/'); if (!s) return ENOENT;
  if (s == tmp) return 0;
  *s = 0;
  int d = lookup(intern(tmp));
  if (d < 0) return ENOENT;
  return (A->inodes[A->dirents[d].ino].perm & 2) ? 0 : EACCES;
}

// ---------------------------------------------------------------- descriptors
static int alloc_fd(int from = 0) { NodeCtl &n = me(); for (int i = from; i < n.fdlimit && i < MAXFD; i++) if (n.fds[i] < 0) return i; return -EMFILE; }
static Ofd *get(int fd) { NodeCtl &n = me(); if (fd < 0 || fd >= MAXFD || n.fds[fd] < 0) return nullptr; return &n.ofds[n.fds[fd]]; }
static int alloc_ofd() { NodeCtl &n = me(); for (int i = 0; i < MAXFD; i++) if (!n.ofds[i].refs) return i; return -1; }
static void note_open() { NodeCtl &n = me(); n.nopen++; if ((uint32_t)n.nopen > n.peak) n.peak = n.nopen; }

static long simple(uint8_t kind, int path, int64_t a, long ret);
static long do_open(const char *path, int flags) {
  char p[PATHLEN];
  if (!norm(path, p)) return -ENAMETOOLONG;
  int id = intern(p);
  Decision d = begin(OP_OPEN, id, 0);
  NodeCtl &n = me();
  int acc = flags & O_ACCMODE; bool w = acc != O_RDONLY;
  long r = 0;
  if (d.eff == E_ERR) { fire(d); return finish(OP_OPEN, id, flags, 0, -d.arg, d); }
  int e = parents_ok(p);
  if (e) return finish(OP_OPEN, id, flags, 0, -e, d);
  int di = lookup(id), ino, created = 0;
  int fd = alloc_fd();
  const bool null = di < 0 && strcmp(p, "/dev/null") == 0;   // takes everything, has nothing
  if (null) {
    if (fd < 0) return finish(OP_OPEN, id, flags, 0, fd, d);
    if ((ino = new_inode(F_CHR, 6)) < 0) return finish(OP_OPEN, id, flags, 0, -ENOSPC, d);
  } else if (di < 0) {
    if (!(flags & O_CREAT)) return finish(OP_OPEN, id, flags, 0, -ENOENT, d);
    if ((e = parent_writable(p))) return finish(OP_OPEN, id, flags, 0, -e, d);
    if (fd < 0) return finish(OP_OPEN, id, flags, 0, fd, d);
    ino = new_inode(F_REG, 6);
    if (ino < 0 || A->ndir >= MAXDIRENT) return finish(OP_OPEN, id, flags, 0, -ENOSPC, d);
    A->dirents[A->ndir].path = id; A->dirents[A->ndir++].ino = ino; created = 1;
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) return finish(OP_OPEN, id, flags, 0, -EEXIST, d);
    ino = A->dirents[di].ino;
    Inode &in = A->inodes[ino];
    if (in.type == F_DIR && w) return finish(OP_OPEN, id, flags, 0, -EISDIR, d);
    if (in.type != F_DIR && (flags & O_DIRECTORY)) return finish(OP_OPEN, id, flags, 0, -ENOTDIR, d);
    if (w && !(in.perm & 2)) r = -EACCES;
    if (acc != O_WRONLY && !(in.perm & 4)) r = -EACCES;
    if (r) return finish(OP_OPEN, id, flags, 0, r, d);
    if (fd < 0) return finish(OP_OPEN, id, flags, 0, fd, d);
    if ((flags & O_TRUNC) && w && in.type == F_REG) { in.size = 0; in.mtime = A->clock_us; }
  }
  int o = alloc_ofd();
  if (o < 0) return finish(OP_OPEN, id, flags, 0, -ENFILE, d);
  n.ofds[o].refs = 1; n.ofds[o].ino = ino; n.ofds[o].flags = flags; n.ofds[o].path = id; n.ofds[o].off = 0; n.ofds[o].wrote = false; n.ofds[o].lo = ~0ULL;
  n.fds[fd] = o; note_open();
  return finish(OP_OPEN, id, flags, created, fd, d);
}

static long do_read(int fd, void *buf, uint64_t len, int64_t at = -1) {
  Ofd *o = get(fd);
  if (!o) { Decision d; return finish(OP_READ, -1, fd, len, -EBADF, d); }
  Decision d = begin(OP_READ, o->path, len);
  Inode &in = A->inodes[o->ino];
  uint64_t off = at >= 0 ? (uint64_t)at : o->off;
  if (d.eff == E_ERR) { fire(d); return finish(OP_READ, o->path, off, len, -d.arg, d); }
  if ((o->flags & O_ACCMODE) == O_WRONLY) return finish(OP_READ, o->path, off, len, -EBADF, d);
  if (in.type == F_DIR) return finish(OP_READ, o->path, off, len, -EISDIR, d);
  uint64_t avail = off < in.size ? in.size - off : 0, n = len < avail ? len : avail;
  if (d.eff == E_MEDIA) {
    if (n && off >= (uint64_t)d.arg) { fire(d); return finish(OP_READ, o->path, off, len, -EIO, d); }
    if (n && off + n > (uint64_t)d.arg) n = d.arg - off;
    else if (!n && in.size > (uint64_t)d.arg) {}
    d.eff = E_NONE;
  }
  NodeCtl &nc = me();
  if (d.eff == E_SHORT && n > (uint64_t)d.arg) { fire(d); n = d.arg ? d.arg : 1; }
  if (nc.rchunk && n > 1) { uint64_t m = 1 + rnext(nc.rng) % nc.rchunk; if (m < n) { n = m; A->fired[E_SHORT]++; } }
  if (n) memcpy(buf, BLOB + in.off + off, n);
  if (at < 0) o->off += n;
  return finish(OP_READ, o->path, off, len, n, d);
}

static long do_write(int fd, const void *buf, uint64_t len, int64_t at = -1) {
  Ofd *o = get(fd);
  if (!o) { Decision d; return finish(OP_WRITE, -1, fd, len, -EBADF, d); }
  Decision d = begin(OP_WRITE, o->path, len);
  Inode &in = A->inodes[o->ino];
  uint64_t off = at >= 0 ? (uint64_t)at : (o->flags & O_APPEND) ? in.size : o->off;
  if (d.eff == E_ERR) { fire(d); return finish(OP_WRITE, o->path, off, len, -d.arg, d); }
  if ((o->flags & O_ACCMODE) == O_RDONLY) return finish(OP_WRITE, o->path, off, len, -EBADF, d);
  uint64_t n = len; NodeCtl &nc = me();
  if (d.eff == E_QUOTA) {
    int64_t left = d.arg - d.rule->acc;
    if (left <= 0 && n) { fire(d); return finish(OP_WRITE, o->path, off, len, -ENOSPC, d); }
    if ((int64_t)n > left) { n = left; fire(d); } else d.eff = E_NONE;
    d.rule->acc += n;
  }
  if (d.eff == E_CRASH_MID) { if ((uint64_t)d.arg < n) n = d.arg; }
  if (d.eff == E_SHORT && n > (uint64_t)d.arg) { fire(d); n = d.arg ? d.arg : 1; }
  if (nc.wchunk && n > 1) { uint64_t m = 1 + rnext(nc.rng) % nc.wchunk; if (m < n) { n = m; A->fired[E_SHORT]++; } }
  if (in.type != F_CHR || o->ino == nc.out_ino || o->ino == nc.err_ino)
    if (!put(in, off, buf, n)) return finish(OP_WRITE, o->path, off, len, -ENOSPC, d);
  o->wrote = true; if (off < o->lo) o->lo = off;
  if (at < 0) o->off = off + n;
  return finish(OP_WRITE, o->path, off, len, n, d);
}

static long do_close(int fd) {
  Ofd *o = get(fd);
  if (!o) { Decision d; return finish(OP_CLOSE, -1, fd, 0, -EBADF, d); }
  Decision d = begin(OP_CLOSE, o->path, 0);
  int path = o->path; long r = 0; bool wrote = o->wrote;
  NodeCtl &n = me();
  if (d.eff == E_ERR) { fire(d); r = -d.arg; }
  if (d.eff == E_CLOSE_LOSE) {           // delayed write-back failed: the tail of the data is gone
    if (wrote) { fire(d); Inode &in = A->inodes[o->ino]; uint64_t lo = o->lo < in.size ? o->lo : in.size; in.size = lo + (in.size - lo) * (uint64_t)(d.arg % 1000) / 1000; r = -EIO; }  // only what this descriptor wrote can be lost
    else d.eff = E_NONE;
  }
  n.fds[fd] = -1; n.nopen--;
  o->refs--;
  return finish(OP_CLOSE, path, fd, wrote, r, d);
}

static long do_lseek(int fd, int64_t off, int whence) {
  Ofd *o = get(fd);
  if (!o) { Decision d; return finish(OP_LSEEK, -1, fd, off, -EBADF, d); }
  Decision d = begin(OP_LSEEK, o->path, off);
  if (d.eff == E_ERR) { fire(d); return finish(OP_LSEEK, o->path, off, whence, -d.arg, d); }
  Inode &in = A->inodes[o->ino];
  if (in.type == F_FIFO || in.type == F_CHR) return finish(OP_LSEEK, o->path, off, whence, -ESPIPE, d);
  int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)o->off : whence == SEEK_END ? (int64_t)in.size : -1;
  if (b < 0 || b + off < 0) return finish(OP_LSEEK, o->path, off, whence, -EINVAL, d);
  o->off = b + off;
  return finish(OP_LSEEK, o->path, off, whence, o->off, d);
}

static void fill_stat(struct stat *st, int ino, NodeCtl &n) {
  memset(st, 0, sizeof *st);
  Inode &in = A->inodes[ino];
  st->st_dev = 1 + n.seed % 7; st->st_ino = n.seed & 8 ? 5000000 - ino : 100 + ino; st->st_nlink = 1; st->st_uid = st->st_gid = 1000 + (n.seed >> 4) % 3;
  st->st_mode = (in.type == F_DIR ? S_IFDIR | 0111 : in.type == F_FIFO ? S_IFIFO : in.type == F_CHR ? S_IFCHR : S_IFREG) |
                ((in.perm & 4) ? 0444 : 0) | ((in.perm & 2) ? 0200 : 0);
  if (in.type == F_CHR) st->st_rdev = makedev(136, 0);
  st->st_size = in.size; st->st_blksize = n.blksize; st->st_blocks = (in.size + 511) / 512;
  st->st_mtim.tv_sec = in.mtime / 1000000; st->st_mtim.tv_nsec = in.mtime % 1000000 * 1000;
  st->st_ctim = st->st_mtim; st->st_atime = A->clock_us / 1000000;
}
static long do_stat(const char *path, int fd, struct stat *st, int flags) {
  int ino, id; NodeCtl &n = me();
  if (path && path[0]) {
    char p[PATHLEN]; if (!norm(path, p)) return -ENAMETOOLONG;
    id = intern(p);
    Decision d = begin(OP_STAT, id, 0);
    if (d.eff == E_ERR) { fire(d); return finish(OP_STAT, id, 0, 0, -d.arg, d); }
    int e = parents_ok(p); if (e) return finish(OP_STAT, id, 0, 0, -e, d);
    int di = lookup(id); if (di < 0) return finish(OP_STAT, id, 0, 0, -ENOENT, d);
    fill_stat(st, A->dirents[di].ino, n);
    return finish(OP_STAT, id, 0, 0, 0, d);
  }
  Ofd *o = get(fd);
  if (!o) { Decision d; return finish(OP_STAT, -1, fd, 0, -EBADF, d); }
  ino = o->ino; id = o->path;
  Decision d = begin(OP_STAT, id, 0);
  if (d.eff == E_ERR) { fire(d); return finish(OP_STAT, id, fd, 0, -d.arg, d); }
  fill_stat(st, ino, n);
  return finish(OP_STAT, id, fd, 0, 0, d);
}
static long do_chdir(const char *path) {
  char p[PATHLEN]; if (!norm(path, p)) return -ENAMETOOLONG;
  int id = intern(p); Decision d = begin(OP_STAT, id, 0);
  if (d.eff == E_ERR) { fire(d); return finish(OP_STAT, id, 0, 1, -d.arg, d); }
  int e = parents_ok(p); if (e) return finish(OP_STAT, id, 0, 1, -e, d);
  int di = lookup(id); if (di < 0) return finish(OP_STAT, id, 0, 1, -ENOENT, d);
  if (A->inodes[A->dirents[di].ino].type != F_DIR) return finish(OP_STAT, id, 0, 1, -ENOTDIR, d);
  me().cwd = id;
  return finish(OP_STAT, id, 0, 1, 0, d);
}
static long do_access(const char *path, int m) {
  char p[PATHLEN]; if (!norm(path, p)) return -ENAMETOOLONG;
  int id = intern(p);
  Decision d = begin(OP_ACCESS, id, m);
  if (d.eff == E_ERR) { fire(d); return finish(OP_ACCESS, id, m, 0, -d.arg, d); }
  int e = parents_ok(p); if (e) return finish(OP_ACCESS, id, m, 0, -e, d);
  int di = lookup(id); if (di < 0) return finish(OP_ACCESS, id, m, 0, -ENOENT, d);
  Inode &in = A->inodes[A->dirents[di].ino];
  if ((m & R_OK) && !(in.perm & 4)) return finish(OP_ACCESS, id, m, 0, -EACCES, d);
  if ((m & W_OK) && !(in.perm & 2)) return finish(OP_ACCESS, id, m, 0, -EACCES, d);
  return finish(OP_ACCESS, id, m, 0, 0, d);
}
// directory listing: the children in an order that depends on the node's environment
static long do_getdents(int fd, uint8_t *buf, uint64_t size) {
  Ofd *o = get(fd);
  if (!o) { Decision d; return finish(OP_OTHER, -1, fd, SYS_getdents64, -EBADF, d); }
  Decision d = begin(OP_OTHER, o->path, SYS_getdents64);
  if (d.eff == E_ERR) { fire(d); return finish(OP_OTHER, o->path, SYS_getdents64, 0, -d.arg, d); }
  if (A->inodes[o->ino].type != F_DIR) return finish(OP_OTHER, o->path, SYS_getdents64, 0, -ENOTDIR, d);
  const char *dir = A->paths[o->path]; size_t dl = strcmp(dir, "/") ? strlen(dir) : 0;
  struct Ent { uint64_t key; const char *name; int ino; };
  static Ent e[MAXDIRENT + 2]; int n = 0;
  e[n++] = {0, ".", o->ino}; e[n++] = {0, "..", o->ino};
  for (int i = 0; i < A->ndir; i++) {
    const char *p = A->paths[A->dirents[i].path];
    if (strncmp(p, dir, dl) || p[dl] != '/' || !p[dl + 1] || strchr(p + dl + 1, '/')) continue;
    const char *nm = p + dl + 1; e[n++] = {1 + (hash_bytes(nm, strlen(nm), me().seed | 1) >> 1), nm, A->dirents[i].ino};
  }
  for (int i = 1; i < n; i++) for (int k = i; k > 0 && e[k].key < e[k - 1].key; k--) { Ent t = e[k]; e[k] = e[k - 1]; e[k - 1] = t; }
  uint64_t done = 0; int i = (int)o->off;
  for (; i < n; i++) {
    size_t l = (19 + strlen(e[i].name) + 1 + 7) & ~(size_t)7; if (done + l > size) break;
    uint8_t *b = buf + done; memset(b, 0, l);
    uint64_t in = 100 + e[i].ino, off = i + 1; uint16_t rl = (uint16_t)l; int ty = A->inodes[e[i].ino].type;
    memcpy(b, &in, 8); memcpy(b + 8, &off, 8); memcpy(b + 16, &rl, 2); b[18] = ty == F_DIR ? 4 : ty == F_FIFO ? 1 : ty == F_CHR ? 2 : 8; strcpy((char *)b + 19, e[i].name);
    done += l;
  }
  o->off = i;
  return finish(OP_OTHER, o->path, SYS_getdents64, 0, done, d);
}
static long do_readlink(const char *path) {
  char p[PATHLEN]; if (!norm(path, p)) return -ENAMETOOLONG;
  int id = intern(p), e = parents_ok(p); if (!e) e = lookup(id) < 0 ? ENOENT : EINVAL;
  return simple(OP_STAT, id, SYS_readlink, -e);
}
static long do_getcwd(char *buf, uint64_t size) {
  Decision d = begin(OP_GETCWD, me().cwd, size);
  if (d.eff == E_ERR) { fire(d); return finish(OP_GETCWD, me().cwd, size, 0, -d.arg, d); }
  const char *c = A->paths[me().cwd]; size_t l = strlen(c) + 1;
  if (l > size) return finish(OP_GETCWD, me().cwd, size, 0, -ERANGE, d);
  memcpy(buf, c, l);
  return finish(OP_GETCWD, me().cwd, size, 0, l, d);
}
static long do_unlink(const char *path, bool dir) {
  char p[PATHLEN]; if (!norm(path, p)) return -ENAMETOOLONG;
  int id = intern(p);
  Decision d = begin(OP_UNLINK, id, dir);
  if (d.eff == E_ERR) { fire(d); return finish(OP_UNLINK, id, dir, 0, -d.arg, d); }
  int e = parents_ok(p); if (!e) e = parent_writable(p);
  int di = e ? -1 : lookup(id); if (di < 0 && !e) e = ENOENT;
  if (e) return finish(OP_UNLINK, id, dir, 0, -e, d);
  A->dirents[di] = A->dirents[--A->ndir];
  return finish(OP_UNLINK, id, dir, 0, 0, d);
}
static long do_rename(const char *a, const char *b) {
  char p[PATHLEN], q[PATHLEN]; if (!norm(a, p) || !norm(b, q)) return -ENAMETOOLONG;
  int ia = intern(p), ib = intern(q);
  Decision d = begin(OP_RENAME, ib, ia);
  if (d.eff == E_ERR) { fire(d); return finish(OP_RENAME, ib, ia, 0, -d.arg, d); }
  int e = parents_ok(p); if (!e) e = parents_ok(q); if (!e) e = parent_writable(q); if (!e) e = parent_writable(p);
  int da = e ? -1 : lookup(ia); if (da < 0 && !e) e = ENOENT;
  if (e) return finish(OP_RENAME, ib, ia, 0, -e, d);
  int ino = A->dirents[da].ino;
  if (ia != ib) {
    int db = lookup(ib);
    if (db >= 0) A->dirents[db].ino = ino; else { A->dirents[A->ndir].path = ib; A->dirents[A->ndir++].ino = ino; }
    da = lookup(ia); A->dirents[da] = A->dirents[--A->ndir];
  }
  return finish(OP_RENAME, ib, ia, 0, 0, d);
}
static long do_mkdir(const char *path) {
  char p[PATHLEN]; if (!norm(path, p)) return -ENAMETOOLONG;
  int id = intern(p);
  Decision d = begin(OP_MKDIR, id, 0);
  if (d.eff == E_ERR) { fire(d); return finish(OP_MKDIR, id, 0, 0, -d.arg, d); }
  int e = parents_ok(p); if (!e) e = parent_writable(p);
  if (!e && lookup(id) >= 0) e = EEXIST;
  if (e) return finish(OP_MKDIR, id, 0, 0, -e, d);
  A->dirents[A->ndir].path = id; A->dirents[A->ndir++].ino = new_inode(F_DIR, 6);
  return finish(OP_MKDIR, id, 0, 0, 0, d);
}
static long do_trunc(int ino, int path, int64_t len) {
  Decision d = begin(OP_TRUNC, path, len);
  if (d.eff == E_ERR) { fire(d); return finish(OP_TRUNC, path, len, 0, -d.arg, d); }
  Inode &in = A->inodes[ino];
  if ((uint64_t)len > in.size) { char z = 0; put(in, len - 1, &z, 1); } else in.size = len;
  in.mtime = A->clock_us;
  return finish(OP_TRUNC, path, len, 0, 0, d);
}
static long simple(uint8_t kind, int path, int64_t a, long ret) {
  Decision d = begin(kind, path, a);
  if (d.eff == E_ERR) { fire(d); ret = -d.arg; }
  return finish(kind, path, a, 0, ret, d);
}

int64_t node_clock_us() {
  int64_t us = A->clock_us;
  if (in_node()) {
    if (++me().ops > A->max_ops) { me().hung = 1; node_stop(); }
    rec(OP_CLOCK, -1, us, 0, 0, E_NONE);
  }
  return us;
}
static void put_timespec(struct timespec *ts) { int64_t u = node_clock_us(); if (ts) { ts->tv_sec = u / 1000000; ts->tv_nsec = (u % 1000000) * 1000; } }

static long emulate(long nr, long a, long b, long c, long d4, long e5, long f6) {
  switch (nr) {
    case SYS_open: return do_open((const char *)a, b);
    case SYS_creat: return do_open((const char *)a, O_CREAT | O_WRONLY | O_TRUNC);
    case SYS_openat: return do_open((const char *)b, c);
    case SYS_read: return do_read(a, (void *)b, c);
    case SYS_pread64: return do_read(a, (void *)b, c, d4);
    case SYS_write: return do_write(a, (const void *)b, c);
    case SYS_pwrite64: return do_write(a, (const void *)b, c, d4);
    case SYS_readv: case SYS_writev: {
      const struct iovec *v = (const struct iovec *)b; long tot = 0;
      for (long i = 0; i < c; i++) {
        if (!v[i].iov_len) continue;
        long r = nr == SYS_readv ? do_read(a, v[i].iov_base, v[i].iov_len) : do_write(a, v[i].iov_base, v[i].iov_len);
        if (r < 0) return tot ? tot : r;
        tot += r;
        if ((size_t)r < v[i].iov_len) break;
      }
      return tot;
    }
    case SYS_close: return do_close(a);
    case SYS_lseek: return do_lseek(a, b, c);
    case SYS_stat: case SYS_lstat: return do_stat((const char *)a, -1, (struct stat *)b, 0);
    case SYS_fstat: return do_stat(nullptr, a, (struct stat *)b, 0);
    case SYS_newfstatat: return do_stat((const char *)b, a, (struct stat *)c, d4);
    case SYS_access: return do_access((const char *)a, b);
    case SYS_faccessat: case 439: return do_access((const char *)b, c);
    case SYS_chdir: return do_chdir((const char *)a);
    case SYS_getcwd: return do_getcwd((char *)a, b);
    case SYS_unlink: return do_unlink((const char *)a, false);
    case SYS_rmdir: return do_unlink((const char *)a, true);
    case SYS_unlinkat: return do_unlink((const char *)b, c != 0);
    case SYS_rename: return do_rename((const char *)a, (const char *)b);
    case SYS_renameat: case SYS_renameat2: return do_rename((const char *)b, (const char *)d4);
    case SYS_mkdir: return do_mkdir((const char *)a);
    case SYS_mkdirat: return do_mkdir((const char *)b);
    case SYS_ftruncate: { Ofd *o = get(a); if (!o) return -EBADF; o->wrote = true; return do_trunc(o->ino, o->path, b); }
    case SYS_truncate: { char p[PATHLEN]; if (!norm((const char *)a, p)) return -ENAMETOOLONG; int di = lookup(intern(p)); if (di < 0) return -ENOENT; return do_trunc(A->dirents[di].ino, A->dirents[di].path, b); }
    case SYS_fsync: case SYS_fdatasync: { Ofd *o = get(a); if (!o) return -EBADF; return simple(OP_SYNC, o->path, 0, 0); }
    case SYS_sync: return simple(OP_SYNC, -1, 0, 0);
    case SYS_dup: case SYS_dup2: case SYS_dup3: {
      NodeCtl &n = me(); Ofd *o = get(a); if (!o) return -EBADF;
      int fd = nr == SYS_dup ? alloc_fd() : (int)b;
      if (fd < 0 || fd >= MAXFD) return -EMFILE;
      if (fd == a) return fd;
      if (n.fds[fd] >= 0) do_close(fd);
      n.fds[fd] = n.fds[a]; o->refs++; note_open();
      return fd;
    }
    case SYS_fcntl: {
      Ofd *o = get(a); if (!o) return -EBADF;
      if (b == F_DUPFD || b == F_DUPFD_CLOEXEC) { int fd = alloc_fd(c); if (fd < 0) return fd; me().fds[fd] = me().fds[a]; o->refs++; note_open(); return fd; }
      if (b == F_GETFL) return o->flags;
      if (b == F_GETFD || b == F_SETFD) return 0;
      if (b == F_SETFL) { o->flags = (o->flags & ~(O_APPEND | O_NONBLOCK)) | (c & (O_APPEND | O_NONBLOCK)); return 0; }
      return 0;
    }
    case SYS_ioctl: {
      Ofd *o = get(a); if (!o) return -EBADF;
      NodeCtl &n = me(); bool con = n.tty && (o->ino == n.out_ino || o->ino == n.err_ino);
      if (con && b == 0x5413) { uint16_t *w = (uint16_t *)c; w[0] = 10 + n.seed % 90; w[1] = 20 + n.seed % 200; w[2] = w[3] = 0; return simple(OP_IOCTL, o->path, b, 0); }
      if (con && b == 0x5401) { memset((void *)c, 0, 36); return simple(OP_IOCTL, o->path, b, 0); }
      return simple(OP_IOCTL, o->path, b, -ENOTTY);
    }
    case SYS_mmap: {     // file mapping: private copy of the contents
      Ofd *o = get(e5); if (!o) return -EBADF;
      long p = raw(SYS_mmap, a, b, PROT_READ | PROT_WRITE, (d4 & MAP_FIXED) | MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (p < 0 && p > -4096) return p;
      Inode &in = A->inodes[o->ino];
      Decision d = begin(OP_READ, o->path, b);
      if (d.eff == E_ERR) { fire(d); raw(SYS_munmap, p, b); return finish(OP_READ, o->path, f6, b, -d.arg, d); }
      uint64_t n = (uint64_t)f6 < in.size ? in.size - f6 : 0; if (n > (uint64_t)b) n = b;
      memcpy((void *)p, BLOB + in.off + f6, n);
      finish(OP_READ, o->path, f6, b, n, d);
      return p;
    }
    case SYS_exit_group: case SYS_exit: {
      wait_turn();
      Decision d; me().exited = 1; me().status = (int)(a & 0xff); finish(OP_EXIT, -1, a & 0xff, 0, 0, d);
      node_stop();
    }
    case SYS_tgkill: case SYS_tkill: case SYS_kill: {
      int sig = nr == SYS_tgkill ? c : b;
      if (!sig) return 0;
      me().signal = sig; rec(OP_SIGNAL, -1, sig, 0, 0, E_NONE); node_stop();
    }
    case SYS_rt_sigaction: return 0;
    case SYS_getpid: return me().pid;
    case SYS_gettid: return me().pid;
    case SYS_getppid: return me().pid - 1;
    case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: return 1000 + (me().seed >> 4) % 3;
    case SYS_getdents64: return do_getdents(a, (uint8_t *)b, c);
    case SYS_readlink: return do_readlink((const char *)a);
    case SYS_readlinkat: return do_readlink((const char *)b);
    case SYS_getpgrp: return me().pid;
    case SYS_umask: return me().seed & 2 ? 022 : 077;
    case SYS_sched_getaffinity: { uint64_t c1 = (1ULL << (1 + me().seed % 16)) - 1; if (b < 8) return -EINVAL; memset((void *)c, 0, b); memcpy((void *)c, &c1, 8); return 8; }
    case SYS_sysinfo: { struct { long up; unsigned long l[3], tot, fr, sh, bu, ts, fs; uint16_t procs, pad; unsigned long th, fh; uint32_t unit; } si; memset(&si, 0, sizeof si); si.up = 1 + me().seed % 1000000; si.tot = (64 + me().seed % 8192) << 20; si.fr = si.tot / (2 + me().seed % 5); si.procs = 1 + me().seed % 500; si.unit = 1; memcpy((void *)a, &si, sizeof si); return 0; }
    case SYS_getrandom: { uint8_t *p = (uint8_t *)a; for (long i = 0; i < b; i++) p[i] = rnext(me().rng2); return b; }
    case SYS_clock_gettime: put_timespec((struct timespec *)b); return 0;
    case SYS_clock_getres: if (b) { ((struct timespec *)b)->tv_sec = 0; ((struct timespec *)b)->tv_nsec = 1; } return 0;
    case SYS_gettimeofday: { int64_t u = node_clock_us(); if (a) { ((struct timeval *)a)->tv_sec = u / 1000000; ((struct timeval *)a)->tv_usec = u % 1000000; } return 0; }
    case SYS_time: { int64_t u = node_clock_us() / 1000000; if (a) *(time_t *)a = u; return u; }
    case SYS_times: { int64_t u = node_clock_us() / 10000; if (a) memset((void *)a, 0, 32); return u; }
    case SYS_getrusage: { if (b) memset((void *)b, 0, sizeof(struct rusage)); int64_t u = node_clock_us(); if (b) { ((struct rusage *)b)->ru_utime.tv_sec = u / 1000000; ((struct rusage *)b)->ru_utime.tv_usec = u % 1000000; } return 0; }
    case SYS_nanosleep: { const struct timespec *t = (const struct timespec *)a; int64_t us = t->tv_sec * 1000000 + t->tv_nsec / 1000; A->clock_us += us; A->sim_us += us; return simple(OP_OTHER, -1, nr, 0); }
    case SYS_clock_nanosleep: { const struct timespec *t = (const struct timespec *)c; int64_t us = t->tv_sec * 1000000 + t->tv_nsec / 1000; if (!(b & 1)) { A->clock_us += us; A->sim_us += us; } return simple(OP_OTHER, -1, nr, 0); }
    case SYS_sched_yield: return simple(OP_OTHER, -1, nr, 0);
    case SYS_prlimit64: { if (d4) { uint64_t *l = (uint64_t *)d4; l[0] = b == RLIMIT_NOFILE ? me().fdlimit : b == RLIMIT_STACK ? STACK_SIZE : ~0ULL; l[1] = l[0]; } return 0; }
    case SYS_uname: { char *u = (char *)a; memset(u, 0, 65 * 6); strcpy(u, "Linux"); snprintf(u + 65, 60, "sim%d", (int)(me().seed % 10)); strcpy(u + 130, "6.0.0"); strcpy(u + 195, "#1"); strcpy(u + 260, "x86_64"); return 0; }
    case SYS_statfs: case SYS_fstatfs: { if (b) { memset((void *)b, 0, sizeof(struct statfs)); ((struct statfs *)b)->f_bsize = 4096; ((struct statfs *)b)->f_bavail = me().seed % (1 << 20); ((struct statfs *)b)->f_blocks = 1 << 21; } return 0; }
    case SYS_flock: { return simple(OP_OTHER, -1, nr, 0); }
    case SYS_chmod: case SYS_fchmod: case SYS_fchmodat: return simple(OP_OTHER, -1, nr, 0);
    case SYS_fork: case SYS_vfork: case SYS_clone: case SYS_execve: case 435: case SYS_socket: case SYS_execveat:
      rec(OP_SPAWN, -1, nr, 0, -EAGAIN, E_NONE); if (++me().ops > A->max_ops) { me().hung = 1; node_stop(); } return -EAGAIN;
    default: return simple(OP_OTHER, -1, nr, -ENOSYS);
  }
}

static void on_sigsys(int, siginfo_t *si, void *uc_) {
  ucontext_t *uc = (ucontext_t *)uc_;
  greg_t *g = uc->uc_mcontext.gregs;
  int saved = errno;
  long r = emulate(si->si_syscall, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
  errno = saved;
  g[REG_RAX] = r;
}

static int install_filter() {
  uint32_t lo = (uint32_t)(uintptr_t)sim_raw_begin, hi = (uint32_t)(uintptr_t)sim_raw_end;
#define OFF(f) (uint32_t) offsetof(struct seccomp_data, f)
  static const int allow[] = {SYS_munmap, SYS_mprotect, SYS_mremap, SYS_madvise, SYS_brk, SYS_futex, SYS_rt_sigreturn,
                              SYS_rt_sigprocmask, SYS_sigaltstack, SYS_arch_prctl};
  struct sock_filter f[64]; int n = 0;
  auto st = [&](uint16_t code, uint32_t k) { f[n++] = BPF_STMT(code, k); };
  auto jm = [&](uint16_t code, uint32_t k, uint8_t t, uint8_t e) { f[n++] = BPF_JUMP(code, k, t, e); };
  st(BPF_LD | BPF_W | BPF_ABS, OFF(instruction_pointer) + 4);
  jm(BPF_JMP | BPF_JEQ | BPF_K, 0, 0, 4);
  st(BPF_LD | BPF_W | BPF_ABS, OFF(instruction_pointer));
  jm(BPF_JMP | BPF_JGE | BPF_K, lo, 0, 2);
  jm(BPF_JMP | BPF_JGT | BPF_K, hi, 1, 0);
  st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  st(BPF_LD | BPF_W | BPF_ABS, OFF(nr));
  for (int a : allow) { jm(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)a, 0, 1); st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW); }
  jm(BPF_JMP | BPF_JEQ | BPF_K, SYS_mmap, 0, 3);
  st(BPF_LD | BPF_W | BPF_ABS, OFF(args[3]));
  jm(BPF_JMP | BPF_JSET | BPF_K, MAP_ANONYMOUS, 0, 1);
  st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  st(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
  struct sock_fprog prog = {(unsigned short)n, f};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return -1;
  if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) return -2;
  return 0;
}

// ---------------------------------------------------------------- simulated allocator
struct Hdr { uint32_t size, req; uint64_t magic; };
static const uint64_t MAGIC = 0x51A110C8D0C0FFEEULL;
static uintptr_t h_cur, h_end;
static uintptr_t z_cur, z_end;         // zero pages for large zeroed requests
static struct FreeQ { uintptr_t q[64]; int n; } h_free[48];
static uint8_t h_pad, h_reuse, h_move, h_garb;
static uint64_t h_rng;
static int cls_of(uint32_t sz) { if (sz <= 512) return sz / 16; int c = 32; uint32_t s = 1024; while (s < sz && c < 47) { s *= 2; c++; } return c; }
static uint32_t cls_size(uint32_t sz) { if (sz <= 512) return (sz + 15) & ~15u; uint32_t s = 1024; while (s < sz) s *= 2; return sz > 65536 ? (sz + 4095) & ~4095u : s; }
static bool in_heap(const void *p) { return ((uintptr_t)p >= HEAP_ADDR && (uintptr_t)p < HEAP_ADDR + 2 * HEAP_SIZE); }

static void heap_setup(const Env &e) {
  h_cur = HEAP_ADDR + (e.heap_off & ~15u); h_end = HEAP_ADDR + HEAP_SIZE;
  z_cur = HEAP_ADDR + HEAP_SIZE; z_end = z_cur + HEAP_SIZE;
  h_pad = e.pad; h_reuse = e.reuse; h_move = e.move; h_garb = e.garbage; h_rng = e.seed ^ 0xA110C;
  memset(h_free, 0, sizeof h_free);
}
static void garbage_fill(void *p, size_t n) {
  if (h_garb == 0) { memset(p, 0, n); return; }
  if (h_garb == 1) { memset(p, 0xFF, n); return; }
  if (h_garb == 3) { for (size_t i = 0; i < n; i++) ((char *)p)[i] = "BM6(9)A$"[i & 7]; return; }
  uint8_t *c = (uint8_t *)p; uint64_t w = 0;
  for (size_t i = 0; i < n; i++) { if (!(i & 7)) w = rnext(h_rng); c[i] = w >> ((i & 7) * 8); }
}
static bool alloc_should_fail() {
  NodeCtl &n = me();
  n.allocs++;
  if (!n.has_alloc_rules) return false;
  Decision d = decide(OP_ALLOC, -1, 0);
  if (d.eff == E_ALLOC) { fire(d); n.allocfails++; rec(OP_ALLOC, -1, n.allocs, 0, -ENOMEM, E_ALLOC); return true; }
  return false;
}
static void *h_alloc_(size_t req, size_t align, bool zero);
static void *h_alloc(size_t req, size_t align, bool zero) { void *p = h_alloc_(req, align, zero); if (p) me().live += req; return p; }
static void *h_alloc_(size_t req, size_t align, bool zero) {
  if (req > HEAP_SIZE) return nullptr;
  uint32_t want = (uint32_t)req + 1;
  uint32_t sz = cls_size(want < 16 ? 16 : want);
  if (zero && sz >= (1u << 20)) {       // untouched zero pages
    uintptr_t p = (z_cur + sizeof(Hdr) + 15) & ~15ul;
    if (p + sz > z_end) return nullptr;
    z_cur = p + sz;
    Hdr *h = (Hdr *)(p - sizeof(Hdr)); h->size = sz; h->req = (uint32_t)req; h->magic = MAGIC ^ p;
    ((uint8_t *)p)[req] = 0x7E;
    return (void *)p;
  }
  if (align <= 16 && h_reuse != 2 && sz <= 65536) {
    FreeQ &q = h_free[cls_of(sz)];
    if (q.n) {
      uintptr_t p;
      if (h_reuse == 0) p = q.q[--q.n];
      else { p = q.q[0]; memmove(q.q, q.q + 1, --q.n * sizeof(uintptr_t)); }
      Hdr *h = (Hdr *)(p - sizeof(Hdr));
      if (h->size >= sz) {
        h->req = (uint32_t)req; h->magic = MAGIC ^ p;
        if (zero) memset((void *)p, 0, req); else garbage_fill((void *)p, req);
        ((uint8_t *)p)[req] = 0x7E;
        return (void *)p;
      }
    }
  }
  uintptr_t al = align < 16 ? 16 : align;
  uintptr_t pad = h_pad ? (rnext(h_rng) % h_pad) * 16 : 0;
  uintptr_t p = (h_cur + pad + sizeof(Hdr) + al - 1) & ~(al - 1);
  if (p + sz > h_end) return nullptr;
  h_cur = p + sz;
  Hdr *h = (Hdr *)(p - sizeof(Hdr)); h->size = sz; h->req = (uint32_t)req; h->magic = MAGIC ^ p;
  if (zero) memset((void *)p, 0, req);
  ((uint8_t *)p)[req] = 0x7E;
  return (void *)p;
}
static void __attribute__((noreturn)) heap_corrupt() { me().corrupt = 1; me().signal = SIGABRT; rec(OP_SIGNAL, -1, SIGABRT, 1, 0, E_NONE); node_stop(); }
static void h_release(void *ptr) {
  uintptr_t p = (uintptr_t)ptr; Hdr *h = (Hdr *)(p - sizeof(Hdr));
  if ((p & 15) || h->magic != (MAGIC ^ p) || ((uint8_t *)p)[h->req] != 0x7E) heap_corrupt();
  h->magic = 0; me().live -= h->req;
  if (h->size <= 65536) {
    garbage_fill(ptr, h->req);
    FreeQ &q = h_free[cls_of(h->size)];
    if (h_reuse != 2 && q.n < 64) q.q[q.n++] = p;
  }
}

extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__real_memalign(size_t, size_t); int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
size_t __real_malloc_usable_size(void *);
void *__wrap_malloc(size_t n) {
  if (g_me < 0) return __real_malloc(n);
  if (alloc_should_fail()) { errno = ENOMEM; return nullptr; }
  void *p = h_alloc(n, 16, false); if (!p) errno = ENOMEM; return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  if (g_me < 0) return __real_calloc(a, b);
  size_t n; if (__builtin_mul_overflow(a, b, &n) || alloc_should_fail()) { errno = ENOMEM; return nullptr; }
  void *p = h_alloc(n, 16, true); if (!p) errno = ENOMEM; return p;
}
void __wrap_free(void *p) {
  if (!p) return;
  if (g_me < 0) { __real_free(p); return; }
  if (in_heap(p)) h_release(p);          // objects made before the fork are left alone
  else if ((uintptr_t)p >= STACK_ADDR && (uintptr_t)p < STACK_ADDR + STACK_SIZE) heap_corrupt();
}
void *__wrap_realloc(void *p, size_t n) {
  if (g_me < 0) return __real_realloc(p, n);
  if (alloc_should_fail()) { errno = ENOMEM; return nullptr; }
  if (!p) { void *r = h_alloc(n, 16, false); if (!r) errno = ENOMEM; return r; }
  if (!in_heap(p)) { if (n > (1u << 26)) return nullptr; void *r = h_alloc(n, 16, false); if (r) memcpy(r, p, n); return r; }
  uintptr_t u = (uintptr_t)p; Hdr *h = (Hdr *)(u - sizeof(Hdr));
  if ((u & 15) || h->magic != (MAGIC ^ u) || ((uint8_t *)p)[h->req] != 0x7E) heap_corrupt();
  if (!h_move && n + 1 <= h->size) {
    if (n > h->req) garbage_fill((uint8_t *)p + h->req, n - h->req);
    me().live += n; me().live -= h->req;
    h->req = (uint32_t)n; ((uint8_t *)p)[n] = 0x7E; return p;
  }
  void *r = h_alloc(n, 16, false);
  if (!r) { errno = ENOMEM; return nullptr; }
  memcpy(r, p, h->req < n ? h->req : n);
  h_release(p);
  return r;
}
void *__wrap_memalign(size_t al, size_t n) {
  if (g_me < 0) return __real_memalign(al, n);
  if (alloc_should_fail()) { errno = ENOMEM; return nullptr; }
  return h_alloc(n, al, false);
}
void sim_mark() { if (g_me >= 0 && me().nmarks < 64) me().marks[me().nmarks++] = (uint32_t)me().live; }   // the memory in use now
void *__wrap_aligned_alloc(size_t al, size_t n) { return __wrap_memalign(al, n); }
int __wrap_posix_memalign(void **out, size_t al, size_t n) {
  if (g_me < 0) return __real_posix_memalign(out, al, n);
  void *p = __wrap_memalign(al, n); if (!p) return ENOMEM; *out = p; return 0;
}
size_t __wrap_malloc_usable_size(void *p) {
  if (g_me < 0 || !in_heap(p)) return p && g_me < 0 ? __real_malloc_usable_size(p) : 0;
  return ((Hdr *)((uintptr_t)p - sizeof(Hdr)))->req;
}
// clocks
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) { if (g_me < 0) return __real_clock_gettime(id, ts); put_timespec(ts); return 0; }
int __wrap_ftime(struct timeb *tb) {
  int64_t u;
  if (g_me < 0) { struct timespec ts; __real_clock_gettime(CLOCK_REALTIME, &ts); u = ts.tv_sec * 1000000LL + ts.tv_nsec / 1000; }
  else u = node_clock_us();
  memset(tb, 0, sizeof *tb); tb->time = u / 1000000; tb->millitm = (u % 1000000) / 1000; return 0;
}
time_t __wrap_time(time_t *t) {
  int64_t u; if (g_me < 0) { struct timespec ts; __real_clock_gettime(CLOCK_REALTIME, &ts); u = ts.tv_sec * 1000000LL; } else u = node_clock_us();
  time_t r = u / 1000000; if (t) *t = r; return r;
}
int __wrap_gettimeofday(struct timeval *tv, void *) {
  int64_t u; if (g_me < 0) { struct timespec ts; __real_clock_gettime(CLOCK_REALTIME, &ts); u = ts.tv_sec * 1000000LL + ts.tv_nsec / 1000; } else u = node_clock_us();
  if (tv) { tv->tv_sec = u / 1000000; tv->tv_usec = u % 1000000; } return 0;
}
char *__real_getenv(const char *); char *__real_secure_getenv(const char *);
static char *some_env(const char *n) {   // names the C library and its allocator own keep their real meaning
  static const char *OWN[] = {"LC_", "LANG", "LOC", "TZ", "POSIX", "MALLOC", "GCONV", "NLS", "OPENSSL", "LD_", "GLIBC", "RES_", "OUTPUT_CHARSET", "CHARSET", "RANDFILE", "SSL_", "CTLOG"};
  for (auto o : OWN) if (!strncmp(n, o, strlen(o))) return nullptr;
  static const char *VAL[] = {"1", "x", "-T", "/tmp", "Somebody", "0", "", "zzz", "/decoys", "/decoys/", "/decoys;/tmp", "/decoys/out"};
  return (char *)VAL[(hash_bytes(n, strlen(n)) + me().fakeenv) % 12];
}
char *__wrap_getenv(const char *n) { char *v = __real_getenv(n); if (v || g_me < 0 || !n || !me().fakeenv) return v; return some_env(n); }
char *__wrap_secure_getenv(const char *n) { char *v = __real_secure_getenv(n); if (v || g_me < 0 || !n || !me().fakeenv) return v; return some_env(n); }
clock_t __real_clock(void);
clock_t __wrap_clock(void) { if (g_me < 0) return __real_clock(); return (clock_t)node_clock_us(); }
int __wrap_timespec_get(struct timespec *ts, int base) { if (g_me < 0) { __real_clock_gettime(CLOCK_REALTIME, ts); return base; } put_timespec(ts); return base; }
}

// ---------------------------------------------------------------- node start
static const NodeSpec *g_spec;
// A node that burns this much processor time without a system call hangs. Before that is believed the run is repeated
// with a limit that even a slow and busy machine doesn't reach; once it was confirmed the short limit is enough.
static int g_cpu_limit = 8; static bool g_cpu_hung, g_cpu_confirmed;
static char **g_argv; static int g_argc;
static void __attribute__((noreturn)) node_main() {
  int rc = g_spec->entry(g_argc, g_argv);
  exit(rc);
}
static void __attribute__((noreturn)) child(int idx, const RunSpec &rs) {
  const NodeSpec &ns = rs.nodes[idx];
  const Env &e = ns.env;
  struct rlimit rl = {(rlim_t)g_cpu_limit, (rlim_t)g_cpu_limit}; setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int gfd = garbage_fd[e.garbage & 3];
  for (int i = 0; i < 4; i++)
    if (mmap((void *)(HEAP_ADDR + i * GARB), GARB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED_NOREPLACE, gfd, 0) == MAP_FAILED) _exit(111);
  if (mmap((void *)(HEAP_ADDR + HEAP_SIZE), HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) _exit(112);
  if (mmap((void *)STACK_ADDR, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED_NOREPLACE, gfd, 0) == MAP_FAILED) _exit(113);
  static char altstack[256 * 1024];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sigsys; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSYS, &sa, nullptr);
  g_spec = &ns;
  // argv and environment live in the node's own memory
  g_argc = (int)ns.argv.size();
  g_argv = (char **)malloc(sizeof(char *) * (g_argc + 1));
  for (int i = 0; i < g_argc; i++) g_argv[i] = strdup(ns.argv[i].c_str());
  g_argv[g_argc] = nullptr;
  char **ev = (char **)malloc(sizeof(char *) * (e.envv.size() + 1));
  for (size_t i = 0; i < e.envv.size(); i++) ev[i] = strdup(e.envv[i].c_str());
  ev[e.envv.size()] = nullptr;
  environ = ev;
  heap_setup(e);
  g_me = idx;
  int fr = install_filter();
  if (fr) { _exit(114); }
  if (A->multi) wait_turn();
  errno = 0;
  uintptr_t top = (STACK_ADDR + STACK_SIZE - 65536 - (e.stack_off & 0xFFF0)) & ~(uintptr_t)15;
  asm volatile("movq %0, %%rsp\n xorl %%ebp, %%ebp\n call *%1\n" ::"r"(top), "r"(node_main) : "memory");
  __builtin_unreachable();
}

void kernel_init() {
  for (int g = 0; g < 4; g++) {
    int fd = (int)syscall(SYS_memfd_create, "garbage", 1u);
    if (fd < 0 || ftruncate(fd, GARB)) { perror("memfd"); exit(2); }
    uint8_t *p = (uint8_t *)mmap(nullptr, GARB, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { perror("mmap garbage"); exit(2); }
    if (g == 1) memset(p, 0xFF, GARB);
    else if (g == 2) { uint64_t s = 0xBADC0DE; for (size_t i = 0; i < GARB; i += 8) { uint64_t w = rnext(s); memcpy(p + i, &w, 8); } }
    else if (g == 3) { for (size_t i = 0; i < GARB; i++) p[i] = "BM6(9)A$"[i & 7]; }
    munmap(p, GARB);
    garbage_fd[g] = fd;
  }
}
void worker_init() {
  size_t total = ((sizeof(Arena) + 4095) & ~4095ul) + BLOB_SIZE;
  void *p = mmap((void *)ARENA_ADDR, total, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap arena"); _exit(2); }
  A = (Arena *)p; BLOB = (uint8_t *)p + ((sizeof(Arena) + 4095) & ~4095ul);
}

static void load_disk(const Disk &d) {
  std::map<std::string, bool> dirs;
  for (auto &kv : d) {
    int id = intern(kv.first.c_str());
    int ino = new_inode(kv.second.type, kv.second.perm);
    if (ino < 0 || A->ndir >= MAXDIRENT) { fprintf(stderr, "disk too large\n"); _exit(2); }
    put(A->inodes[ino], 0, kv.second.data.data(), kv.second.data.size());
    A->inodes[ino].mtime = kv.second.mtime ? kv.second.mtime : A->clock_us - 86400000000ll;   // what was there before is a day old
    A->dirents[A->ndir].path = id; A->dirents[A->ndir++].ino = ino;
  }
}

static void run_once(const RunSpec &rs, RunResult &res) {
  res = RunResult(); g_cpu_hung = false;
  A->turn.store(-1); A->multi = rs.nodes.size() > 1; A->nnodes = (int)rs.nodes.size();
  A->max_ops = rs.max_ops; A->npaths = A->nino = A->ndir = A->nrules = A->nmuts = 0; A->ntrace = 0; A->blob_used = 0;
  A->sim_us = 0; memset(A->fired, 0, sizeof A->fired);
  g_me = -1;
  A->clock_us = rs.nodes.empty() ? 0 : rs.nodes[0].env.clock_ms * 1000;
  load_disk(rs.disk);
  for (auto &r : rs.rules) {
    if (A->nrules >= MAXRULE) break;
    RRule &q = A->rules[A->nrules++];
    q.node = r.node; q.opmask = r.opmask; q.path = r.path.empty() ? -1 : intern(r.path.c_str()); q.skip = r.skip; q.count = r.count;
    q.eff = r.eff; q.arg = r.arg; q.seen = q.fired = 0; q.acc = 0;
  }
  for (auto &m : rs.muts) {
    if (A->nmuts >= MAXMUT) break;
    RMut &q = A->muts[A->nmuts++]; q.path = intern(m.path.c_str()); q.remove = m.remove;
    Inode tmp; memset(&tmp, 0, sizeof tmp); put(tmp, 0, m.data.data(), m.data.size()); q.off = tmp.off; q.len = m.data.size();
  }
  std::vector<pid_t> pids(rs.nodes.size(), 0);
  std::vector<int> reaped(rs.nodes.size(), 0), wst(rs.nodes.size(), 0);
  for (size_t i = 0; i < rs.nodes.size(); i++) {
    NodeCtl &n = A->nodes[i]; const Env &e = rs.nodes[i].env;
    memset((void *)&n, 0, sizeof n);
    for (int k = 0; k < MAXFD; k++) n.fds[k] = -1;
    n.cwd = intern(rs.nodes[i].cwd.c_str());
    char nm[32]; snprintf(nm, sizeof nm, i ? "<stdout%zu>" : "<stdout>", i); int po = intern(nm);
    snprintf(nm, sizeof nm, i ? "<stderr%zu>" : "<stderr>", i); int pe = intern(nm);
    int ct = e.tty ? F_CHR : F_FIFO;
    n.out_ino = new_inode(ct, 6); n.err_ino = new_inode(ct, 6);
    int in_ino = new_inode(F_CHR, 6);
    n.ofds[0] = {1, in_ino, O_RDONLY, intern("<stdin>"), 0, false};
    n.ofds[1] = {1, n.out_ino, O_WRONLY, po, 0, false};
    n.ofds[2] = {1, n.err_ino, O_WRONLY, pe, 0, false};
    n.fds[0] = 0; n.fds[1] = 1; n.fds[2] = 2; n.nopen = 3; n.peak = 3;
    for (int k = 0; k < 3; k++) if (e.shut & (1 << k)) { n.fds[k] = -1; n.ofds[k].refs = 0; n.nopen--; }
    n.fdlimit = e.fdlimit; n.rchunk = e.rchunk; n.wchunk = e.wchunk; n.blksize = e.blksize; n.lat_us = e.lat_us; n.tty = e.tty; n.fakeenv = e.fakeenv;
    n.seed = e.seed; n.rng = e.seed * 77 + 5; n.rng2 = e.seed * 1313 + 9 + i; n.pid = 1000 + (int)(e.seed % 30000);
    for (auto &r : rs.rules) if (r.node == (int)i && r.eff == E_ALLOC) n.has_alloc_rules = 1;
  }
  for (size_t i = 0; i < rs.nodes.size(); i++) {
    if (A->multi) A->turn.store(-1);
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(2); }
    if (p == 0) child((int)i, rs);
    pids[i] = p;
    if (A->multi) {       // let it reach its first wait
      int t; while (A->nodes[i].state.load() == ST_NONE) {
        t = A->turn.load(); struct timespec ts = {0, 2000000}; if (t != 0) futex_wait(&A->turn, t, &ts);
        int st; if (waitpid(p, &st, WNOHANG) == p) { fprintf(stderr, "node failed to start: %x\n", st); _exit(2); }
      }
    }
  }
  if (!A->multi) {
    for (size_t i = 0; i < pids.size(); i++) { while (waitpid(pids[i], &wst[i], 0) < 0 && errno == EINTR) {} reaped[i] = 1; }
  } else {
    Rng sr(rs.sched_seed); int last = -1; size_t pos = 0;
    for (;;) {
      int run_[MAXNODE], nr = 0;
      for (size_t i = 0; i < pids.size(); i++) if (!reaped[i] && A->nodes[i].state.load() == ST_READY) run_[nr++] = (int)i;
      if (!nr) break;
      int pick = -1;
      if (rs.have_sched) {
        if (pos < rs.sched.size()) { int w = rs.sched[pos]; for (int k = 0; k < nr; k++) if (run_[k] == w) pick = w; }
        if (pick < 0) { for (int k = 0; k < nr; k++) if (run_[k] == last) pick = last; if (pick < 0) pick = run_[0]; }
        pos++;
      } else {
        bool can = false; for (int k = 0; k < nr; k++) if (run_[k] == last) can = true;
        if (can && sr.chance(rs.sched_bias)) pick = last; else pick = run_[sr.below(nr)];
      }
      res.sched.push_back((uint8_t)pick);
      if (last >= 0 && pick != last) res.switches++;
      last = pick;
      A->nodes[pick].state.store(ST_RUNNING);
      A->turn.store(pick + 1); futex_wake(&A->turn);
      for (;;) {
        int t = A->turn.load();
        int s = A->nodes[pick].state.load();
        if (t == 0 && s == ST_READY) break;
        if (s == ST_DONE) { while (waitpid(pids[pick], &wst[pick], 0) < 0 && errno == EINTR) {} reaped[pick] = 1; break; }
        struct timespec ts = {0, 20000000};
        if (t != 0) futex_wait(&A->turn, t, &ts);
        if (A->turn.load() == 0) continue;
        if (waitpid(pids[pick], &wst[pick], WNOHANG) == pids[pick]) { reaped[pick] = 1; A->nodes[pick].state.store(ST_DONE); break; }
      }
    }
    for (size_t i = 0; i < pids.size(); i++) if (!reaped[i]) { while (waitpid(pids[i], &wst[i], 0) < 0 && errno == EINTR) {} reaped[i] = 1; }
  }
  // results
  for (size_t i = 0; i < pids.size(); i++) {
    NodeCtl &n = A->nodes[i]; NodeResult r;
    if (WIFSIGNALED(wst[i])) { if (WTERMSIG(wst[i]) == SIGXCPU || WTERMSIG(wst[i]) == SIGKILL) { n.hung = 1; g_cpu_hung = true; } else n.signal = WTERMSIG(wst[i]); }
    else if (WEXITSTATUS(wst[i])) { fprintf(stderr, "simulator failure in node: exit %d\n", WEXITSTATUS(wst[i])); _exit(2); }
    r.exited = n.exited; r.status = n.exited ? n.status : -1; r.signal = n.signal; r.crashed = n.crashed; r.hung = n.hung; r.corrupt = n.corrupt;
    r.ops = n.ops; r.allocs = n.allocs; r.allocfails = n.allocfails; r.peak_fds = n.peak; r.marks.assign(n.marks, n.marks + n.nmarks);
    r.out.assign((char *)BLOB + A->inodes[n.out_ino].off, A->inodes[n.out_ino].size);
    r.err.assign((char *)BLOB + A->inodes[n.err_ino].off, A->inodes[n.err_ino].size);
    res.nodes.push_back(r);
  }
  for (int i = 0; i < A->ndir; i++) {
    Inode &n = A->inodes[A->dirents[i].ino]; FileState f; f.type = (FType)n.type; f.perm = n.perm; f.id = A->dirents[i].ino; f.mtime = n.mtime;
    f.data.assign((char *)BLOB + n.off, n.size);
    res.disk[A->paths[A->dirents[i].path]] = f;
  }
  res.trace.assign(A->trace, A->trace + A->ntrace);
  for (int i = 0; i < A->npaths; i++) res.paths.push_back(A->paths[i]);
  res.sim_us = A->sim_us;
  memcpy(res.fired, A->fired, sizeof res.fired);
  for (int i = 0; i < A->nrules; i++) res.rule_fired.push_back(A->rules[i].fired);
  uint64_t h = 7, sh = 7;
  for (auto &o : res.trace) {
    int64_t v[6] = {o.node * 65536 + o.kind * 256 + o.eff, o.path, o.err, o.a, o.b, o.ret};
    if (o.kind == OP_LSEEK || o.kind == OP_IOCTL) {}
    h = hash_bytes(v, sizeof v, h);
    int64_t w[3] = {o.node * 65536 + o.kind * 256 + o.eff, o.path, o.err};
    if (o.kind != OP_CLOCK) sh = hash_bytes(w, sizeof w, sh);
  }
  for (auto &kv : res.disk) { h = hash_bytes(kv.first.data(), kv.first.size(), h); h = hash_bytes(kv.second.data.data(), kv.second.data.size(), h); }
  for (auto &n : res.nodes) {
    int v[6] = {n.exited, n.status, n.signal, n.crashed, n.hung, (int)n.ops}; h = hash_bytes(v, sizeof v, h);
    h = hash_bytes(n.out.data(), n.out.size(), h); h = hash_bytes(n.err.data(), n.err.size(), h);
  }
  res.hash = h; res.shape = sh;
}

std::string dump_trace(const RunResult &r, size_t max) {
  std::string s; char b[512]; size_t k = 0;
  for (auto &o : r.trace) {
    if (k++ >= max) { if (k + 12 < r.trace.size()) { if (k == max + 1) s += "...\n"; continue; } }
    snprintf(b, sizeof b, "#%zu t=%llu node%d %s %s a=%lld b=%lld -> %lld%s%s\n", k - 1, (unsigned long long)o.t_us, o.node, op_name[o.kind],
             o.path >= 0 ? r.paths[o.path].c_str() : "-", (long long)o.a, (long long)o.b, (long long)o.ret, o.eff ? " FAULT " : "", o.eff ? eff_name[o.eff] : "");
    s += b;
  }
  return s;
}
void run(const RunSpec &rs, RunResult &res) {
  run_once(rs, res);
  if (!g_cpu_hung || g_cpu_confirmed) return;
  g_cpu_limit = 45; run_once(rs, res); g_cpu_limit = 8;
  if (g_cpu_hung) g_cpu_confirmed = true;
}
}
