// Simulated kernel: in-memory file system, descriptor tables, clock, fault plan and trace.
// A "node" is a forked child running the real assembler code; every system call it makes is
// trapped (seccomp) and served from the shared arena below. Nothing a node does reaches the
// real file system, clock or entropy.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>

namespace sim {

enum OpKind : uint8_t {
  OP_NONE, OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_LSEEK, OP_STAT, OP_ACCESS, OP_GETCWD,
  OP_RENAME, OP_UNLINK, OP_MKDIR, OP_TRUNC, OP_SYNC, OP_IOCTL, OP_CLOCK, OP_EXIT, OP_SIGNAL,
  OP_SPAWN, OP_OTHER, OP_ALLOC, OP_MUTATE, OP_CRASH, OP_START, OP_NKINDS
};
extern const char *op_name[OP_NKINDS];

enum Eff : uint8_t {
  E_NONE, E_ERR, E_SHORT, E_CRASH, E_CRASH_AFTER, E_CRASH_MID, E_MEDIA, E_CLOCK, E_MUTATE,
  E_CLOSE_LOSE, E_QUOTA, E_ALLOC, E_NEFF
};
extern const char *eff_name[E_NEFF];

// One entry of the fault plan. It applies to operations of `node` whose kind is in `opmask`
// (and whose path is `path`, when given): the first `skip` matches pass, the next `count`
// (0 = all later ones) get the effect.
struct Rule {
  int node = 0;
  uint32_t opmask = 0;
  std::string path;
  uint32_t skip = 0, count = 1;
  uint8_t eff = E_NONE;
  int64_t arg = 0;
  bool operator==(const Rule &o) const {
    return node == o.node && opmask == o.opmask && path == o.path && skip == o.skip && count == o.count && eff == o.eff && arg == o.arg;
  }
};
static const uint32_t MASK_IO = (1u<<OP_OPEN)|(1u<<OP_READ)|(1u<<OP_WRITE)|(1u<<OP_CLOSE)|(1u<<OP_LSEEK)|(1u<<OP_STAT)|
  (1u<<OP_ACCESS)|(1u<<OP_GETCWD)|(1u<<OP_RENAME)|(1u<<OP_UNLINK)|(1u<<OP_MKDIR)|(1u<<OP_TRUNC)|(1u<<OP_SYNC)|(1u<<OP_IOCTL);

enum FType : uint8_t { F_REG, F_DIR, F_FIFO, F_CHR };

struct FileState {
  FType type = F_REG;
  uint8_t perm = 6;           // 4 readable/searchable, 2 writable
  std::string data;
  int64_t id = 0;             // inode identity within one run
  int64_t mtime = 0;          // last change (us); 0 = a day before the run
  bool operator==(const FileState &o) const { return type == o.type && perm == o.perm && data == o.data; }
};
typedef std::map<std::string, FileState> Disk;

struct Mutation { std::string path; bool remove = false; std::string data; };

// Environment of one node: everything a deterministic program must not depend on, plus limits.
struct Env {
  uint64_t seed = 1;          // heap/stack garbage, allocator policy, getrandom, pid
  uint8_t garbage = 0;        // which garbage pattern fills fresh memory
  uint32_t stack_off = 0, heap_off = 0;
  uint8_t pad = 0;            // extra allocator padding
  uint8_t reuse = 0;          // 0 LIFO, 1 FIFO, 2 never
  uint8_t move = 0;           // realloc always moves
  int fdlimit = 64;
  uint32_t rchunk = 0, wchunk = 0; // max bytes per transfer (0: all), randomised below this
  uint32_t blksize = 4096;
  uint8_t tty = 0;
  uint8_t shut = 0;           // standard descriptors (bits 0-2) that are closed when the process starts
  uint8_t fakeenv = 0;        // every environment variable the program asks for has some value
  int64_t clock_ms = 1700000000000LL;
  uint32_t lat_us = 100;      // mean simulated latency of an operation
  std::vector<std::string> envv;
};

struct OpRec { uint8_t node, kind, eff; int16_t path; int32_t err; int64_t a, b, ret; uint64_t t_us; };

struct NodeResult {
  bool exited = false;        // orderly exit
  int status = -1;
  int signal = 0;             // died from this signal
  bool crashed = false;       // killed by the fault plan
  bool hung = false;          // exceeded the operation bound or the CPU bound
  bool corrupt = false;       // allocator canary damaged
  uint32_t ops = 0, allocs = 0, peak_fds = 0, allocfails = 0;
  std::vector<uint32_t> marks; // bytes of memory in use at each sim_mark()
  std::string out, err;
};

struct NodeSpec {
  std::vector<std::string> argv;
  Env env;
  std::string cwd = "/w";
  int (*entry)(int, char **) = nullptr;
};

struct RunResult {
  std::vector<NodeResult> nodes;
  Disk disk;
  std::vector<OpRec> trace;
  std::vector<std::string> paths;
  uint64_t hash = 0;          // over trace, disk and results
  uint64_t shape = 0;         // over the sequence of (node, kind, path, eff, errno) only
  uint64_t sim_us = 0;
  uint32_t fired[E_NEFF] = {0};
  std::vector<uint32_t> rule_fired;
  std::vector<uint8_t> sched; // choices made
  uint32_t switches = 0;
  const std::string &path_of(const OpRec &o) const { static std::string none; return o.path >= 0 ? paths[o.path] : none; }
};

struct RunSpec {
  Disk disk;
  std::vector<NodeSpec> nodes;
  std::vector<Rule> rules;
  std::vector<Mutation> muts;
  uint32_t max_ops = 60000;   // per node
  uint64_t sched_seed = 0;
  std::vector<uint8_t> sched; // explicit schedule (used when have_sched)
  bool have_sched = false;
  int sched_bias = 0;         // percent chance to keep running the same node
};

void kernel_init();                       // once per driver process, before workers fork
void worker_init();                       // once per worker process
void run(const RunSpec &spec, RunResult &res);

uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL);
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); next(); }
  uint64_t next() { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool chance(int pct) { return below(100) < (uint64_t)pct; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
std::string dump_trace(const RunResult &r, size_t max = 400);

// used by the wrapped C library entry points
bool in_node();
int64_t node_clock_us();
}
