// A simulated case ("plan"), its outcome, and the checks that generate and judge them.
#pragma once
#include "gen.h"
#include <functional>

namespace sim {

struct Plan {
  std::string check;
  uint64_t group = 0, index = 0;
  std::vector<Step> steps;
  std::vector<Rule> rules;             // node = index of the step the rule belongs to
  std::vector<Mutation> muts;
  std::map<std::string, std::string> pre;   // files laid over the initial disk (leftovers, neighbours); "\x01D" = directory, "\x01X" = removed, "\x01P" = made unreadable
  uint64_t sched_seed = 0; int sched_bias = 0; bool have_sched = false; std::vector<uint8_t> sched;
  int64_t mode = 0, a = 0, b = 0;
};
std::string write_plan(const Plan &);
bool read_plan(const std::string &text, Plan &);

struct Stats {                          // one per worker, in shared memory
  uint64_t runs = 0, cases = 0, nontrivial = 0, sim_us = 0, ops = 0, switches = 0, crashes = 0, fail_exits = 0, ok_exits = 0, vacuous = 0;
  uint64_t fired[E_NEFF] = {0};
  uint64_t probes[16] = {0};
  uint64_t groups = 0;
  static const uint32_t TAB = 1u << 19;
  uint64_t shapes[TAB];                 // distinct non-trivial trace shapes (open addressing)
  uint64_t nshapes = 0, progs[1u << 14]; uint64_t nprogs = 0;
  void shape(uint64_t h) { if (!h) h = 1; if (nshapes > TAB / 2) return; for (uint64_t i = h % TAB;; i = (i + 1) % TAB) { if (shapes[i] == h) return; if (!shapes[i]) { shapes[i] = h; nshapes++; return; } } }
  void prog(uint64_t h) { if (!h) h = 1; const uint32_t T = 1u << 14; if (nprogs > T / 2) return; for (uint64_t i = h % T;; i = (i + 1) % T) { if (progs[i] == h) return; if (!progs[i]) { progs[i] = h; nprogs++; return; } } }
};
extern Stats *g_stats;

struct Outcome {
  bool violated = false, vacuous = false, nontrivial = false;
  std::string cls, msg;                 // violation class (stable under minimisation) and explanation
  uint64_t hash = 7;                    // over everything that was simulated for this case
  RunResult last;                       // the run the verdict is about
  std::string detail;
  void fail(const std::string &c, const std::string &m) { if (!violated) { violated = true; cls = c; msg = m; } }
};

struct CheckDef {
  const char *id;
  bool dll;
  int quick_groups, per_group;
  // makes the plans of one group (about one program); may run the simulator to learn the shape of a healthy run
  void (*plan)(uint64_t seed, std::vector<Plan> &out, int n);
  void (*exec)(const Plan &, Outcome &);
  const char *rule;                     // how cases are made and what makes one non-trivial
  const char *const *probes;            // names of reachability probes
};
extern const CheckDef all_checks[];
const CheckDef *find_check(const std::string &id);
void forget_baselines();
std::string describe(const Plan &);
std::string minimise(const CheckDef &, Plan &, const std::string &cls, double budget_s);
}
