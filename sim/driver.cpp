// Runs a check: seeded groups of simulated cases over worker processes, verdict gating,
// minimisation, replay files, evidence.
#include "checks.h"
#include <algorithm>
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern const bool sim_is_dll;
using namespace sim;

// the driver never touches stdout's FILE: simulated processes are forked from it and must find it untouched
static int say(const char *f, ...) { char b[65536]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); if (n > (int)sizeof b - 1) n = sizeof b - 1; for (int k = 0; k < n;) { ssize_t r = write(1, b + k, n - k); if (r <= 0) break; k += r; } return n; }
#define printf say

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static std::string fmt(const char *f, ...) { char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static bool slurp(const std::string &p, std::string &o) { FILE *f = fopen(p.c_str(), "rb"); if (!f) return false; char b[65536]; size_t n; o.clear(); while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); return true; }
static bool spit(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "wb"); if (!f) return false; bool ok = fwrite(s.data(), 1, s.size(), f) == s.size(); return fclose(f) == 0 && ok; }
static std::string jesc(const std::string &s) { std::string o; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o; }

struct Shared {
  std::atomic<uint64_t> best;           // smallest violating case number (group * 1000 + index)
  std::atomic<int> stop;
  std::atomic<uint64_t> digest;         // order independent digest of all case hashes
};
static Shared *S;
static Stats *stats_of;                  // one per worker

static std::vector<std::string> known_keys(const std::string &file, const std::string &id) {
  std::vector<std::string> v; std::string t; if (!slurp(file, t)) return v;
  size_t i = 0; while (i < t.size()) {
    size_t e = t.find('\n', i); std::string l = t.substr(i, e == std::string::npos ? e : e - i); i = e == std::string::npos ? t.size() : e + 1;
    std::string pre = "known: property=" + id + " key="; if (l.compare(0, pre.size(), pre) == 0) v.push_back(l.substr(pre.size(), l.find(' ', pre.size()) - pre.size()));
  }
  return v;
}

// smallest plan that still shows the same class of violation
static bool still(const CheckDef &c, const Plan &p, const std::string &cls) { Outcome o; c.exec(p, o); return o.violated && o.cls == cls; }
static void minimise_plan(const CheckDef &c, Plan &p, const std::string &cls, double budget) {
  double end = now() + budget; bool progress = true; int tries = 0;
  auto attempt = [&](const Plan &n) { if (now() > end || tries++ > 600) return false; if (g_stats) {} if (still(c, n, cls)) { p = n; return true; } return false; };
  // a schedule has to be explicit before anything else changes
  if (p.steps.size() > 1 && (p.check == "C09" || p.check == "C22") && !p.have_sched) {
    Outcome o; c.exec(p, o); Plan n = p; n.have_sched = true; n.sched = o.last.sched; attempt(n);
  }
  while (progress && now() < end) {
    progress = false;
    for (size_t i = 0; i < p.rules.size();) { Plan n = p; n.rules.erase(n.rules.begin() + i); if (attempt(n)) progress = true; else i++; }
    if (p.pre.size()) { auto keys = p.pre; for (auto &k : keys) { Plan n = p; n.pre.erase(k.first); if (attempt(n)) progress = true; } }
    const bool conc = p.check == "C09" || p.check == "C22";
    if (p.check == "C06" || p.check == "C11" || p.check == "C24" || conc)
      for (size_t i = 0; i + 1 < p.steps.size() && p.steps.size() > (conc ? 2u : 1u);) {
        Plan n = p; n.steps.erase(n.steps.begin() + i);
        std::vector<Rule> rs; for (auto r : n.rules) { if (p.check == "C06" || conc) { if (r.node == (int)i) continue; if (r.node > (int)i) r.node--; } rs.push_back(r); } n.rules = rs;
        if (conc) { n.have_sched = false; n.sched.clear(); if (attempt(n)) { progress = true; Outcome o; c.exec(p, o); Plan m = p; m.have_sched = true; m.sched = o.last.sched; attempt(m); } else i++; }
        else if (attempt(n)) progress = true; else i++;
      }
    // drop parts of the programs, halves first
    for (size_t s = 0; s < p.steps.size(); s++) {
      Program pr; build_program(p.steps[s], pr); std::vector<uint32_t> live; for (uint32_t i = 0; i < pr.nchunks; i++) if (std::find(p.steps[s].drop.begin(), p.steps[s].drop.end(), i) == p.steps[s].drop.end()) live.push_back(i);
      for (size_t span = live.size(); span >= 1; span /= 2) {
        for (size_t at = 0; at < live.size();) {
          Plan n = p; size_t to = std::min(live.size(), at + span);
          auto add = [&](Step &st) { for (size_t k = at; k < to; k++) st.drop.push_back(live[k]); };
          // identical programs shrink together
          for (size_t j = 0; j < n.steps.size(); j++) if (j == s || (p.steps[j].gseed == p.steps[s].gseed && p.steps[j].slot == p.steps[s].slot && p.steps[j].drop == p.steps[s].drop)) add(n.steps[j]);
          if (attempt(n)) { progress = true; live.erase(live.begin() + at, live.begin() + to); } else at = to;
          if (now() > end) break;
        }
        if (now() > end) break;
      }
    }
    for (size_t i = 0; i < p.steps.size(); i++) for (int b = 0; b < 14; b++) if (p.steps[i].opts >> b & 1) {
      Plan n = p; for (size_t j = 0; j < n.steps.size(); j++) if (p.steps[j].gseed == p.steps[i].gseed) n.steps[j].opts &= ~(1u << b);
      if (attempt(n)) progress = true;
    }
    for (size_t i = 0; i < p.rules.size(); i++) { if (p.rules[i].count != 1 && p.rules[i].eff == E_ERR) { Plan n = p; n.rules[i].count = 1; if (attempt(n)) progress = true; } }
    if (p.have_sched) { // fewer switches
      for (size_t i = 1; i + 1 < p.sched.size() && now() < end; i++) if (p.sched[i] != p.sched[i - 1]) { Plan n = p; size_t j = i; uint8_t v = p.sched[i]; while (j < n.sched.size() && n.sched[j] == v) n.sched[j++] = n.sched[i - 1]; if (attempt(n)) progress = true; }
      while (p.sched.size() > 2 && now() < end) { Plan n = p; n.sched.resize(n.sched.size() / 2); if (attempt(n)) progress = true; else break; }
    }
  }
}

static std::string violation_text(const Plan &p, const Outcome &o) {
  std::string s = describe(p); s += "violated: " + o.cls + ": " + o.msg + "\n";
  for (size_t i = 0; i < o.last.nodes.size(); i++) { auto &n = o.last.nodes[i]; s += fmt("node %zu: %s status %d signal %d, %u operations\n", i, n.crashed ? "killed," : n.hung ? "hung," : n.exited ? "exited," : "died,", n.status, n.signal, n.ops); std::string out = n.out + n.err; if (out.size() > 1500) out.resize(1500); s += out + "\n"; }
  return s;
}
static std::string commented(const std::string &t) { std::string o; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); o += "# " + t.substr(i, e == std::string::npos ? e : e - i) + "\n"; i = e == std::string::npos ? t.size() : e + 1; } return o; }

static void worker(int w, int nw, const CheckDef &c, uint64_t seed, uint64_t groups, double deadline, const std::vector<std::string> &known, int outfd) {
  worker_init(); g_stats = &stats_of[w];
  for (uint64_t g = w; g < groups; g += nw) {
    if (now() > deadline || S->stop) break;
    if (S->best.load() < g * 1000) break;
    forget_baselines();
    std::vector<Plan> plans; uint64_t gs = hash_bytes(c.id, 3, seed * 0x9E3779B97F4A7C15ULL + g * 0x1234567ULL + 99);
    c.plan(gs, plans, c.per_group); g_stats->groups++;
    for (size_t i = 0; i < plans.size(); i++) {
      Plan &p = plans[i]; p.check = c.id; p.group = g; p.index = i;
      Outcome o; c.exec(p, o); g_stats->cases++;
      if (o.vacuous) g_stats->vacuous++;
      if (o.nontrivial) g_stats->nontrivial++;
      uint64_t h = hash_bytes(&g, 8, o.hash + i); S->digest.fetch_add(h);
      if (g < 3 && i < 2) { std::string s = "S" + std::to_string(g * 10 + i) + "\n" + describe(p) + (o.last.nodes.size() ? fmt("-> status %d%s, %zu traced operations\n", o.last.nodes[0].status, o.last.nodes[0].crashed ? " (killed)" : "", o.last.trace.size()) : "") + '\0'; if (write(outfd, s.data(), s.size()) < 0) {} }
      if (o.violated) {
        if (std::find(known.begin(), known.end(), o.cls) != known.end()) { std::string s = "K" + o.cls + " " + o.msg; s += '\0'; if (s.size() < 4000 && write(outfd, s.data(), s.size()) < 0) {} continue; }
        uint64_t me = g * 1000 + i, cur = S->best.load(); while (me < cur && !S->best.compare_exchange_weak(cur, me)) {}
        std::string s = fmt("V%llu\n", (unsigned long long)me) + o.cls + "\n" + write_plan(p) + '\0';
        size_t k = 0; while (k < s.size()) { ssize_t r = write(outfd, s.data() + k, s.size() - k); if (r <= 0) break; k += r; }
        return;
      }
    }
  }
}

static int replay(const std::string &file, bool quiet) {
  std::string t; Plan p; if (!slurp(file, t) || !read_plan(t, p)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
  const CheckDef *c = find_check(p.check); if (c->dll != sim_is_dll) { fprintf(stderr, "this replay needs the other simulator binary\n"); return 2; }
  worker_init(); static Stats st; g_stats = &st;
  Outcome a, b; c->exec(p, a); forget_baselines(); c->exec(p, b);
  if (a.hash != b.hash || a.violated != b.violated) { fprintf(stderr, "NONDETERMINISM: two executions of %s differ\n", file.c_str()); if (getenv("SIM_DEBUG")) { spit("/tmp/nd.a", violation_text(p, a) + dump_trace(a.last, 100000)); spit("/tmp/nd.b", violation_text(p, b) + dump_trace(b.last, 100000)); } return 2; }
  size_t hp = t.find("# hash "); std::string h = fmt("%016llx", (unsigned long long)a.hash);
  printf("hash %s%s\n", h.c_str(), hp != std::string::npos ? (t.compare(hp + 7, 16, h) == 0 ? " (as recorded)" : " (differs from the recorded run: the code has changed)") : "");
  if (!quiet) { printf("%s", violation_text(p, a).c_str()); printf("%s", dump_trace(a.last, 300).c_str()); for (auto &s : p.steps) { Program pr; build_program(s, pr); printf("%s\n", pr.listing_source.c_str()); if (p.steps.size() > 2) break; } }
  if (a.violated) { printf("VIOLATION property=%s replay=%s\n%s: %s\n", p.check.c_str(), file.c_str(), a.cls.c_str(), a.msg.c_str()); return 1; }
  printf("no violation\n"); return 0;
}

static std::string json_probe_obj(const CheckDef &c, const Stats &t) { std::string s; for (int i = 0; i < 16; i++) if (t.probes[i]) s += fmt("%s\"%s\": %llu", s.empty() ? "" : ", ", c.probes[i], (unsigned long long)t.probes[i]); return s; }

int main(int argc, char **argv) {
  std::string self = argv[0], verif = getenv("SIM_VERIF") ? getenv("SIM_VERIF") : "/verif";
  kernel_init();
  if (argc >= 3 && !strcmp(argv[1], "replay")) return replay(argv[2], argc > 3 && !strcmp(argv[3], "quiet"));
  if (argc >= 3 && !strcmp(argv[1], "gen")) {     // print one generated program (debugging)
    Step s; s.gseed = strtoull(argv[2], 0, 10); s.feat = argc > 3 ? strtoul(argv[3], 0, 0) : ~0u; s.opts = argc > 4 ? strtoul(argv[4], 0, 0) : 3; s.ext = argc > 5 ? atoi(argv[5]) : 0; s.size = argc > 6 ? atoi(argv[6]) : 10; s.env = default_env();
    worker_init(); Program p; build_program(s, p); printf("%s\n", p.listing_source.c_str()); RunSpec rs; rs.disk = p.disk; NodeSpec n; n.argv = p.argv; n.env = s.env; n.cwd = p.cwd; extern int (*const sim_entry)(int, char **); n.entry = sim_entry; rs.nodes.push_back(n); RunResult r; run(rs, r);
    for (auto &a : p.argv) printf("%s ", a.c_str()); printf("\nstatus %d signal %d hung %d corrupt %d ops %u allocs %u peak %u\n%s%s\n%s", r.nodes[0].status, r.nodes[0].signal, r.nodes[0].hung, r.nodes[0].corrupt, r.nodes[0].ops, r.nodes[0].allocs, r.nodes[0].peak_fds, r.nodes[0].out.c_str(), r.nodes[0].err.c_str(), dump_trace(r, 200).c_str()); return 0;
  }
  if (argc < 3 || strcmp(argv[1], "check")) { fprintf(stderr, "usage: %s check ID | replay FILE\n", argv[0]); return 2; }
  const CheckDef *c = find_check(argv[2]); if (!c) { fprintf(stderr, "no check %s\n", argv[2]); return 2; }
  if (c->dll != sim_is_dll) { fprintf(stderr, "%s needs the other simulator binary\n", c->id); return 2; }
  uint64_t seed = getenv("VERIF_SEED") && *getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1;
  bool thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  uint64_t groups = getenv("SIM_GROUPS") ? strtoull(getenv("SIM_GROUPS"), 0, 10) : (uint64_t)c->quick_groups * (thorough ? 60 : 1);
  double cap = getenv("SIM_CAP") ? atof(getenv("SIM_CAP")) : thorough ? 720 : 90;
  int nw = getenv("SIM_WORKERS") ? atoi(getenv("SIM_WORKERS")) : (int)std::min<long>(16, std::max<long>(2, sysconf(_SC_NPROCESSORS_ONLN)));
  printf("VERIF_SEED=%llu tier=%s check=%s groups=%llu workers=%d\n", (unsigned long long)seed, thorough ? "thorough" : "quick", c->id, (unsigned long long)groups, nw);
  double t0 = now();
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  stats_of = (Stats *)mmap(nullptr, sizeof(Stats) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED || stats_of == MAP_FAILED) { perror("mmap"); return 2; }
  S->best = ~0ULL; S->stop = 0; S->digest = 0;
  auto known = known_keys(verif + "/known_findings.txt", c->id);
  std::vector<pid_t> pids; std::vector<int> fds;
  for (int w = 0; w < nw; w++) {
    char tmpl[] = "/tmp/simXXXXXX"; int fd = mkstemp(tmpl); if (fd < 0) { perror("mkstemp"); return 2; } unlink(tmpl); fds.push_back(fd);
    pid_t p = fork(); if (p == 0) { setpgid(0, 0); worker(w, nw, *c, seed, groups, t0 + cap, known, fd); _exit(0); } pids.push_back(p);
  }
  bool broken = false; for (auto p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker ended with %x\n", st); broken = true; } }
  if (broken) return 2;
  // collect
  std::vector<std::pair<uint64_t, std::string>> viol; std::vector<std::string> samples, knownhits;
  for (int fd : fds) {
    std::string t; char b[65536]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) t.append(b, n); close(fd);
    size_t i = 0; while (i < t.size()) { size_t e = t.find('\0', i); if (e == std::string::npos) break; std::string m = t.substr(i, e - i); i = e + 1; if (m[0] == 'S') samples.push_back(m.substr(m.find('\n') + 1)); else if (m[0] == 'K') knownhits.push_back(m.substr(1)); else if (m[0] == 'V') { uint64_t k = strtoull(m.c_str() + 1, 0, 10); viol.push_back({k, m.substr(m.find('\n') + 1)}); } }
  }
  std::sort(viol.begin(), viol.end()); std::sort(knownhits.begin(), knownhits.end());
  Stats *t = (Stats *)calloc(1, sizeof(Stats));
  for (int w = 0; w < nw; w++) {
    Stats &s = stats_of[w]; t->runs += s.runs; t->cases += s.cases; t->nontrivial += s.nontrivial; t->sim_us += s.sim_us; t->ops += s.ops; t->switches += s.switches; t->crashes += s.crashes; t->fail_exits += s.fail_exits; t->ok_exits += s.ok_exits; t->vacuous += s.vacuous; t->groups += s.groups;
    for (int i = 0; i < E_NEFF; i++) t->fired[i] += s.fired[i]; for (int i = 0; i < 16; i++) t->probes[i] += s.probes[i];
    for (uint32_t i = 0; i < Stats::TAB; i++) if (s.shapes[i]) t->shape(s.shapes[i]);
    for (uint32_t i = 0; i < (1u << 14); i++) if (s.progs[i]) t->prog(s.progs[i]);
  }
  double wall_search = now() - t0;
  int rc = 0; std::string vmsg;
  if (!viol.empty()) {
    worker_init(); static Stats st; g_stats = &st; Plan p; std::string body = viol[0].second; std::string cls = body.substr(0, body.find('\n'));
    if (!read_plan(body.substr(body.find('\n') + 1), p)) { fprintf(stderr, "cannot re-read the violating plan\n"); return 2; }
    Outcome a, b; c->exec(p, a); forget_baselines(); c->exec(p, b);
    if (!a.violated || a.cls != cls || a.hash != b.hash) { mkdir((verif + "/replays").c_str(), 0777); spit(verif + "/replays/" + c->id + "-nondeterministic.replay", write_plan(p)); fprintf(stderr, "NONDETERMINISM: the violation did not repeat (case %llu, class %s, now %s)\n", (unsigned long long)viol[0].first, cls.c_str(), a.violated ? a.cls.c_str() : "none"); return 2; }
    Plan full = p; minimise_plan(*c, p, cls, thorough ? 120 : 25);
    Outcome m; forget_baselines(); c->exec(p, m); if (!m.violated) { p = full; forget_baselines(); m = Outcome(); c->exec(p, m); }
    std::string dir = verif + "/replays"; mkdir(dir.c_str(), 0777);
    std::string file = dir + fmt("/%s-%llu-%llu.replay", c->id, (unsigned long long)seed, (unsigned long long)viol[0].first);
    std::string text = write_plan(p) + fmt("# hash %016llx\n", (unsigned long long)m.hash) + commented(violation_text(p, m)) + commented(dump_trace(m.last, 200)); { Program pr; build_program(p.steps.back(), pr); text += commented(pr.listing_source.substr(0, 6000)); }
    text += "# the case as found, before minimisation:\n" + commented(write_plan(full));
    if (!spit(file, text)) { fprintf(stderr, "cannot write %s\n", file.c_str()); return 2; }
    pid_t pid = fork(); if (pid == 0) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); execl("/proc/self/exe", self.c_str(), "replay", file.c_str(), "quiet", (char *)nullptr); _exit(3); }
    int stt; waitpid(pid, &stt, 0);
    if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 1) { fprintf(stderr, "NONDETERMINISM: a fresh process did not reproduce %s\n", file.c_str()); return 2; }
    printf("VIOLATION property=%s replay=%s\n", c->id, file.c_str()); printf("%s", violation_text(p, m).c_str()); vmsg = m.cls + ": " + m.msg; rc = 1;
  }
  { std::string lastk; for (auto &k : knownhits) { std::string key = k.substr(0, k.find(' ')); if (key != lastk) printf("KNOWN-FINDING: property=%s %s\n", c->id, k.c_str()); lastk = key; } }
  if (!rc && t->cases && t->nontrivial == 0) { fprintf(stderr, "no case was non-trivial: the workload does not run\n"); return 2; }
  double wall = now() - t0;
  std::string ev = "{\n";
  ev += fmt("  \"property\": \"%s\",\n  \"tier\": \"%s\",\n  \"seed\": %llu,\n  \"level\": \"exploration\",\n", c->id, thorough ? "thorough" : "quick", (unsigned long long)seed);
  ev += fmt("  \"coverage\": {\n    \"evaluations\": %llu,\n    \"distinct_nontrivial\": %llu,\n    \"rule\": \"%s; distinct = distinct sequences of (process, operation, file, injected effect, errno)\",\n", (unsigned long long)t->cases, (unsigned long long)std::min(t->nshapes, t->nontrivial), jesc(c->rule).c_str());
  ev += "    \"samples\": ["; for (size_t i = 0; i < samples.size() && i < 6; i++) ev += std::string(i ? ", " : "") + "\"" + jesc(samples[i]) + "\""; ev += "],\n";
  ev += fmt("    \"nontrivial_cases\": %llu,\n    \"vacuous_cases\": %llu,\n    \"simulated_runs\": %llu,\n    \"seeded_groups\": %llu,\n    \"distinct_programs\": %llu,\n", (unsigned long long)t->nontrivial, (unsigned long long)t->vacuous, (unsigned long long)t->runs, (unsigned long long)t->groups, (unsigned long long)t->nprogs);
  ev += fmt("    \"runs_per_hour\": %.0f,\n    \"seeds_per_hour\": %.0f,\n    \"simulated_seconds\": %.1f,\n    \"simulated_operations\": %llu,\n    \"context_switches\": %llu,\n", t->runs / std::max(0.01, wall_search) * 3600, t->cases / std::max(0.01, wall_search) * 3600, t->sim_us / 1e6, (unsigned long long)t->ops, (unsigned long long)t->switches);
  ev += fmt("    \"runs_killed\": %llu,\n    \"runs_exit_0_or_1\": %llu,\n    \"runs_exit_2_or_more_or_died\": %llu,\n", (unsigned long long)t->crashes, (unsigned long long)t->ok_exits, (unsigned long long)t->fail_exits);
  ev += "    \"faults_fired\": {"; { bool f = true; for (int i = 1; i < E_NEFF; i++) if (t->fired[i]) { ev += fmt("%s\"%s\": %llu", f ? "" : ", ", eff_name[i], (unsigned long long)t->fired[i]); f = false; } } ev += "},\n";
  ev += "    \"probes\": {" + json_probe_obj(*c, *t) + "},\n";
  ev += std::string("    \"real_components\": ") + (c->dll ? "\"all assembler sources compiled from /repo, library interface (dll.cpp) included, glibc stdio\"" : "\"all assembler sources compiled from /repo, command line main() included, glibc stdio\"") + ",\n    \"stub_components\": \"system calls (file system, descriptors, clock, console, process), heap allocator, scheduler between processes\",\n";
  ev += fmt("    \"digest\": \"%016llx\"\n  },\n", (unsigned long long)S->digest.load());
  ev += "  \"assumptions\": [\"the simulated kernel models POSIX file semantics as glibc stdio uses them; EPIPE is returned without SIGPIPE\", \"sampled, not exhaustive\"],\n";
  ev += fmt("  \"wall_s\": %.2f,\n  \"violations\": %d\n}\n", wall, rc);
  mkdir((verif + "/evidence").c_str(), 0777);
  if (!spit(verif + "/evidence/" + c->id + ".json", ev)) { fprintf(stderr, "cannot write evidence\n"); return 2; }
  printf("%s: %llu cases, %llu non-trivial, %llu distinct, %llu vacuous, %llu simulated runs, %.1f s, digest %016llx%s\n", c->id, (unsigned long long)t->cases, (unsigned long long)t->nontrivial, (unsigned long long)t->nshapes, (unsigned long long)t->vacuous, (unsigned long long)t->runs, wall, (unsigned long long)S->digest.load(), rc ? " VIOLATED" : "");
  return rc;
}
