#include "checks.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern int (*const sim_entry)(int, char **);
extern const bool sim_is_dll;

namespace sim {

Stats *g_stats;
static std::string fmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

enum Probe { PR_TOLERATED, PR_REPORTED, PR_MIDPRODUCT, PR_PRODFAULT, PR_INFAULT, PR_ECHOFAULT, PR_LATE, PR_MULTIFAULT, PR_LEFTOVER, PR_MIXTURE, PR_SWITCH, PR_LIMIT,
             PR_WARN, PR_REJECT, PR_NEWUSED, PR_OLDUSED };
const char *const probe_names[16] = {"run exited 0/1 although a fault fired", "fault reported with exit status >= 2", "killed or failed while a product was half written",
  "fault hit a product file", "fault hit an input file", "fault hit a redirected echo file", "fault hit the last tenth of the run", "two or more faults fired in one run",
  "earlier run left a torn product behind", "replacement fell between two operations on the replaced file", "interleaving switched inside a file", "descriptor limit was reached or nearly so",
  "run ended with status 1", "program was rejected", "new contents were used", "old contents were used"};
static void probe(Probe p) { if (g_stats) g_stats->probes[p]++; }

// ------------------------------------------------------------------ running
static void account(const RunResult &r) {
  if (!g_stats) return;
  g_stats->runs++; g_stats->sim_us += r.sim_us; g_stats->switches += r.switches;
  for (auto &n : r.nodes) { g_stats->ops += n.ops; if (n.crashed) g_stats->crashes++; else if (n.exited && n.status <= 1) g_stats->ok_exits++; else g_stats->fail_exits++; }
  for (int i = 0; i < E_NEFF; i++) g_stats->fired[i] += r.fired[i];
}
static void note(Outcome &o, const RunResult &r) { account(r); o.hash = hash_bytes(&r.hash, 8, o.hash); }

static RunSpec spec1(const Program &p, const Env &e, const Disk &d, const std::vector<Rule> &rules = {}, int node = 0) {
  RunSpec s; s.disk = d; NodeSpec n; n.argv = p.argv; n.env = e; n.cwd = p.cwd; n.entry = sim_entry; s.nodes.push_back(n);
  for (auto &r : rules) if (r.node == node) { Rule q = r; q.node = 0; s.rules.push_back(q); }
  return s;
}
static void run1(Outcome &o, const Program &p, const Env &e, const Disk &d, RunResult &r, const std::vector<Rule> &rules = {}, int node = 0, const std::vector<Mutation> &muts = {}) {
  RunSpec s = spec1(p, e, d, rules, node); s.muts = muts; run(s, r); note(o, r);
}
static void lay(Disk &d, const std::map<std::string, std::string> &pre) {
  for (auto &kv : pre) {
    if (kv.second == "\x01X") { d.erase(kv.first); continue; }
    if (kv.second == "\x01P") { auto it = d.find(kv.first); if (it != d.end()) it->second.perm = 0; continue; }
    if (kv.second == "\x01R") { auto it = d.find(kv.first); if (it != d.end()) it->second.perm = 4; continue; }
    if (kv.second == "\x01T") { // directory vanishes with everything in it
      std::vector<std::string> gone; for (auto &e : d) if (e.first == kv.first || e.first.compare(0, kv.first.size() + 1, kv.first + "/") == 0) gone.push_back(e.first);
      for (auto &g : gone) d.erase(g); continue;
    }
    FileState f;
    if (kv.second == "\x01" "D") f.type = F_DIR;
    else if (kv.second == "\x01" "F") { auto it = d.find(kv.first); if (it != d.end()) it->second.type = F_FIFO; continue; }
    else if (kv.second.compare(0, 2, "\x01" "C") == 0) { auto it = d.find(kv.first); if (it != d.end()) { size_t n = strtoul(kv.second.c_str() + 2, nullptr, 10); if (it->second.data.size() > n) it->second.data.resize(n); } continue; }
    else f.data = kv.second;
    d[kv.first] = f;
  }
}

struct Base { Program prog; Disk disk; RunResult res; bool clean() const { return res.nodes[0].exited && res.nodes[0].status <= 1; } int status() const { return res.nodes[0].exited ? res.nodes[0].status : 100; } };
static std::map<std::string, Base> g_bases;
void forget_baselines() { g_bases.clear(); }
static std::string step_key(const Step &s);
static const Base &baseline(Outcome &o, const Step &st, const std::map<std::string, std::string> &pre = {}) {
  std::string k = step_key(st); for (auto &kv : pre) k += "|" + kv.first + "=" + kv.second;
  auto it = g_bases.find(k);
  if (it == g_bases.end()) {
    if (g_bases.size() > 24) g_bases.clear();
    Base b; build_program(st, b.prog); b.disk = b.prog.disk; lay(b.disk, pre);
    RunSpec s = spec1(b.prog, st.env, b.disk); run(s, b.res); account(b.res);
    it = g_bases.emplace(k, std::move(b)).first;
    if (g_stats) g_stats->prog(hash_bytes(k.data(), k.size()));
  }
  o.hash = hash_bytes(&it->second.res.hash, 8, o.hash);
  return it->second;
}

// ------------------------------------------------------------------ comparing
static std::string show_file(const Disk &d, const std::string &p) {
  auto it = d.find(p); if (it == d.end()) return "absent";
  return fmt("%zu bytes", it->second.data.size());
}
static bool same_file(const Disk &a, const Disk &b, const std::string &p) {
  auto x = a.find(p), y = b.find(p);
  if (x == a.end() || y == b.end()) return x == a.end() && y == b.end();
  return x->second.data == y->second.data && x->second.type == y->second.type;
}
static std::string diff_at(const std::string &a, const std::string &b) {
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return fmt("first difference at offset %zu: expected [%s] got [%s]", i, hexdump(a.substr(i, 12)).c_str(), hexdump(b.substr(i, 12)).c_str());
}
static std::string describe_diff(const Disk &want, const Disk &got, const std::string &p) {
  std::string s = p + ": expected " + show_file(want, p) + ", found " + show_file(got, p);
  auto x = want.find(p), y = got.find(p);
  if (x != want.end() && y != got.end()) s += "; " + diff_at(x->second.data, y->second.data);
  return s;
}
static std::set<std::string> all_products(const Program &p) { auto s = p.products(); for (auto &e : p.echo) s.insert(e.first); return s; }
static std::string diff_set(const Disk &want, const Disk &got, const std::set<std::string> &ps) {
  for (auto &p : ps) if (!same_file(want, got, p)) return describe_diff(want, got, p);
  return "";
}
static std::string console(const std::string &s) {      // console text without the reported assembly time
  std::string o; size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i); std::string l = s.substr(i, e == std::string::npos ? e : e - i + 1); i += l.size();
    size_t at = l.find("Assembly time:"); if (at != std::string::npos) l = l.substr(0, at) + "\n";
    o += l;
  }
  return o;
}
static bool write_flags(int64_t f) { return (f & O_ACCMODE) != O_RDONLY; }
// an injected failure of creating, writing, flushing or closing one of these files (not a mere interruption)
static const OpRec *hard_write_fault(const RunResult &r, const std::set<std::string> &ps, int node = 0) {
  for (auto &o : r.trace) {
    if (o.node != node || o.path < 0 || o.ret >= 0 || !(o.eff == E_ERR || o.eff == E_QUOTA || o.eff == E_CLOSE_LOSE)) continue;
    if (o.err == EINTR || o.err == EAGAIN) continue;
    if (!ps.count(r.paths[o.path])) continue;
    if (o.kind == OP_WRITE || (o.kind == OP_OPEN && write_flags(o.a)) || (o.kind == OP_CLOSE && o.b)) return &o;
  }
  return nullptr;
}
static uint32_t total_fired(const RunResult &r) { uint32_t n = 0; for (auto f : r.rule_fired) n += f; return n; }
static void note_faults(const Base &b, const RunResult &r, Outcome &o) {
  uint32_t n = total_fired(r);
  if (!n) return;
  o.nontrivial = true;
  if (g_stats) g_stats->shape(r.shape);
  if (n > 1) probe(PR_MULTIFAULT);
  auto prods = b.prog.products(); std::set<std::string> ins(b.prog.inputs.begin(), b.prog.inputs.end());
  bool p1 = false, p2 = false, p3 = false, late = false; size_t k = 0;
  for (auto &x : r.trace) {
    k++;
    if (!x.eff || x.path < 0) continue;
    const std::string &pa = r.paths[x.path];
    if (prods.count(pa)) p1 = true; if (ins.count(pa)) p2 = true; if (b.prog.echo.count(pa)) p3 = true;
    if (k * 10 >= b.res.trace.size() * 9) late = true;
  }
  if (p1) probe(PR_PRODFAULT); if (p2) probe(PR_INFAULT); if (p3) probe(PR_ECHOFAULT); if (late) probe(PR_LATE);
  const NodeResult &nr = r.nodes[0];
  if (nr.exited && nr.status <= 1) probe(PR_TOLERATED); else if (nr.exited) probe(PR_REPORTED);
  for (auto &pa : prods) { auto it = r.disk.find(pa); auto w = b.res.disk.find(pa); if (it != r.disk.end() && w != b.res.disk.end() && it->second.data != w->second.data && it->second.data.size() < w->second.data.size()) { probe(PR_MIDPRODUCT); break; } }
}
static bool ok_exit(const RunResult &r, int node = 0) { return r.nodes[node].exited && r.nodes[node].status <= 1; }

// the program's own model: an undisturbed run has to contain these bytes
static std::string against_model(const Program &p, const RunResult &r) {
  if (!p.model || p.image.empty() || p.bytes.empty()) return "";
  auto it = r.disk.find(p.image);
  if (it == r.disk.end()) return p.image + " was not produced";
  const std::string &f = it->second.data;
  std::string ext = p.image == stem_of(p.image) ? "bin" : p.image.substr(p.image.rfind('.') + 1);
  if (ext == "8xk") return "";
  if (ext == "hex") { std::string d; if (!decode_image(ext, f, d)) return d.size() < 60 && d.find("rec") != std::string::npos ? "Intel HEX image: " + d : ""; if (d.compare(0, p.bytes.size(), p.bytes) != 0) return "Intel HEX image: " + diff_at(p.bytes, d.substr(0, std::max<size_t>(p.bytes.size(), 1))); return ""; }
  if (ext == "bin" || ext == "obj") {
    if (f.compare(0, p.bytes.size(), p.bytes) != 0) return p.image + ": " + diff_at(p.bytes, f);
    if (!p.opaque && f.size() != p.bytes.size()) return fmt("%s: %zu bytes, the program has %zu", p.image.c_str(), f.size(), p.bytes.size());
    return "";
  }
  if (ext == "rom") { if (f.compare(0, p.bytes.size(), p.bytes) != 0) return p.image + ": " + diff_at(p.bytes, f); return ""; }
  std::string need = p.bytes;
  if (ext == "83p") { need.clear(); for (unsigned char c : p.bytes) need += fmt("%02X", c); }   // the TI-83 stores programs as hexadecimal text
  if (ext == "8xp" || ext == "83p" || ext == "82p" || ext == "73p" || ext == "85p" || ext == "86p" || ext == "85s" || ext == "86s" || ext == "8xv") { if (f.find(need) == std::string::npos) return p.image + fmt(": the %zu program bytes are not in it", need.size()); }
  return "";
}

// ------------------------------------------------------------------ fault plans
static const int ERR_OPEN[] = {EACCES, EMFILE, ENFILE, EIO, EINTR, ENOENT, EROFS, ENOSPC, EACCES, EMFILE, ETXTBSY, EBUSY, EEXIST, ELOOP, ENAMETOOLONG, EISDIR, ENOTDIR, EPERM, EAGAIN, ENOMEM, ENXIO, ENODEV, ESTALE, EDQUOT, ETIMEDOUT, EOVERFLOW, EINVAL, EFAULT};
static const int ERR_READ[] = {EIO, EIO, EINTR, EAGAIN, EISDIR, EOVERFLOW, EBADF, EINVAL, ESTALE, ETIMEDOUT, ENOMEM, EFAULT, ENXIO};
static const int ERR_WRITE[] = {ENOSPC, EIO, EINTR, EDQUOT, EFBIG, EAGAIN, EPIPE, EBADF, EPERM, EINVAL, ESTALE, ETIMEDOUT, ENOMEM, ENXIO, EACCES, EROFS};
static const int ERR_CLOSE[] = {EIO, EINTR, ENOSPC, EDQUOT, ESTALE, ETIMEDOUT, EAGAIN, EFBIG, EACCES};
static const int ERR_LSEEK[] = {ESPIPE, EIO, EINVAL, EOVERFLOW};
static const int ERR_STAT[] = {EIO, EACCES, ELOOP, EOVERFLOW};
static const int ERR_ACC[] = {EACCES, EIO, ENOENT, ELOOP};
static const int ERR_CWD[] = {ENOENT, EACCES, ERANGE};
template <size_t N> static int pick_err(Rng &q, const int (&a)[N]) { return a[q.below(N)]; }
static int errno_for(Rng &q, int kind) {
  switch (kind) {
    case OP_OPEN: return pick_err(q, ERR_OPEN); case OP_READ: return pick_err(q, ERR_READ); case OP_WRITE: return pick_err(q, ERR_WRITE);
    case OP_CLOSE: return pick_err(q, ERR_CLOSE); case OP_LSEEK: return pick_err(q, ERR_LSEEK); case OP_STAT: return pick_err(q, ERR_STAT);
    case OP_ACCESS: return pick_err(q, ERR_ACC); case OP_GETCWD: return pick_err(q, ERR_CWD); default: return EIO;
  }
}
struct Site { uint8_t kind; std::string path; uint32_t nth; size_t at; int64_t a, b, ret; };
static std::vector<Site> sites(const RunResult &r, const std::function<bool(const Site &)> &want, int node = 0) {
  std::vector<Site> v; std::map<std::pair<int, int>, uint32_t> cnt;
  for (size_t i = 0; i < r.trace.size(); i++) {
    const OpRec &o = r.trace[i];
    if (o.node != node || o.path < 0 || o.kind == OP_EXIT || o.kind == OP_SIGNAL || o.kind == OP_ALLOC || o.kind == OP_MUTATE) continue;
    Site s{o.kind, r.paths[o.path], cnt[{o.kind, o.path}]++, i, o.a, o.b, o.ret};
    if (want(s)) v.push_back(s);
  }
  return v;
}
static bool is_console(const std::string &p) { return !p.empty() && p[0] == '<'; }
static Rule rule_at(const Site &s, uint8_t eff, int64_t arg, uint32_t count = 1, int node = 0) {
  Rule r; r.node = node; r.opmask = 1u << s.kind; r.path = s.path; r.skip = s.nth; r.count = count; r.eff = eff; r.arg = arg; return r;
}
// a fault suited to an operation of the undisturbed run
static Rule fault_at(Rng &q, const Site &s, int node = 0) {
  uint32_t count = q.chance(60) ? 1 : q.chance(40) ? (uint32_t)q.range(2, 4) : 0;
  if (s.kind == OP_READ) {
    if (q.chance(35) && s.ret > 0) { Rule r; r.node = node; r.opmask = 1u << OP_READ; r.path = s.path; r.count = 0; r.eff = E_MEDIA; r.arg = s.a + (int64_t)q.below(s.ret); return r; }
    if (q.chance(15) && s.ret > 1) return rule_at(s, E_SHORT, 1 + q.below(s.ret - 1), count, node);
  }
  if (s.kind == OP_WRITE) {
    if (q.chance(30)) { Rule r; r.node = node; r.opmask = 1u << OP_WRITE; r.path = s.path; r.count = 0; r.eff = E_QUOTA; r.arg = q.below((uint64_t)s.a + s.b + 1); return r; }
    if (q.chance(15) && s.b > 1) return rule_at(s, E_SHORT, 1 + q.below(s.b - 1), count, node);
  }
  if (s.kind == OP_CLOSE && s.b && q.chance(40)) return rule_at(s, E_CLOSE_LOSE, q.below(1000), 1, node);
  return rule_at(s, E_ERR, errno_for(q, s.kind), count, node);
}
static Rule crash_at(Rng &q, const Site &s, int node = 0) {
  if (s.kind == OP_WRITE && s.b > 1 && q.chance(40)) return rule_at(s, E_CRASH_MID, 1 + q.below(s.b - 1), 1, node);
  return rule_at(s, q.chance(50) ? E_CRASH : E_CRASH_AFTER, 0, 1, node);
}
// where several directories are searched, a candidate that cannot be accessed is legitimately passed over (C16)
static bool picks_candidate(const Step &st, const Base &b, const Site &s) {
  if (s.kind == OP_GETCWD) return true;   // the listing and __FILE show the directory's name, "." when it is not to be had
  return (st.feat & FE_DIRS) && (s.kind == OP_ACCESS || s.kind == OP_OPEN || s.kind == OP_STAT || s.kind == OP_GETCWD) && s.path != b.prog.main_path && !b.prog.products().count(s.path) && !b.prog.echo.count(s.path);
}
// picks sites without replacement, spread over the run
struct Picker {
  std::vector<Site> v; Rng &q; size_t k = 0;
  Picker(std::vector<Site> s, Rng &r) : v(std::move(s)), q(r) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[q.below(i)]); }
  bool empty() const { return v.empty(); }
  const Site &next() { const Site &s = v[k % v.size()]; k++; return s; }
};

// ------------------------------------------------------------------ workloads
static const uint32_t FE_PLAIN = FE_LABELS | FE_INC | FE_IMPORT | FE_BITMAP | FE_ECHO | FE_ECHOFILE | FE_MACRO | FE_COND | FE_OPC | FE_LISTDIR | FE_GETC | FE_WILD |
                                 FE_BIG | FE_SEEK | FE_TEXT | FE_DEEP | FE_DIRS | FE_APPEND | FE_HUGE;
static const uint32_t OPT_PLAIN = OP_T | OP_L | OP_S | OP_C | OP_E | OP_A | OP_N | OP_ABS | OP_DEFOUT | OP_D | OP_OUTDIR | OP_DOTSLASH | OP_NAMES | OP_ABSOUT;
static const uint32_t OPT_ALL = OPT_PLAIN | OP_V;   // with the program text on the command line
static Step make_step(Rng &q, uint32_t must, uint32_t may, uint32_t omust, uint32_t omay) {
  Step s; s.gseed = q.next() >> 8; s.size = q.range(3, q.chance(25) ? 40 : 16);
  s.feat = must; for (int b = 0; b < 27; b++) if ((may >> b & 1) && q.chance((1u << b) == FE_HUGE ? 6 : (1u << b) == FE_BIG ? 25 : (1u << b) == FE_DIRS ? 25 : 50)) s.feat |= 1u << b;
  s.opts = omust; for (int b = 0; b < 17; b++) if ((omay >> b & 1) && q.chance((1u << b) == OP_C || (1u << b) == OP_V ? 12 : (1u << b) == OP_ABSOUT || (1u << b) == OP_NAMES ? 20 : (1u << b) == OP_E ? 20 : 35)) s.opts |= 1u << b;
  static const int EXT[] = {0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 13};
  s.ext = EXT[q.below(20)]; if (s.ext == 11 && q.chance(60)) s.ext = 0;
  s.slot = (int)q.below(4);
  if ((must & FE_FATAL) && q.chance(35)) s.feat = (s.feat & ~(uint32_t)FE_FATAL) | FE_SOFT;
  if ((s.opts & OP_C) && q.chance(70)) s.feat &= ~(uint32_t)(FE_LABELS | FE_GETC) | must;   // counting keeps no labels
  if (s.opts & OP_V) { s.opts &= ~(uint32_t)(OP_ABS | OP_DEFOUT | OP_OUTDIR | OP_DOTSLASH | OP_ABSOUT | OP_NAMES); s.ext = 0; }
  s.env = default_env(); s.env.garbage = (uint8_t)q.below(4); s.env.seed = q.next() >> 8;
  static const uint32_t BS[] = {4096, 4096, 512, 1024, 128, 65536}; s.env.blksize = BS[q.below(6)];
  return s;
}
static bool keep_clean(const Step &s, Outcome &o) { const Base &b = baseline(o, s); if (!b.clean()) { if (g_stats) g_stats->vacuous++; return false; } return true; }
static bool usable(const Plan &p, Outcome &o, const Base &b) { (void)p; if (!b.clean()) { o.vacuous = true; return false; } return true; }

// ================================================================== C01 / C02
static void plan_products(uint64_t seed, std::vector<Plan> &out, int n, bool image) {
  Rng q(seed); Outcome o; Plan p;
  Step st = image ? make_step(q, 0, FE_PLAIN | FE_WARN, 0, OPT_ALL) : make_step(q, 0, FE_PLAIN | FE_WARN, q.chance(50) ? OP_T | OP_L : q.chance(50) ? OP_T : OP_L, OPT_ALL | (q.chance(20) ? OP_O : 0));
  p.steps.push_back(st);
  if (!keep_clean(st, o)) { out.push_back(p); return; }
  const Base &b = baseline(o, st);
  std::set<std::string> target; if (image) target.insert(b.prog.image); else { if (!b.prog.lab.empty()) target.insert(b.prog.lab); if (!b.prog.lst.empty()) target.insert(b.prog.lst); }
  out.push_back(p);   // undisturbed, against the model
  Picker on(sites(b.res, [&](const Site &s) { return target.count(s.path) != 0; }), q);
  Picker any(sites(b.res, [&](const Site &s) { return !is_console(s.path) && s.kind != OP_IOCTL && !picks_candidate(st, b, s); }), q);
  while ((int)out.size() < n) {
    Plan c = p; int k = q.chance(70) ? 1 : q.range(2, 3);
    for (int i = 0; i < k; i++) {
      bool t = q.chance(75) && !on.empty();
      if (!t && any.empty()) break;
      c.rules.push_back(fault_at(q, t ? on.next() : any.next()));
    }
    if (q.chance(20)) { for (auto &t : target) c.pre[t] = q.chance(50) ? std::string(q.below(9000), 'J') : "old"; }
    out.push_back(c);
  }
}
static void exec_products(const Plan &p, Outcome &o, bool image) {
  const Base &b = baseline(o, p.steps[0], p.pre);
  if (!usable(p, o, b)) return;
  std::set<std::string> target; if (image) { if (!b.prog.image.empty()) target.insert(b.prog.image); } else { if (!b.prog.lab.empty()) target.insert(b.prog.lab); if (!b.prog.lst.empty()) target.insert(b.prog.lst); }
  if (p.rules.empty()) {
    o.last = b.res;
    for (auto &t : target) if (!b.res.disk.count(t)) o.fail("missing", fmt("undisturbed run exits %d without producing %s", b.status(), t.c_str()));
    if (image) { std::string m = against_model(b.prog, b.res); if (!m.empty()) o.fail("model", "undisturbed run: " + m); }
    return;
  }
  run1(o, b.prog, p.steps[0].env, b.disk, o.last, p.rules); note_faults(b, o.last, o);
  if (!ok_exit(o.last)) return;
  std::string d = diff_set(b.res.disk, o.last.disk, target);
  if (!d.empty()) { o.fail("incomplete", fmt("exit status %d, but ", o.last.nodes[0].status) + d); return; }
  if (const OpRec *f = hard_write_fault(o.last, target)) o.fail("unreported", fmt("%s of %s failed with errno %d, yet the exit status is %d", op_name[f->kind], o.last.path_of(*f).c_str(), f->err, o.last.nodes[0].status));
}
static void plan_C01(uint64_t s, std::vector<Plan> &o, int n) { plan_products(s, o, n, true); }
static void plan_C02(uint64_t s, std::vector<Plan> &o, int n) { plan_products(s, o, n, false); }
static void exec_C01(const Plan &p, Outcome &o) { exec_products(p, o, true); }
static void exec_C02(const Plan &p, Outcome &o) { exec_products(p, o, false); }

// ================================================================== C03
static bool append_only(const Program &p, const std::string &path) { auto it = p.echo.find(path); if (it == p.echo.end()) return false; for (auto &e : it->second) if (!e.append) return false; return true; }
static void plan_C03(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p;
  Step st = make_step(q, FE_ECHOFILE, (FE_PLAIN | FE_WARN) & ~(uint32_t)FE_GETC, 0, OPT_ALL | OP_O);
  st.size += 6; p.steps.push_back(st);
  if (!keep_clean(st, o)) { out.push_back(p); return; }
  const Base *b = &baseline(o, st);
  if (b->prog.echo.empty()) { out.push_back(p); return; }
  for (auto &e : b->prog.echo) if (q.chance(60)) { std::string t; int l = (int)q.below(4); for (int i = 0; i < l; i++) t += fmt("earlier line %d\n", (int)q.below(1000)); if (q.chance(25)) t += "unfinished line"; if (q.chance(15)) t = std::string(q.range(4000, 9000), 'e'); p.pre[e.first] = t; }
  b = &baseline(o, st, p.pre);
  out.push_back(p);
  Picker on(sites(b->res, [&](const Site &s) { return b->prog.echo.count(s.path) != 0; }), q);
  Picker any(sites(b->res, [&](const Site &s) { return !is_console(s.path) && s.kind != OP_IOCTL && !picks_candidate(st, *b, s); }), q);
  while ((int)out.size() < n) {
    Plan c = p;
    if (q.chance(35)) c.rules.push_back(crash_at(q, q.chance(70) && !on.empty() ? on.next() : any.next()));
    if (c.rules.empty() || q.chance(30)) { int k = q.chance(75) ? 1 : 2; for (int i = 0; i < k; i++) c.rules.insert(c.rules.begin(), fault_at(q, q.chance(80) && !on.empty() ? on.next() : any.next())); }
    out.push_back(c);
  }
}
static void exec_C03(const Plan &p, Outcome &o) {
  const Base &b = baseline(o, p.steps[0], p.pre);
  if (!usable(p, o, b)) return;
  if (b.prog.echo.empty()) { o.vacuous = true; return; }
  const RunResult *r = &b.res;
  if (!p.rules.empty()) { run1(o, b.prog, p.steps[0].env, b.disk, o.last, p.rules); note_faults(b, o.last, o); r = &o.last; } else o.last = b.res;
  std::set<std::string> targets; for (auto &e : b.prog.echo) targets.insert(e.first);
  for (auto &e : b.prog.echo) {
    std::string before; auto it = b.disk.find(e.first); bool had = it != b.disk.end(); if (had) before = it->second.data;
    if (append_only(b.prog, e.first) && had) {
      auto now = r->disk.find(e.first);
      if (now == r->disk.end()) { o.fail("lost", e.first + " is only appended to, but is gone"); return; }
      if (now->second.data.compare(0, before.size(), before) != 0) { o.fail("prefix", e.first + " is only appended to, but its earlier contents changed: " + diff_at(before, now->second.data)); return; }
      for (auto &x : r->trace) if (x.node == 0 && x.path >= 0 && r->paths[x.path] == e.first && x.ret >= 0) {
        if ((x.kind == OP_OPEN && (x.a & O_TRUNC) && write_flags(x.a)) || (x.kind == OP_WRITE && x.ret > 0 && (size_t)x.a < before.size()) || (x.kind == OP_TRUNC && (size_t)x.a < before.size()) || x.kind == OP_UNLINK)
          { o.fail("prefix", e.first + fmt(" is only appended to, but %s destroyed its earlier contents for a moment", op_name[x.kind])); return; }
      }
    }
  }
  if (!ok_exit(*r)) return;
  for (auto &t : targets) {
    std::string want = b.prog.echo_expected(t, b.disk); auto it = r->disk.find(t);
    if (it == r->disk.end()) { o.fail("missing", fmt("exit status %d, but %s does not exist", r->nodes[0].status, t.c_str())); return; }
    if (it->second.data != want) { o.fail("content", fmt("exit status %d, but %s is wrong: expected %zu bytes, found %zu; ", r->nodes[0].status, t.c_str(), want.size(), it->second.data.size()) + diff_at(want, it->second.data)); return; }
  }
  if (const OpRec *f = hard_write_fault(*r, targets)) o.fail("unreported", fmt("%s of %s failed with errno %d, yet the exit status is %d", op_name[f->kind], r->path_of(*f).c_str(), f->err, r->nodes[0].status));
}

// ================================================================== C04
static void plan_C04(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p;
  Step st = make_step(q, q.chance(60) ? FE_INC | FE_IMPORT : q.chance(50) ? FE_GETC | FE_INC : FE_BITMAP | FE_IMPORT, (FE_PLAIN | FE_WARN) & ~(uint32_t)FE_DIRS, q.chance(60) ? OP_T | OP_L : 0, OPT_ALL);
  if (!(st.feat & FE_HUGE) && q.chance(12)) { static const uint32_t CH[] = {13, 40, 57, 100, 512}; st.env.rchunk = CH[q.below(5)]; }   // a transient error can hit the middle of a header or palette
  p.steps.push_back(st);
  if (!keep_clean(st, o)) { out.push_back(p); return; }
  const Base &b = baseline(o, st);
  out.push_back(p);
  std::set<std::string> ins(b.prog.inputs.begin(), b.prog.inputs.end());
  Picker on(sites(b.res, [&](const Site &s) { return ins.count(s.path) != 0; }), q);
  Picker rd(sites(b.res, [&](const Site &s) { return ins.count(s.path) != 0 && (s.kind == OP_READ || s.kind == OP_OPEN) && s.ret > 0; }), q);
  Picker any(sites(b.res, [&](const Site &s) { return !is_console(s.path) && s.kind != OP_IOCTL && s.kind != OP_GETCWD; }), q);
  if (on.empty() || rd.empty()) return;
  while ((int)out.size() < n) {
    Plan c = p; int w = (int)q.below(100);
    if (w < 10 && b.prog.bitmaps.size()) {       // a picture shorter than its header claims
      const std::string &f = q.pick(b.prog.bitmaps); size_t sz = b.disk.at(f).data.size(); c.pre[f] = fmt("\x01" "C%zu", (size_t)(54 + q.below(sz - 54))); c.mode = 1;
    } else if (w < 30) { const Site &s = rd.next(); Rule r; r.opmask = (1u << OP_OPEN) | (1u << OP_READ); r.path = s.path; r.count = 0; r.eff = E_ERR; r.arg = q.chance(50) ? EIO : EACCES; if (q.chance(50)) r.opmask = 1u << OP_READ; c.rules.push_back(r); }
    else { int k = q.chance(75) ? 1 : 2; for (int i = 0; i < k; i++) c.rules.push_back(fault_at(q, q.chance(85) ? (q.chance(60) ? rd.next() : on.next()) : any.next())); }
    out.push_back(c);
  }
}
static size_t reads_of(const RunResult &r, const std::string &path) { size_t n = 0; for (auto &t : r.trace) if (t.kind == OP_READ && t.path >= 0 && r.paths[t.path] == path) n++; return n; }
static void exec_C04(const Plan &p, Outcome &o) {
  const Base &b = baseline(o, p.steps[0]);
  if (!usable(p, o, b)) return;
  if (p.rules.empty() && p.pre.empty()) {
    o.last = b.res; std::string m = against_model(b.prog, b.res); if (!m.empty()) o.fail("model", "undisturbed run: " + m);
    return;
  }
  Disk d = b.disk; lay(d, p.pre);
  run1(o, b.prog, p.steps[0].env, d, o.last, p.rules); note_faults(b, o.last, o);
  if (p.mode == 1) { o.nontrivial = true; if (g_stats) g_stats->shape(o.last.shape ^ hash_bytes(p.pre.begin()->second.data(), p.pre.begin()->second.size())); }
  if (!ok_exit(o.last)) return;
  std::string df = diff_set(b.res.disk, o.last.disk, all_products(b.prog));
  if (!df.empty()) { o.fail("silent", fmt("an input could not be used completely, the exit status is %d, and ", o.last.nodes[0].status) + df); return; }
  if (p.mode == 1 && !b.prog.bmmap) {
    // only the pixels count: a cut inside them must have been noticed (an image map may leave some out)
    for (auto &kv : p.pre) { auto it = b.disk.find(kv.first); if (it == b.disk.end() || !reads_of(b.res, kv.first)) continue; size_t n = strtoul(kv.second.c_str() + 2, nullptr, 10); if (n < it->second.data.size()) { o.fail("truncated", fmt("%s holds only %zu of the %zu bytes its header claims, yet the exit status is %d", kv.first.c_str(), n, it->second.data.size(), o.last.nodes[0].status)); return; } }
  }
  std::set<std::string> whole(b.prog.includes.begin(), b.prog.includes.end()); whole.insert(b.prog.imports.begin(), b.prog.imports.end()); whole.insert(b.prog.main_path);
  std::set<std::string> used; for (auto &x : b.res.trace) if (x.kind == OP_READ && x.path >= 0 && x.ret > 0) used.insert(b.res.paths[x.path]);
  for (size_t i = 0; i < p.rules.size(); i++) {
    const Rule &r = p.rules[i];
    if (i >= o.last.rule_fired.size() || !o.last.rule_fired[i] || !whole.count(r.path) || !used.count(r.path)) continue;
    bool dead = (r.eff == E_ERR && r.count == 0 && r.skip == 0 && (r.opmask & (1u << OP_READ))) || r.eff == E_MEDIA;
    for (size_t j = 0; j < p.rules.size(); j++) if (j != i && p.rules[j].path == r.path) dead = false;   // a second fault on the file can take the first one's place
    if (dead) { o.fail("unreported", fmt("%s is unreadable, yet the exit status is %d", r.path.c_str(), o.last.nodes[0].status)); return; }
  }
}

// ================================================================== C05
static void plan_C05(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p; bool reject = q.chance(35);
  Step st = make_step(q, reject ? FE_FATAL : 0, FE_PLAIN | FE_WARN, q.chance(60) ? OP_T | OP_L : 0, OPT_ALL);
  p.steps.push_back(st);
  Program pr; build_program(st, pr);
  for (auto &f : pr.products()) if (q.chance(75)) { int w = (int)q.below(4); p.pre[f] = w == 0 ? "" : w == 1 ? "previous good build" : std::string(q.range(1, 20000), 'P'); }
  p.mode = reject;
  const Base &b = baseline(o, st, p.pre);
  out.push_back(p);
  if (!reject && !b.clean()) { if (g_stats) g_stats->vacuous++; return; }
  std::set<std::string> ins(b.prog.inputs.begin(), b.prog.inputs.end()); auto prods = b.prog.products();
  size_t first_prod = b.res.trace.size(); for (size_t i = 0; i < b.res.trace.size(); i++) { auto &x = b.res.trace[i]; if (x.path >= 0 && prods.count(b.res.paths[x.path])) { first_prod = i; break; } }
  Picker early(sites(b.res, [&](const Site &s) { return !is_console(s.path) && s.at < first_prod; }), q);
  Picker inp(sites(b.res, [&](const Site &s) { return ins.count(s.path) != 0; }), q);
  Picker any(sites(b.res, [&](const Site &s) { return !is_console(s.path); }), q);
  while ((int)out.size() < n && !any.empty()) {
    Plan c = p; int w = (int)q.below(100);
    if (w < 45 && !early.empty()) c.rules.push_back(crash_at(q, early.next()));
    else if (w < 60) c.rules.push_back(crash_at(q, any.next()));
    else if (w < 85 && !inp.empty()) c.rules.push_back(fault_at(q, inp.next()));
    else { c.rules.push_back(fault_at(q, any.next())); }
    if (q.chance(20) && !early.empty()) c.rules.push_back(fault_at(q, early.next()));
    out.push_back(c);
  }
}
static void exec_C05(const Plan &p, Outcome &o) {
  const Base &b = baseline(o, p.steps[0], p.pre);
  if (p.mode == 0 && !usable(p, o, b)) return;
  if (p.rules.empty()) { o.last = b.res; o.nontrivial = p.mode == 1; } else { run1(o, b.prog, p.steps[0].env, b.disk, o.last, p.rules); note_faults(b, o.last, o); }
  const RunResult &r = o.last;
  std::set<std::string> ins(b.prog.inputs.begin(), b.prog.inputs.end()); auto prods = b.prog.products();
  // nothing may touch a product before the last byte of input was read
  long first = -1; std::string what, where;
  for (size_t i = 0; i < r.trace.size(); i++) {
    auto &x = r.trace[i]; if (x.node || x.path < 0) continue; const std::string &pa = r.paths[x.path];
    if (prods.count(pa) && x.ret >= 0 && first < 0) {
      bool touch = (x.kind == OP_OPEN && write_flags(x.a)) || x.kind == OP_UNLINK || x.kind == OP_RENAME || x.kind == OP_TRUNC || (x.kind == OP_WRITE && x.ret > 0);
      if (touch) { first = (long)i; what = op_name[x.kind]; where = pa; }
    }
    if (first >= 0 && x.kind == OP_READ && x.ret > 0 && ins.count(pa)) { o.fail("early", fmt("%s of %s came before the last read of input %s", what.c_str(), where.c_str(), pa.c_str())); return; }
  }
  // was the program accepted at all? rejected, killed before all inputs were read, or an input was unreadable
  bool killed_early = false;
  if (r.nodes[0].crashed) {
    // every input that the healthy run reads must have been read to its end
    auto seen = [&](const RunResult &rr, std::map<std::string, std::pair<int, uint64_t>> &m) {
      for (auto &x : rr.trace) if (x.node == 0 && x.path >= 0 && x.ret >= 0 && ins.count(rr.paths[x.path])) {
        auto &e = m[rr.paths[x.path]]; if (x.kind == OP_OPEN) e.first++; if (x.kind == OP_READ) e.second = std::max<uint64_t>(e.second, x.a + x.ret);
      }
    };
    std::map<std::string, std::pair<int, uint64_t>> got, want; seen(b.res, want); seen(r, got);
    // a fault on an input can make the run do without it (and end with an error later): not judged
    bool hit = false; for (auto &x : r.trace) if (x.eff != E_NONE && x.eff != E_CRASH && x.eff != E_CRASH_AFTER && x.eff != E_CRASH_MID && x.path >= 0 && !is_console(r.paths[x.path])) hit = true;
    for (auto &x : p.rules) if (x.eff != E_CRASH && x.eff != E_CRASH_AFTER && x.eff != E_CRASH_MID && ins.count(x.path)) hit = true;
    if (!hit) for (auto &w : want) if (got[w.first].first < w.second.first || got[w.first].second < w.second.second) killed_early = true;
  }
  bool rejected = p.mode == 1 && b.status() == 3 && r.nodes[0].exited && r.nodes[0].status == 3;
  if (p.mode == 1 && b.status() <= 1 && p.rules.empty()) { if (b.prog.nfatal && p.steps[0].drop.empty()) o.vacuous = true; return; }
  bool unreadable = false;
  if (r.nodes[0].exited && r.nodes[0].status == 3) {
    std::set<std::string> text(b.prog.includes.begin(), b.prog.includes.end()); text.insert(b.prog.main_path); text.insert(b.prog.imports.begin(), b.prog.imports.end());
    bool prodfault = false;
    for (auto &x : r.trace) if (x.path >= 0 && x.eff && x.ret < 0) { const std::string &pa = r.paths[x.path]; if (text.count(pa)) unreadable = true; if (prods.count(pa) || b.prog.echo.count(pa)) prodfault = true; }
    if (prodfault) unreadable = false;
  }
  if (rejected) probe(PR_REJECT);
  if (killed_early || rejected || unreadable) {
    std::string d = diff_set(b.disk, r.disk, prods);
    if (!d.empty()) o.fail(killed_early ? "crash" : "rejected", std::string(killed_early ? "the run was killed before all input was read" : rejected ? "the program was rejected" : "an input was unreadable") + fmt(" (status %d), yet an existing product changed: ", r.nodes[0].status) + d);
  }
}

// ================================================================== C06
static void plan_C06(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p;
  Step st = make_step(q, 0, (FE_PLAIN | FE_WARN) & ~(uint32_t)FE_APPEND, q.chance(60) ? OP_T | OP_L : 0, OPT_ALL | OP_O);
  if (!keep_clean(st, o)) { p.steps.push_back(st); out.push_back(p); return; }
  const Base &b = baseline(o, st); auto prods = all_products(b.prog);
  Picker on(sites(b.res, [&](const Site &s) { return prods.count(s.path) != 0; }), q);
  Picker any(sites(b.res, [&](const Site &s) { return !is_console(s.path); }), q);
  while ((int)out.size() < n) {
    Plan c; int k = q.range(1, 3);
    for (int i = 0; i < k; i++) {
      c.steps.push_back(st);
      if (q.chance(30)) { // an earlier version of the program
        Step other = st; other.gseed = q.next() >> 8; other.size = q.range(3, 40); other.slot = st.slot; c.steps.back() = other;
        Rule r; r.node = i; r.opmask = MASK_IO; r.skip = (uint32_t)q.below(120); r.count = 1; r.eff = q.chance(50) ? E_CRASH_AFTER : E_NONE; if (r.eff) c.rules.push_back(r);
        continue;
      }
      const Site &s = q.chance(65) && !on.empty() ? on.next() : any.next();
      c.rules.push_back(q.chance(55) ? crash_at(q, s, i) : fault_at(q, s, i));
    }
    c.steps.push_back(st);
    if (q.chance(25)) {         // nothing ran before, the products are there and nearly right
      c.steps = {st}; c.rules.clear();
      for (auto &f : prods) c.pre[f] = fmt("\x01" "H%d:%d", (int)q.below(9), q.chance(40) ? q.range(900, 1000) : (int)q.below(1001));
    } else if (q.chance(40)) for (auto &f : prods) if (q.chance(50)) { int w = (int)q.below(4); c.pre[f] = w == 0 ? "" : w == 1 ? std::string(q.range(1, 60000), 'Z') : w == 2 ? "x" : hexdump(std::string(q.range(1, 500), 'q'), 500); }
    out.push_back(c);
  }
}
static void exec_C06(const Plan &p, Outcome &o) {
  const Step &last = p.steps.back();
  const Base &b = baseline(o, last);
  if (!usable(p, o, b)) return;
  Disk d = b.disk; bool torn = !p.pre.empty();
  std::map<std::string, std::string> plain;
  for (auto &kv : p.pre) if (kv.second.compare(0, 2, "\x01" "H") != 0) plain.insert(kv);
  lay(d, plain);
  for (auto &kv : p.pre) if (kv.second.compare(0, 2, "\x01" "H") == 0) {   // almost what the healthy run writes
    auto it = b.res.disk.find(kv.first); if (it == b.res.disk.end()) continue;
    int k = 0, per = 0; sscanf(kv.second.c_str() + 2, "%d:%d", &k, &per);
    FileState f; f.data = it->second.data; std::string &t = f.data; size_t n = t.size(), at = n ? std::min(n - 1, n * (size_t)per / 1000) : 0;
    switch (k) {
      case 0: if (n) t[at] ^= 0x20; break;                                  // one byte differs
      case 1: t.resize(at); break;                                          // torn
      case 2: t += t.substr(at); break;                                     // longer
      case 3: for (size_t i = at; i < n; i++) t[i] = 0; break;              // same size, the tail was never written
      case 4: t.resize(n / 512 * 512); break;                               // torn at a block
      case 5: for (size_t i = at; i < n; i++) t[i] = (char)(t[i] + 1 + i % 7); break;
      case 6: t += "\n"; break;
      case 7: if (n) t[n - 1] ^= 1; break;
      default: if (n > 2) { t[n - 3] ^= 4; t[n / 2] ^= 1; } break;
    }
    f.mtime = last.env.clock_ms * 1000 - (per % 2 ? 7200 : 90000) * 1000000ll;
    d[kv.first] = f;
  }
  for (size_t i = 0; i + 1 < p.steps.size(); i++) {
    Program pr; build_program(p.steps[i], pr);
    Disk cur = pr.disk;                                   // this version's sources over what earlier runs left
    std::set<std::string> keep = all_products(b.prog); auto k2 = all_products(pr); keep.insert(k2.begin(), k2.end());
    for (auto &f : keep) { cur.erase(f); auto it = d.find(f); if (it != d.end()) cur[f] = it->second; }
    RunResult r; run1(o, pr, p.steps[i].env, cur, r, p.rules, (int)i);
    if (total_fired(r)) o.nontrivial = true;
    if (total_fired(r) && g_stats) g_stats->shape(r.shape);
    for (auto &f : keep) { d.erase(f); auto it = r.disk.find(f); if (it != r.disk.end()) d[f] = it->second; }
  }
  Disk fresh = b.disk; for (auto &f : d) if (!fresh.count(f.first)) fresh[f.first] = f.second;
  for (auto &f : all_products(b.prog)) { fresh.erase(f); auto it = d.find(f); if (it != d.end()) { fresh[f] = it->second; if (!same_file(d, b.res.disk, f)) torn = true; } }
  if (torn) { probe(PR_LEFTOVER); o.nontrivial = true; }
  run1(o, b.prog, last.env, fresh, o.last);
  if (torn && g_stats) g_stats->shape(o.last.shape ^ hash_bytes(&o.hash, 8));
  std::set<std::string> cmp = b.prog.products();
  for (auto &e : b.prog.echo) if (!e.second.empty() && !e.second[0].append) cmp.insert(e.first);
  if (!o.last.nodes[0].exited || o.last.nodes[0].status != b.status()) { o.fail("status", fmt("the rerun ends with status %d, a run in a clean directory with %d", o.last.nodes[0].status, b.status())); return; }
  std::string df = diff_set(b.res.disk, o.last.disk, cmp);
  if (!df.empty()) o.fail("products", "the rerun's products differ from a clean build: " + df);
}

// ================================================================== C07
static void plan_C07(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p;
  uint32_t bad = q.chance(25) ? FE_ERR : q.chance(25) ? FE_FATAL : q.chance(10) ? FE_MISSING : 0;
  Step st = make_step(q, bad, FE_PLAIN | FE_WARN, 0, OPT_ALL | OP_O);
  p.steps.push_back(st);
  Program pr; build_program(st, pr);
  // neighbours that must survive
  std::string stem = pr.image.empty() ? "/w/" + std::string(1, (char)('p' + st.slot)) + "qprog" : stem_of(pr.image);
  for (const char *e : {".lst", ".lab", ".bin", ".8xp", ".tmp", ".bak", "~", ".inc"}) if (q.chance(40) && !pr.disk.count(stem + e)) p.pre[stem + e] = "neighbour";
  if (q.chance(60)) for (auto &f : all_products(pr)) if (q.chance(70)) p.pre[f] = q.chance(30) ? "" : q.chance(50) ? "earlier build" : std::string(q.range(1, 9000), 'E');
  if (q.chance(40)) p.pre["/w/report.txt"] = "neighbour"; if (q.chance(40)) p.pre["/w/logs/other.log"] = "neighbour"; if (q.chance(30)) p.pre["/tmp/spasm.tmp"] = "neighbour";
  const Base &b = baseline(o, st, p.pre);
  out.push_back(p);
  Picker any(sites(b.res, [&](const Site &) { return true; }), q);
  std::set<std::string> ins(b.prog.inputs.begin(), b.prog.inputs.end());
  Picker op(sites(b.res, [&](const Site &s) { return s.kind == OP_OPEN || s.kind == OP_ACCESS || s.kind == OP_GETCWD; }), q);
  while ((int)out.size() < n && !any.empty()) {
    Plan c = p; int k = q.range(1, 3);
    for (int i = 0; i < k; i++) c.rules.push_back(q.chance(15) ? crash_at(q, any.next()) : q.chance(40) && !op.empty() ? fault_at(q, op.next()) : fault_at(q, any.next()));
    out.push_back(c);
  }
}
static void exec_C07(const Plan &p, Outcome &o) {
  const Base &b = baseline(o, p.steps[0], p.pre);
  if (p.rules.empty()) { o.last = b.res; o.nontrivial = true; if (g_stats) g_stats->shape(b.res.shape); } else { run1(o, b.prog, p.steps[0].env, b.disk, o.last, p.rules); note_faults(b, o.last, o); }
  auto allowed = all_products(b.prog); const RunResult &r = o.last;
  for (auto &x : r.trace) {
    if (x.node) continue;
    if (x.kind == OP_SPAWN) { o.fail("spawn", "the run tried to start another program or open a socket"); return; }
    if (x.path < 0) continue; const std::string &pa = r.paths[x.path]; if (is_console(pa) || allowed.count(pa)) continue;
    if (x.kind == OP_OPEN && (write_flags(x.a) || (x.a & (O_CREAT | O_TRUNC)))) { o.fail("open", fmt("opened for writing: %s (flags %llx)", pa.c_str(), (unsigned long long)x.a)); return; }
    if (x.kind == OP_UNLINK || x.kind == OP_RENAME || x.kind == OP_MKDIR || x.kind == OP_TRUNC) { o.fail("change", fmt("%s of %s", op_name[x.kind], pa.c_str())); return; }
    if (x.kind == OP_RENAME && x.a >= 0 && x.a < (int64_t)r.paths.size() && !allowed.count(r.paths[x.a])) { o.fail("change", "rename of " + r.paths[x.a]); return; }
  }
  for (auto &f : r.disk) if (!allowed.count(f.first)) { auto it = b.disk.find(f.first); if (it == b.disk.end()) { o.fail("created", "created " + f.first); return; } if (!(it->second == f.second)) { o.fail("changed", "changed " + f.first); return; } }
  for (auto &f : b.disk) if (!allowed.count(f.first) && !r.disk.count(f.first)) { o.fail("removed", "removed " + f.first); return; }
}

static std::string ref_of(const std::string &path) { return path.substr(path.rfind('/') + 1); }

// ================================================================== C08
static void plan_C08(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Plan p;
  uint32_t bad = q.chance(20) ? FE_ERR : q.chance(15) ? FE_FATAL : q.chance(10) ? FE_MISSING : 0;
  Step st = make_step(q, bad, FE_PLAIN | FE_WARN, 0, OPT_ALL | OP_O); p.steps.push_back(st);
  for (int i = 0; i < n; i++) {
    Plan c = p; c.a = (int64_t)(q.next() >> 8);
    Program pr; build_program(st, pr);
    if (q.chance(50)) { c.pre["/w/unrelated.txt"] = "x"; c.pre["/w/zz.inc"] = " .db 99\n"; c.pre["/w/spasm.cfg"] = "-T\n"; c.pre["/home/user/.spasmrc"] = "-L\n"; }
    if (q.chance(30)) for (auto &f : pr.products()) c.pre[f] = std::string(q.range(0, 3000), 'o');
    if (q.chance(60)) c.mode = q.range(1, 3);   // files of the same names in directories the command does not name (bit 0: /decoys, bit 1: elsewhere)
    if (q.chance(35)) c.mode |= 4;   // what the run looked for and did not find, although nobody named it, is there
    out.push_back(c);
  }
}
// does the program or its command line mention a file of this name?
static bool mentioned(const Program &p, const std::string &path) {
  std::string n = ref_of(path); auto low = [](std::string s) { for (auto &ch : s) ch = (char)tolower((unsigned char)ch); return s; }; n = low(n); if (n.empty()) return true;
  for (auto &a : p.argv) if (low(a).find(n) != std::string::npos) return true;
  for (auto &f : p.disk) if (f.second.type == F_REG && low(f.second.data).find(n) != std::string::npos) return true;
  for (auto &x : all_products(p)) if (low(ref_of(x)) == n) return true;
  return false;
}
static void exec_C08(const Plan &p, Outcome &o) {
  const Base &b = baseline(o, p.steps[0]);
  Disk d = b.disk; lay(d, p.pre); Env e = random_env((uint64_t)p.a); e.rchunk = e.wchunk = 0;
  if (p.mode) {
    std::set<std::string> taken; for (auto &x : b.res.trace) if (x.path >= 0) taken.insert(b.res.paths[x.path]);   // names the run itself looks at are its inputs
    auto decoy = [&](const std::string &dir, const std::string &f) {
      std::string t = dir + "/" + f; if (taken.count(t) || d.count(t)) return;
      for (size_t i = 1; i < t.size(); i++) if (t[i] == '/') { std::string u = t.substr(0, i); if (taken.count(u) && !d.count(u)) return; if (!d.count(u)) { FileState g; g.type = F_DIR; d[u] = g; } }
      FileState g; g.data = " .db 201,202,203\n .echo \"decoy\"\n"; d[t] = g;
    };
    for (auto &r : b.prog.refs) if (r.second[0] != '/') { if (p.mode & 1) decoy("/decoys", r.second), decoy("/decoys", ref_of(r.second)); if (p.mode & 2) for (const char *dir : {"/tmp", "/home/user", "/usr/local/share/asm", "/w/out", "/shared"}) decoy(dir, r.second); }
  }
  if (p.mode & 4) {
    RunResult look; run1(o, b.prog, e, d, look); Rng w((uint64_t)p.a ^ 0x71); int placed = 0;
    for (auto &x : look.trace) {
      if (x.ret != -ENOENT || x.path < 0 || !(x.kind == OP_ACCESS || x.kind == OP_STAT || (x.kind == OP_OPEN && !write_flags(x.a)))) continue;
      std::string t = look.paths[x.path]; if (t[0] != '/' || d.count(t) || placed > 3 || mentioned(b.prog, t)) continue;
      static const char *const ROOT[] = {"/usr/lib/", "/usr/share/", "/etc/", "/proc/", "/sys/", "/dev/", "/lib/"}; bool sys = false; for (auto r : ROOT) if (t.compare(0, strlen(r), r) == 0) sys = true;
      if (sys) continue;
      for (size_t i = 1; i < t.size(); i++) if (t[i] == '/') { std::string u = t.substr(0, i); if (!d.count(u)) { FileState g; g.type = F_DIR; d[u] = g; } }
      static const char *const TEXT[] = {"-T -L -N -A\n", "1\n", "", " .db 201,202,203\n", "/tmp\n", "x = 1\ny=2\n", "include=/tmp\noutput=8xp\n", "\x01\x02\x03\x04"};
      FileState g; g.data = TEXT[w.below(8)]; d[t] = g; placed++;
    }
  }
  Rng mt((uint64_t)p.a ^ 0x37); for (auto &f : d) f.second.mtime = e.clock_ms * 1000 + (mt.range(-40, 2) * 86400000000ll) + mt.range(-1000000, 1000000);   // how old a file is says nothing about its contents
  e.tty = p.steps[0].env.tty ^ (uint8_t)(p.a & 1);
  Program run_as = b.prog; if (p.a & 32) run_as.argv[0] = p.mode & 1 ? "/decoys/spasm" : "/tmp/spasm";   // the assembler is installed somewhere else
  run1(o, run_as, e, d, o.last); o.nontrivial = true; if (g_stats) g_stats->shape(o.last.shape ^ (uint64_t)p.a);
  const NodeResult &x = b.res.nodes[0], &y = o.last.nodes[0];
  if (x.exited != y.exited || x.status != y.status || x.signal != y.signal) { o.fail("status", fmt("the same command ends with status %d (signal %d) in one environment and %d (signal %d) in another", x.status, x.signal, y.status, y.signal)); return; }
  Disk want = b.res.disk; // products a rejected run does not write stay as they were
  for (auto &f : all_products(b.prog)) if (!want.count(f) && !b.disk.count(f)) { auto it = d.find(f); if (it != d.end()) want[f] = it->second; }
  std::string df = diff_set(want, o.last.disk, all_products(b.prog));
  if (!df.empty()) { o.fail("products", "the same command gives different products in another environment: " + df); return; }
  if (console(x.out) != console(y.out)) { o.fail("console", "the same command prints something else in another environment: " + diff_at(console(x.out), console(y.out))); return; }
  if (console(x.err) != console(y.err)) o.fail("console", "the same command prints something else on stderr: " + diff_at(console(x.err), console(y.err)));
}

// ================================================================== C09
static void plan_C09(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Plan p; Outcome o; int k = q.chance(60) ? 2 : q.range(3, 4); uint64_t shared = (q.next() >> 8) | 1; bool identical = q.chance(35);
  uint32_t feat = FE_PLAIN & ~(uint32_t)FE_DIRS; if (identical) feat &= ~(uint32_t)(FE_ECHOFILE | FE_APPEND);
  uint32_t fdirs = 0, oabs = q.chance(30) ? OP_ABS : 0;
  Step first = make_step(q, fdirs | (q.chance(50) ? FE_IMPORT : 0), feat, oabs, OPT_PLAIN & ~(uint32_t)(OP_ABS | OP_DEFOUT)); first.size = q.range(2, 8); first.shared = shared;
  for (int i = 0; i < k; i++) {
    Step s = first;
    if (!identical) { s = make_step(q, fdirs, feat, oabs, OPT_PLAIN & ~(uint32_t)(OP_ABS | OP_DEFOUT)); s.shared = shared; s.size = q.range(2, 8); s.slot = i; s.env.blksize = first.env.blksize; }
    s.env.seed = q.next() >> 8; s.env.lat_us = (uint32_t)q.below(500);
    p.steps.push_back(s);
  }
  if (!identical && q.chance(25)) {   // outputs that differ in the extension only
    int e0 = (int)q.below(13); for (auto &s : p.steps) { s.opts = (s.opts & ~(uint32_t)(OP_T | OP_L | OP_OUTDIR | OP_DEFOUT | OP_NAMES | OP_ABSOUT)) | OP_STEM; s.ext = e0++ % 13; if (s.ext == 11) s.ext = 13; }
  }
  p.mode = identical;
  for (auto &s : p.steps) if (!keep_clean(s, o)) { p.mode = identical; break; }
  for (int i = 0; i < n; i++) {
    Plan c = p; c.sched_seed = q.next() >> 8; static const int BI[] = {0, 30, 60, 85, 95}; c.sched_bias = BI[q.below(5)];
    if (!identical && q.chance(45)) {   // one of them is killed or meets faults: the others are judged
      int v = (int)q.below(p.steps.size()); const Base &b = baseline(o, p.steps[v]);
      if (b.clean()) {
        Picker any(sites(b.res, [&](const Site &x) { return x.kind != OP_IOCTL; }), q), pr(sites(b.res, [&](const Site &x) { return b.prog.products().count(x.path) != 0; }), q);
        for (int j = q.range(1, 2); j-- && !any.empty();) { const Site &x = !pr.empty() && q.chance(50) ? pr.next() : any.next(); c.rules.push_back(q.chance(50) ? crash_at(q, x, v) : fault_at(q, x, v)); }
      }
    }
    out.push_back(c);
  }
}
static void exec_C09(const Plan &p, Outcome &o) {
  RunSpec s; std::vector<Program> pr(p.steps.size());
  for (size_t i = p.steps.size(); i--;) { build_program(p.steps[i], pr[i]); for (auto &f : pr[i].disk) s.disk[f.first] = f.second; }
  std::vector<Base> alone(p.steps.size());
  for (size_t i = 0; i < p.steps.size(); i++) {
    size_t j = 0; while (j < i && step_key(p.steps[j]) != step_key(p.steps[i])) j++;
    if (j < i) { alone[i].res.nodes = alone[j].res.nodes; alone[i].res.disk = alone[j].res.disk; continue; }
    run1(o, pr[i], p.steps[i].env, s.disk, alone[i].res);
    auto &n = alone[i].res.nodes[0]; if (!n.exited || n.status > 1) { o.vacuous = true; return; }
  }
  for (size_t i = 0; i < p.steps.size(); i++) { NodeSpec n; n.argv = pr[i].argv; n.env = p.steps[i].env; n.cwd = pr[i].cwd; n.entry = sim_entry; s.nodes.push_back(n); }
  s.sched_seed = p.sched_seed; s.sched_bias = p.sched_bias; s.sched = p.sched; s.have_sched = p.have_sched; s.rules = p.rules;
  std::set<size_t> hurt; for (auto &x : p.rules) hurt.insert(x.node);
  run(s, o.last); note(o, o.last);
  o.nontrivial = o.last.switches > 0; if (o.nontrivial && g_stats) g_stats->shape(o.last.shape); if (o.last.switches > 10) probe(PR_SWITCH);
  for (size_t i = 0; i < p.steps.size(); i++) {
    if (hurt.count(i)) continue;
    auto &x = alone[i].res.nodes[0], &y = o.last.nodes[i];
    if (!y.exited || y.status != x.status) { o.fail("status", fmt("assembler %zu ends with status %d among others, with %d alone (signal %d)", i, y.status, x.status, y.signal)); return; }
    std::string df = diff_set(alone[i].res.disk, o.last.disk, all_products(pr[i]));
    if (!df.empty()) { o.fail("products", fmt("assembler %zu: products differ from its run alone: ", i) + df); return; }
    if (console(x.out) != console(y.out)) { o.fail("console", fmt("assembler %zu prints something else than alone: ", i) + diff_at(console(x.out), console(y.out))); return; }
  }
}

// ================================================================== C10
static size_t count_text(const std::string &t, const std::string &w) { size_t n = 0; for (size_t i = t.find(w); i != std::string::npos; i = t.find(w, i + 1)) n++; return n; }
static std::string replace_text(std::string t, const std::string &a, const std::string &b) { for (size_t i = t.find(a); i != std::string::npos; i = t.find(a, i + b.size())) t.replace(i, a.size(), b); return t; }
static void plan_C10(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p;
  Step st = make_step(q, FE_INC | FE_IMPORT, (FE_PLAIN | FE_WARN) & ~(uint32_t)FE_GETC, q.chance(60) ? OP_T | OP_L : 0, OPT_PLAIN & ~(uint32_t)OP_C);
  if (st.ext == 12) st.ext = 0; if (q.chance(40)) st.feat |= FE_BIG; if (q.chance(35)) st.feat |= FE_HUGE;
  st.size = q.range(4, 14); p.steps.push_back(st);
  if (!keep_clean(st, o)) { out.push_back(p); return; }
  const Base &b = baseline(o, st);
  std::vector<std::string> cand; for (auto &f : b.prog.includes) if (b.prog.occ.count(f)) cand.push_back(f); for (auto &f : b.prog.bitmaps) if (b.prog.occ.count(f)) cand.push_back(f); for (auto &f : b.prog.imports) if (b.prog.occ.count(f)) cand.push_back(f);
  if (cand.empty() || q.chance(12)) cand = {b.prog.main_path};
  while ((int)out.size() < n) {
    Plan c = p; std::string f = q.pick(cand); const std::string &old = b.disk.at(f).data; std::string nw; int w = (int)q.below(4);
    bool text = std::find(b.prog.imports.begin(), b.prog.imports.end(), f) == b.prog.imports.end();
    if (text) {
      std::string add; int l = q.range(1, 60); for (int i = 0; i < l; i++) add += fmt(" .db %d,%d\n", (int)q.below(256), (int)q.below(256));
      if (w == 0) nw = add + old; else if (w == 1) nw = old + "\n" + add; else if (w == 2) { nw = add; } else { nw = old.substr(0, old.find('\n') == std::string::npos ? old.size() : old.find('\n') + 1) + add; }
      if (f == b.prog.main_path && w >= 2) nw = old + "\n" + add;
    } else {
      size_t len = w == 0 ? old.size() : w == 1 ? old.size() / 2 : w == 2 ? old.size() * 2 + q.below(100) : q.below(9000); for (size_t i = 0; i < len; i++) nw += (char)q.below(256);
    }
    if (text && f != b.prog.main_path && q.chance(b.prog.occ.count(f) && b.prog.occ.at(f) > 1 ? 40 : 12)) nw = make_bmp(q, q.chance(50) ? 24 : 8, q.range(1, 24), q.range(1, 8), 0);   // something of another kind
    c.muts.push_back({f, false, nw});
    auto near = sites(b.res, [&](const Site &s) { return s.path == f; });
    Rule r; r.eff = E_MUTATE; r.arg = 0; r.count = 1;
    if (q.chance(75) && near.size()) { const Site &s = q.pick(near); r.opmask = 1u << s.kind; r.path = f; r.skip = s.nth; }
    else { r.opmask = MASK_IO; r.skip = (uint32_t)q.below(b.res.trace.size() + 1); }
    c.rules.push_back(r); out.push_back(c);
  }
}
static void exec_C10(const Plan &p, Outcome &o) {
  const Base &b = baseline(o, p.steps[0]);
  if (!usable(p, o, b) || p.muts.empty()) { o.vacuous = true; return; }
  const std::string &f = p.muts[0].path; auto oi = b.prog.occ.find(f); int occ = f == b.prog.main_path ? 1 : oi == b.prog.occ.end() ? 0 : oi->second;
  std::string alltext; for (auto &x : b.prog.includes) alltext += b.disk.at(x).data; alltext += b.disk.at(b.prog.main_path).data;
  std::string base = ref_of(f); size_t textual = count_text(alltext, base + "\"");
  if (occ < 1 || occ > 3 || (f != b.prog.main_path && textual != (size_t)occ)) { o.vacuous = true; return; }
  run1(o, b.prog, p.steps[0].env, b.disk, o.last, p.rules, 0, p.muts);
  size_t mut = 0, firstop = o.last.trace.size(), lastop = 0; for (size_t i = 0; i < o.last.trace.size(); i++) { auto &x = o.last.trace[i]; if (x.kind == OP_MUTATE) mut = i; else if (x.path >= 0 && o.last.paths[x.path] == f) { firstop = std::min(firstop, i); lastop = i; } }
  if (total_fired(o.last)) { o.nontrivial = true; if (g_stats) g_stats->shape(o.last.shape); if (mut > firstop && mut < lastop) probe(PR_MIXTURE); }
  auto prods = b.prog.products(); std::string firstdiff;
  for (int m = 0; m < (1 << occ); m++) {
    Disk d = b.disk; std::string alt = base; alt[0] = 'X';
    RunResult tmp; const RunResult *r = nullptr;
    if (m == 0) r = &b.res;
    else if (m == (1 << occ) - 1) { d[f].data = p.muts[0].data; run1(o, b.prog, p.steps[0].env, d, tmp); r = &tmp; }
    else {
      d[f.substr(0, f.rfind('/') + 1) + alt] = d[f]; d[f.substr(0, f.rfind('/') + 1) + alt].data = p.muts[0].data;
      int k = 0; std::vector<std::string> texts = b.prog.includes; texts.push_back(b.prog.main_path);
      for (auto &t : texts) { std::string &s = d[t].data; for (size_t i = s.find(base + "\""); i != std::string::npos; i = s.find(base + "\"", i + 1)) { if (m >> k & 1) s.replace(i, base.size(), alt); k++; } }
      run1(o, b.prog, p.steps[0].env, d, tmp); r = &tmp;
      for (auto &x : prods) { auto it = tmp.disk.find(x); if (it != tmp.disk.end()) it->second.data = replace_text(it->second.data, alt, base); }
    }
    std::string df;
    if (r->nodes[0].exited != o.last.nodes[0].exited || r->nodes[0].status != o.last.nodes[0].status) df = fmt("status %d, not %d", o.last.nodes[0].status, r->nodes[0].status);
    else df = diff_set(r->disk, o.last.disk, prods);
    if (df.empty()) { probe(m ? PR_NEWUSED : PR_OLDUSED); return; }
    if (firstdiff.empty()) firstdiff = df;
  }
  o.fail("mixture", fmt("%s was replaced during the run and the result is none of the %d possible ones (all old: ", f.c_str(), 1 << occ) + firstdiff + ")");
}

// ================================================================== C11
static void dll_args(const Program &p, std::vector<std::string> &a) {
  a.push_back("clear");
  std::string in, out, incs; std::vector<std::string> rest;
  for (size_t i = 1; i < p.argv.size(); i++) {
    const std::string &x = p.argv[i];
    if (x == "-I") { std::string s = p.argv[++i]; size_t b = 0; for (size_t k = 0; k <= s.size(); k++) if (k == s.size() || s[k] == ';' || s[k] == ',') { if (k > b) a.push_back("inc:" + s.substr(b, k - b)); b = k + 1; } }
    else if (x.compare(0, 2, "-I") == 0) a.push_back("inc:" + x.substr(2));
    else if (x == "-D") a.push_back("def:" + p.argv[++i]);
    else if (x.compare(0, 2, "-D") == 0) a.push_back("def:" + x.substr(2));
    else if (x[0] == '-') continue;
    else if (in.empty()) in = x; else out = x;
  }
  if (out.empty()) out = in.substr(0, in.size() - 3) + "bin";
  a.push_back("in:" + in); a.push_back("out:" + out); a.push_back("run");
}
static std::string last_segment(const std::string &out) {
  size_t b = out.rfind("@@BEGIN@@\n"); if (b == std::string::npos) return "";
  size_t e = out.find("@@RC=", b); if (e == std::string::npos) return "";
  size_t f = out.find("\n", e); return console(out.substr(b, f == std::string::npos ? f : f - b));
}
static void plan_C11(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o;
  uint32_t feats = FE_PLAIN & ~(uint32_t)FE_DIRS, opts = OP_A | OP_N | OP_OUTDIR | OP_DOTSLASH | OP_D | OP_ABS | OP_NAMES | OP_ABSOUT;
  Step last = make_step(q, 0, feats | FE_WARN | FE_DIRS | (q.chance(30) ? (uint32_t)FE_ERR : 0), 0, opts); last.slot = 3; if (q.chance(25)) last.feat |= FE_PROBE;
  for (int i = 0; i < n; i++) {
    Plan c; int k = q.range(1, 3);
    for (int j = 0; j < k; j++) {
      Step s = make_step(q, (q.chance(60) ? (uint32_t)FE_LEAK : 0) | (q.chance(30) ? (uint32_t)FE_ERR : 0) | (q.chance(6) ? (uint32_t)FE_FATAL : 0) | (q.chance(15) ? (uint32_t)FE_SOFT : 0), feats | FE_WARN | FE_DIRS, 0, opts);
      s.slot = q.chance(60) ? j : 3; s.size = q.range(2, 14); s.env = last.env; c.steps.push_back(s);
      if (q.chance(20)) { Rule r; r.opmask = MASK_IO; r.skip = (uint32_t)q.below(100); r.eff = E_ERR; r.arg = EIO; r.count = q.range(1, 3); c.rules.push_back(r); }
    }
    c.steps.push_back(last);
    if (q.chance(30)) {   // some of the earlier assemblies happen in another directory, mostly of the same program with other contents
      c.b = (int64_t)(1 + q.below(((uint64_t)1 << (c.steps.size() - 1)) - 1 + 1)) & (((int64_t)1 << (c.steps.size() - 1)) - 1); if (!c.b) c.b = 1;
      for (size_t j = 0; j + 1 < c.steps.size(); j++) if ((c.b >> j & 1) && q.chance(60)) c.steps[j] = last;
    }
    if (q.chance(45)) {   // files of the observed assembly are edited just before it; mostly the same program has been assembled with the earlier ones
      Program lp; build_program(last, lp);
      if (q.chance(75)) { Step &s = c.steps[c.steps.size() - 2]; s = last; }
      for (auto &f : lp.inputs) if (q.chance(f == lp.main_path ? 25 : 50)) {
        std::string t = lp.disk[f].data; bool src = f == lp.main_path || std::find(lp.includes.begin(), lp.includes.end(), f) != lp.includes.end();
        if (t.size() > 3000) continue;
        int w = (int)q.below(4);
        if (w == 0 && f != lp.main_path) t = "\x01X";
        else if (src) { size_t n = t.size(); t = q.chance(50) ? fmt(" .db %d\n", (int)q.below(256)) : "; an earlier version\n"; if (w == 1) t.resize(std::max(n, t.size()), '\n'); }
        else if (std::find(lp.bitmaps.begin(), lp.bitmaps.end(), f) != lp.bitmaps.end()) { if (t.size() > 62) t[t.size() - 1 - q.below(std::min<size_t>(8, t.size() - 62))] ^= 0x55; }
        else if (w == 1) for (auto &ch : t) ch ^= 0x2A; else t = t.substr(0, q.below(t.size() + 1)) + std::string(q.below(5), 'o');
        c.pre[f] = t;
      }
      c.mode = q.chance(60);   // the earlier versions have been written moments ago, too
    }
    out.push_back(c);
  }
}
static std::string elsewhere(const std::string &s) { return s == "/w" || s.compare(0, 3, "/w/") == 0 ? "/elsewhere" + s.substr(2) : s; }
static std::string hex(const std::string &s) { std::string h; for (unsigned char ch : s) h += fmt("%02x", ch); return h; }
static void exec_C11(const Plan &p, Outcome &o) {
  const Step &ls = p.steps.back();
  Program lp; build_program(ls, lp);
  Disk d;
  for (size_t i = 0; i < p.steps.size(); i++) {
    Program pr; build_program(p.steps[i], pr); bool away = i + 1 < p.steps.size() && (p.b >> i & 1);
    for (auto &f : pr.disk) {
      std::string to = away ? elsewhere(f.first) : f.first; FileState &x = d[to] = f.second; if (to == f.first || x.type != F_REG) continue;
      if (std::find(pr.imports.begin(), pr.imports.end(), f.first) != pr.imports.end() || std::find(pr.getcs.begin(), pr.getcs.end(), f.first) != pr.getcs.end()) for (auto &ch : x.data) ch ^= 0x2A;
      else if (x.data.size() % 2 && std::find(pr.includes.begin(), pr.includes.end(), f.first) != pr.includes.end()) x.data = " .db 77\n";
    }
  }
  for (auto &f : lp.disk) d[f.first] = f.second;
  for (auto &e : lp.echo) d.erase(e.first);
  std::vector<std::string> puts;
  for (auto &e : p.pre) { auto it = d.find(e.first); if (it == d.end() || it->second.type != F_REG) continue; puts.push_back("put:" + e.first + ":" + hex(it->second.data)); }
  lay(d, p.pre);
  NodeSpec n; n.env = ls.env; n.cwd = lp.cwd; n.entry = sim_entry;
  // the history alone: what it leaves on the disk is what the observed assembly finds
  auto console_fault = [](const RunResult &r) { for (auto &t : r.trace) if (t.eff != E_NONE && t.path >= 0 && is_console(r.paths[t.path])) return true; return false; };  // lost console text: the transcript cannot be read back
  std::vector<Rule> rules; for (auto r : p.rules) { r.node = 0; rules.push_back(r); }
  std::vector<size_t> before; for (size_t i = 0; i + 1 < p.steps.size(); i++) before.push_back(i);
  NodeSpec h = n; RunResult hist; int want_runs = 0;
  for (;;) {
    RunSpec s0; s0.disk = d; h.argv = {"client"}; want_runs = (int)before.size() + 1;
    if (p.mode) for (auto &e : p.pre) if (e.second.empty() || e.second[0] != 1) h.argv.push_back("put:" + e.first + ":" + hex(e.second));
    for (size_t i : before) {
      Program pr; build_program(p.steps[i], pr); bool away = p.b >> i & 1; if (p.b) h.argv.push_back(std::string("cd:") + (away ? "/elsewhere" : lp.cwd));
      std::vector<std::string> v; dll_args(pr, v); for (auto &x : v) { size_t k = x.find(':'); if (away && k != std::string::npos && x.compare(0, 4, "def:")) x = x.substr(0, k + 1) + elsewhere(x.substr(k + 1)); h.argv.push_back(x); }
    }
    if (p.b) h.argv.push_back("cd:" + lp.cwd);
    s0.nodes.push_back(h); s0.rules = rules; run(s0, hist); note(o, hist);
    size_t done = count_text(hist.nodes[0].out, "@@RC=");
    if (hist.nodes[0].exited && done + 1 >= (size_t)want_runs && !console_fault(hist)) break;
    if (!hist.nodes[0].exited || console_fault(hist) || done >= before.size() || before.size() == 1) { o.last = hist; o.vacuous = true; return; }
    before.erase(before.begin() + (long)done);   // this assembly ends the process: the history without it
  }
  // the observed assembly in a fresh process, on that disk
  RunSpec s1; s1.disk = hist.disk; NodeSpec f = n; f.argv = {"client"}; f.argv.insert(f.argv.end(), puts.begin(), puts.end()); dll_args(lp, f.argv); s1.nodes.push_back(f);
  RunResult fresh; run(s1, fresh); note(o, fresh);
  // and after the history (a source name used by two steps holds the last version for both)
  RunSpec s2; s2.disk = d; NodeSpec m = n; m.argv = h.argv; m.argv.insert(m.argv.end(), puts.begin(), puts.end()); dll_args(lp, m.argv); s2.nodes.push_back(m); s2.rules = rules;
  run(s2, o.last); note(o, o.last);
  // faults are for the earlier assemblies: the history alone ends with one more operation than it has within the longer run
  for (size_t i = hist.trace.size() > 2 ? hist.trace.size() - 2 : 0; i < o.last.trace.size(); i++) if (o.last.trace[i].eff != E_NONE) { o.vacuous = true; return; }
  if (console_fault(o.last)) { o.vacuous = true; return; }
  const NodeResult &x = fresh.nodes[0], &y = o.last.nodes[0];
  int begun = (int)count_text(y.out, "@@BEGIN@@"), done = (int)count_text(y.out, "@@RC=");
  if (begun < want_runs) {
    o.fail("history", fmt("the first %d assemblies return when they are all the process does, but not with another one behind them (status %d, signal %d)", want_runs - 1, y.status, y.signal)); return;
  }
  if (y.signal || y.corrupt || y.hung) { if (!x.signal && !x.hung && !x.corrupt) o.fail("died", fmt("the assembly dies (signal %d) only after earlier assemblies in the same process", y.signal)); else o.vacuous = true; return; }
  o.nontrivial = true; if (g_stats) g_stats->shape(o.last.shape);
  if (done < want_runs || x.out.find("@@RC=") == std::string::npos) {
    bool fx = x.out.find("@@RC=") != std::string::npos, fy = done >= want_runs;
    if (fx != fy || x.status != y.status || x.signal != y.signal) { o.fail("result", fmt("fresh process: %s (status %d), after earlier assemblies: %s (status %d, signal %d)", fx ? "returns" : "ends the process", x.status, fy ? "returns" : "ends the process", y.status, y.signal)); return; }
  }
  std::set<std::string> all = all_products(lp); for (auto &kv : fresh.disk) all.insert(kv.first); for (auto &kv : o.last.disk) all.insert(kv.first);
  std::string df = diff_set(fresh.disk, o.last.disk, all);
  if (!df.empty()) { o.fail("products", "the assembly's products depend on what the process assembled before: " + df); return; }
  std::string a = last_segment(x.out), b = last_segment(y.out);
  if (a != b) { o.fail("console", "the assembly's result or console text depends on what the process assembled before: " + diff_at(a, b) + "\n--- fresh\n" + a.substr(0, 1500) + "\n--- after history\n" + b.substr(0, 1500)); return; }
}

// ================================================================== C12
static void diag_lines(const std::string &s, int &err, int &warn, std::string &sample_e, std::string &sample_w) {
  err = warn = 0; size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i); std::string l = s.substr(i, e == std::string::npos ? e : e - i); i = e == std::string::npos ? s.size() : e + 1;
    bool er = l.find(": error") != std::string::npos || l.find("Error ") != std::string::npos || l.find("Couldn't ") != std::string::npos || l.compare(0, 12, "Unrecognized") == 0 || (l[0] == '-' && l.find(" used without ") != std::string::npos);
    if (l.find("Error during ") != std::string::npos) er = false;   // where a diagnostic came from; it follows on the next line
    bool wa = l.find(": warning") != std::string::npos;
    if (er) { err++; if (sample_e.empty()) sample_e = l; } else if (wa) { warn++; if (sample_w.empty()) sample_w = l; }
  }
}
static void plan_C12(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p; int w = (int)q.below(100);
  uint32_t f = w < 30 ? FE_WARN : w < 50 ? FE_WARN | FE_ERR : w < 65 ? FE_ERR : w < 75 ? FE_FATAL | FE_WARN : w < 80 ? FE_ERR | FE_FATAL : w < 85 ? FE_MISSING | FE_WARN : 0;
  Step st = make_step(q, f | (q.chance(30) ? FE_NOHDR : 0), FE_PLAIN, 0, OPT_ALL & ~(uint32_t)OP_C); if (q.chance(4)) st.opts |= OP_BADOPT; p.steps.push_back(st); p.mode = f == FE_WARN && !(st.opts & OP_BADOPT);
  const Base &b = baseline(o, st); out.push_back(p);
  if (q.chance(15)) { static const int N[] = {256, 256, 256, 512, 1024, 128, 255, 1000, 65536}; Plan c = p; c.a = N[q.below(q.chance(10) ? 9 : 8)]; c.b = q.chance(50); out.push_back(c); }   // exactly so many errors or warnings
  Picker any(sites(b.res, [&](const Site &s) { return !is_console(s.path) && s.kind != OP_IOCTL; }), q);
  while ((int)out.size() < n && !any.empty()) { Plan c = p; int k = q.chance(70) ? 1 : q.range(2, 3); for (int i = 0; i < k; i++) c.rules.push_back(fault_at(q, any.next())); out.push_back(c); }
}
static void exec_C12(const Plan &p, Outcome &o) {
  const Base &b = baseline(o, p.steps[0], p.pre);
  if (p.rules.empty()) { o.last = b.res; o.nontrivial = true; if (g_stats) g_stats->shape(b.res.shape); } else { run1(o, b.prog, p.steps[0].env, b.disk, o.last, p.rules); note_faults(b, o.last, o); }
  int e, w; std::string se, sw;
  if (p.a > 0) {
    diag_lines(b.res.nodes[0].out + b.res.nodes[0].err, e, w, se, sw); int64_t more = p.a - (p.b ? w : e);
    if (more <= 0 || !b.disk.count(b.prog.main_path) || b.status() > 2) { o.vacuous = true; return; }
    Disk d = b.disk; std::string &t = d[b.prog.main_path].data; if (!t.empty() && t.back() != '\n') t += "\n";
    for (int64_t i = 0; i < more; i++) t += p.b ? " ld a,500\n" : " .db nolabel_q\n";
    run1(o, b.prog, p.steps[0].env, d, o.last); o.nontrivial = true; if (g_stats) g_stats->shape(o.last.shape ^ (uint64_t)p.a);
  }
  const NodeResult &r = o.last.nodes[0];
  if (!r.exited) { o.vacuous = true; return; }
  diag_lines(r.out + r.err, e, w, se, sw);
  if (e && r.status < 2) { o.fail("error", fmt("exit status %d although an error was printed: ", r.status) + se); return; }
  if (w && r.status < 1) { o.fail("warning", "exit status 0 although a warning was printed: " + sw); return; }
  if (r.status == 1) probe(PR_WARN);
  if (p.rules.empty() && p.steps[0].drop.empty() && b.prog.nwarn && !b.prog.nerr && !b.prog.nfatal && w && !e) {
    if (r.status > 1) { o.fail("fatal-warning", fmt("exit status %d although only warnings were printed: ", r.status) + sw); return; }
    for (auto &f : b.prog.products()) if (!o.last.disk.count(f)) { o.fail("no-product", "only warnings were printed, but " + f + " was not produced"); return; }
  }
}

// ================================================================== C13
static void plan_C13(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p;
  uint32_t bad = q.chance(15) ? FE_ERR : q.chance(10) ? FE_FATAL : q.chance(10) ? FE_MISSING : 0;
  Step st = make_step(q, bad, FE_PLAIN | FE_WARN, 0, OPT_ALL | OP_O); p.steps.push_back(st);
  const Base &b = baseline(o, st); out.push_back(p);
  std::set<std::string> ins(b.prog.inputs.begin(), b.prog.inputs.end());
  Picker any(sites(b.res, [&](const Site &s) { return s.kind != OP_IOCTL; }), q);
  Picker in(sites(b.res, [&](const Site &s) { return ins.count(s.path) != 0; }), q);
  std::vector<std::string> prods; for (auto &f : all_products(b.prog)) prods.push_back(f);
  while ((int)out.size() < n && !any.empty()) {
    Plan c = p; int w = (int)q.below(100);
    if (w >= 88 && prods.size()) {   // a product that can never be written (or closed, or made longer)
      const std::string &f = q.pick(prods); Rule r; r.path = f; r.count = 0; r.skip = (uint32_t)q.below(3); int k = (int)q.below(4);
      static const int E[] = {ENOSPC, EIO, EDQUOT, EFBIG, EROFS, EAGAIN, EINTR};
      if (k == 0) { r.opmask = 1u << OP_WRITE; r.eff = E_QUOTA; r.skip = 0; r.arg = (int64_t)q.below(b.res.disk.count(f) ? b.res.disk.at(f).data.size() + 1 : 50); }
      else { r.opmask = k == 1 ? 1u << OP_WRITE : k == 2 ? (1u << OP_WRITE) | (1u << OP_LSEEK) | (1u << OP_CLOSE) : MASK_IO; r.eff = E_ERR; r.arg = E[q.below(7)]; }
      c.rules.push_back(r); out.push_back(c); continue;
    }
    if (w < 20 && b.prog.inputs.size()) { // odd input files
      const std::string &f = q.pick(b.prog.inputs); int k = (int)q.below(6);
      c.pre[f] = k == 0 ? "\x01" "C0" : k == 1 ? "\x01" "C1" : k == 2 ? "\x01" "C2" : k == 3 ? "\x01" "F" : k == 4 ? "\x01" "D" : fmt("\x01" "C%d", (int)q.below(b.disk.count(f) ? b.disk.at(f).data.size() + 1 : 80)); c.mode = 1;
    }
    if (w >= 20 || q.chance(30)) {
      int k = q.chance(60) ? 1 : q.range(2, 4);
      for (int i = 0; i < k; i++) {
        if (q.chance(20)) { Rule r; r.opmask = q.chance(50) ? MASK_IO : 1u << (1 + q.below(6)); r.skip = (uint32_t)q.below(b.res.trace.size() + 1); r.count = 0; r.eff = E_ERR; static const int E[] = {EINTR, EAGAIN, EIO, ENOSPC, EMFILE}; r.arg = E[q.below(5)]; c.rules.push_back(r); }
        else c.rules.push_back(fault_at(q, q.chance(50) && !in.empty() ? in.next() : any.next()));
      }
    }
    if (q.chance(10) && b.clean()) { c.a = 1; }   // tiny transfers too
    out.push_back(c);
  }
}
static void exec_C13(const Plan &p, Outcome &o) {
  const Base &b = baseline(o, p.steps[0]);
  Disk d = b.disk; lay(d, p.pre); Env e = p.steps[0].env; if (p.a) { e.rchunk = 3; e.wchunk = 3; }
  if (b.res.nodes[0].signal || b.res.nodes[0].hung) { o.last = b.res; if (p.rules.empty()) o.fail("undisturbed", fmt("an undisturbed run dies (signal %d%s%s)", b.res.nodes[0].signal, b.res.nodes[0].hung ? ", hung" : "", b.res.nodes[0].corrupt ? ", heap corrupted" : "")); else o.vacuous = true; return; }
  if (p.rules.empty() && p.pre.empty() && !p.a) { o.last = b.res; return; }
  RunSpec s = spec1(b.prog, e, d, p.rules);
  uint64_t bytes = 0; for (auto &f : d) bytes += f.second.data.size(); auto im = b.res.disk; for (auto &f : b.prog.products()) { auto it = im.find(f); if (it != im.end()) bytes += it->second.data.size(); }
  uint64_t bound = 3000 + 8 * b.res.nodes[0].ops + (p.a ? 4 * bytes + b.res.nodes[0].out.size() * 4 : bytes / 8);
  s.max_ops = (uint32_t)std::min<uint64_t>(bound, 300000);
  if (p.a && (bound > 300000 || !b.clean())) { o.vacuous = true; return; }
  run(s, o.last); note(o, o.last); note_faults(b, o.last, o); if (p.mode) { o.nontrivial = true; if (g_stats) g_stats->shape(o.last.shape); }
  const NodeResult &r = o.last.nodes[0];
  for (auto &op : o.last.trace) if (op.kind == OP_READ && op.path >= 0 && o.last.paths[op.path] == "<stdin>") { o.fail("asks", "the run waits for somebody to type something"); return; }
  if (r.hung) o.fail("hung", fmt("the run does not end: %u operations, an undisturbed run needs %u", r.ops, b.res.nodes[0].ops));
  else if (r.corrupt) o.fail("corrupt", "the run writes outside its memory");
  else if (r.signal) o.fail("signal", fmt("the run dies from signal %d", r.signal));
  else if (r.exited && (r.status < 0 || r.status > 3)) o.fail("status", fmt("undocumented exit status %d", r.status));
}

// ================================================================== C14
static void plan_C14(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p;
  Step st = make_step(q, 0, FE_PLAIN | FE_WARN, q.chance(50) ? OP_T | OP_L : 0, OPT_ALL); st.size = q.range(2, 12); p.steps.push_back(st);
  if (!keep_clean(st, o)) { out.push_back(p); return; }
  const Base &b = baseline(o, st); uint32_t na = b.res.nodes[0].allocs;
  for (int i = 0; i < n; i++) {
    Plan c = p; Rule r; r.opmask = 1u << OP_ALLOC; r.eff = E_ALLOC; r.count = q.chance(65) ? 1 : q.chance(50) ? (uint32_t)q.range(2, 5) : 0;
    // the last part of the list of requests belongs to the run itself, the first to loading tables
    uint32_t span = (na + n - 1) / n; if (!span) span = 1;
    r.skip = q.chance(70) ? (uint32_t)q.below(na) : (uint32_t)(i * span + q.below(span));
    if (q.chance(50) && na > 400) r.skip = na - 1 - (uint32_t)q.below(400);
    c.rules.push_back(r); if (q.chance(20)) { r.skip = (uint32_t)q.below(na); r.count = 1; c.rules.push_back(r); }
    out.push_back(c);
  }
}
static void exec_C14(const Plan &p, Outcome &o) {
  const Base &b = baseline(o, p.steps[0]);
  if (!usable(p, o, b)) return;
  // a stream whose buffer could not be allocated transfers one byte per operation: legitimate, only slow
  uint64_t bytes = b.res.nodes[0].out.size(); for (auto &f : b.res.disk) bytes += f.second.data.size();
  RunSpec s = spec1(b.prog, p.steps[0].env, b.disk, p.rules); uint64_t bound = 60000 + 2 * bytes; s.max_ops = (uint32_t)std::min<uint64_t>(bound, 380000);
  run(s, o.last); note(o, o.last); note_faults(b, o.last, o);
  const NodeResult &r = o.last.nodes[0];
  if (r.hung && bound > 380000) { o.vacuous = true; return; }
  if (r.hung) { o.fail("hung", "the run does not end after a failed memory request"); return; }
  if (!ok_exit(o.last)) return;
  std::string d = diff_set(b.res.disk, o.last.disk, all_products(b.prog));
  if (!d.empty()) o.fail("dropped", fmt("a memory request failed, the exit status is %d, and ", r.status) + d);
}

// ================================================================== C15
static void plan_C15(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p;
  Step st = make_step(q, 0, (FE_PLAIN | FE_WARN) & ~(uint32_t)FE_BIG, 0, OPT_ALL); st.size = q.range(2, 10); st.env.lat_us = 0; p.steps.push_back(st);
  if (!keep_clean(st, o)) { out.push_back(p); return; }
  const Base &b = baseline(o, st); auto prods = b.prog.products();
  size_t first = 0, last = 0; for (size_t i = 0; i < b.res.trace.size(); i++) { auto &x = b.res.trace[i]; if (x.path < 0) continue; const std::string &pa = b.res.paths[x.path]; if (x.kind == OP_OPEN && pa == b.prog.main_path && !first) first = i; if (prods.count(pa)) last = i; }
  auto in = sites(b.res, [&](const Site &s) { return s.at >= first && s.at <= last && !is_console(s.path); });
  if (in.empty()) { out.push_back(p); return; }
  for (int i = 0; i < n; i++) {
    Plan c = p; int k = q.chance(70) ? 1 : q.range(2, 3);
    static const int64_t MS[] = {0, 1, 999, 1000, 1001, 1999, 2000, 59999, 60000, 3599999, 3600000};
    c.a = 1000000000000LL + (int64_t)q.below(1000000) * 1000 + (int64_t)(q.chance(40) ? (q.chance(50) ? 999 : 0) : q.below(1000));
    int64_t room = 4 * 3600 * 1000 - 1;
    for (int j = 0; j < k; j++) {
      int64_t ms = q.chance(40) ? MS[q.below(11)] : q.chance(60) ? (int64_t)q.below(5000) : (int64_t)q.below(14399999);
      if (ms > room) ms = room; room -= ms; if (q.chance(30)) ms = -ms;
      c.rules.push_back(rule_at(q.pick(in), E_CLOCK, ms));
    }
    out.push_back(c);
  }
}
static void exec_C15(const Plan &p, Outcome &o) {
  const Base &b = baseline(o, p.steps[0]);
  if (!usable(p, o, b)) return;
  Env e = p.steps[0].env; e.clock_ms = p.a ? p.a : e.clock_ms; e.lat_us = 0;
  run1(o, b.prog, e, b.disk, o.last, p.rules); note_faults(b, o.last, o);
  int64_t want = 0; for (size_t i = 0; i < p.rules.size() && i < o.last.rule_fired.size(); i++) if (o.last.rule_fired[i]) want += p.rules[i].arg;
  const NodeResult &r = o.last.nodes[0];
  if (!r.exited || r.status != b.status()) { o.fail("status", fmt("the exit status is %d with another clock, %d otherwise", r.status, b.status())); return; }
  std::string d = diff_set(b.res.disk, o.last.disk, all_products(b.prog));
  if (!d.empty()) { o.fail("products", "a product depends on the clock: " + d); return; }
  size_t at = r.out.rfind("Assembly time:"); if (at == std::string::npos) { o.fail("missing", "no assembly time is reported"); return; }
  std::string num; for (size_t i = at + 14; i < r.out.size() && r.out[i] != '\n'; i++) if (strchr("0123456789.-+e", r.out[i]) && r.out[i]) num += r.out[i]; else if (!num.empty()) break;
  double got = atof(num.c_str()); int64_t ms = (int64_t)(got * 1000 + (got < 0 ? -0.5 : 0.5));
  if (ms != want) o.fail("time", fmt("the clock advanced by %lld ms during the run, the reported assembly time is %s s", (long long)want, num.c_str()));
}

// ================================================================== C16
static std::vector<std::string> search_dirs(const Program &p) {
  std::vector<std::string> v; v.push_back(p.main_path.substr(0, p.main_path.rfind('/'))); bool abs = false;
  for (size_t i = 1; i < p.argv.size(); i++) if (p.argv[i] == p.main_path) abs = true;
  if (!abs) v[0] = p.cwd;
  auto add = [&](const std::string &d) { v.push_back(d[0] == '/' ? d : d == "../shared" ? "/shared" : p.cwd + "/" + d); };
  for (size_t i = 1; i < p.argv.size(); i++) {
    std::string s; if (p.argv[i] == "-I") s = p.argv[++i]; else if (p.argv[i].compare(0, 2, "-I") == 0) s = p.argv[i].substr(2); else continue;
    size_t b = 0; for (size_t k = 0; k <= s.size(); k++) if (k == s.size() || s[k] == ';' || s[k] == ',') { if (k > b) add(s.substr(b, k - b)); b = k + 1; }
  }
  return v;
}
static bool readable(const Disk &d, const std::string &path) {
  for (size_t i = 1; i < path.size(); i++) if (path[i] == '/') { auto it = d.find(path.substr(0, i)); if (it == d.end() || it->second.type != F_DIR || !(it->second.perm & 4)) return false; }
  auto it = d.find(path); return it != d.end() && it->second.type == F_REG && (it->second.perm & 4);
}
static void plan_C16(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p;
  Step st = make_step(q, FE_DIRS | FE_INC | (q.chance(50) ? FE_IMPORT : 0) | (q.chance(30) ? FE_BITMAP : 0), (FE_PLAIN & ~(uint32_t)(FE_GETC | FE_ECHOFILE | FE_APPEND | FE_BIG)) | FE_WARN, 0, (OPT_PLAIN & ~(uint32_t)(OP_C | OP_S | OP_T)) | OP_T);
  st.size = q.range(4, 16); p.steps.push_back(st); if (st.ext == 12) p.steps[0].ext = 0;
  if (!keep_clean(p.steps[0], o)) { out.push_back(p); return; }
  const Base &b = baseline(o, p.steps[0]); auto dirs = search_dirs(b.prog); out.push_back(p);
  std::vector<std::string> refs; for (auto *v : {&b.prog.includes, &b.prog.imports, &b.prog.bitmaps}) for (auto &f : *v) if (b.prog.refs.count(f)) refs.push_back(f);
  if (refs.empty()) return;
  while ((int)out.size() < n) {
    Plan c = p; int k = q.range(1, 3);
    for (int i = 0; i < k; i++) {
      const std::string &f = q.pick(refs); const std::string &ref = b.prog.refs.at(f); std::string d = q.pick(dirs), cand = d + "/" + ref; int w = (int)q.below(12);
      if (w < 2 && b.prog.image.compare(0, d.size() + 1, d + "/") == 0) w = 3;   // the output goes there
      if (ref[0] == '/') cand = ref;
      switch (w) {
        case 0: if (d != dirs[0] && !b.disk.count(d + "/" + ref_of(b.prog.main_path))) c.pre[d] = "\x01T"; break;                     // search directory missing
        case 1: if (d != dirs[0]) c.pre[d] = "\x01P"; break;                     // not searchable
        case 2: if (b.disk.count(cand)) c.pre[cand] = "\x01P"; break;            // candidate not readable
        case 3: if (b.disk.count(cand)) c.pre[cand] = "\x01X"; break;            // candidate missing
        case 4: case 5: if (ref[0] != '/' && !b.disk.count(cand)) { c.pre[cand] = fmt(" .db %d,%d\n", (int)q.below(256), (int)q.below(256)); if (q.chance(40)) { c.muts.push_back({cand, false, "P"}); } } break;   // one more candidate (sometimes unreadable)
        case 6: { Rule r; r.opmask = (1u << OP_OPEN) | (1u << OP_ACCESS) | (1u << OP_STAT); r.path = cand; r.count = 0; r.eff = E_ERR; r.arg = q.chance(50) ? EACCES : q.chance(50) ? EIO : ENOENT; c.rules.push_back(r); break; }
        case 8: if (ref[0] != '/' && !b.disk.count(cand)) c.pre[cand] = "\x01" "D"; break;                                                // a directory of that name
        case 9: case 10: {                                                                                                              // names that only resemble the one asked for
          std::string o2 = cand; size_t sl = o2.rfind('/'), dot = o2.rfind('.'); int k2 = (int)q.below(6);
          if (k2 == 0) for (size_t t = sl; t < o2.size(); t++) o2[t] = (char)toupper(o2[t]);
          else if (k2 == 1) o2 += q.chance(50) ? ".inc" : ".z80";
          else if (k2 == 2) { if (dot != std::string::npos && dot > sl) o2.resize(dot); else o2 += "~"; }
          else if (k2 == 3) o2 = d + "/include/" + ref_of(ref);
          else if (k2 == 5) { static const char *const SYS[] = {"/opt/tools/", "/opt/tools/", "/opt/tools/include/", "/opt/tools/inc/", "/opt/include/", "/usr/include/", "/usr/local/include/", "/usr/share/spasm/", "/tmp/", "/"}; o2 = SYS[q.below(10)] + ref; }   // next to the assembler (exec_C16) or in a system directory
          else { const std::string &g = q.pick(refs); o2 = g.substr(0, g.rfind('/')) + "/" + ref; }                                       // next to the file that asks for it
          bool other = !b.disk.count(o2); for (auto &r : b.prog.refs) for (auto &dd : dirs) if (o2 == dd + "/" + r.second || o2 == r.second) other = false;
          for (auto &f2 : all_products(b.prog)) if (o2 == f2 || f2.compare(0, o2.size() + 1, o2 + "/") == 0) other = false;
          if (other && ref[0] != '/') { for (size_t t = 1; t < o2.size(); t++) if (o2[t] == '/' && !b.disk.count(o2.substr(0, t))) c.pre[o2.substr(0, t)] = "\x01" "D"; c.pre[o2] = " .db 77\n"; if (b.disk.count(cand)) c.pre[cand] = "\x01X"; }
          break;
        }
        default: if (b.disk.count(cand)) c.pre[cand] = fmt(" .db %d\n", (int)q.below(256)); break;                                        // another version
      }
    }
    if (!c.pre.empty() || !c.rules.empty()) out.push_back(c);
    else if (q.chance(5)) out.push_back(c);
  }
}
static void exec_C16(const Plan &p, Outcome &o) {
  const Base &b = baseline(o, p.steps[0]);
  if (!usable(p, o, b)) return;
  auto dirs = search_dirs(b.prog);
  Disk d = b.disk; lay(d, p.pre);
  for (auto &m : p.muts) { auto it = d.find(m.path); if (it != d.end()) it->second.perm = 0; }
  Rng mt(p.group * 31 + p.index); for (auto &f : d) f.second.mtime = p.steps[0].env.clock_ms * 1000 - mt.range(0, 40) * 86400000000ll - mt.range(0, 1000000);   // age plays no part
  if (p.rules.empty() && p.pre.empty()) { o.last = b.res; std::string m = against_model(b.prog, b.res); if (!m.empty()) o.fail("model", "undisturbed run: " + m); if (o.violated) return; }
  Program run_as = b.prog; if (p.index % 2) run_as.argv[0] = "/opt/tools/spasm";
  run1(o, run_as, p.steps[0].env, d, o.last, p.rules); o.nontrivial = true; if (g_stats) g_stats->shape(o.last.shape);
  // our own search: where does each name have to come from?
  std::set<std::string> dead; for (auto &r : p.rules) dead.insert(r.path);
  Disk flat = b.disk; for (auto it = flat.begin(); it != flat.end();) { bool gone = false; for (auto &r : b.prog.refs) { const std::string &ref = r.second; if (ref[0] == '/') { if (it->first == ref) gone = true; } else for (auto &dd : dirs) if (it->first == dd + "/" + ref) gone = true; } if (gone) it = flat.erase(it); else ++it; }
  std::set<std::string> missing;
  for (auto &r : b.prog.refs) {
    const std::string &ref = r.second; std::string win;
    if (ref[0] == '/') { if (readable(d, ref) && !dead.count(ref)) win = ref; }
    else for (auto &dd : dirs) { std::string c = dd + "/" + ref; if (readable(d, c) && !dead.count(c)) { win = c; break; } }
    if (win.empty()) { missing.insert(ref); continue; }
    FileState f; f.data = d[win].data; flat[ref[0] == '/' ? ref : dirs[0] + "/" + ref] = f;
  }
  RunResult want; Program fp = b.prog; run1(o, fp, p.steps[0].env, flat, want);
  const NodeResult &x = want.nodes[0], &y = o.last.nodes[0];
  if (!y.exited || x.status != y.status) { o.fail("status", fmt("the run ends with status %d; with every name placed where the documented search must find it, the status is %d", y.status, x.status)); return; }
  auto prods = b.prog.products(); prods.erase(b.prog.lst);
  std::string df = diff_set(want.disk, o.last.disk, prods);
  if (!df.empty()) { o.fail("order", "an include came from the wrong place: " + df); return; }
  if (!b.prog.lst.empty()) {
    auto a = want.disk.find(b.prog.lst), c = o.last.disk.find(b.prog.lst);
    auto cut = [&](std::string t) { std::string s; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); std::string l = t.substr(i, e == std::string::npos ? e : e - i + 1); i += l.size(); if (l.find("Listing for file") == std::string::npos && l.find("Listing for built-in") == std::string::npos) s += l; } return s; };
    if ((a == want.disk.end()) != (c == o.last.disk.end()) || (a != want.disk.end() && cut(a->second.data) != cut(c->second.data))) { o.fail("order", "an include came from the wrong place: the listing shows other contents"); return; }
  }
  // a name that is really needed and exists nowhere has to be reported by name
  if (x.status >= 2 && y.status >= 2 && missing.size()) {
    probe(PR_REPORTED); bool named = false; for (auto &m : missing) if ((y.out + y.err).find(ref_of(m)) != std::string::npos) named = true;
    std::set<std::string> tried; for (auto &m : missing) for (auto &t : o.last.trace) if (t.path >= 0 && ref_of(o.last.paths[t.path]) == ref_of(m)) tried.insert(m);
    if (!named && !tried.empty()) o.fail("unnamed", "no directory holds " + *tried.begin() + ", but the run does not report the name");
  }
}

// ================================================================== C17
static void plan_C17(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p;
  uint32_t bad = q.chance(20) ? FE_ERR : 0;
  Step st = make_step(q, bad | (q.chance(60) ? FE_ECHO : 0), FE_PLAIN | FE_WARN, 0, OPT_ALL); p.steps.push_back(st);
  const Base &b = baseline(o, st);
  auto con = sites(b.res, [&](const Site &s) { return s.path == "<stdout>"; }); uint64_t total = b.res.nodes[0].out.size();
  for (int i = 0; i < n; i++) {
    Plan c = p; int k = q.chance(75) ? 1 : 2;
    if (i % 7 == 6) { static const int M[] = {2, 6, 4, 7, 3, 5, 1}; c.b = M[q.chance(40) ? q.below(2) : q.below(7)]; k = q.chance(25); c.mode = q.chance(35) ? (int)q.range(200, 9000) : 0; if (q.chance(50) && !(st.opts & (OP_V | OP_DEFOUT))) { c.steps[0].ext = 1; c.steps[0].feat |= FE_NOHDR; } }   // descriptors that are closed from the beginning (mode: so much more text to print)
    if (q.chance(40)) c.a = 1 + (int64_t)q.below(3) * 40;      // a console that takes little at a time
    for (int j = 0; j < k; j++) {
      Rule r; r.opmask = 1u << OP_WRITE; r.path = q.chance(85) ? "<stdout>" : "<stderr>"; int w = (int)q.below(6);
      static const int E[] = {EPIPE, ENOSPC, EIO, EBADF, EINTR, EAGAIN}; r.eff = E_ERR; r.arg = E[q.below(6)]; r.skip = (uint32_t)q.below(4);
      if (w == 0) { r.skip = 0; r.count = 0; } else if (w == 1) { r.count = 0; } else if (w == 2) { r.eff = E_QUOTA; r.arg = q.below(total + 1); r.count = 0; r.skip = 0; } else if (w == 3) { r.eff = E_SHORT; r.arg = 1 + q.below(30); r.count = 0; r.skip = 0; } else if (w == 4) { r.opmask = 1u << OP_STAT; r.skip = 0; r.count = 0; r.arg = EBADF; } else { r.opmask = MASK_IO; r.skip = 0; r.count = 0; }
      c.rules.push_back(r);
    }
    out.push_back(c);
  }
}
static void exec_C17(const Plan &p, Outcome &o) {
  const Base &b0 = baseline(o, p.steps[0]); Base talk; const bool more = p.mode > 0 && b0.disk.count(b0.prog.main_path);
  if (more) {
    // so much more text to print; where the image itself gives rise to messages, they come when 8192 bytes (what the C
    // library collects for a stream it cannot ask about) are just about to be complete
    talk = b0; std::string &m = talk.disk[b0.prog.main_path].data; const std::string m0 = m; int64_t chars = p.mode;
    for (int turn = 0; turn < 4; turn++) {
      std::string t; for (int64_t left = chars; left > 0; left -= 200) t += " .echo \"" + std::string((size_t)std::min<int64_t>(left, 200), '~') + "\"\n";
      m = t + m0; run1(o, talk.prog, p.steps[0].env, talk.disk, talk.res);
      size_t at = talk.res.nodes[0].out.rfind("exporter:"); if (at == std::string::npos || turn == 3) break;
      int64_t off = (int64_t)(8192 - p.mode % 100) - (int64_t)(at % 8192); if (off < 0) { if (chars + off > 0 && turn) { chars += off; continue; } off += 8192; }
      if (off == 0) break;
      chars += turn ? off : off * 20 / 21;
    }
  }
  const Base &b = more ? talk : b0;
  if (!b.res.nodes[0].exited) { o.vacuous = true; return; }
  Env e = p.steps[0].env; if (p.a) e.blksize = (uint32_t)(63 + p.a); e.shut = (uint8_t)p.b;
  run1(o, b.prog, e, b.disk, o.last, p.rules); note_faults(b, o.last, o); if (p.b) o.nontrivial = true;
  const NodeResult &r = o.last.nodes[0];
  if (!r.exited) { o.fail("died", fmt("the run does not end in an orderly way (signal %d%s) because of its console", r.signal, r.hung ? ", hung" : "")); return; }
  if (r.status < b.status()) { o.fail("status", fmt("exit status %d with a broken console, %d with a working one", r.status, b.status())); return; }
  std::string d = diff_set(b.res.disk, o.last.disk, all_products(b.prog));
  if (!d.empty()) o.fail("products", "with a broken console the products differ: " + d);
}

// ================================================================== C18
static const uint32_t FD_BOUND = 8;    // three standard streams and a handful of files
static void plan_C18(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p;
  Step st = make_step(q, q.chance(50) ? FE_INC | FE_DEEP : q.chance(50) ? FE_IMPORT | FE_GETC : q.chance(50) ? FE_ECHOFILE : FE_BITMAP | FE_DEEP, (FE_PLAIN | FE_WARN | (q.chance(30) ? (uint32_t)FE_ERR : 0)) & ~(uint32_t)FE_BIG, 0, OPT_ALL); st.size = q.range(10, 120); p.steps.push_back(st);
  const Base &b = baseline(o, st);
  std::set<std::string> ins(b.prog.inputs.begin(), b.prog.inputs.end());
  Picker any(sites(b.res, [&](const Site &s) { return !is_console(s.path) && s.kind != OP_IOCTL; }), q);
  Picker in(sites(b.res, [&](const Site &s) { return ins.count(s.path) || b.prog.echo.count(s.path); }), q);
  for (int i = 0; i < n && !any.empty(); i++) {
    Plan c = p; c.a = q.range((int)FD_BOUND, (int)FD_BOUND + 4);
    if (i && q.chance(80)) {
      int k = q.range(1, 5);
      for (int j = 0; j < k; j++) {
        if (q.chance(35)) { Rule r; r.opmask = 1u << (q.chance(50) ? OP_READ : q.chance(50) ? OP_LSEEK : q.chance(50) ? OP_WRITE : OP_STAT); r.skip = (uint32_t)q.below(60); r.count = q.chance(50) ? 0 : (uint32_t)q.range(3, 40); r.eff = E_ERR; r.arg = EIO; c.rules.push_back(r); }
        else { Rule r = fault_at(q, q.chance(70) && !in.empty() ? in.next() : any.next()); c.rules.push_back(r); }
      }
    }
    if (q.chance(40)) for (auto &f : b.prog.inputs) if (f != b.prog.main_path && q.chance(40)) c.pre[f] = fmt("\x01" "C%d", q.chance(70) ? 0 : q.range(0, 3));
    out.push_back(c);
  }
}
static void exec_C18(const Plan &p, Outcome &o) {
  const Base &b = baseline(o, p.steps[0], p.pre);
  const RunResult *ref = &b.res; RunResult wide;
  Env e = p.steps[0].env; e.fdlimit = 120;
  if (p.rules.size()) { run1(o, b.prog, e, b.disk, wide, p.rules); ref = &wide; }
  o.last = *ref; o.nontrivial = true; if (g_stats) g_stats->shape(ref->shape);
  if (ref->nodes[0].peak_fds > FD_BOUND) { o.fail("peak", fmt("%u descriptors are open at one moment (bound %u)", ref->nodes[0].peak_fds, FD_BOUND)); return; }
  e.fdlimit = (int)p.a ? (int)p.a : (int)FD_BOUND;
  RunResult tight; run1(o, b.prog, e, b.disk, tight, p.rules); if (ref->nodes[0].peak_fds + 4 >= FD_BOUND) probe(PR_LIMIT);
  o.last = tight;
  const NodeResult &x = ref->nodes[0], &y = tight.nodes[0];
  if (x.exited != y.exited || x.status != y.status) { o.fail("status", fmt("status %d under a limit of %d descriptors, %d without", y.status, e.fdlimit, x.status)); return; }
  std::string d = diff_set(ref->disk, tight.disk, all_products(b.prog)); if (!d.empty()) o.fail("products", fmt("under a limit of %d descriptors: ", e.fdlimit) + d);
}

// ================================================================== C19
static void plan_C19(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p;
  uint32_t bad = q.chance(15) ? FE_ERR : 0;
  Step st = make_step(q, bad, FE_PLAIN | FE_WARN, 0, OPT_ALL); if (st.ext == 11) st.ext = 0; p.steps.push_back(st);
  const Base &b = baseline(o, st);
  Picker rw(sites(b.res, [&](const Site &s) { return (s.kind == OP_READ || s.kind == OP_WRITE) && s.ret > 1; }), q);
  for (int i = 0; i < n; i++) {
    Plan c = p; int w = (int)q.below(100);
    static const int64_t CH[] = {1, 2, 3, 7, 16, 64, 100, 511, 1000, 4095}; static const uint32_t BS[] = {64, 512, 1000, 1024, 4096, 4097, 16384, 100, 333};
    if (w < 65) { c.a = CH[q.below(10)]; c.b = q.chance(70) ? CH[q.below(10)] : 0; if (c.a < 3 && b.res.nodes[0].ops > 200) c.a = 7; }
    if (w >= 50 && !rw.empty()) { int k = q.range(1, 4); for (int j = 0; j < k; j++) { const Site &s = rw.next(); c.rules.push_back(rule_at(s, E_SHORT, 1 + q.below(s.ret - 1 ? s.ret - 1 : 1), (uint32_t)q.range(1, 3))); } }
    c.mode = BS[q.below(9)];
    out.push_back(c);
  }
}
static void exec_C19(const Plan &p, Outcome &o) {
  const Base &b = baseline(o, p.steps[0]);
  if (!b.res.nodes[0].exited) { o.vacuous = true; return; }
  Env e = p.steps[0].env; e.rchunk = (uint32_t)p.a; e.wchunk = (uint32_t)p.b; if (p.mode) e.blksize = (uint32_t)p.mode;
  RunSpec s = spec1(b.prog, e, b.disk, p.rules); s.max_ops = 200000; run(s, o.last); note(o, o.last);
  if (o.last.fired[E_SHORT]) { o.nontrivial = true; if (g_stats) g_stats->shape(o.last.shape); }
  const NodeResult &x = b.res.nodes[0], &y = o.last.nodes[0];
  if (y.hung && y.ops > 199000) { o.vacuous = true; return; }
  if (!y.exited || x.status != y.status) { o.fail("status", fmt("status %d (signal %d) when transfers are split, %d otherwise", y.status, y.signal, x.status)); return; }
  std::string d = diff_set(b.res.disk, o.last.disk, all_products(b.prog)); if (!d.empty()) { o.fail("products", "when transfers are split: " + d); return; }
  if (console(x.out) != console(y.out)) { o.fail("console", "when transfers are split the console shows something else: " + diff_at(console(x.out), console(y.out))); return; }
  if (p.rules.empty()) { std::string m = against_model(b.prog, o.last); if (!m.empty() && b.clean()) o.fail("model", m); }
}

// ================================================================== C20: a failed run says so
static bool same_lines_as(const std::string &healthy, const std::string &got) {   // does `got` say nothing that the healthy run does not say?
  std::set<std::string> h; size_t i = 0;
  while (i < healthy.size()) { size_t e = healthy.find('\n', i); h.insert(healthy.substr(i, e == std::string::npos ? e : e - i)); if (e == std::string::npos) break; i = e + 1; }
  i = 0;
  while (i < got.size()) {
    size_t e = got.find('\n', i); std::string l = got.substr(i, e == std::string::npos ? e : e - i); i = e == std::string::npos ? got.size() : e + 1;
    std::string v; for (size_t k = 0; k < l.size(); k++) { if (l[k] == 27) { while (k < l.size() && l[k] != 'm') k++; continue; } v += l[k]; }
    if (v.find_first_not_of(" \t\r") == std::string::npos || h.count(l) || h.count(v)) continue;
    static const char *const STAT[] = {"Number of labels:", "Number of defines:", "Code size:", "Data size:", "Total size:", "Size:", "Min. execution time:", "Max. execution time:"};
    bool stat = false; for (auto x : STAT) if (v.compare(0, strlen(x), x) == 0) stat = true;   // counts explain nothing
    if (stat) continue;
    return false;
  }
  return true;
}
static void plan_C20(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p;
  Step st = make_step(q, q.chance(12) ? FE_MISSING : q.chance(12) ? FE_ERR : q.chance(8) ? FE_FATAL : 0, FE_PLAIN, 0, (OPT_ALL & ~(uint32_t)OP_C) | OP_O); p.steps.push_back(st);   // counter mode prints its counts only
  const Base &b = baseline(o, st); out.push_back(p);
  Picker any(sites(b.res, [&](const Site &s) { return !is_console(s.path) && s.kind != OP_IOCTL; }), q);
  while ((int)out.size() < n && !any.empty()) {
    Plan c = p; int w = (int)q.below(100);
    if (w < 10) { Rule r; r.eff = E_ALLOC; r.opmask = 1u << OP_ALLOC; r.skip = (uint32_t)q.below(b.res.nodes[0].allocs + 1); r.count = q.chance(50) ? 1 : 0; c.rules.push_back(r); }
    else if (w < 20 && b.prog.inputs.size()) { const std::string &f = q.pick(b.prog.inputs); c.pre[f] = q.chance(50) ? "\x01X" : q.chance(60) ? "\x01P" : "\x01" "D"; }
    else { int k = q.chance(70) ? 1 : q.range(2, 3); for (int i = 0; i < k; i++) c.rules.push_back(fault_at(q, any.next())); }
    out.push_back(c);
  }
}
static void exec_C20(const Plan &p, Outcome &o) {
  Program pr; build_program(p.steps[0], pr); Disk d = pr.disk; lay(d, p.pre);
  run1(o, pr, p.steps[0].env, d, o.last, p.rules);
  if (total_fired(o.last) || !p.pre.empty() || p.rules.empty()) { o.nontrivial = true; if (g_stats) g_stats->shape(o.last.shape); }
  const NodeResult &r = o.last.nodes[0];
  if (!r.exited || r.status < 2) return;
  probe(PR_REPORTED);
  // what a run of the same program without the disturbance says cannot be the explanation, unless that one fails as well
  const Base &b = baseline(o, p.steps[0]); std::string healthy = b.clean() ? console(b.res.nodes[0].out + "\n" + b.res.nodes[0].err) : "Pass one... \nPass two... \n";
  if (same_lines_as(healthy, console(r.out + "\n" + r.err))) o.fail("silent", fmt("the run ends with status %d, but nothing it prints says that anything failed", r.status));
}

// ================================================================== C21: a torn product is a beginning of the new one
static void plan_C21(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p;
  Step st = make_step(q, 0, FE_PLAIN | FE_WARN, q.chance(60) ? OP_T | OP_L : 0, OPT_ALL); p.steps.push_back(st);
  if (!keep_clean(st, o)) { out.push_back(p); return; }
  const Base &b = baseline(o, st); auto prods = b.prog.products();
  out.push_back(p);
  Picker on(sites(b.res, [&](const Site &s) { return prods.count(s.path) != 0; }), q);
  while ((int)out.size() < n && !on.empty()) {
    Plan c = p; c.rules.push_back(crash_at(q, on.next()));
    if (q.chance(60)) for (auto &f : prods) { int w = (int)q.below(4); c.pre[f] = w == 0 ? "" : w == 1 ? std::string(q.range(1, 70000), 'Z') : w == 2 ? "old" : "\x01" "H"; }
    if (c.pre.size() && c.pre.begin()->second == "\x01" "H") for (auto &f : prods) c.pre[f] = b.res.disk.count(f) ? b.res.disk.at(f).data + "tail" : "x";
    for (auto &kv : c.pre) if (kv.second == "\x01" "H") kv.second = "x";
    c.a = q.chance(30) ? (int64_t)q.range(1, 700) : 0;
    out.push_back(c);
  }
}
static void exec_C21(const Plan &p, Outcome &o) {
  const Base &b = baseline(o, p.steps[0]);
  if (!usable(p, o, b)) return;
  Disk d = b.disk; lay(d, p.pre); Env e = p.steps[0].env; e.wchunk = (uint32_t)p.a;
  run1(o, b.prog, e, d, o.last, p.rules); note_faults(b, o.last, o);
  for (auto &f : b.prog.products()) {
    auto w = b.res.disk.find(f); auto g = o.last.disk.find(f), w0 = d.find(f);
    if (w == b.res.disk.end() || g == o.last.disk.end()) continue;                      // not there: nothing to mistake
    if (w0 != d.end() && g->second.data == w0->second.data) continue;                   // still the old one
    if (g->second.data.size() <= w->second.data.size() && w->second.data.compare(0, g->second.data.size(), g->second.data) == 0) continue;
    if (w0 == d.end() && g->second.data.empty()) continue;
    o.fail("not-a-beginning", "killed while writing, the file is neither the old one nor a beginning of the new one: " + describe_diff(b.res.disk, o.last.disk, f)); return;
  }
}

// ================================================================== C22: a log shared by concurrent assemblers
static void plan_C22(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Plan p; Outcome o; int k = q.chance(60) ? 2 : q.range(3, 4);
  for (int i = 0; i < k; i++) {
    Step s = make_step(q, FE_SHLOG | FE_ECHOFILE, (FE_LABELS | FE_ECHO | FE_MACRO | FE_OPC | FE_TEXT | FE_INC), 0, OP_T | OP_L | OP_N | OP_A);
    s.size = q.range(4, 14); s.slot = i; s.env.seed = q.next() >> 8; s.env.lat_us = (uint32_t)q.below(500); p.steps.push_back(s);
  }
  for (auto &s : p.steps) if (!keep_clean(s, o)) { out.push_back(p); return; }
  if (q.chance(50)) p.pre["/w/shared.log"] = q.chance(50) ? "" : "yesterday\n";
  for (int i = 0; i < n; i++) {
    Plan c = p; c.sched_seed = q.next() >> 8; static const int BI[] = {0, 30, 60, 85, 95}; c.sched_bias = BI[q.below(5)];
    if (q.chance(35)) { Rule r; r.node = (int)q.below(k); r.opmask = MASK_IO; r.skip = (uint32_t)q.below(80); r.count = 1; r.eff = q.chance(50) ? E_CRASH : E_CRASH_AFTER; c.rules.push_back(r); }
    out.push_back(c);
  }
}
static void exec_C22(const Plan &p, Outcome &o) {
  RunSpec s; std::vector<Program> pr(p.steps.size()); const std::string LOG = "/w/shared.log";
  for (size_t i = 0; i < p.steps.size(); i++) { build_program(p.steps[i], pr[i]); for (auto &f : pr[i].disk) s.disk[f.first] = f.second; }
  lay(s.disk, p.pre); std::string old; { auto it = s.disk.find(LOG); if (it != s.disk.end()) old = it->second.data; }
  for (size_t i = 0; i < p.steps.size(); i++) { NodeSpec n; n.argv = pr[i].argv; n.env = p.steps[i].env; n.cwd = pr[i].cwd; n.entry = sim_entry; s.nodes.push_back(n); }
  s.sched_seed = p.sched_seed; s.sched_bias = p.sched_bias; s.sched = p.sched; s.have_sched = p.have_sched; s.rules = p.rules;
  run(s, o.last); note(o, o.last);
  o.nontrivial = o.last.switches > 0; if (o.nontrivial && g_stats) g_stats->shape(o.last.shape); if (o.last.switches > 10) probe(PR_SWITCH);
  size_t k = p.steps.size(); std::vector<std::vector<std::string>> seq(k); std::vector<bool> dead(k, false); size_t total = 0;
  for (size_t i = 0; i < k; i++) {
    auto &y = o.last.nodes[i]; dead[i] = y.crashed;
    if (!y.crashed && (!y.exited || y.status > 1)) { const Base &b = baseline(o, p.steps[i], p.pre); if (b.clean()) o.fail("status", fmt("assembler %zu ends with status %d among others, with %d alone", i, y.status, b.status())); else o.vacuous = true; return; }
    auto it = pr[i].echo.find(LOG); if (it != pr[i].echo.end()) for (auto &e : it->second) seq[i].push_back(e.text);
    total += seq[i].size();
  }
  if (!total) { o.vacuous = true; return; }
  auto it = o.last.disk.find(LOG); std::string got = it == o.last.disk.end() ? "" : it->second.data;
  if (got.compare(0, old.size(), old) != 0) { o.fail("lost", "what the shared log held before is not its beginning any more: " + diff_at(old, got)); return; }
  // is the rest an interleaving of the processes' texts, each complete, each once, each process' in its order?
  std::set<std::vector<int>> cur{std::vector<int>(k, 0)}, seen; size_t best = 0; bool ok = false;
  std::vector<std::vector<int>> st{std::vector<int>(k, 0)};
  while (!st.empty() && !ok) {
    std::vector<int> v = st.back(); st.pop_back(); if (!seen.insert(v).second) continue;
    size_t pos = old.size(); bool all = true; for (size_t i = 0; i < k; i++) { for (int j = 0; j < v[i]; j++) pos += seq[i][j].size(); if (v[i] < (int)seq[i].size() && !dead[i]) all = false; }
    if (pos > best) best = pos;
    if (pos == got.size() && all) { ok = true; break; }
    for (size_t i = 0; i < k; i++) if (v[i] < (int)seq[i].size() && got.compare(pos, seq[i][v[i]].size(), seq[i][v[i]]) == 0) { auto w = v; w[i]++; st.push_back(w); }
    if (seen.size() > 200000) { o.vacuous = true; return; }
  }
  if (!ok) o.fail("log", fmt("the shared log is not an interleaving of the complete texts of the %zu assemblers (%zu redirections, %zu bytes found, in order up to offset %zu)", k, total, got.size(), best));
}

// ================================================================== C23: where the tree lives does not matter
static const char *const CWDS[] = {"w", "w", "project (old)", "a.b.c", "trailing dot.", "x;y,z", "it's", "[1]", "w{}", "-w", "w w ", "w#1"};   // the working directory's own name
static std::string g_cwdname = "w";
static std::string moved(const std::string &s, const std::string &root) {
  if (s.empty() || s[0] != '/') return s; if (s == "/") return root;
  if (s == "/w" || s.compare(0, 3, "/w/") == 0) return root + "/" + g_cwdname + s.substr(2);
  return root + s;
}
static std::string swap_all(const std::string &t, const std::string &a, const std::string &b) { if (a.empty()) return t; std::string r; size_t i = 0; for (;;) { size_t j = t.find(a, i); if (j == std::string::npos) return r + t.substr(i); r += t.substr(i, j - i) + b; i = j + a.size(); } }
static const char *const ROOTS[] = {"/Q", "/home/user/ti projects/my game", "/srv/build.d/v1.2.inc", "/home/j\xc3\xbcrgen/z80", "/x-y_z+1/(old)/#7", "/data/0123456789012345678901234567890123456789/abcdefghijklmnopqrstuvwxyz/ABCDEFGHIJKLMNOPQRSTUVWXYZ/0123456789012345678901234567890123456789",
                                   "/opt/main.asm/prog.8xp", "/'quoted'/\"dir\"", "/m/%s%d%n", "/tabs\there", "/mnt/w/w", "/Temp/$$/~user"};
static std::vector<std::string> all_names(const Program &p) { std::vector<std::string> v = p.inputs; for (auto &e : p.echo) v.push_back(e.first); return v; }
static void plan_C23(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o;
  for (int i = 0; i < n; i++) {
    Plan p; Step st = make_step(q, q.chance(12) ? FE_ERR : 0, FE_PLAIN | FE_WARN, 0, OPT_ALL); p.steps.push_back(st);
    p.a = (int64_t)q.below(12); p.b = (int64_t)q.below(12); out.push_back(p);
  }
}
static void exec_C23(const Plan &p, Outcome &o) {
  const Base &b = baseline(o, p.steps[0]);
  if (!b.res.nodes[0].exited) { o.vacuous = true; return; }
  std::string root = ROOTS[p.a % 12]; g_cwdname = CWDS[p.b % 12];
  for (auto &f : b.prog.inputs) { auto it = b.disk.find(f); if (it != b.disk.end() && it->second.data.find("__FILE") != std::string::npos) { o.vacuous = true; return; } }   // asks for the name
  auto back = [&](const std::string &s) { return swap_all(swap_all(s, root + "/" + g_cwdname, "/w"), root, ""); };
  Program pr = b.prog; Disk d;
  for (auto &f : b.disk) if (f.first != "/") d[moved(f.first, root)] = f.second;
  for (size_t i = 1; i <= root.size(); i++) if (i == root.size() || root[i] == '/') { FileState f; f.type = F_DIR; d[root.substr(0, i)] = f; }
  for (auto &f : b.prog.inputs) if (f != "" && (std::find(b.prog.imports.begin(), b.prog.imports.end(), f) == b.prog.imports.end())) {   // absolute names in the sources
    auto it = d.find(moved(f, root)); if (it == d.end()) continue;
    for (auto &g : all_names(b.prog)) { std::string t = swap_all(it->second.data, "\"" + g + "\"", "\"" + moved(g, root) + "\""); if (t != it->second.data && root.find('"') != std::string::npos) { o.vacuous = true; return; } it->second.data = t; }
  }
  pr.cwd = moved(pr.cwd, root); bool dirs = false;
  if (p.steps[0].opts & OP_V) for (auto &a : pr.argv) for (auto &g : all_names(b.prog)) { std::string t = swap_all(a, "\"" + g + "\"", "\"" + moved(g, root) + "\""); if (t != a && root.find('"') != std::string::npos) { o.vacuous = true; return; } a = t; }
  for (size_t k = 1; k < pr.argv.size(); k++) {
    std::string &a = pr.argv[k]; bool list = dirs; dirs = a == "-I"; size_t from = 0;
    if (!list && a.compare(0, 2, "-I") == 0 && a.size() > 2) list = true, from = 2;
    if (!list) { a = moved(a, root); continue; }
    // (-I takes a list: a directory with a separator in its name cannot be given to it)
    std::string r = a.substr(0, from), cur; for (size_t i = from; i <= a.size(); i++) { if (i == a.size() || a[i] == ';' || a[i] == ',') { std::string m = moved(cur, root); if (m.find_first_of(";,") != std::string::npos) { o.vacuous = true; return; } r += m; cur.clear(); if (i < a.size()) r += a[i]; } else cur += a[i]; }
    a = r;
  }
  run1(o, pr, p.steps[0].env, d, o.last); o.nontrivial = true; if (g_stats) g_stats->shape(o.last.shape ^ hash_bytes(root.data(), root.size()));
  const NodeResult &x = b.res.nodes[0], &y = o.last.nodes[0];
  if (!y.exited || y.status != x.status) { o.fail("status", fmt("status %d (signal %d) when the tree is at ", y.status, y.signal) + root + fmt(", %d when it is at the root", x.status)); return; }
  std::set<std::string> prods; for (auto &f : all_products(b.prog)) prods.insert(moved(f, root));
  for (auto &f : all_products(b.prog)) {
    auto w = b.res.disk.find(f); auto g = o.last.disk.find(moved(f, root));
    if ((w == b.res.disk.end()) != (g == o.last.disk.end())) { o.fail("products", "with the tree at " + root + ": " + f + (w == b.res.disk.end() ? " appears" : " is missing")); return; }
    if (w == b.res.disk.end()) continue;
    std::string want = w->second.data, got = g->second.data;
    if (f == b.prog.lst || b.prog.echo.count(f)) got = back(got);
    if (want != got) { o.fail("products", "with the tree at " + root + ": " + f + ": " + diff_at(want, got)); return; }
  }
  for (auto &f : o.last.disk) if (!d.count(f.first) && !prods.count(f.first)) { o.fail("elsewhere", "with the tree at " + root + " a file appears at " + f.first); return; }
  std::string ca = console(x.out + x.err), cb = back(console(y.out + y.err));
  if (ca != cb) o.fail("console", "with the tree at " + root + " the console shows something else: " + diff_at(ca, cb));
}

// ================================================================== C24: a long-lived process keeps nothing open
static void build_C24(const Plan &p, RunSpec &s) {
  NodeSpec n; n.env = p.steps[0].env; n.entry = sim_entry; n.argv = {"client"};
  for (auto &st : p.steps) { Program pr; build_program(st, pr); for (auto &f : pr.disk) s.disk[f.first] = f.second; n.cwd = pr.cwd; dll_args(pr, n.argv); }
  s.nodes.push_back(n); for (auto r : p.rules) { r.node = 0; s.rules.push_back(r); }
}
static void plan_C24(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed);
  uint32_t feats = FE_PLAIN & ~(uint32_t)FE_DIRS, opts = OP_A | OP_N | OP_OUTDIR | OP_DOTSLASH | OP_D | OP_ABS | OP_NAMES | OP_ABSOUT;
  while ((int)out.size() < n) {
    Plan c; int k = q.range(1, 4); Env e = default_env(); e.seed = q.next() >> 8;
    for (int j = 0; j < k; j++) {
      Step s = make_step(q, (q.chance(20) ? (uint32_t)FE_LEAK : 0) | (q.chance(30) ? (uint32_t)FE_ERR : 0) | (q.chance(5) ? (uint32_t)FE_FATAL : 0) | (q.chance(5) ? (uint32_t)FE_MISSING : 0) | (q.chance(15) ? (uint32_t)FE_SOFT : 0), feats | FE_WARN, 0, opts);
      s.slot = j; s.size = q.range(2, 14); s.env = e; c.steps.push_back(s);
    }
    RunSpec s; build_C24(c, s); RunResult r; run(s, r);
    Picker any(sites(r, [&](const Site &x) { return !is_console(x.path); }), q);
    Picker late(sites(r, [&](const Site &x) { return !is_console(x.path) && (x.kind == OP_WRITE || x.kind == OP_CLOSE || x.kind == OP_READ || x.kind == OP_LSEEK || x.kind == OP_STAT); }), q);
    out.push_back(c);
    for (int w = 0; w < 5 && (int)out.size() < n; w++) {
      Plan d = c; int f = q.chance(15) ? 0 : q.chance(75) ? 1 : q.range(2, 3);   // most faults end the process (a fatal error calls exit), which is vacuous here
      for (int j = 0; j < f; j++) {
        if (!late.empty() && q.chance(60)) d.rules.push_back(fault_at(q, late.next()));
        else if (!any.empty() && q.chance(60)) d.rules.push_back(fault_at(q, any.next()));
        else { Rule r; r.opmask = q.chance(60) ? MASK_IO : 1u << (q.chance(40) ? OP_READ : q.chance(40) ? OP_WRITE : q.chance(50) ? OP_LSEEK : OP_CLOSE); r.skip = (uint32_t)q.below(100); r.eff = E_ERR; r.arg = EIO; r.count = (uint32_t)q.range(1, 3); d.rules.push_back(r); }
      }
      out.push_back(d);
    }
  }
}
static void exec_C24(const Plan &p, Outcome &o) {
  RunSpec s; build_C24(p, s);
  run(s, o.last); note(o, o.last); const NodeResult &y = o.last.nodes[0];
  if (!y.exited || count_text(y.out, "@@RC=") < p.steps.size()) { o.vacuous = true; return; }
  o.nontrivial = true; if (g_stats) g_stats->shape(o.last.shape);
  std::map<int64_t, std::string> open;
  for (auto &t : o.last.trace) { if (t.kind == OP_OPEN && t.ret >= 3) open[t.ret] = o.last.path_of(t); if (t.kind == OP_CLOSE) open.erase(t.a); }
  if (!open.empty()) o.fail("left-open", fmt("%zu assemblies have returned, but the process still has %zu descriptor(s) open: %s", p.steps.size(), open.size(), open.begin()->second.c_str()));
}

// ================================================================== C25: a long-lived process does not accumulate memory
static const int MEM_ROUNDS = 5;
static void build_C25(const Plan &p, RunSpec &s) {
  NodeSpec n; n.env = p.steps[0].env; n.entry = sim_entry; n.argv = {"client"}; std::vector<std::string> once;
  for (auto &st : p.steps) { Program pr; build_program(st, pr); for (auto &f : pr.disk) s.disk[f.first] = f.second; n.cwd = pr.cwd; dll_args(pr, once); }
  if (p.mode) once.push_back("run");   // a run for which nothing was set: the previous one used up its input file
  for (int k = 0; k < MEM_ROUNDS; k++) n.argv.insert(n.argv.end(), once.begin(), once.end());
  s.nodes.push_back(n); for (auto r : p.rules) { r.node = 0; s.rules.push_back(r); }
}
static void plan_C25(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed);
  uint32_t feats = FE_PLAIN & ~(uint32_t)FE_HUGE, opts = OP_A | OP_N | OP_OUTDIR | OP_DOTSLASH | OP_D | OP_ABS | OP_NAMES | OP_ABSOUT;
  while ((int)out.size() < n) {
    Plan c; int k = q.range(1, 3); c.mode = q.chance(15); Env e = default_env(); e.seed = q.next() >> 8; uint32_t dirs = k == 1 ? (uint32_t)FE_DIRS : 0;
    for (int j = 0; j < k; j++) {
      Step s = make_step(q, (q.chance(15) ? (uint32_t)FE_LEAK : 0) | (q.chance(12) ? (uint32_t)FE_ERR : 0) | (q.chance(3) ? (uint32_t)FE_FATAL : 0) | (q.chance(5) ? (uint32_t)FE_MISSING : 0) | (q.chance(15) ? (uint32_t)FE_SOFT : 0), (feats & ~(uint32_t)FE_DIRS) | dirs | FE_WARN, 0, opts);
      s.slot = j; s.size = q.range(2, 14); s.env = e; c.steps.push_back(s);
    }
    out.push_back(c);
    if (!q.chance(50)) continue;
    // the same with operations that fail in every round (a full disk, an unreadable input)
    RunSpec sp; build_C25(c, sp); RunResult r; run(sp, r);
    Picker any(sites(r, [&](const Site &x) { return !is_console(x.path); }), q);
    for (int w = 0; w < 3 && (int)out.size() < n && !any.empty(); w++) {
      Plan d = c; int f = q.chance(75) ? 1 : 2;
      for (int j = 0; j < f; j++) { Rule x = fault_at(q, any.next()); x.skip = q.chance(70) ? 0 : (uint32_t)q.below(3); x.count = 0; d.rules.push_back(x); }
      out.push_back(d);
    }
  }
}
static void exec_C25(const Plan &p, Outcome &o) {
  RunSpec s; build_C25(p, s);
  run(s, o.last); note(o, o.last); const NodeResult &y = o.last.nodes[0]; size_t k = p.steps.size() + (p.mode ? 1 : 0);
  if (y.signal || y.corrupt) { o.fail("died", fmt("the process was ended by signal %d during one of the assemblies", y.signal)); return; }
  if (!y.exited || y.marks.size() < k * MEM_ROUNDS) { o.vacuous = true; return; }
  o.nontrivial = true; if (g_stats) g_stats->shape(o.last.shape);
  uint32_t m[MEM_ROUNDS]; for (int j = 0; j < MEM_ROUNDS; j++) m[j] = y.marks[k * (j + 1) - 1];
  bool grows = true; for (int j = 2; j < MEM_ROUNDS; j++) grows = grows && m[j] > m[j - 1];
  if (grows) o.fail("grows", fmt("the same %zu assemblies again and again: memory in use after each round: %u %u %u %u %u bytes", p.steps.size(), m[0], m[1], m[2], m[3], m[4]));
}

// ================================================================== C26
static void plan_C26(uint64_t seed, std::vector<Plan> &out, int n) {
  Rng q(seed); Outcome o; Plan p;
  Step st = make_step(q, 0, FE_DIRS, OP_RW, OP_L); st.opts &= OP_RW | OP_L; st.ext = (int)q.below(8); st.size = q.range(3, q.chance(30) ? 40 : 16); if (q.chance(40)) st.feat = FE_DIRS; else st.feat = 0;
  if (q.chance(30)) { st.env.rchunk = (uint32_t)q.range(1, 9); st.env.wchunk = (uint32_t)q.range(1, 9); }
  p.steps.push_back(st); out.push_back(p);
  const Base &b = baseline(o, st); if (!b.clean()) return;
  auto ok = [&](const Site &s) { return !is_console(s.path) && s.kind != OP_IOCTL && s.kind != OP_GETCWD && !((st.feat & FE_DIRS) && (s.kind == OP_ACCESS || s.kind == OP_STAT || (s.kind == OP_OPEN && !write_flags(s.a)))); };
  Picker on(sites(b.res, [&](const Site &s) { return ok(s) && b.prog.echo.count(s.path) != 0; }), q), any(sites(b.res, ok), q);
  while ((int)out.size() < n && !any.empty()) { Plan c = p; int k = q.chance(75) ? 1 : 2; for (int i = 0; i < k; i++) c.rules.push_back(fault_at(q, q.chance(75) && !on.empty() ? on.next() : any.next())); out.push_back(c); }
}
static void exec_C26(const Plan &p, Outcome &o) {
  Step ls = p.steps[0]; ls.opts |= OP_RWLIT; const Base l = baseline(o, ls); const Base &b = baseline(o, p.steps[0]);
  if (!l.clean()) { o.vacuous = true; return; }
  if (p.rules.empty()) {
    o.last = b.res; o.nontrivial = !b.prog.echo.empty(); if (g_stats && o.nontrivial) g_stats->shape(b.res.shape);
    if (!b.clean()) { o.fail("rejected", fmt("ends with status %d, although the same program with the redirected text written out is accepted: ", b.status()) + b.res.nodes[0].out.substr(0, 1500)); return; }
  } else {
    if (!b.clean()) { o.vacuous = true; return; }
    run1(o, b.prog, p.steps[0].env, b.disk, o.last, p.rules); note_faults(b, o.last, o);
    if (!ok_exit(o.last)) return;
  }
  std::set<std::string> ps = b.prog.products();
  for (auto &x : ps) if (!same_file(l.res.disk, o.last.disk, x)) { o.fail("stale", fmt("exit status %d, but the program was not assembled with what it had written: ", o.last.nodes[0].status) + describe_diff(l.res.disk, o.last.disk, x)); return; }
}

// ------------------------------------------------------------------ table
const CheckDef all_checks[] = {
  {"C01", false, 700, 24, plan_C01, exec_C01, "seeded program x output type x 1-3 faults on image (75%) or any file operations; non-trivial: at least one planned fault fired", probe_names},
  {"C02", false, 700, 24, plan_C02, exec_C02, "seeded program with -T/-L x 1-3 faults on listing/label (75%) or any file operations; non-trivial: at least one planned fault fired", probe_names},
  {"C03", false, 700, 24, plan_C03, exec_C03, "seeded program with redirected echoes x previous target contents x faults and crashes on target files; non-trivial: a planned fault or crash fired", probe_names},
  {"C04", false, 700, 24, plan_C04, exec_C04, "seeded program over includes, imports, bitmaps, getc x faults and truncations of inputs; non-trivial: a planned fault fired or an input was truncated", probe_names},
  {"C05", false, 700, 24, plan_C05, exec_C05, "seeded program (35% rejected) over existing products x crash or fault; non-trivial: crash/fault fired or program rejected", probe_names},
  {"C06", false, 500, 16, plan_C06, exec_C06, "history of 1-3 killed/failed/older runs and leftovers, then a healthy rerun; non-trivial: an earlier run was disturbed or a product differed before the rerun", probe_names},
  {"C07", false, 700, 24, plan_C07, exec_C07, "seeded program (valid or not) among neighbour files x faults and crashes; non-trivial: undisturbed invalid-free run or a fault fired", probe_names},
  {"C08", false, 900, 12, plan_C08, exec_C08, "seeded program run in two environments (clock, heap/stack contents and layout, environment, terminal, neighbours); every case non-trivial", probe_names},
  {"C09", false, 300, 16, plan_C09, exec_C09, "2-4 concurrent assemblers under a seeded scheduler switching at every system call; non-trivial: at least one switch", probe_names},
  {"C10", false, 700, 16, plan_C10, exec_C10, "seeded program x one input replaced atomically at a seeded operation; non-trivial: the replacement happened", probe_names},
  {"C11", true, 700, 12, plan_C11, exec_C11, "1-3 seeded assemblies (with leftovers, errors, faults) before the observed one in one process; non-trivial: the observed assembly ran after a surviving history", probe_names},
  {"C12", false, 800, 20, plan_C12, exec_C12, "seeded mixes of warnings, errors, fatal errors and I/O faults; non-trivial: undisturbed diagnostics run or a fault fired", probe_names},
  {"C13", false, 700, 24, plan_C13, exec_C13, "seeded program x permanent/transient faults, odd inputs (empty, tiny, FIFO, directory), tiny transfers; non-trivial: a fault fired or an odd input was used", probe_names},
  {"C14", false, 600, 32, plan_C14, exec_C14, "seeded program x failing memory requests (one, some, all from a point); non-trivial: a request failed", probe_names},
  {"C15", false, 600, 24, plan_C15, exec_C15, "seeded program x clock steps placed between the first read and the last product operation; non-trivial: a step fired", probe_names},
  {"C16", false, 700, 16, plan_C16, exec_C16, "seeded arrangements of candidates over search directories with missing/unreadable ones; every case non-trivial", probe_names},
  {"C17", false, 700, 20, plan_C17, exec_C17, "seeded program x failure patterns of console writes; non-trivial: a console fault fired", probe_names},
  {"C18", false, 400, 16, plan_C18, exec_C18, "seeded large/deep program x descriptor limit x faults and empty inputs; every case non-trivial", probe_names},
  {"C19", false, 600, 16, plan_C19, exec_C19, "seeded program x splitting of every transfer; non-trivial: at least one transfer was split", probe_names},
  {"C20", false, 700, 24, plan_C20, exec_C20, "seeded program x faults on any file operation, unusable inputs, failing memory requests; non-trivial: a fault fired or an input was unusable", probe_names},
  {"C21", false, 600, 24, plan_C21, exec_C21, "seeded program x previous products x kill before/inside/after every product operation, split writes; non-trivial: the kill happened", probe_names},
  {"C22", false, 300, 16, plan_C22, exec_C22, "2-4 concurrent assemblers appending to one log, some killed, seeded scheduler; non-trivial: at least one switch", probe_names},
  {"C23", false, 600, 12, plan_C23, exec_C23, "seeded program tree moved to one of 13 places; every case non-trivial", probe_names},
  {"C24", true, 600, 12, plan_C24, exec_C24, "1-4 seeded assemblies with errors and faults in one process; non-trivial: all of them returned", probe_names},
  {"C25", true, 1500, 12, plan_C25, exec_C25, "1-3 seeded assemblies with warnings, errors and rejections, performed five times over in one process; non-trivial: all of them returned", probe_names},
  {"C26", false, 700, 16, plan_C26, exec_C26, "seeded program that includes, imports and reads files it has written itself, against the same program with the text written out x 1-2 faults; non-trivial: an undisturbed program that redirects, or a fault fired", probe_names},
  {nullptr, false, 0, 0, nullptr, nullptr, nullptr, nullptr},
};
const CheckDef *find_check(const std::string &id) { for (const CheckDef *c = all_checks; c->id; c++) if (id == c->id) return c; return nullptr; }

// ------------------------------------------------------------------ plans as text
static std::string esc(const std::string &s) { std::string o; char b[8]; for (unsigned char c : s) if (c > 32 && c < 127 && c != '%') o += (char)c; else { snprintf(b, sizeof b, "%%%02X", c); o += b; } return o.empty() ? "%" : o; }
static std::string unesc(const std::string &s) { if (s == "%") return ""; std::string o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size() + 0 + 1 && i + 2 <= s.size() - 1) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i]; return o; }
static std::string step_key(const Step &s) {
  std::string o = fmt("step gseed=%llu feat=%u opts=%u size=%d ext=%d slot=%d shared=%llu", (unsigned long long)s.gseed, s.feat, s.opts, s.size, s.ext, s.slot, (unsigned long long)s.shared);
  const Env &e = s.env;
  o += fmt(" eseed=%llu garbage=%d stack=%u heap=%u pad=%d reuse=%d move=%d fd=%d rchunk=%u wchunk=%u blk=%u tty=%d clock=%lld lat=%u", (unsigned long long)e.seed, e.garbage, e.stack_off, e.heap_off, e.pad, e.reuse, e.move, e.fdlimit, e.rchunk, e.wchunk, e.blksize, e.tty, (long long)e.clock_ms, e.lat_us);
  for (auto &v : e.envv) o += " env=" + esc(v);
  for (auto d : s.drop) o += fmt(" drop=%u", d);
  return o;
}
std::string write_plan(const Plan &p) {
  std::string o = "spasm-sim-replay 1\ncheck " + p.check + "\n";
  o += fmt("where group=%llu index=%llu\n", (unsigned long long)p.group, (unsigned long long)p.index);
  for (auto &s : p.steps) o += step_key(s) + "\n";
  for (auto &r : p.rules) o += fmt("rule node=%d ops=%u path=%s skip=%u count=%u eff=%u arg=%lld\n", r.node, r.opmask, esc(r.path).c_str(), r.skip, r.count, r.eff, (long long)r.arg);
  for (auto &m : p.muts) o += "replace path=" + esc(m.path) + fmt(" remove=%d data=", m.remove) + esc(m.data) + "\n";
  for (auto &k : p.pre) o += "file path=" + esc(k.first) + " data=" + esc(k.second) + "\n";
  o += fmt("sched seed=%llu bias=%d have=%d seq=", (unsigned long long)p.sched_seed, p.sched_bias, p.have_sched);
  for (auto c : p.sched) o += (char)('0' + c);
  o += "\n" + fmt("args mode=%lld a=%lld b=%lld\n", (long long)p.mode, (long long)p.a, (long long)p.b);
  return o;
}
bool read_plan(const std::string &t, Plan &p) {
  p = Plan(); size_t i = 0; bool head = false;
  while (i < t.size()) {
    size_t e = t.find('\n', i); std::string l = t.substr(i, e == std::string::npos ? e : e - i); i = e == std::string::npos ? t.size() : e + 1;
    if (l.empty() || l[0] == '#') continue;
    std::vector<std::string> w; size_t b = 0; for (size_t k = 0; k <= l.size(); k++) if (k == l.size() || l[k] == ' ') { if (k > b) w.push_back(l.substr(b, k - b)); b = k + 1; }
    if (w[0] == "spasm-sim-replay") { head = true; continue; }
    if (w[0] == "check") { p.check = w.size() > 1 ? w[1] : ""; continue; }
    Step s; s.env = Env(); s.env.envv.clear(); Rule r; Mutation m; std::string fp, fd;
    for (size_t k = 1; k < w.size(); k++) {
      size_t q = w[k].find('='); if (q == std::string::npos) continue; std::string key = w[k].substr(0, q), v = w[k].substr(q + 1); long long n = atoll(v.c_str()); unsigned long long u = strtoull(v.c_str(), nullptr, 10);
      if (w[0] == "where") { if (key == "group") p.group = u; else p.index = u; }
      else if (w[0] == "step") {
        if (key == "gseed") s.gseed = u; else if (key == "feat") s.feat = (uint32_t)u; else if (key == "opts") s.opts = (uint32_t)u; else if (key == "size") s.size = (int)n; else if (key == "ext") s.ext = (int)n; else if (key == "slot") s.slot = (int)n; else if (key == "shared") s.shared = u;
        else if (key == "eseed") s.env.seed = u; else if (key == "garbage") s.env.garbage = (uint8_t)n; else if (key == "stack") s.env.stack_off = (uint32_t)u; else if (key == "heap") s.env.heap_off = (uint32_t)u; else if (key == "pad") s.env.pad = (uint8_t)n; else if (key == "reuse") s.env.reuse = (uint8_t)n; else if (key == "move") s.env.move = (uint8_t)n;
        else if (key == "fd") s.env.fdlimit = (int)n; else if (key == "rchunk") s.env.rchunk = (uint32_t)u; else if (key == "wchunk") s.env.wchunk = (uint32_t)u; else if (key == "blk") s.env.blksize = (uint32_t)u; else if (key == "tty") s.env.tty = (uint8_t)n; else if (key == "clock") s.env.clock_ms = n; else if (key == "lat") s.env.lat_us = (uint32_t)u;
        else if (key == "env") s.env.envv.push_back(unesc(v)); else if (key == "drop") s.drop.push_back((uint32_t)u);
      } else if (w[0] == "rule") { if (key == "node") r.node = (int)n; else if (key == "ops") r.opmask = (uint32_t)u; else if (key == "path") r.path = unesc(v); else if (key == "skip") r.skip = (uint32_t)u; else if (key == "count") r.count = (uint32_t)u; else if (key == "eff") r.eff = (uint8_t)u; else if (key == "arg") r.arg = n; }
      else if (w[0] == "replace") { if (key == "path") m.path = unesc(v); else if (key == "remove") m.remove = n; else m.data = unesc(v); }
      else if (w[0] == "file") { if (key == "path") fp = unesc(v); else fd = unesc(v); }
      else if (w[0] == "sched") { if (key == "seed") p.sched_seed = u; else if (key == "bias") p.sched_bias = (int)n; else if (key == "have") p.have_sched = n; else for (char c : v) p.sched.push_back((uint8_t)(c - '0')); }
      else if (w[0] == "args") { if (key == "mode") p.mode = n; else if (key == "a") p.a = n; else p.b = n; }
    }
    if (w[0] == "step") p.steps.push_back(s); else if (w[0] == "rule") p.rules.push_back(r); else if (w[0] == "replace") p.muts.push_back(m); else if (w[0] == "file") p.pre[fp] = fd;
  }
  return head && find_check(p.check) && !p.steps.empty();
}
std::string describe(const Plan &p) {
  std::string o;
  for (size_t i = 0; i < p.steps.size(); i++) {
    Program pr; build_program(p.steps[i], pr);
    o += fmt("step %zu: cd %s;", i, pr.cwd.c_str()); for (auto &a : pr.argv) o += " " + a; o += "\n";
  }
  for (auto &r : p.rules) {
    std::string ops; for (int k = 0; k < OP_NKINDS; k++) if (r.opmask == MASK_IO) { ops = "any"; break; } else if (r.opmask >> k & 1) ops += std::string(ops.empty() ? "" : "/") + op_name[k];
    o += fmt("fault: step %d, %s%s%s number %u%s: %s %lld\n", r.node, ops.c_str(), r.path.empty() ? "" : " of ", r.path.c_str(), r.skip + 1, r.count == 0 ? " and all later" : r.count > 1 ? fmt(" (%u times)", r.count).c_str() : "", eff_name[r.eff], (long long)r.arg);
  }
  for (auto &m : p.muts) o += "replacement: " + m.path + fmt(" (%zu bytes)\n", m.data.size());
  for (auto &k : p.pre) o += "initially: " + k.first + (k.second.size() && k.second[0] == 1 ? " special " + esc(k.second) : fmt(" %zu bytes", k.second.size())) + "\n";
  if (p.steps.size() > 1 && (p.sched_seed || p.have_sched)) o += fmt("schedule: seed %llu bias %d, %zu explicit choices\n", (unsigned long long)p.sched_seed, p.sched_bias, p.sched.size());
  return o;
}
}
