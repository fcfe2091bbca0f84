#include "gen.h"
#include <algorithm>
#include <functional>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

namespace sim {

const std::vector<std::string> output_exts = {"bin", "8xp", "hex", "83p", "8xv", "82p", "73p", "85p", "86p", "85s", "86s", "rom", "8xk", "obj"};

std::string hexdump(const std::string &s, size_t max) {
  std::string o; char b[8];
  for (size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, sizeof b, "%02x ", (unsigned char)s[i]); o += b; }
  if (s.size() > max) o += "...";
  return o;
}

struct Atom { uint8_t kind; int v; std::string sym; int w; }; // kind 0: byte v; 1: (sym+v) as w bytes little endian; 2: relative to sym

struct Chunk {
  uint32_t id = 0;
  std::vector<std::string> lines;
  std::vector<Atom> atoms;
  std::string label;             // defined at the chunk's start
  bool has_org = false; int org = 0;
  int gap = 0;                   // bytes skipped by .seek
  int include = -1;              // include file index
  std::string uses;              // imported or included file, as written
  std::string echo_path; bool echo_append = false; std::string echo_text; bool has_echo = false;
  bool opaque = false;
  std::vector<std::string> needs; // labels it mentions
};
struct SrcFile { std::string ref, path; std::vector<Chunk> chunks; bool crlf = false, nonl = false, bom = false; };

static void bytes(Chunk &c, std::initializer_list<int> l) { for (int v : l) c.atoms.push_back({0, v & 0xff, "", 1}); }
static void str(Chunk &c, const std::string &s) { for (unsigned char ch : s) c.atoms.push_back({0, ch, "", 1}); }
static std::string fmt(const char *f, ...) { char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

static std::string numlit(Rng &r, int v) {
  switch (r.below(4)) {
    case 0: return fmt("%d", v);
    case 1: return fmt("$%X", v);
    case 2: if (v < 256) { std::string s = "%"; for (int i = 7; i >= 0; i--) s += (v >> i & 1) ? '1' : '0'; return s; } return fmt("%d", v);
    default: return fmt("0%Xh", v);
  }
}

struct OpDef { const char *text; const char *enc; };
// enc: hex bytes; N = 8 bit literal, W = address operand, D = signed offset in an index register
static const OpDef OPS[] = {
  {"nop", "00"}, {"ret", "C9"}, {"ei", "FB"}, {"di", "F3"}, {"exx", "D9"}, {"halt", "76"}, {"rrca", "0F"}, {"rlca", "07"}, {"rla", "17"},
  {"rra", "1F"}, {"scf", "37"}, {"ccf", "3F"}, {"cpl", "2F"}, {"daa", "27"}, {"neg", "ED44"}, {"ldir", "EDB0"}, {"lddr", "EDB8"},
  {"cpir", "EDB1"}, {"reti", "ED4D"}, {"retn", "ED45"}, {"rrd", "ED67"}, {"rld", "ED6F"}, {"ld a,b", "78"}, {"ld a,(hl)", "7E"},
  {"ld (hl),a", "77"}, {"ld a,N", "3EN"}, {"ld b,N", "06N"}, {"ld (hl),N", "36N"}, {"ld hl,W", "21W"}, {"ld de,W", "11W"}, {"ld bc,W", "01W"},
  {"ld (W),a", "32W"}, {"ld a,(W)", "3AW"}, {"jp W", "C3W"}, {"call W", "CDW"}, {"jp z,W", "CAW"}, {"call nc,W", "D4W"}, {"add a,b", "80"},
  {"add hl,de", "19"}, {"push af", "F5"}, {"pop bc", "C1"}, {"inc hl", "23"}, {"dec b", "05"}, {"or a", "B7"}, {"xor a", "AF"}, {"cp N", "FEN"},
  {"and N", "E6N"}, {"bit 3,a", "CB5F"}, {"set 7,(hl)", "CBFE"}, {"res 0,b", "CB80"}, {"sla c", "CB21"}, {"in a,(N)", "DBN"}, {"out (N),a", "D3N"},
  {"ex de,hl", "EB"}, {"ex (sp),hl", "E3"}, {"ld sp,hl", "F9"}, {"im 1", "ED56"}, {"sbc hl,de", "ED52"}, {"adc a,N", "CEN"}, {"jp (hl)", "E9"},
  {"ld a,(ix+D)", "DD7ED"}, {"ld (iy+D),b", "FD70D"}, {"inc (ix+D)", "DD34D"}, {"set 1,(iy+D)", "FDCBDCE"}, {"rst 28h", "EF"}, {"ret nz", "C0"},
};

static int hexv(char c) { return c <= '9' ? c - '0' : c - 'A' + 10; }

struct Builder {
  Step st; Program &p; Rng r; Rng rs; bool ez80;
  std::vector<SrcFile> files;
  std::vector<std::string> back, fwd;       // labels already placed / promised
  uint32_t next_id = 0; int uniq = 0; std::string pre;
  std::vector<std::pair<std::string, std::string>> bins;   // import ref -> data
  std::vector<std::string> dirs;           // include search directories, in order (first is the program directory)
  std::string progdir;
  bool any_macro = false; std::vector<std::string> macros;
  Builder(const Step &s, Program &pp) : st(s), p(pp), r(s.gseed), rs(s.shared ? s.shared : s.gseed * 3 + 1) {}

  std::string ind(Rng &q) { switch (q.below(3)) { case 0: return " "; case 1: return "\t"; default: return "    "; } }
  std::string cased(const std::string &d) { return d; }

  std::map<std::string, std::string> placed;
  void place(const std::string &ref, const std::string &data, Rng &q, std::vector<std::string> *kind) {
    // puts a contributing file into the directory that must win the search, with decoys behind it
    if (ref[0] == '/') { FileState f; f.data = data; p.disk[ref] = f; p.inputs.push_back(ref); p.refs[ref] = ref; placed[ref] = ref; if (kind) kind->push_back(ref); return; }
    size_t where = (st.feat & FE_DIRS) ? q.below(dirs.size()) : 0;
    std::string path = dirs[where] + "/" + ref;
    FileState f; f.data = data;
    p.disk[path] = f;
    p.inputs.push_back(path);
    p.refs[path] = ref; placed[ref] = path;
    if (kind) kind->push_back(path);
    if (st.feat & FE_DIRS)
      for (size_t k = where + 1; k < dirs.size(); k++) if (q.chance(35)) {
        FileState g; g.data = " .db $E5,$E5,$E5 ; decoy\n"; p.disk[dirs[k] + "/" + ref] = g;
      }
  }

  Chunk data_chunk(Rng &q, bool labels) {
    Chunk c; std::string l; int k = (int)q.below(9);
    if (labels && (st.feat & FE_LABELS) && q.chance(35)) {
      c.label = fmt("%slb%d", pre.c_str(), uniq++); back.push_back(c.label);
      if (q.chance(50)) { l = c.label + (q.chance(50) ? ":" : ""); } else { c.lines.push_back(c.label + ":"); l = ""; }
    }
    if (!c.label.empty() && q.chance(20)) {   // under -A names that differ only in case are different
      std::string alt = c.label; for (char &ch : alt) if (ch >= 'a' && ch <= 'z' && q.chance(50)) ch -= 32;
      if (alt != c.label && (st.opts & OP_A)) c.lines.insert(c.lines.begin(), alt + ":");
    }
    std::string I = l + ind(q);
    switch (k) {
      case 0: case 1: {
        int n = q.range(1, 9); std::string s = I + (q.chance(50) ? ".db " : ".byte ");
        for (int i = 0; i < n; i++) { int v = (int)q.below(256); s += (i ? "," : "") + numlit(q, v); c.atoms.push_back({0, v, "", 1}); }
        c.lines.push_back(s); break;
      }
      case 2: {
        std::string t; int n = q.range(1, 20); for (int i = 0; i < n; i++) t += (char)("abcdefghijklmnopqrstuvwxyz 0123456789ABC"[q.below(40)]);
        c.lines.push_back(I + ".db \"" + t + "\",0"); str(c, t); bytes(c, {0}); break;
      }
      case 3: {
        int n = q.range(1, 5); std::string s = I + (q.chance(50) ? ".dw " : ".word ");
        for (int i = 0; i < n; i++) { int v = (int)q.below(65536); s += (i ? "," : "") + numlit(q, v); bytes(c, {v, v >> 8}); }
        c.lines.push_back(s); break;
      }
      case 4: {
        int v = (int)q.below(0x1000000); c.lines.push_back(I + ".dl " + numlit(q, v)); bytes(c, {v, v >> 8, v >> 16}); break;
      }
      case 5: {
        int big = (st.feat & FE_BIG) ? q.range(64, 6000) : q.range(1, 80); int v = (int)q.below(256);
        c.lines.push_back(I + (q.chance(50) ? ".fill " : ".block ") + fmt("%d,%d", big, v));
        for (int i = 0; i < big; i++) bytes(c, {v}); break;
      }
      case 6: {
        if (labels && back.size() && (st.feat & FE_LABELS)) {
          std::string lab = q.pick(back); int off = q.range(0, 40);
          c.lines.push_back(I + ".dw " + lab + fmt("+%d", off)); c.atoms.push_back({1, off, lab, 2}); c.needs.push_back(lab);
        } else { c.lines.push_back(I + ".db 1+2*3"); bytes(c, {labels ? 7 : 7}); c.lines.back() = I + ".db 1+(2*3)"; }
        break;
      }
      case 7: {
        if (labels && (st.feat & FE_LABELS)) {
          if (fwd.empty() || q.chance(40)) fwd.push_back(fmt("%sfw%d", pre.c_str(), uniq++));
          std::string lab = q.pick(fwd); c.lines.push_back(I + ".dw " + lab); c.atoms.push_back({1, 0, lab, 2}); c.needs.push_back(lab);
        } else { c.lines.push_back(I + ".db 'A','z'"); str(c, "Az"); }
        break;
      }
      default: {
        int a = q.range(1, 50), b = q.range(1, 50);
        c.lines.push_back(I + fmt(".db (%d+%d)*2, %d-%d", a, b, a + b, b)); bytes(c, {(a + b) * 2, a});
      }
    }
    return c;
  }

  Chunk op_chunk(Rng &q, bool labels) {
    Chunk c; int n = q.range(1, 4);
    for (int i = 0; i < n; i++) {
      const OpDef &o = OPS[q.below(sizeof OPS / sizeof *OPS)];
      std::string t; int nv = (int)q.below(256), wv = (int)q.below(65536), dv = q.range(0, 127); std::string wsym;
      if (labels && back.size() && q.chance(50)) wsym = q.pick(back);
      for (const char *s = o.text; *s; s++) {
        if (*s == 'N') t += numlit(q, nv);
        else if (*s == 'W') t += wsym.empty() ? fmt("%d", wv) : wsym;
        else if (*s == 'D') t += fmt("%d", dv);
        else t += *s;
      }
      for (const char *s = o.enc; *s; s++) {
        if (*s == 'N') bytes(c, {nv});
        else if (*s == 'W') {
          int w = ez80 ? 3 : 2;
          if (wsym.empty()) { bytes(c, {wv, wv >> 8}); if (w == 3) bytes(c, {0}); } else { c.atoms.push_back({1, 0, wsym, w}); c.needs.push_back(wsym); }
        }
        else if (*s == 'D' && (s[1] == 0 || !strchr("0123456789ABCDEF", s[1]) || (s > o.enc && s == o.enc + 4))) bytes(c, {dv});
        else { bytes(c, {hexv(s[0]) * 16 + hexv(s[1])}); s++; }
      }
      if (q.chance(30) && i + 1 < n) { c.lines.push_back(ind(q) + t + "  ; " + "note"); } else c.lines.push_back(ind(q) + t);
    }
    return c;
  }

  // long stretches of source text, so that files span many transfers
  Chunk pad_chunk(Rng &q) {
    Chunk c; int want = q.chance(60) ? q.range(3000, 24000) : q.range(24000, 120000), got = 0, n = 0;
    while (got < want) {
      if (q.chance(85)) { std::string l = fmt("; line %d ", n++); l += std::string((size_t)q.range(5, 90), (char)('a' + q.below(26))); c.lines.push_back(l); }
      else { int v = (int)q.below(256); c.lines.push_back(fmt(" .db %d ; %d", v, n++)); bytes(c, {v}); }
      got += (int)c.lines.back().size() + 1;
    }
    return c;
  }

  // many symbols, many uses of one file, an image of more than 64K
  void huge_chunks(std::vector<Chunk> &top) {
    Rng q(st.gseed ^ 0x4067);
    if (q.chance(45)) {
      Chunk c; int n = q.chance(50) ? q.range(40, 400) : q.range(400, 1600); bool longn = q.chance(50);
      for (int i = 0; i < n; i++) c.lines.push_back(fmt("%s%s%d = %d", pre.c_str(), longn ? "a_symbol_with_quite_a_long_name_" : "y", (i * 7919) % n, (int)q.below(65536)));
      top.insert(top.begin() + q.below(top.size() + 1), c);
    }
    if (q.chance(25)) {
      std::string ref = pre + "often.bin", d; size_t len = q.range(0, 600); for (size_t k = 0; k < len; k++) d += (char)q.below(256);
      place(ref, d, q, &p.imports); bins.push_back({ref, d});
      for (int n = q.range(17, 70); n--;) { Chunk c; c.lines = {" #import \"" + ref + "\""}; str(c, d); c.uses = ref; top.insert(top.begin() + q.below(top.size() + 1), c); }
    }
    if (q.chance(20)) {
      std::string ref = pre + "large.bin", d; size_t len = q.chance(50) ? 65536u * (size_t)q.range(1, 2) - q.below(2) : (size_t)q.range(30000, 140000); for (size_t k = 0; k < len; k++) d += (char)q.below(256);
      place(ref, d, q, &p.imports); bins.push_back({ref, d});
      Chunk c; c.lines = {" #import \"" + ref + "\""}; str(c, d); c.uses = ref; top.insert(top.begin() + q.below(top.size() + 1), c);
    }
  }

  std::string words(Rng &q, int n) {
    static const char *W[] = {"alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa"};
    static const char *O[] = {"100%", "%s", "%n%d", "a(b", "c)", "x,y", "it's", "caf\xc3\xa9", "#if", "\t|", "50:50", "<>", "[k]", "&&"};
    std::string s; for (int i = 0; i < n; i++) { if (i) s += " "; s += q.chance(8) ? O[q.below(sizeof O / sizeof *O)] : W[q.below(10)]; } return s;
  }

  void echo_chunk(Rng &q, std::vector<Chunk> &out, const std::vector<std::string> &targets, bool file) {
    if (file && q.chance(8)) { Chunk z; z.lines = {"#if 0", ind(q) + ".echo " + (q.chance(50) ? "> " : ">> ") + "\"" + pre + "never.txt\" \"never\"", "#endif"}; out.push_back(z); }
    int burst = file && q.chance(25) ? q.range(2, 4) : file && q.chance(2) ? q.range(40, 90) : 1; std::string tgt;
    if (file) { tgt = q.pick(targets); if ((st.feat & FE_SHLOG) && q.chance(70)) tgt = "shared.log"; }
    bool one_target = q.chance(70), only_append = true, abs = file && q.chance(12), via = file && q.chance(12); int mixed = q.range(0, 2);
    while (burst-- > 0) {
      Chunk c; std::string t = words(q, q.range(1, 4)); int v = (int)q.below(1000);
      if ((st.feat & FE_BIG) && q.chance(20)) { t = words(q, 25); }
      bool nl = q.chance(80), empty = q.chance(6); if (empty) t = "";
      std::string item = "\"" + t + "\"", text = t;
      if (!empty && q.chance(50)) { item += fmt(", %d", v); text += fmt("%d", v); }
      if (!empty && q.chance((st.feat & FE_SHLOG) ? 40 : 15)) {   // several lines in one text
        std::string w = words(q, q.range(1, 3)), x = words(q, q.range(1, 3));
        if (q.chance(50)) { item += ", \"" + w + "\\n" + x + "\""; text += w + "\n" + x; } else { item += ", \"\\n\", \"" + w + "\""; text += "\n" + w; }
      }
      if (!empty && file && q.chance((st.feat & FE_SHLOG) ? 7 : 1)) for (int k = q.range(40, 110); k--;) { std::string w = words(q, q.range(8, 20)); item += ", \"" + w + "\""; text += w; }   // longer than any buffer
      if (nl && !empty) { item += ", \"\\n\""; text += "\n"; }
      if (file) {
        if (!one_target) { tgt = q.pick(targets); if ((st.feat & FE_SHLOG) && q.chance(70)) tgt = "shared.log"; }
        bool app = q.chance((st.feat & FE_APPEND) ? 80 : mixed == 0 ? 100 : mixed == 1 ? 20 : 50);
        only_append = tgt.find("app") != std::string::npos || tgt == "shared.log";
        if (only_append) app = true;
        std::string name = "\"" + (abs ? progdir + "/" + tgt : tgt) + "\"";
        if (via) { std::string d = fmt("%set%d", pre.c_str(), uniq++); c.lines.push_back("#define " + d + " " + name); name = d; }
        c.lines.push_back(ind(q) + ".echo " + (app ? ">>" : ">") + (text.size() % 5 == 2 && name[0] == '"' ? "" : " ") + name + " " + item);
        c.has_echo = true; c.echo_append = app; c.echo_text = text; c.echo_path = progdir + "/" + tgt;
      } else c.lines.push_back(ind(q) + ".echo " + item);
      out.push_back(c);
    }
  }

  void wild2(Rng &q, std::vector<Chunk> &out) {
    Chunk c; std::string I = ind(q); int u = uniq++; const char *P = pre.c_str(); std::string N = fmt("%s%d", P, u);
    c.opaque = true;
    switch (q.below(32)) {
      case 0: c.lines = {I + ".db '\\\\','\\0','\\r','\\t','\\''"}; break;
      case 1: c.lines = {I + ".db '\\#','\\#','\\#','\\#'"}; break;
      case 2: c.lines = {I + ".db 1010b, 12d, 0FFh, $FF, %101", I + ".dw -1, 0-5, ~7"}; break;
      case 3: c.lines = {"#if 1 && 0 || 3 < 4", I + ".db 1", "#endif", I + ".db (1&&2),(0||1),(3<4),(4>3),(3<=3),(9/2),(16>>2),(-5)"}; break;
      case 4: c.lines = {"#define LS" + N + " 1,2,3", I + ".db LS" + N + ", 4"}; break;
      case 5: c.lines = {"#define PR" + N + "(a,b) a,b,a+b", I + ".db PR" + N + "(1,2)"}; break;
      case 6: c.lines = {"#define PW" + N + "(a,b) a,b,a+b", I + ".dw PW" + N + "(1,lb" + N + ")", "lb" + N + ":"}; break;
      case 7: c.lines = {"#define DO" + N + " ld a,5", I + "DO" + N, "#define DP" + N + " ld a,", I + "DP" + N + " 7"}; break;
      case 8: c.lines = {"#define A2" + N + "(x) x*2", "#define A3" + N + "(x) A2" + N + "(x)+1", I + ".db A3" + N + "(4)"}; break;
      case 9: c.lines = {I + ".echo \"at \", ef" + N, "ef" + N + ":"}; break;
      case 10: c.lines = {I + ".show LS" + N, "#define LS" + N + "(a,b) a+b"}; break;
      case 11: c.lines = {"#define NS" + N + "(a,b) a+b", I + ".show NS" + N}; break;
      case 12: c.lines = {"#define XX" + N + " 1", "#define XX" + N + " XX" + N + "+1", I + ".db XX" + N}; break;
      case 13: c.lines = {"#define QQ" + N + " 3", "#undef QQ" + N, "#define QQ" + N + " 4", I + ".db QQ" + N, "#undef QQ" + N, "#define QQ" + N}; break;
      case 14: if (st.opts & OP_C) { c.lines = {I + ".db 9"}; break; }   // counter mode knows no labels: the seek would go to the start of the image
        c.lines = {I + fmt(".org $%X", q.range(1, 8) * 0x1000), "sk" + N + ":", I + ".db 1,2,3,4", I + ".seek sk" + N + "+1", I + ".db 9", I + ".seek sk" + N + "+4"}; break;
      case 15: c.lines = {I + fmt(".addinstr NOP \"\" %02X 1 NOP 1", u & 255), I + "nop"}; break;
      case 16: c.lines = {fmt(" .addinstr LD HL,* %02X 3 NOP 1", 0x20 + (u & 15)), I + "ld hl,5", I + "ld a,b"}; break;
      case 17: c.lines = {fmt(" .addinstr ZAP%d A,* ED%02X 3 NOP 1", u, u & 255), I + fmt("ZAP%d a,9", u)}; break;
      case 18: c.lines = {fmt(" .addinstr ZIP%d * ED%02X 4 NOP 1", u, u & 255), I + fmt("ZIP%d 513", u)}; break;
      case 19: c.lines = {fmt(" .addinstr ZEP%d \"\" ED%02X 2 NOP 1 77", u, u & 255), I + fmt("ZEP%d", u)}; break;
      case 20: c.lines = {I + ".fill 5", I + ".block 3"}; break;
      case 21: c.lines = {I + ".fill fl" + N, "fl" + N + ":", I + ".fill 2,fm" + N + "&7", "fm" + N + ":"}; break;
      case 22: c.lines = {I + "rst 8", I + "rst 30h", I + "im 0", I + "rst 10"}; c.lines.pop_back(); break;
      case 23: c.lines = {I + ".option oa" + N + "=5, ob" + N, I + ".db __oa" + N + ",__ob" + N}; break;
      case 24:
        if (ez80) c.lines = {I + ".assume adl=0", I + "ld hl,$1234", I + "ld.lil hl,$123456", I + "ld.sis hl,$1234", I + "call.il $1234", I + ".assume adl=1", I + "ld.s hl,(ix+3)", I + "ld.l hl,5"};
        else c.lines = {I + "sll b", I + "inc ixh", I + "ld a,iyl", I + "out (c),a"};
        break;
      case 25: { int n = q.range(20, 200); for (int i = 0; i < n; i++) c.lines.push_back(fmt("#define EQ%s_%d %d", N.c_str(), i, i * 7 + u)); c.lines.push_back(I + ".dw EQ" + N + fmt("_%d", n - 1) + "+EQ" + N + "_0"); break; }
      case 26: { int n = q.range(5, 60); for (int i = 0; i < n; i++) c.lines.push_back(fmt("eq%s_%d = %d", N.c_str(), i, i * 3 + u)); c.lines.push_back(I + ".dw eq" + N + fmt("_%d", n - 1)); break; }
      case 27: c.lines = {"#macro OUT" + N + "(x)", " .db x", "#endmacro", "#macro IN" + N + "(x,y)", I + "OUT" + N + "(x)", I + "OUT" + N + "(y)", I + "OUT" + N + "(x+y)", "#endmacro", I + "IN" + N + "(3,4)"}; break;
      case 28: c.lines = {"#define CN" + N + " 12", "#define CO" + N + " concat(\"1+\",CN" + N + ",\"*\",2+3)", I + ".dw CO" + N}; break;
      case 29: c.lines = {"#ifdef " + std::string(P) + "cmd", I + ".db " + P + "cmd", "#endif", I + ".dw __LINE"}; if (!(st.feat & FE_DIRS)) c.lines.push_back(I + ".db __FILE"); break;
      case 30: c.lines = {I + "buf(3)", I + "clr()", I + "wr(\" .db 1,2\")", I + "wr(\" ld a,3\")", I + "run()", I + "buf(4)", I + "clr()", I + "wr(\"wl" + N + ":\")", I + "wr(\" .dw wl" + N + "\")", I + "run()", I + "clr()", I + "run()"}; if (q.chance(15)) c.lines.push_back(I + "run()"); break;
      default: c.lines = {"#define DC" + N + " one", "#defcont +1", "lm" + N + ":", "#undef DC" + N, I + ".dw lm" + N}; break;
    }
    out.push_back(c);
  }

  void wild3(Rng &q, std::vector<Chunk> &out) {
    Chunk c; std::string I = ind(q); int u = uniq++; const char *P = pre.c_str(); std::string N = fmt("%s%d", P, u);
    c.opaque = true;
    switch (q.below(30)) {
      case 0: c.lines = {I + ".dl dl" + N + ",dl" + N + "+1", "dl" + N + ":", I + ".long dl" + N + ",$123456"}; break;
      case 1: c.lines = {"ea" + N + " .equ eb" + N, I + ".db 1", "eb" + N + ":", I + ".dw ea" + N}; break;
      case 2: c.lines = {"#define NV" + N, I + ".db NV" + N, "#if NV" + N, I + ".db 2", "#endif"}; break;
      case 3: c.lines = {I + ".option oe" + N + "=", I + ".db __oe" + N}; break;
      case 4: c.lines = {"_:", I + "nop", "_:", I + "nop", I + "jr --_", I + "jr ++_", "_:", I + "nop", "_:", I + "nop", I + "jp -_"}; break;
      case 5: c.lines = {I + ".db '\\q','\\a','\\z'"}; break;
      case 6: c.lines = {I + fmt(".db eval(1+%d)", u & 63), "#define EW" + N + "(x) eval(x*2)", I + ".db EW" + N + "(4)"}; break;
      case 7: c.lines = {I + fmt(".db (1||0),(0||0),(%d&&1)", u & 3), "#if (1 && 0) || (2 > 1)", I + ".db 5", "#endif"}; break;
      case 8: if (ez80) c.lines = {I + "ld.l hl,5", I + "ld.s a,(hl)", I + "ld.il hl,$123456", I + "ld.sil hl,5", I + "ld.is hl,5", I + "ld.lis hl,$1234", I + "jp.lil $123456", I + "ret.l"};
              else c.lines = {I + "ld a,(ix)", I + "ld (iy),5", I + "inc (ix)"}; break;
      case 9: c.lines = {I + fmt("buf(%d)", u % 8), I + "clr()", I + "wr(\" .db 1\")", I + "clr()", I + fmt("wr(\" .db %d\")", u & 127), I + "run()", I + "clr()"}; break;
      case 10: c.lines = {"ixv" + N + ": .db 1", "iyv" + N + ":", I + "ld hl,ixv" + N, I + "ld a,(iyv" + N + ")"}; break;
      case 11: c.lines = {"#macro MA" + N + "(x,y)", " .db x", " .db y", "#endmacro", I + "MA" + N + "(1)"}; break;
      case 12: c.lines = {I + ".echo \"q\\\"b\\\\c\\td\", 5, \"!\""}; break;
      case 13: c.lines = {"#define UD" + N + " 1", "#undef UD" + N, "#undef UD" + N, "#undef never" + N, "#ifdef UD" + N, I + ".db 1", "#endif"}; break;
      case 14: c.lines = {I + ".end", I + fmt(".db %d", u & 255)}; break;
      case 15: c.lines = {I + fmt(".dw %d", ez80 ? u : 70000 + u)}; break;
      case 16: c.lines = {I + ".db \"a\" \"b\"", "#define ST" + N + " \"text\"", I + ".db ST" + N + ",0"}; break;
      case 17: c.lines = {I + ".echo 1+zork" + N, I + ".echo \"v=\",zork" + N}; break;
      case 18: c.lines = {"#endmacro"}; break;
      case 19: c.lines = {"#if NOSUCH" + N, I + ".db 1", "#else", I + ".db 2", "#endif", I + ".db 1+2)"}; break;
      case 20: c.lines = {"#ifndef IG" + N, "#define IG" + N, "#macro IM" + N + "(v)", "#if v > 3", " .db v", "#else", " .db 0", "#endif", "#endmacro", "#endif", I + "IM" + N + "(2)", I + "IM" + N + "(7)"}; break;
      case 21: c.lines = {"#define CT" + N + " 0", "#define UP" + N + "() CT" + N, "#define CT" + N + " eval(CT" + N + "+1)", "#define CT" + N + " eval(CT" + N + "+1)", I + ".db CT" + N}; break;
      case 22: c.lines = {"#macro LL" + N + "()", "loc" + N + "\\@:", " nop", "#endmacro"}; break;
      case 23: c.lines = {"vr" + N + " = 1", "vr" + N + " = vr" + N + "+1", "vr" + N + " .set 9", I + ".db vr" + N}; c.lines.erase(c.lines.begin() + 2); break;
      case 24: c.lines = {I + ".db \"semi;colon\", \"back\\\\slash\", ';'", I + "ld a,';' ; real", I + "ld a,'\\\\' \\ nop"}; break;
      case 25: c.lines = {"#macro SC" + N + "(s)", " .db s,0", " .echo s", "#endmacro", I + "SC" + N + "(\"x,y\")", I + "SC" + N + "(\"(z\")"}; break;
      case 26: c.lines = {"#define OV" + N + " 5", "#define OW" + N + " OV" + N + "+OV" + N, "#define OX" + N + " (OW" + N + ")*2", "#define OV" + N + " 7", I + ".db OX" + N}; break;
      case 27: c.lines = {"#macro NST" + N + "(n)", "#if n", " .db n", "#endif", "#endmacro", "#if 1", "#if 0", "#if 1", I + ".db 9", "#endif", "#elif 1", I + "NST" + N + "(3)", "#endif", "#else", I + ".db 8", "#endif"}; break;
      case 28: c.lines = {I + fmt(".org $%X", 0x4000 + (u & 255)), "o" + N + ":", I + ".dw $, o" + N + ", $-o" + N}; break;
      default: c.lines = {I + ".db -128, 255, -1, +5, ~0 & 255", I + ".dw -32768, $FFFF, 0FFFFh, 1111000011110000b, 377o"}; c.lines[1] = I + ".dw -32768, $FFFF, 0FFFFh, 1111000011110000b"; break;
    }
    out.push_back(c);
  }

  void wild_chunk(Rng &q, std::vector<Chunk> &out) {
    // constructs outside the model: they make the rest of the image opaque to it
    Chunk c; std::string I = ind(q); int u = uniq++; const char *P = pre.c_str();
    c.opaque = true;
    if (q.chance(60)) { if (q.chance(45)) wild3(q, out); else wild2(q, out); return; }
    switch (q.below(16)) {
      case 0: c.lines = {I + fmt(".addinstr %sFOO%d \"\" AA%02X 2 NOP 1", P, u, u & 255), I + fmt("%sFOO%d", P, u)}; 
              c.lines = {fmt(" .addinstr ZOP%d \"\" AA%02X 2 NOP 1", u, u & 255), fmt(" ZOP%d", u)}; break;
      case 1: c.lines = {I + "buf(1)", I + "clr()", I + fmt("wr(\" .db %d\")", u & 127), I + "run()"}; break;
      case 2: c.lines = {fmt("#define %sDC%d(x) x+1", P, u), fmt(" .db %sDC%d(4)", P, u)}; break;
      case 3: c.lines = {"_:", I + "djnz -_", I + "jr +_", "_:", I + "nop"}; break;
      case 4: c.lines = {"#ifdef NOTTHERE", I + ".db 1", "#else", I + ".db 2", "#endif"}; break;
      case 5: c.lines = {fmt("#define %sEV%d eval(%d+3)", P, u, u), I + fmt(".db %sEV%d&255", P, u)}; break;
      case 6: c.lines = {fmt("#define %sCC%d concat(\"1\",\"2\")", P, u), I + fmt(".db %sCC%d", P, u)}; break;
      case 7: c.lines = {I + fmt(".option %sopt%d=5", P, u), I + fmt(".db __%sopt%d", P, u)}; break;
      case 8: c.lines = {I + fmt(".show %slateshow%d", P, u), fmt("#define %slateshow%d hello", P, u)}; break;
      case 9: c.lines = {fmt("#define %sSW%d(a,b) a*b", P, u), I + fmt(".dw %sSW%d(3,4)", P, u)}; break;
      case 10: c.lines = {"#macro " + std::string(P) + fmt("MC%d(x,y)", u), " ld a,x", " ld b,y", "#endmacro", I + fmt("%sMC%d(1,2)", P, u)}; break;
      case 11: c.lines = {I + ".db $ & 255, 5 % 3, 7 ^ 2, 1 << 3, ~1 & 255, 3 == 3, 2 != 2, 4 >= 1"}; break;
      case 12: c.lines = {"#comment", " nothing here", "#endcomment", I + ".db 9 \\ .db 8 \\ nop"}; break;
      case 13: c.lines = {I + ".db 'a', '\\n', '\\#'"}; c.lines = {I + ".db 'a', '\\n'"}; break;
      case 14: c.lines = {fmt("%svar%d = %d", P, u, u), fmt("%sequ%d .equ %d", P, u, u + 1), I + fmt(".db %svar%d, %sequ%d", P, u, P, u)}; break;
      default: c.lines = {"#define " + std::string(P) + fmt("LST%d", u), I + fmt("#ifndef %sLST%d", P, u), I + ".db 1", I + "#endif", fmt("#undef %sLST%d", P, u)}; break;
    }
    out.push_back(c);
  }

  // single bytes of a file in every place that takes a number
  void getc_uses(Rng &q, const std::string &ref, const std::string &d, bool labels, std::vector<Chunk> &out) {
    for (int n = q.range(1, 3); n--;) {
      size_t at = q.below(d.size()); int v = (unsigned char)d[at], u = uniq++; const char *P = pre.c_str();
      std::string g = fmt("getc(\"%s\",%zu)", ref.c_str(), at), I = ind(q); Chunk c;
      switch (q.below(18)) {
        case 0: c.lines = {fmt("#if %s == %d", g.c_str(), v), I + ".db 1", "#else", I + ".db 2", "#endif"}; bytes(c, {1}); break;
        case 1: c.lines = {fmt("%sgv%d = ", P, u) + g, I + fmt(".db %sgv%d", P, u)}; bytes(c, {v}); break;
        case 2: case 3: c.lines = {fmt("#define %sgd%d ", P, u) + g, I + fmt(".db %sgd%d", P, u)}; bytes(c, {v}); if (q.chance(40)) { c.lines.pop_back(); c.atoms.clear(); } break;
        case 4: c.lines = {fmt("#define %sge%d eval(%s)", P, u, g.c_str()), I + fmt(".db %sge%d", P, u)}; bytes(c, {v}); break;
        case 5: c.lines = {I + ".fill " + g + fmt("&7,%d", u & 255)}; for (int k = v & 7; k--;) bytes(c, {u & 255}); break;
        case 6: c.lines = {fmt("#macro %sgm%d(x)", P, u), " .db x", "#endmacro", I + fmt("%sgm%d(%s)", P, u, g.c_str())}; bytes(c, {v}); break;
        case 7: c.lines = {I + ".dw " + g + "+1"}; bytes(c, {v + 1, (v + 1) >> 8}); break;
        case 8: c.lines = {I + ".echo \"v=\", " + g + ", \"\\n\""}; break;
        case 9: case 10: {
          if (!(st.feat & FE_ECHOFILE) || (st.feat & FE_SHLOG)) { c.lines = {I + ".db " + g}; bytes(c, {v}); break; }
          std::string tgt = q.pick(targets); bool app = tgt.find("app") != std::string::npos || q.chance(50);
          c.lines = {I + ".echo " + (app ? ">> " : "> ") + "\"" + tgt + "\" \"v=\", " + g + ", \"\\n\""};
          c.has_echo = true; c.echo_append = app; c.echo_text = fmt("v=%d\n", v); c.echo_path = progdir + "/" + tgt; break;
        }
        case 11: c.lines = {I + "ld a," + g}; bytes(c, {0x3E, v}); break;
        case 12: c.lines = {fmt("%sgq%d .equ ", P, u) + g, I + fmt(".db %sgq%d", P, u)}; bytes(c, {v}); break;
        case 13: c.lines = {fmt("#define %sgf%d(a) a+1", P, u), I + fmt(".db %sgf%d(%s)", P, u, g.c_str())}; bytes(c, {v + 1}); break;
        case 14: c.lines = {I + fmt(".option %sgo%d=", P, u) + g, I + fmt(".db __%sgo%d", P, u)}; bytes(c, {v}); break;
        case 15: c.lines = {fmt("#define %sgc%d concat(\"\",%s)", P, u, g.c_str()), I + fmt(".db %sgc%d", P, u)}; bytes(c, {v}); break;
        case 16: c.lines = {"#if 0", I + ".db 9", fmt("#elif %s == %d", g.c_str(), v), I + ".db 7", "#endif"}; bytes(c, {7}); break;
        default: {
          if (!labels || !(st.feat & FE_LABELS)) { c.lines = {I + ".block " + g + "&3"}; for (int k = v & 3; k--;) bytes(c, {0}); break; }
          if (fwd.empty()) fwd.push_back(fmt("%sfw%d", P, u)); std::string lab = q.pick(fwd);
          c.lines = {I + ".dw " + lab + "+" + g}; c.atoms.push_back({1, v, lab, 2}); c.needs.push_back(lab);
        }
      }
      out.push_back(c);
    }
  }

  std::vector<std::string> targets;

  void gen_chunks(Rng &q, std::vector<Chunk> &out, int n, int depth, bool labels, bool top) {
    for (int i = 0; i < n; i++) {
      int w = (int)q.below(100);
      if (w < 8 && (st.feat & FE_TEXT)) {
        Chunk c; switch (q.below(4)) { case 0: c.lines = {"; " + words(q, 5)}; break; case 1: c.lines = {""}; break;
          case 2: c.lines = {"#comment", "- " + words(q, 4), " .db 1,2,3", "#endcomment"}; break; default: c.lines = {"   \t  ; only a comment"}; }
        out.push_back(c);
      } else if (w < 18 && (st.feat & FE_INC) && depth < ((st.feat & FE_DEEP) ? 6 : 3) && files.size() < ((st.feat & FE_DEEP) ? 14 : 7)) {
        int idx = (int)files.size(); files.push_back(SrcFile());
        std::string ref = fmt("%sinc%d.%s", pre.c_str(), idx, q.chance(50) ? "inc" : "z80");
        if (q.chance(25)) ref = "sub/" + ref;
        if ((st.feat & FE_DIRS) && q.chance(12)) ref = "/var/tmp/" + ref.substr(ref.rfind('/') == std::string::npos ? 0 : ref.rfind('/') + 1);
        SrcFile f; f.ref = ref; f.crlf = q.chance(20); f.nonl = q.chance(20); f.bom = q.chance(8);
        bool again = q.chance(20);   // a file that is included several times defines no labels
        std::vector<Chunk> cs; gen_chunks(q, cs, q.range(1, 4), depth + 1, labels && !again, false);
        if ((st.feat & FE_HUGE) && q.chance(60)) cs.insert(cs.begin() + q.below(cs.size() + 1), pad_chunk(q));
        f.chunks = cs; files[idx] = f;
        int times = again ? q.range(2, 3) : (!labels && q.chance(30)) ? 2 : 1;
        for (int t = 0; t < times; t++) { Chunk c; c.lines = {ind(q) + "#include \"" + ref + "\""}; c.include = idx; if (q.chance(50)) c.lines = {"#include \"" + ref + "\""}; out.push_back(c); if (again && q.chance(50)) out.push_back(op_chunk(q, labels)); }
      } else if (w < 26 && (st.feat & FE_IMPORT)) {
        std::string ref = fmt("%sdat%d.bin", pre.c_str(), uniq++); std::string d;
        size_t len = (st.feat & FE_BIG) && q.chance(50) ? q.below(14000) : q.below(200);
        if (q.chance(8)) len = 0;
        if (q.chance(15)) len = 4096 * q.range(1, 3) + q.range(-1, 1);
        for (size_t k = 0; k < len; k++) d += (char)q.below(256);
        bins.push_back({ref, d}); place(ref, d, q, &p.imports);
        Chunk c; c.lines = {ind(q) + "#import \"" + ref + "\""}; str(c, d); c.uses = ref; out.push_back(c);
        if (q.chance(30)) { Chunk e; e.uses = ref; e.lines = {"#import \"" + ref + "\""}; str(e, d); out.push_back(e); }
      } else if (w < 32 && (st.feat & FE_GETC)) {
        std::string ref = fmt("%sgc%d.dat", pre.c_str(), uniq++), d; size_t len = 1 + q.below(300);
        for (size_t k = 0; k < len; k++) d += (char)(1 + q.below(255));
        std::string path = p.cwd + "/" + ref; FileState f; f.data = d; p.disk[path] = f; p.inputs.push_back(path); p.getcs.push_back(path);
        if (q.chance(65)) { getc_uses(q, ref, d, labels, out); continue; }
        Chunk c; int k = q.range(1, 3); std::string s = ind(q) + ".db ";
        for (int j = 0; j < k; j++) { size_t at = q.below(len); s += (j ? "," : "") + fmt("getc(\"%s\",%zu)", ref.c_str(), at); bytes(c, {(unsigned char)d[at]}); }
        c.lines = {s}; out.push_back(c);
      } else if (w < 42 && (st.feat & FE_ECHOFILE)) echo_chunk(q, out, targets, true);
      else if (w < 48 && (st.feat & FE_ECHO)) echo_chunk(q, out, targets, false);
      else if (w < 55 && (st.feat & FE_MACRO)) {
        Chunk c; int u = uniq++, v = (int)q.below(200);
        switch (q.below(3)) {
          case 0: c.lines = {fmt("#define %sdf%d %d", pre.c_str(), u, v), ind(q) + fmt(".db %sdf%d, %sdf%d+1", pre.c_str(), u, pre.c_str(), u)}; bytes(c, {v, v + 1}); break;
          case 1: c.lines = {fmt("#macro %smm%d(x)", pre.c_str(), u), " .db x, 77", "#endmacro", ind(q) + fmt("%smm%d(%d)", pre.c_str(), u, v), ind(q) + fmt("%smm%d(%d)", pre.c_str(), u, v / 2)};
                  bytes(c, {v, 77, v / 2, 77}); break;
          default: c.lines = {fmt("#define %sfn%d(x,y) (x+y)", pre.c_str(), u), ind(q) + fmt(".dw %sfn%d(%d,%d)", pre.c_str(), u, v, 300)}; bytes(c, {v + 300, (v + 300) >> 8}); break;
        }
        out.push_back(c);
      } else if (w < 62 && (st.feat & FE_COND)) {
        Chunk c; int v = (int)q.below(2), a = (int)q.below(200), b = (int)q.below(200), u = uniq++;
        switch (q.below(st.shared || (st.opts & OP_A) ? 4 : 6)) {   // -A and -D do not go together (DESIGN)
          case 4: { bool d = st.opts & OP_D; c.lines = {"#ifdef " + pre + "cmd", " .db " + pre + fmt("cmd+%d", a), "#else", fmt(" .db %d", b), "#endif"}; bytes(c, {d ? (a + 7) & 255 : b}); break; }
          case 5: { bool d = (st.opts & OP_D) && (st.gseed & 2); c.lines = {"#ifdef " + pre + "flag", " .db " + pre + fmt("flag+%d", a), "#else", fmt(" .db %d", b), "#endif"}; bytes(c, {d ? (a + 1) & 255 : b}); break; }
          case 0: c.lines = {fmt("#if %d", v), fmt(" .db %d", a), "#else", fmt(" .db %d", b), "#endif"}; bytes(c, {v ? a : b}); break;
          case 1: c.lines = {fmt("#define %sc%d 1", pre.c_str(), u), fmt("#ifdef %sc%d", pre.c_str(), u), fmt(" .db %d", a), "#endif", fmt("#ifndef %sc%d", pre.c_str(), u), fmt(" .db %d", b), "#endif"}; bytes(c, {a}); break;
          case 2: c.lines = {fmt("#if %d == 1", v), fmt(" .db %d", a), "#elif 1", fmt(" .db %d,1", b), "#endif"}; if (v) bytes(c, {a}); else bytes(c, {b, 1}); break;
          default: c.lines = {"#if 1", fmt("#if %d", v), fmt(" .db %d", a), "#else", "#if 0", " .db 1", "#endif", fmt(" .db %d", b), "#endif", "#endif"}; bytes(c, {v ? a : b}); break;
        }
        out.push_back(c);
      } else if (w < 66 && (st.feat & FE_LISTDIR)) { Chunk c; c.lines = {ind(q) + (q.chance(50) ? ".list" : ".nolist")}; out.push_back(c); }
      else if (w < 69 && (st.feat & FE_SEEK) && top) { Chunk c; int g = q.range(1, 300); c.lines = {ind(q) + fmt(".seek $+%d", g)}; c.gap = g; out.push_back(c); }
      else if (w < 72 && (st.feat & FE_LABELS) && labels && top) { Chunk c; c.has_org = true; c.org = q.range(0, 0x90) * 0x100; c.lines = {ind(q) + fmt(".org %d", c.org)}; out.push_back(c); }
      else if (w < 80 && (st.feat & FE_WILD)) wild_chunk(q, out);
      else if (w < 92 && (st.feat & FE_OPC)) out.push_back(op_chunk(q, labels));
      else out.push_back(data_chunk(q, labels));
    }
  }

  void diag_chunks(Rng &q, std::vector<Chunk> &out) {
    auto ins = [&](Chunk c) { c.opaque = true; out.insert(out.begin() + q.below(out.size() + 1), c); };
    auto one = [&](std::vector<std::string> l) { Chunk c; c.lines = l; return c; };
    if (st.feat & FE_WARN) for (int k = q.range(1, 2); k--;) {
      p.nwarn++;
      switch (q.below(13)) {
        case 9: ins(one({" .db -300"})); break;
        case 10: ins(one({" ld a,((5)+(6))", " .db -200"})); break;
        case 11: ins(one({ez80 ? " .dw 70000" : " ld b,300"})); break;
        case 12: { int u = uniq++; ins(one({fmt("#define %swf%d(a,b) a+b", pre.c_str(), u), fmt(" .db %swf%d(1,2,3)", pre.c_str(), u)})); break; }
        case 4: { int u = uniq++; ins(one({fmt("%srl%d:", pre.c_str(), u), " nop", fmt("%srl%d:", pre.c_str(), u)})); break; }
        case 5: ins(one({" ld a,((5))"})); break;
        case 6: ins(one({" ld a,(5)+(3)"})); break;
        case 7: { int u = uniq++; ins(one({fmt("#macro %stm%d(a)", pre.c_str(), u), " .db a", "#endmacro", fmt(" %stm%d(1,2)", pre.c_str(), u)})); break; }
        case 0: ins(one({" .db 300"})); break;
        case 1: ins(one({" ld a,($12)+300"})); break;
        case 2: ins(one({" .db 'A"})); break;
        case 3: { int u = uniq++; ins(one({fmt("#define %srd%d 1", pre.c_str(), u), fmt("#define %srd%d 2", pre.c_str(), u), fmt(" .db %srd%d+400", pre.c_str(), u)})); break; }
        default: ins(one({" .fill 3,999"})); break;
      }
    }
    if (st.feat & FE_ERR) for (int k = q.range(1, 2); k--;) {
      p.nerr++;
      switch (q.below(21)) {
        case 19: { int u = uniq++; ins(one({fmt("__%sop%d:", pre.c_str(), u), fmt(" .option %sop%d=%d", pre.c_str(), u, u)})); break; }
        case 20: { int u = uniq++; ins(one({fmt("%smc%d:", pre.c_str(), u), fmt("#macro %smc%d(a)", pre.c_str(), u), " .db 1", "#endmacro"})); break; }
        case 10: { int u = uniq++; ins(one({fmt("#define %snv%d", pre.c_str(), u), fmt(" .db nofn%d(%snv%d)", u, pre.c_str(), u)})); break; }
        case 11: ins(one({" .db _"})); break;
        case 12: ins(one({fmt(" .db imin%d/-1", uniq++)})); break;
        case 13: { int u = uniq++; ins(one({fmt("#define %sff%d(a)", pre.c_str(), u), fmt(" .db %sff%d(1)", pre.c_str(), u)})); break; }
        case 14: ins(one({fmt("#define %sfg%d(", pre.c_str(), uniq++)})); break;
        case 15: { int u = uniq++; ins(one({fmt(" .dl unk%d", u), fmt(" jp nz,unk%d", u)})); break; }
        case 16: { int u = uniq++; ins(one({fmt("#define %sgg%d noo%d", pre.c_str(), u, u), fmt(" .dw %sgg%d", pre.c_str(), u)})); break; }
        case 17: ins(one({" set 8,b", " res 9,(hl)"})); break;
        case 18: { int u = uniq++; ins(one({fmt("#macro %smu%d(x)", pre.c_str(), u), fmt(" .dw x+und%d", u), "#endmacro", fmt(" %smu%d(3)", pre.c_str(), u)})); break; }
        case 6: ins(one({" .show nothere"})); break;
        case 7: { int u = uniq++; ins(one({fmt("#define %scf%d 1", pre.c_str(), u), fmt("%scf%d:", pre.c_str(), u)})); break; }
        case 8: { int u = uniq++; ins(one({fmt("%scl%d:", pre.c_str(), u), fmt("#define %scl%d 1", pre.c_str(), u)})); break; }
        case 9: ins(one({"#import"})); break;
        case 4: ins(one({" jp +" + std::string(q.range(1, 3), '_')})); break;     // no such reusable label: the last one is behind
        case 5: ins(one({" jp -" + std::string(q.range(1, 5), '_')})); break;
        case 0: ins(one({fmt(" .dw nosuch%d", uniq++)})); break;
        case 1: ins(one({" bit 9,a"})); break;
        case 2: ins(one({" #include"})); break;
        default: ins(one({fmt(" ld hl,undef%d+2", uniq++)})); break;
      }
    }
    if (st.feat & FE_FATAL) for (int k = q.range(1, 2); k--;) {
      p.nfatal++;
      static const char *FL[] = {" .org 5\n .seek 1",
        " .addinstr BAD",
        " .fill -1",
        " .echo 5/0",
        "#define dq(a,a) a",
        " rst 9",
        " .db 5/0",
        " .db 99999999999",
        " .db 3+",
        "#elif 1",
        "#else",
        "#if",
        "#define",
        "#undef",
        "#defcont x",
        "#macro",
        " .option",
        " .option 5=3",
        " .seek",
        " .org",
        " .org -5",
        " .assume adq=1",
        " .equ 5",
        " .echo >",
        "#include nofile.inc",
        " .addinstr FOO * AAXX 3 NOP 1",
        " .db 12q",
        " ld hl,5/0",
        " buf(99)",
        " .frobnicate 3", " .addinstr FOO", " .addinstr FOO * 0102030405060708090A 9 NOP 1", " .option =5", " .org $8000\n .db 1\n .seek 7", " .assume foo=1", " .assume",
        "#define NVX\n NVX", "#define RLX RLX+1\n .db RLX", " .db $G1", " .db %102", " .db 12z", " ld a,(ix*5)", " ld q,5", "#ifdef", "#ifndef", "#include \"x", " = 5", "5abc: .db 1",
        " jr -_", " djnz $+500", " im 7", " .db @5", " .db getc(\"nothere.dat\",3)", " .db getc(\"nothere.dat\")", "#if 1\n .db 1", "#macro NOEND\n .db 1", "#import \"nothere.dat\"",
        " ld a,(hl),b", " .db 1,,2", " .fill", "#elif", " .addinstr A B C D"};
      if (q.chance(60)) { ins(one({q.pick(std::vector<std::string>(FL, FL + sizeof FL / sizeof *FL))})); continue; }
      switch (q.below(9)) {
        case 0: ins(one({" .error \"stop here\""})); break;
        case 6: ins(one({"#comment", "never closed"})); break;
        case 7: ins(one({"#comment", "#if the word opens a level", "#endcomment"})); break;
        case 1: ins(one({" frobnicate a,b"})); break;
        case 2: ins(one({" ld a,(ix+300)"})); break;
        case 3: ins(one({"#include \"nowhere.inc\""})); break;
        case 4: ins(one({" jr $+1000"})); break;
        case 5: ins(one({"#endif"})); break;
        default: ins(one({"#unknownthing"})); break;
      }
    }
    if (st.feat & FE_SOFT) for (int k = q.range(1, 2); k--;) {     // errors after which the assembler returns by itself instead of ending the process
      p.nfatal++; int u = uniq++; std::string many, digits(300, '1'); for (int j = 0; j < 17; j++) many += fmt("%sa%d", j ? "," : "", j);
      switch (q.below(8)) {
        case 0: ins(one({" .seek 99999999"})); break;
        case 1: ins(one({fmt("#define %ssq%d(a,b,a) a", pre.c_str(), u)})); break;
        case 2: ins(one({fmt("#define %ssm%d(", pre.c_str(), u) + many + ") a0"})); break;
        case 3: ins(one({" .db " + digits})); break;
        case 4: ins(one({fmt("#macro %ssg%d(x)", pre.c_str(), u), " .db x", " .seek 99999999", "#endmacro", fmt(" %ssg%d(3)", pre.c_str(), u)})); break;
        case 5: ins(one({"#if 1", fmt("#define %ssc%d(c,c) c", pre.c_str(), u), "#else", " .db 3", "#endif"})); break;
        case 6: ins(one({fmt("#macro %ssn%d(x,x)", pre.c_str(), u), " .db x", "#endmacro"})); break;
        default: ins(one({fmt("#define %sse%d(x) x+", pre.c_str(), u) + "1", fmt(" .dw %sse%d(", pre.c_str(), u) + digits + ")"})); break;
      }
    }
    if ((st.feat & FE_WILD) && q.chance(8)) { Chunk c = one({" wr(\" .db 7,8\")", " buf(0)", " run()"}); c.opaque = true; out.insert(out.begin(), c); }   // nothing selected yet: the first buffer
    if (st.feat & FE_PROBE) for (int k = q.range(1, 3); k--;) {
      p.nerr++;
      switch (q.below(14)) {
        case 0: case 1: case 2: { Chunk c = one({" jp +" + std::string(q.range(1, 3), '_')}); c.opaque = true; out.push_back(c); break; }
        case 3: ins(one({" jp -" + std::string(q.range(1, 4), '_')})); break;
        case 4: ins(one({fmt(" LKO%d", q.range(0, 2))})); break;
        case 5: ins(one({" run()"})); break;
        case 6: ins(one({" .db __bm_shd"})); break;
        case 7: ins(one({"#defcont three"})); break;
        case 8: ins(one({q.chance(50) ? "#endif" : "#endcomment"})); break;
        case 9: ins(one({fmt(" .dw %sglob%d", pre.c_str(), q.range(0, 6))})); break;
        case 10: ins(one({fmt(" %sunm%d(1)", pre.c_str(), q.range(0, 6))})); break;
        case 11: ins(one({"#ifdef __bm_shd", " .db 1", "#else", " .db 2", "#endif"})); break;
        case 12: ins(one({fmt(" .db %sleak%d", pre.c_str(), q.range(0, 6))})); break;
        default: ins(one({" .echo $"})); break;
      }
    }
    if (st.feat & FE_LEAK) for (int k = q.range(1, 3); k--;) {
      int u = uniq++;
      switch (q.below(11)) {
        case 10: ins(one({"#comment"})); break;
        case 0: ins(one({"#if 1"})); break;                                   // never closed
        case 1: ins(one({fmt("#define %sleak%d one", pre.c_str(), u), "#defcont two"})); break;
        case 2: ins(one({" buf(2)", " wr(\" .db 1\")"})); break;              // filled, never run
        case 3: ins(one({" .nolist"})); break;
        case 4: ins(one({"_:", " nop"})); break;
        case 5: ins(one({fmt(" .option bm_shd=4")})); break;
        case 6: ins(one({fmt("%sglob%d:", pre.c_str(), u)})); break;
        case 7: ins(one({fmt("#macro %sunm%d(a)", pre.c_str(), u), " nop", "#endmacro"})); break;
        case 8: ins(one({" .org $4321"})); break;
        default: ins(one({fmt(" .addinstr LKO%d \"\" 3C 1 NOP 1", u % 3), fmt(" LKO%d", u % 3)})); break;
      }
    }
  }

  void finish_file(SrcFile &f, std::string &text) {
    std::string nl = f.crlf ? "\r\n" : "\n";
    for (auto &c : f.chunks) { if (dropped(c)) continue; for (auto &l : c.lines) text += l + nl; }
    if (text.empty()) text = "; empty" + nl;
    if (f.bom) text = "\xEF\xBB\xBF" + text;
    if (f.nonl && text.size() >= nl.size()) text.resize(text.size() - nl.size());
  }
  bool dropped(const Chunk &c) { return std::find(st.drop.begin(), st.drop.end(), c.id) != st.drop.end(); }

  int pc, out_len; std::map<std::string, int> labval; std::vector<std::pair<const Chunk *, int>> order; std::vector<int> gaps;
  void walk(const std::vector<Chunk> &cs, int depth) {
    for (auto &c : cs) {
      if (dropped(c)) continue;
      if (!c.label.empty()) labval[c.label] = pc;
      if (c.has_org) pc = c.org;
      order.push_back({&c, pc});
      if (c.include >= 0 && depth < 20) { walk(files[c.include].chunks, depth + 1); continue; }
      for (auto &a : c.atoms) pc += a.w;
      pc += c.gap;
    }
  }

  void build() {
    static const char *const LONG_DIR = "/home/user/My Projects (2026)/calc.d/a_rather_long_directory_name";
    ez80 = st.opts & OP_E;
    pre = std::string(1, (char)('p' + st.slot % 4)) + "q";
    add_dirs(p.disk);
    p.cwd = "/w";
    bool inl = st.opts & OP_V;   // the program is given on the command line
    if (inl) { st.opts &= ~(uint32_t)(OP_ABS | OP_DEFOUT | OP_DOTSLASH | OP_OUTDIR | OP_ABSOUT | OP_NAMES | OP_STEM); st.ext = 0; }
    // names: no extension, several dots, dots in directories
    Rng rn(st.gseed ^ 0x4A4A); bool odd = st.opts & OP_NAMES; int oddsrc = odd ? rn.range(0, 3) : 0, oddout = odd ? rn.range(0, 3) : 0, oddir = odd ? rn.range(0, 3) : 0;
    if (oddout == 1) st.ext = 0;   // without an extension the image is a .bin
    progdir = (st.opts & OP_ABS) ? oddir == 2 ? LONG_DIR : (oddir & 1) ? "/src.d/prog" : "/src/prog" : "/w";
    dirs.push_back(progdir);
    int nd = (st.feat & FE_DIRS) ? r.range(1, 3) : 0; Rng rd(st.gseed ^ 0xD1D1); if (nd && rd.chance(15)) nd = rd.range(4, 14);   // more of them than anybody would count
    static const char *DN[] = {"inc", "lib/z80", "/usr/local/share/asm", "../shared", "d0", "/w/d1", "d2", "d3", "/w/d4", "d5", "d6", "d7", "/w/d8", "d9"};
    std::vector<std::string> dargs; int base = (int)r.below(4);
    for (int i = 0; i < nd; i++) {
      std::string d = nd > 4 ? DN[(base + i) % 14] : DN[(base + i) % 4]; dargs.push_back(d);
      dirs.push_back(d[0] == '/' ? d : d == "../shared" ? "/shared" : "/w/" + d);
    }
    targets = {pre + "report.txt", pre + "app.log", "logs/" + pre + "build.txt"};
    if (st.feat & FE_APPEND) targets = {pre + "app.log", "logs/" + pre + "app2.log"};

    std::vector<Chunk> top; Rng qs = rs;
    SrcFile mainf; mainf.crlf = r.chance(15); mainf.nonl = r.chance(15); mainf.bom = r.chance(8);
    files.reserve(64);
    if (st.shared) {       // shared include files first, generated from the shared seed only
      uint32_t keep = uniq; std::vector<Chunk> sh; std::string kp = pre; pre = "zq";
      int nsh = qs.range(1, 3);
      for (int i = 0; i < nsh; i++) {
        int idx = (int)files.size(); files.push_back(SrcFile()); SrcFile f; f.ref = fmt("shared%d.inc", i);
        std::vector<Chunk> cs; int n = qs.range(1, 5); for (int k = 0; k < n; k++) cs.push_back(data_chunk(qs, false));
        f.chunks = cs; files[idx] = f; Chunk c; c.lines = {"#include \"" + f.ref + "\""}; c.include = idx; sh.push_back(c);
      }
      std::string d; size_t len = qs.below(5000); for (size_t k = 0; k < len; k++) d += (char)qs.below(256);
      place("shared.bin", d, qs, &p.imports); Chunk c; c.lines = {"#import \"shared.bin\""}; str(c, d); c.uses = "shared.bin"; sh.push_back(c);
      pre = kp; uniq = keep;
      top.insert(top.end(), sh.begin(), sh.end());
    }
    Rng q(st.gseed ^ 0x77);
    gen_chunks(q, top, st.size, 0, true, true);
    if (st.feat & FE_BITMAP) {
      int nb = (st.feat & FE_DEEP) && q.chance(50) ? q.range(3, 12) : q.range(1, 2);
      for (int i = 0; i < nb; i++) {
        std::string ref = fmt("%spic%d.bmp", pre.c_str(), i); int bpp = q.chance(35) ? 24 : q.chance(40) ? 1 : q.chance(50) ? 8 : q.chance(60) ? 4 : 32;
        int w = q.range(1, 40), h = q.range(1, 12);
        std::string bmp = make_bmp(q, bpp, w, h, q.chance(20) ? 1 : 0);
        if ((st.feat & FE_ERR) && q.chance(25)) { p.nerr++; bmp[q.chance(50) ? 10 : q.chance(50) ? 14 : 30] += 4; }   // a picture whose header is wrong
        place(ref, bmp, q, &p.bitmaps);
        Chunk c; c.opaque = true;
        if (q.chance(45)) {
          static const char *BO[] = {"bm_shd=4", "bm_shd=2", "bm_shd=8", "bm_msk=1", "bm_msk=0", "bm_msk_1st=1", "bm_msk_inv=1", "bm_hdr=1, bm_hdr_fmt=\"w,h\"", "bm_hdr=1, bm_hdr_fmt=\"ww hh b ss\"", "bm_hdr=0",
            "bm_hdr=1, bm_hdr_fmt=\"w;h s b\"", "bm_hdr=1, bm_hdr_fmt=\"hh;ww;s\"", "bm_min_w=8", "bm_min_w=16", "bm_min_w=64", "bm_inv_rgb=$FFFFFF", "bm_inv_rgb=0", "bm_msk_rgb=0", "bm_msk_rgb=$FFFFFF", "bm_pad=1", "bm_hdr=1, bm_hdr_fmt=\"\"", "bm_hdr=1, bm_hdr_fmt=\",; \""};
          for (int k = q.range(1, 3); k--;) c.lines.push_back(std::string(" .option ") + BO[q.below(sizeof BO / sizeof *BO)]);
          if (w > 4 && h > 4 && q.chance(15)) c.lines.push_back(fmt(" .option bm_map=\"%d,%d\"", q.range(1, 2), q.range(1, 2))), p.bmmap = true;
        }
        if (q.chance(40)) c.lines.push_back(fmt("%spicl%d:", pre.c_str(), i));
        c.lines.push_back("#include \"" + ref + "\""); top.push_back(c);
      }
    }
    if (st.feat & FE_MISSING) {
      p.missing = pre + "absent.inc"; Chunk c; c.lines = {(q.chance(50) ? "#include \"" : "#import \"") + p.missing + "\""}; c.opaque = true; p.nfatal++;
      top.insert(top.begin() + q.below(top.size() + 1), c);
    }
    // forward labels are defined near the end
    for (auto &f : fwd) { Chunk c; c.label = f; c.lines = {f + ":", " .db 1"}; bytes(c, {1}); size_t at = top.size(); 
      top.insert(top.begin() + at, c); }
    diag_chunks(q, top);
    if ((st.feat & FE_HUGE) && q.chance(40)) top.insert(top.begin() + q.below(top.size() + 1), pad_chunk(q));
    if (st.feat & FE_HUGE) huge_chunks(top);
    {
      Chunk h; // program header
      std::string ext = output_exts[st.ext % output_exts.size()];
      if (ext == "8xp" && !(st.feat & FE_NOHDR)) { h.lines = {" .org $9D93", ez80 ? " .db $EF,$7B" : " .db $BB,$6D"}; h.has_org = true; h.org = 0x9D93; bytes(h, {ez80 ? 0xEF : 0xBB, ez80 ? 0x7B : 0x6D}); }
      else if (ext == "8xk") {
        h.lines = {" .org $4000", " .db $80,$0F,0,0,0,0,$80,$12,1,4,$80,$21,1,$80,$31,1,$80,$48,\"TestApp \",$80,$81,1,$80,$90,$03,$26,9,4,4,$6f,$1b,$80,$70"};
        h.opaque = true; h.has_org = true; h.org = 0x4000;
        h.lines = {" .org $4000", " .db $80,$0F,0,0,0,0", " .db $80,$12,$01,$04", " .db $80,$21,1", " .db $80,$31,1", fmt(" .db $80,$4%d,\"%s\"", (int)(1 + q.below(8)), "") };
        std::string nm = "TESTAPPX"; int nl = q.range(1, 8); nm = nm.substr(0, nl);
        h.lines.pop_back(); h.lines.push_back(fmt(" .db $80,$4%d,\"%s\"", nl, nm.c_str()));
        h.lines.push_back(" .db $80,$81,1"); h.lines.push_back(" .db $80,$70");
      } else if (q.chance(60)) { int o = q.range(0, 0x80) * 0x100; h.lines = {fmt(" .org $%04X", o)}; h.has_org = true; h.org = o; }
      if (h.lines.size()) top.insert(top.begin(), h);
    }
    // ids
    for (auto &c : top) c.id = next_id++;
    for (auto &f : files) for (auto &c : f.chunks) c.id = next_id++;
    p.nchunks = next_id;
    mainf.chunks = top; if (inl) mainf.bom = false;

    // model
    pc = 0; walk(mainf.chunks, 0);
    int at = 0; (void)at;
    std::map<std::string, int> used;
    for (auto &oc : order) { if (oc.first->include >= 0) used[files[oc.first->include].ref]++; else if (!oc.first->uses.empty()) used[oc.first->uses]++; }
    std::set<std::string> defined; for (auto &kv : labval) defined.insert(kv.first);
    for (auto &oc : order) {
      const Chunk &c = *oc.first; int cpc = oc.second;
      if (c.has_echo) p.echo[c.echo_path].push_back({c.echo_append, c.echo_text});
      for (auto &n : c.needs) if (!defined.count(n)) p.model = false;
      if (p.opaque) continue;
      if (c.opaque) { p.opaque = true; continue; }
      if (c.include >= 0) continue;
      for (auto &a : c.atoms) {
        if (a.kind == 0) p.bytes += (char)a.v;
        else if (a.kind == 1) { int v = labval[a.sym] + a.v; for (int k = 0; k < a.w; k++) p.bytes += (char)(v >> (8 * k)); }
        cpc += a.w;
      }
      p.bytes.append(c.gap, '\0');
    }
    // labels behind an opaque part are not known to the model
    if (p.opaque) {
      bool seen = false; std::set<std::string> after;
      for (auto &oc : order) { if (oc.first->opaque) seen = true; if (seen && !oc.first->label.empty()) after.insert(oc.first->label); }
      seen = false; for (auto &oc : order) { if (oc.first->opaque) break; for (auto &n : oc.first->needs) if (after.count(n)) p.model = false; }
    }

    // files on disk
    std::string mtext; finish_file(mainf, mtext);
    std::string mname = fmt(oddsrc == 1 ? "%smain" : oddsrc == 2 ? "%smain.v1.2.asm" : oddsrc == 3 ? "%smain.asm.z80" : "%smain.asm", pre.c_str());
    if (!inl) p.main_path = progdir + "/" + mname;
    if (!inl) { FileState f; f.data = mtext; p.disk[p.main_path] = f; p.inputs.push_back(p.main_path); }
    p.listing_source = "=== " + p.main_path + "\n" + mtext;
    Rng qd(st.shared ? st.shared ^ 5 : st.gseed ^ 5);
    for (auto &f : files) {
      std::string t; finish_file(f, t); if (f.ref.empty()) continue;
      size_t before = p.inputs.size(); place(f.ref, t, qd, &p.includes);
      p.listing_source += "=== " + p.inputs[before] + "\n" + t;
    }
    for (auto &u : used) if (placed.count(u.first)) p.occ[placed[u.first]] = u.second;
    // command line
    p.argv = {"spasm"};
    if (st.opts & OP_T) p.argv.push_back("-T");
    if (st.opts & OP_L) p.argv.push_back("-L");
    if (st.opts & OP_S) p.argv.push_back("-S");
    if (st.opts & OP_C) p.argv.push_back("-C");
    if (st.opts & OP_E) p.argv.push_back("-E");
    if (st.opts & OP_A) p.argv.push_back("-A");
    if (st.opts & OP_N) p.argv.push_back("-N");
    if (st.opts & OP_O) p.argv.push_back("-O");
    if (st.opts & OP_D) { if (r.chance(30)) p.argv.push_back("-D"), p.argv.push_back(pre + "cmd=7"); else p.argv.push_back(fmt("-D%scmd=7", pre.c_str())); if (st.gseed & 2) { if (r.chance(30)) p.argv.push_back("-D"), p.argv.push_back(pre + "flag"); else p.argv.push_back(fmt("-D%sflag", pre.c_str())); } }
    if (dargs.size() > 1 && r.chance(40)) { p.argv.push_back("-I"); std::string s; for (size_t i = 0; i < dargs.size(); i++) s += (i ? (r.chance(50) ? ";" : ",") : "") + dargs[i]; p.argv.push_back(s); }
    else for (auto &d : dargs) { if (r.chance(50)) { p.argv.push_back("-I"); p.argv.push_back(d); } else p.argv.push_back("-I" + d); }
    std::string marg = (st.opts & OP_ABS) ? p.main_path : (st.opts & OP_DOTSLASH) ? "./" + mname : mname;
    if (inl) { if (r.chance(30)) p.argv.push_back("-V" + mtext); else { p.argv.push_back("-V"); p.argv.push_back(mtext); } }
    else p.argv.push_back(marg);
    std::string ext = output_exts[st.ext % output_exts.size()], img;
    if (inl) { img = "-v.bin"; if (r.chance(30)) p.argv.push_back(pre + "ignored.8xp"); }
    else if (st.opts & OP_DEFOUT) { img = stem_of(marg) + ".bin"; }
    else {
      img = ((st.opts & OP_STEM) ? "common" : pre + "prog") + (oddout == 1 ? "" : (oddout == 2 ? ".v2.0." : oddout == 3 ? ".asm." : ".") + ext);
      img = ((st.opts & OP_ABSOUT) ? (oddir & 1) ? "/src.d/" : "/src/" : (st.opts & OP_OUTDIR) ? (oddir == 1) ? "out.d/" : oddir == 2 ? "../shared/" : "out/" : "") + img; p.argv.push_back(img);
    }
    if (r.chance(30)) {   // the options may come in any order, also behind the file names
      std::vector<std::vector<std::string>> g[4], all; const auto &v = p.argv;   // 0 free, 1 -I, 2 -D, 3 names and -V: the order within 1, 2 and 3 counts
      for (size_t i = 1; i < v.size(); i++) {
        int k = v[i].compare(0, 2, "-I") == 0 ? 1 : v[i].compare(0, 2, "-D") == 0 ? 2 : v[i][0] != '-' || v[i].compare(0, 2, "-V") == 0 ? 3 : 0;
        std::vector<std::string> w{v[i]}; if (v[i] == "-I" || v[i] == "-D" || v[i] == "-V") w.push_back(v[++i]);
        g[k].push_back(w);
      }
      size_t at[4] = {0, 0, 0, 0};
      for (;;) { size_t left = 0; for (int k = 0; k < 4; k++) left += g[k].size() - at[k]; if (!left) break; size_t x = r.below(left); int k = 0; while (x >= g[k].size() - at[k]) x -= g[k].size() - at[k], k++; all.push_back(g[k][at[k]++]); }
      p.argv.resize(1); for (auto &w : all) for (auto &s : w) p.argv.push_back(s);
    }
    if (st.opts & OP_BADOPT) {
      static const char *BAD[] = {"-Z", "-x", "--", "-", "-?", "-t", "--help", "-o"};
      size_t at = 1 + r.below(p.argv.size()); while (at > 1 && (p.argv[at - 1] == "-I" || p.argv[at - 1] == "-D" || p.argv[at - 1] == "-V")) at--;
      static const char *BARE[] = {"-I", "-D", "-V"};
      if (r.chance(40)) p.argv.push_back(BARE[r.below(3)]);   // an option whose value is missing
      else if (r.chance(25)) p.argv.insert(p.argv.begin() + at, r.chance(50) ? "-D=5" : "-D=");   // a define without a name
      else p.argv.insert(p.argv.begin() + at, BAD[r.below(8)]);
    }
    std::string aimg = img[0] == '/' ? img : img.compare(0, 3, "../") == 0 ? img.substr(2) : "/w/" + (img.compare(0, 2, "./") == 0 ? img.substr(2) : img);
    std::string stem = stem_of(aimg);
    if (!(st.opts & OP_O)) p.image = aimg;
    if (st.opts & OP_L) p.lab = stem + ".lab";
    if (st.opts & OP_T) p.lst = stem + ".lst";
  }
};

std::string stem_of(const std::string &path) { size_t d = path.rfind('.'), s = path.rfind('/'); return d == std::string::npos || (s != std::string::npos && d < s) ? path : path.substr(0, d); }

std::string make_bmp(Rng &r, int bpp, int w, int h, int clrs) {
  // clrs: the header says how many palette entries there are (fewer than the pixels could name)
  int used = !clrs ? 0 : bpp < 16 ? (int)r.range(1, 1 << bpp) : (int)r.range(1, 20);
  int row = ((w * bpp + 31) / 32) * 4, pal = used ? used * 4 : bpp < 16 ? (1 << bpp) * 4 : 0; std::string s;
  auto le = [&](uint32_t v, int n) { for (int i = 0; i < n; i++) s += (char)(v >> (8 * i)); };
  s += "BM"; le(54 + pal + row * h, 4); le(0, 4); le(54 + pal, 4); le(40, 4); le(w, 4); le(h, 4); le(1, 2); le(bpp, 2); le(0, 4); le(row * h, 4); le(0, 8); le(used, 4); le(0, 4);
  for (int i = 0; i < pal / 4; i++) { uint32_t v = bpp == 1 ? (i ? 0xFFFFFF : 0) : r.chance(30) ? (r.chance(50) ? 0xFFFFFF : 0) : (uint32_t)r.below(0x1000000); le(v, 4); }
  for (int i = 0; i < row * h; i++) s += (char)(r.chance(30) ? (r.chance(50) ? 0xff : 0) : r.below(256));
  return s;
}

void add_dirs(Disk &d) {
  for (const char *n : {"/w", "/w/d0", "/w/d1", "/w/d2", "/w/d3", "/w/d4", "/w/d5", "/w/d6", "/w/d7", "/w/d8", "/w/d9", "/w/inc", "/w/inc/sub", "/w/sub", "/w/lib", "/w/lib/z80", "/w/lib/z80/sub", "/w/out", "/w/out.d", "/w/logs", "/src.d", "/src.d/prog", "/src.d/prog/sub", "/src.d/prog/logs", "/src", "/src/prog",
                        "/src/prog/sub", "/src/prog/logs", "/shared", "/shared/sub", "/usr", "/usr/local", "/usr/local/share", "/usr/local/share/asm",
                        "/usr/local/share/asm/sub", "/tmp", "/var", "/var/tmp", "/home", "/home/user", "/dev", "/home/user/My Projects (2026)", "/home/user/My Projects (2026)/calc.d", "/home/user/My Projects (2026)/calc.d/a_rather_long_directory_name",
                        "/home/user/My Projects (2026)/calc.d/a_rather_long_directory_name/sub", "/home/user/My Projects (2026)/calc.d/a_rather_long_directory_name/logs"}) {
    FileState f; f.type = F_DIR; f.perm = 6; d[n] = f;
  }
}

std::string Program::echo_expected(const std::string &path, const Disk &before) const {
  std::string cur; auto b = before.find(path); if (b != before.end()) cur = b->second.data;
  auto it = echo.find(path);
  if (it != echo.end()) for (auto &e : it->second) { if (!e.append) cur.clear(); cur += e.text; }
  return cur;
}

// ------------------------------------------------------------------ programs that read what they have written (C26)
// The program writes files with .echo > and .echo >>, and includes, imports or reads them later on; the same program with
// OP_RWLIT has the text that must have been read in place of the reading.
struct RwBuilder {
  const Step &st; Program &p; bool lit; std::map<std::string, std::string> disk;   // contents by path relative to /w
  std::vector<std::string> dirs{""}; std::vector<std::string> out; std::set<std::string> defined; std::map<std::string, int> vars; std::string main_text;
  RwBuilder(const Step &s, Program &q) : st(s), p(q), lit(s.opts & OP_RWLIT) {}
  static bool text(const std::string &n) { return n.size() > 4 && n.compare(n.size() - 4, 4, ".inc") == 0; }
  std::string resolve(const std::string &n) const { for (auto &d : dirs) if (disk.count(d + n)) return d + n; return ""; }
  static std::string q(const std::string &s) { std::string o; for (char c : s) if (c == '\n') o += "\\n"; else if (c == '"') o += "\\\""; else if (c == '\t') o += "\\t"; else o += c; return o; }
  void db(const std::string &d) { if (!lit) return; std::string l; for (size_t i = 0; i < d.size(); i++) { l += (l.empty() ? " .db " : ",") + fmt("%d", (unsigned char)d[i]); if (i % 16 == 15) { out.push_back(l); l.clear(); } } if (!l.empty()) out.push_back(l); }
  // labels a text defines, seen through what it includes
  bool fits(const std::string &t, int level) const {
    if (level > 6) return false;
    for (size_t i = 0; i < t.size();) {
      size_t e = t.find('\n', i); std::string l = t.substr(i, e == std::string::npos ? e : e - i); i = e == std::string::npos ? t.size() : e + 1;
      if (l[0] == 'g' && l.find(':') != std::string::npos && defined.count(l.substr(0, l.find(':')))) return false;
      if (l.compare(0, 10, "#include \"") == 0 || l.compare(0, 9, "#import \"") == 0) { size_t a = l.find('"') + 1; std::string n = resolve(l.substr(a, l.size() - a - 1)); if (n.empty()) return false; if (l[2] == 'n' && !fits(disk.at(n), level + 1)) return false; }
    }
    return true;
  }
  // what the assembler does with a text: in the literal program its lines appear here
  void expand(const std::string &t) {
    for (size_t i = 0; i < t.size();) {
      size_t e = t.find('\n', i); std::string l = t.substr(i, e == std::string::npos ? e : e - i); i = e == std::string::npos ? t.size() : e + 1;
      auto name = [&]() { size_t a = l.find('"') + 1; return l.substr(a, l.find('"', a) - a); };
      if (l.compare(0, 10, "#include \"") == 0) { std::string n = resolve(name()); if (!n.empty()) { std::string s = disk[n]; expand(s); } continue; }
      if (l.compare(0, 9, "#import \"") == 0) { std::string n = resolve(name()); if (!n.empty()) db(disk[n]); continue; }
      if (l.compare(0, 7, " .echo ") == 0) { size_t b = l.rfind(' '); disk[name()] += l.substr(b + 1); continue; }
      if (l[0] == 'g' && l.find(':') != std::string::npos) defined.insert(l.substr(0, l.find(':')));
      if (l[0] == 'v' && l.find(" = ") != std::string::npos) vars[l.substr(0, l.find(' '))] = atoi(l.c_str() + l.find('=') + 2);
      if (lit) out.push_back(l);
    }
  }
  std::string line(Rng &r, uint32_t id, int k, const std::string &target, const std::vector<std::string> &names) {
    switch (r.below(11)) {
      case 0: case 1: return fmt(" .dw %d", (int)r.below(65536));
      case 2: return fmt("g%u_%d: .db %d", id, k, (int)r.below(256));
      case 3: return fmt("v%d = %d", (int)r.below(3), (int)r.below(256));
      case 4: return fmt(" .dw fin+%d", (int)r.below(9));
      case 5: return fmt(" .db \"%c%c\",0", (int)('A' + r.below(26)), (int)('a' + r.below(26)));
      case 6: return fmt("; remark %d", (int)r.below(100));
      case 7: { const std::string &n = r.pick(names); if (n > target && text(n) && !resolve(n).empty()) return "#include \"" + n + "\""; break; }
      case 8: { const std::string &n = r.pick(names); if (!text(n)) { if (r.chance(50)) return " .echo >> \"" + n + "\" " + fmt("%d", (int)r.below(1000)); if (!resolve(n).empty()) return "#import \"" + n + "\""; } break; }
      case 9: return " ld a,v" + fmt("%d", (int)r.below(3));
    }
    std::string s = fmt(" .db %d", (int)r.below(256)); for (int j = (int)r.below(4); j > 0; j--) s += fmt(",%d", (int)r.below(256)); return s;
  }
  void build() {
    Rng g(st.gseed); std::string cwd = "/w"; p.cwd = cwd; add_dirs(p.disk);
    std::vector<std::string> all = {"aa.inc", "bb.inc", "cc.inc", "tab.dat", "raw.bin"}, names; int nn = g.range(1, 4);
    for (int i = 0; i < nn; i++) { std::string n = g.pick(all); if (std::find(names.begin(), names.end(), n) == names.end()) names.push_back(n); }
    std::map<std::string, std::string> fn; for (size_t i = 0; i < names.size(); i++) if (g.chance(25)) fn[names[i]] = fmt("FN%zu", i);
    for (auto &e : fn) main_text += "#define " + e.second + " \"" + e.first + "\"\n";
    auto called = [&](Rng &r, const std::string &n) { auto it = fn.find(n); return it != fn.end() && r.chance(60) ? it->second : "\"" + n + "\""; };
    bool many = st.feat & FE_DIRS; std::vector<std::string> argv = {"spasm"};
    if (many) for (const char *d : {"inc", "lib"}) { FileState f; f.type = F_DIR; p.disk[cwd + "/" + d] = f; dirs.push_back(std::string(d) + "/"); argv.push_back("-I"); argv.push_back(d); }
    std::vector<std::string> places; for (auto &d : dirs) for (auto &n : names) places.push_back(d + n);
    for (auto &pl : places) if (g.chance(35)) { std::string t; if (text(pl)) for (int k = (int)g.below(4); k > 0; k--) t += fmt(" .db %d\n", (int)g.below(256)); else t = std::string(g.below(g.chance(10) ? 9000 : 30), (char)g.range('a', 'z')); disk[pl] = t; FileState f; f.data = t; p.disk[cwd + "/" + pl] = f; }
    bool macros = g.chance(40); std::string org = g.chance(50) ? fmt(" .org $%X", (int)g.range(0x4000, 0x9D95)) : "";
    if (!org.empty()) main_text += org + "\n";
    for (int i = 0; i < 3; i++) { int v = (int)g.below(256); vars[fmt("v%d", i)] = v; main_text += fmt("v%d = %d\n", i, v); }
    if (macros) for (size_t i = 0; i < names.size(); i++) main_text += fmt("#macro PUT%zu(pa)\n", i) + (lit ? " .db 0\n" : " .echo >> \"" + names[i] + "\" " + (text(names[i]) ? "\" .db \",pa,\"\\n\"" : "pa") + "\n") + "#endmacro\n";
    p.nchunks = (uint32_t)st.size;
    for (uint32_t id = 0; id < p.nchunks; id++) {
      Rng r((st.gseed + id) * 0xD1B54A32D192ED03ULL ^ (uint64_t)(id + 1) << 40); if (std::find(st.drop.begin(), st.drop.end(), id) != st.drop.end()) continue;
      out.clear(); int what = (int)r.below(100); std::string place = r.pick(places); bool tx = text(place);
      auto emit = [&](const std::string &l) { if (!lit) out.push_back(l); };
      if (what < 45) {
        bool app = r.chance(60); int pieces = r.range(1, 4); std::string target = place.substr(place.rfind('/') == std::string::npos ? 0 : place.rfind('/') + 1);
        for (int k = 0; k < pieces; k++) {
          std::string &d = disk[place]; bool over = k == 0 && !app; if (over) d.clear();
          std::string arg, add; bool whole = true;
          if (tx) {
            bool open = !d.empty() && d.back() != '\n'; size_t ls = d.rfind('\n'); std::string last = d.substr(ls == std::string::npos ? 0 : ls + 1);
            if (open) { if (last.compare(0, 5, " .db ") == 0 && r.chance(60)) add = fmt(",%d", (int)r.below(256)); else add = "\n"; whole = r.chance(50); }
            else { add = line(r, id, k, target, names); whole = r.chance(75); }
            if (whole) add += "\n";
            if (add == "\n\n") add = "\n";
            arg = "\"" + q(add) + "\"";
            if (!open && add.compare(0, 5, " .db ") == 0 && r.chance(50)) { int j = (int)r.below(3); std::string v = fmt("%d", vars[fmt("v%d", j)]); add = " .db " + v + "\n"; arg = fmt("\" .db \",v%d,\"\\n\"", j); }
          } else { int j = (int)r.below(3), num = (int)r.below(70000); std::string s; for (int m = (int)r.below(r.chance(8) ? 200 : 12); m > 0; m--) s += (char)r.range('A', 'Z'); if (r.chance(20)) s += "\n"; std::string vn = fmt("v%d", j); add = s; arg = "\"" + q(s) + "\""; if (r.chance(50)) { add += fmt("%d", num); arg += fmt(",%d", num); } if (r.chance(40)) { add += fmt("%d", vars[vn]); arg += "," + vn; } }
          d += add; p.echo[cwd + "/" + place].push_back({!over, add});
          std::string nm = called(r, place); emit(std::string(" .echo ") + (over ? ">" : ">>") + (nm[0] != '"' || r.chance(80) ? " " : "") + nm + " " + arg);
        }
      } else if (what < 52 && macros) {
        size_t i = r.below(names.size()); int v = (int)r.below(256); auto it = disk.find(names[i]); bool tn = text(names[i]);
        if (!tn || it == disk.end() || it->second.empty() || it->second.back() == '\n') { disk[names[i]] += fmt(tn ? " .db %d\n" : "%d", v); emit(fmt(" PUT%zu(%d)", i, v)); }
      } else if (what < 90) {
        std::string base = place.substr(place.rfind('/') == std::string::npos ? 0 : place.rfind('/') + 1), ref = r.chance(70) ? base : place, at = ref == base ? resolve(base) : disk.count(place) ? place : "";
        if (at.empty()) {}
        else if (tx) { std::string t = disk[at]; std::set<std::string> seen; if (fits(t, 0) && once(t, seen, 0)) { emit("#include \"" + ref + "\""); expand(t); } }
        else if (r.chance(50) || disk[at].empty()) { emit("#import \"" + ref + "\""); db(disk[at]); }
        else if (disk.count(place) && !disk[place].empty()) { const std::string &d = disk[place]; size_t n = r.below(d.size()); std::string e = "getc(" + called(r, place) + fmt(",%zu)", n); int v = (unsigned char)d[n], j = (int)r.below(3); if (lit) e = fmt("%d", v); if (r.chance(50)) out.push_back(" .db " + e + ",$EE"); else { out.push_back(fmt("v%d = ", j) + e); out.push_back(fmt(" .db v%d", j)); vars[fmt("v%d", j)] = v; } }
      } else { int j = (int)r.below(3), v = (int)r.below(256); out.push_back(fmt("v%d = %d", j, v)); vars[fmt("v%d", j)] = v; out.push_back(fmt(" .db v%d,$%X", j, (int)id & 255)); }
      std::string t; for (auto &l : out) t += l + "\n";
      if (r.chance(12)) { std::string fn = fmt("part%u.z80", id); FileState f; f.data = t; p.disk[cwd + "/" + fn] = f; p.inputs.push_back(cwd + "/" + fn); main_text += "#include \"" + fn + "\"\n"; }
      else if (r.chance(12)) main_text += "#if 1\n" + t + "#endif\n";
      else main_text += t;
    }
    main_text += "fin:\n .db $C9\n";
    static const int EXT[] = {0, 0, 0, 1, 1, 2, 3, 4};
    std::string ext = output_exts[EXT[st.ext % 8]]; p.main_path = cwd + "/prog.z80"; p.image = cwd + "/prog." + ext; FileState f; f.data = main_text; p.disk[p.main_path] = f; p.inputs.push_back(p.main_path); p.listing_source = main_text;
    if (st.opts & OP_L) { argv.push_back("-L"); p.lab = cwd + "/prog.lab"; }
    argv.push_back("prog.z80"); argv.push_back("prog." + ext); p.argv = argv; p.model = false;
  }
  // does the text, with what it includes, define each label at most once?
  bool once(const std::string &t, std::set<std::string> &seen, int level) const {
    if (level > 6) return false;
    for (size_t i = 0; i < t.size();) {
      size_t e = t.find('\n', i); std::string l = t.substr(i, e == std::string::npos ? e : e - i); i = e == std::string::npos ? t.size() : e + 1;
      if (l[0] == 'g' && l.find(':') != std::string::npos) { std::string n = l.substr(0, l.find(':')); if (seen.count(n)) return false; seen.insert(n); }
      if (l.compare(0, 10, "#include \"") == 0) { size_t a = l.find('"') + 1; std::string n = resolve(l.substr(a, l.size() - a - 1)); if (n.empty() || !once(disk.at(n), seen, level + 1)) return false; }
    }
    return true;
  }
};

void build_program(const Step &st, Program &p) { p = Program(); if (st.opts & OP_RW) { RwBuilder b(st, p); b.build(); return; } Builder b(st, p); b.build(); }

bool decode_image(const std::string &ext, const std::string &f, std::string &out) {
  auto u16 = [&](size_t i) { return (unsigned char)f[i] | ((unsigned char)f[i + 1] << 8); };
  out.clear();
  if (ext == "bin" || ext == "obj") { out = f; return true; }
  if (ext == "rom") { out = f; return f.size() == 512 * 1024; }
  if (ext == "hex") {
    size_t i = 0; unsigned expect = 0; bool first = true, eof = false;
    while (i < f.size()) {
      if (f[i] == '\r' || f[i] == '\n') { i++; continue; }
      if (f[i] != ':') { out = "bad record start"; return false; }
      auto hb = [&](size_t k) { auto h = [](char c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; return h(f[k]) * 16 + h(f[k + 1]); };
      if (i + 11 > f.size()) { out = "short record"; return false; }
      int len = hb(i + 1), addr = hb(i + 3) * 256 + hb(i + 5), type = hb(i + 7);
      if (i + 11 + 2 * len > f.size()) { out = "short record"; return false; }
      if (type == 0) { (void)addr; (void)expect; (void)first; for (int k = 0; k < len; k++) out += (char)hb(i + 9 + 2 * k); }
      if (type == 1) eof = true;
      i += 11 + 2 * len;
    }
    if (!eof) { out = "no end record"; return false; }
    return true;
  }
  if ((ext == "8xp" || ext == "83p" || ext == "82p") && f.size() > 60) {
    (void)u16; return false;
  }
  return false;
}

Env default_env() { Env e; e.envv = {"PATH=/usr/bin", "HOME=/home/user", "LANG=C"}; return e; }
Env random_env(uint64_t seed) {
  Rng r(seed ^ 0xE4B); Env e;
  e.seed = r.next(); e.garbage = (uint8_t)r.below(4); e.stack_off = (uint32_t)r.below(60000); e.heap_off = (uint32_t)r.below(60000);
  e.pad = (uint8_t)r.below(5); e.reuse = (uint8_t)r.below(3); e.move = (uint8_t)r.below(2);
  static const uint32_t BS[] = {512, 1024, 4096, 64, 100, 8192, 65536}; e.blksize = BS[r.below(7)];
  e.clock_ms = 1000LL * (int64_t)r.below(4000000000ULL) + (int64_t)r.below(1000);
  e.lat_us = (uint32_t)(r.below(4) == 0 ? r.below(200000) : r.below(2000));
  e.envv = {"PATH=/usr/bin", "HOME=/home/user"};
  static const char *V[] = {"LANG=de_DE.UTF-8", "TERM=xterm-256color", "TERM=dumb", "NO_COLOR=1", "TZ=Asia/Kolkata", "COLUMNS=40", "USER=someone", "TMPDIR=/var/tmp", "SPASM=-T", "SOURCE_DATE_EPOCH=1", "INCLUDE=/tmp", "CLICOLOR_FORCE=1", "LC_ALL=tr_TR.UTF-8", "SPASM_INC=/tmp", "TZ=XYZ-5:30"};
  for (int i = 0; i < 15; i++) if (r.chance(30)) e.envv.push_back(V[i]);
  for (int i = (int)r.below(40); i > 0; i--) e.envv.push_back(fmt("FILL%d=%d", i, (int)r.below(100000)));
  e.tty = (uint8_t)r.below(2);
  if (r.chance(60)) e.fakeenv = (uint8_t)(1 + r.below(200));
  return e;
}
}
