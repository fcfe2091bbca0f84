// Seeded workload generator: programs of the assembler's own language, spread over several files,
// with a small independent model of what they must produce.
#pragma once
#include "kernel.h"
#include <set>

namespace sim {

enum Feat : uint32_t {
  FE_LABELS = 1, FE_INC = 2, FE_IMPORT = 4, FE_BITMAP = 8, FE_ECHO = 16, FE_ECHOFILE = 32, FE_MACRO = 64, FE_COND = 128,
  FE_OPC = 256, FE_LISTDIR = 512, FE_GETC = 1024, FE_WILD = 2048, FE_BIG = 4096, FE_SEEK = 8192, FE_WARN = 16384, FE_ERR = 32768,
  FE_FATAL = 65536, FE_TEXT = 1u << 17, FE_DATA = 1u << 18, FE_DEEP = 1u << 19, FE_DIRS = 1u << 20, FE_APPEND = 1u << 21,
  FE_APP = 1u << 22, FE_NOHDR = 1u << 23, FE_MISSING = 1u << 24, FE_LEAK = 1u << 25, FE_HUGE = 1u << 26, FE_SHLOG = 1u << 27, FE_PROBE = 1u << 28, FE_SOFT = 1u << 29,   // uses names and states that only another program sets up
 
};
enum Opt : uint32_t {
  OP_T = 1, OP_L = 2, OP_S = 4, OP_C = 8, OP_E = 16, OP_A = 32, OP_N = 64, OP_O = 128, OP_ABS = 256, OP_DEFOUT = 512, OP_D = 1024,
  OP_OUTDIR = 2048, OP_V = 4096, OP_DOTSLASH = 8192, OP_NAMES = 1u << 14, OP_ABSOUT = 1u << 15, OP_STEM = 1u << 16, OP_BADOPT = 1u << 17,
  OP_RW = 1u << 18, OP_RWLIT = 1u << 19,   // a program that reads what it has written, and the same with the text written out
};

struct Step {
  uint64_t gseed = 1;
  uint32_t feat = 0, opts = 0;
  int size = 10;
  int ext = 0;                 // index into output_exts
  int slot = 0;                // distinguishes product names (and main source names) of concurrent steps
  uint64_t shared = 0;         // seed of the shared include files (0: private to gseed)
  std::vector<uint32_t> drop;  // chunk ids left out (minimiser)
  Env env;
};

struct EchoEv { bool append; std::string text; };

struct Program {
  Disk disk;
  std::vector<std::string> argv;
  std::string cwd = "/w";
  std::string main_path, image, lab, lst;      // absolute; empty when the product is not requested
  std::vector<std::string> inputs;             // absolute paths of every contributing file
  std::vector<std::string> includes, imports, bitmaps, getcs;
  std::map<std::string, std::vector<EchoEv>> echo;
  bool bmmap = false;                          // a picture is used as an image map
  bool model = true, opaque = false;           // opaque: the model knows only a prefix of the image
  std::string bytes;                           // expected image contents (before the container)
  std::string listing_source;                  // program text for humans
  uint32_t nchunks = 0;
  int nwarn = 0, nerr = 0, nfatal = 0;         // diagnostics the program is written to provoke
  std::map<std::string, int> occ;              // how often each include/import is used
  std::map<std::string, std::string> refs;     // path -> name as written in the source
  std::string missing;                         // name of an input that exists nowhere
  std::set<std::string> products() const {
    std::set<std::string> s; if (!image.empty()) s.insert(image); if (!lab.empty()) s.insert(lab); if (!lst.empty()) s.insert(lst); return s;
  }
  std::string echo_expected(const std::string &path, const Disk &before) const;
};

extern const std::vector<std::string> output_exts;
void build_program(const Step &st, Program &p);
// decodes an image file back to the program bytes; false when the container is not modelled
bool decode_image(const std::string &ext, const std::string &file, std::string &bytes);
std::string stem_of(const std::string &path);   // without its extension
std::string hexdump(const std::string &s, size_t max = 64);
std::string make_bmp(Rng &r, int bpp, int w, int h, int clrs = 0);
void add_dirs(Disk &d);
Env default_env();
Env random_env(uint64_t seed);
}
