// The program under simulation is a client of the library interface (dll.cpp): it performs the
// calls given as arguments, in order, in one process.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern "C" {
void sim_mark();
int DllMain(void *, unsigned, void *);
int SetInputFile(const char *); int SetOutputFile(const char *);
int ClearDefines(); int AddDefine(const char *, const char *);
int ClearIncludes(); int AddInclude(const char *);
int RunAssembly();
int RunAssemblyWithArguments(char *, unsigned char *, int);
}
static int entry(int argc, char **argv) {
  DllMain(nullptr, 1, nullptr);
  int last = 0;
  for (int i = 1; i < argc; i++) {
    char *a = argv[i];
    if (!strncmp(a, "in:", 3)) SetInputFile(a + 3);
    else if (!strncmp(a, "out:", 4)) SetOutputFile(a + 4);
    else if (!strncmp(a, "inc:", 4)) AddInclude(a + 4);
    else if (!strncmp(a, "def:", 4)) { char *eq = strchr(a + 4, '='); if (eq) { *eq = 0; AddDefine(a + 4, eq + 1); *eq = '='; } else AddDefine(a + 4, nullptr); }
    else if (!strncmp(a, "cd:", 3)) { if (chdir(a + 3) != 0) return 9; }
    else if (!strncmp(a, "put:", 4)) {   // the host program (an editor, say) writes a file between two assemblies
      char *h = strchr(a + 4, ':'); *h = 0; FILE *f = fopen(a + 4, "wb"); *h++ = ':';
      if (f) { for (; *h; h += 2) { unsigned v; sscanf(h, "%2x", &v); putc((int)v, f); } fclose(f); }
    }
    else if (!strcmp(a, "clear")) { ClearDefines(); ClearIncludes(); }
    else if (!strcmp(a, "run")) { printf("@@BEGIN@@\n"); last = RunAssembly(); printf("@@RC=%d@@\n", last); fflush(stdout); sim_mark(); }
  }
  fflush(stdout);
  setvbuf(stdout, nullptr, _IONBF, 0);
  return last;
}
extern int (*const sim_entry)(int, char **);
int (*const sim_entry)(int, char **) = entry;
extern const bool sim_is_dll;
const bool sim_is_dll = true;
