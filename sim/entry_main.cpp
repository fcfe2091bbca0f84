// The program under simulation is the shipped command line program.
int spasm_main(int argc, char **argv);
extern int (*const sim_entry)(int, char **);
int (*const sim_entry)(int, char **) = spasm_main;
extern const bool sim_is_dll;
const bool sim_is_dll = false;
