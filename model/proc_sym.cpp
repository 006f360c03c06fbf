// Symbolic build.
#include "proc.h"
#include <cstring>
#include <cstdlib>
#include <ctime>
#include <random>
extern "C" { extern unsigned gs_rand_; extern int gs_pid_; extern unsigned long gs_tid_; extern time_t gs_time_; extern int gs_rand_any_; extern void (*gs_open_hook)(const char *);
int gs_globals_save(void); void gs_globals_load(int); void srand(unsigned s);
static const char *gDir; static int gWho, nNames, gBy[64], gAt = -1, gAtArg; static const char *gNames[64]; static void (*gAtF)(int);
void gs_as_process(uint64_t pid, void (*f)(int), int arg) { int h = gs_globals_save(); unsigned r = gs_rand_; int p = gs_pid_; time_t t = gs_time_; int at = gAt; gs_globals_load(0); gs_rand_ = 1; gs_pid_ = (int)pid; gAt = -1; f(arg); gs_globals_load(h); gs_rand_ = r; gs_pid_ = p; gs_time_ = t; gAt = at; }
void gs_as_thread(uint64_t tid, void (*f)(int), int arg) { unsigned long t = gs_tid_; time_t tm = gs_time_; int at = gAt; gs_tid_ = tid; gAt = -1; f(arg); gs_tid_ = t; gs_time_ = tm; gAt = at; }
void gs_any_rand(int on) { gs_rand_any_ = on; }
static void hook(const char *p) { size_t n = strlen(gDir); if (strncmp(p, gDir, n)) return; bool known = false; for (int i = 0; i < nNames; i++) known |= gBy[i] == gWho && !strcmp(gNames[i], p); if (!known) { if (nNames == 64) gs_unsupported("temporary files"); gNames[nNames] = strdup(p); gBy[nNames++] = gWho; } if (gAt >= 0 && gAt-- == 0) gAtF(gAtArg); }
void gs_tmp_watch(const char *dir) { gDir = strdup(dir); gs_open_hook = hook; }
void gs_tmp_who(int who) { gWho = who; }
int gs_tmp_count(void) { return nNames; } const char *gs_tmp_name(int i) { return gNames[i]; } int gs_tmp_by(int i) { return gBy[i]; }
void gs_tmp_at(int k, void (*f)(int), int arg) { gAt = k; gAtF = f; gAtArg = arg; }
}
// an entropy source may return anything
namespace std { void random_device::_M_init(const std::string &) {} void random_device::_M_fini() {} unsigned int random_device::_M_getval() { return (unsigned)gs_sym("entropy", 32); } double random_device::_M_getentropy() const noexcept { return 32; } }
