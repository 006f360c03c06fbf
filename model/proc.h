// Running calls as other processes and threads, and the names of files opened under the temporary directory.
#pragma once
#include "gs.h"
extern "C" {
// f runs in another process: its own copy of the library's variables and of the C library's generators; files are shared
void gs_as_process(uint64_t pid, void (*f)(int), int arg);
// f runs in another thread of this process while the current call is stopped at this point
void gs_as_thread(uint64_t tid, void (*f)(int), int arg);
void gs_any_rand(int on);                              // rand() returns arbitrary numbers
void gs_tmp_watch(const char *dir);                    // start recording names under dir
void gs_tmp_who(int who);                              // recorded with every name
int gs_tmp_count(void); const char *gs_tmp_name(int i); int gs_tmp_by(int i);
void gs_tmp_at(int k, void (*f)(int), int arg);        // f runs when the current process opens its k-th file there
}
