// Harness API. In the symbolic build these are engine builtins; gs_native.cpp implements them for replay.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t gs_sym(const char *name, int bits);            // fresh arbitrary value
void gs_bytes(void *p, size_t n, const char *name);     // n arbitrary bytes
int gs_choice(const char *name, int n);                 // 0..n-1, explored separately
void gs_assume(int c);
void gs_check(int c, const char *label);                // the property
void gs_cover(const char *label);                       // must be reached (vacuity guard)
void gs_log(const char *name, uint64_t v);              // observation compared with the native run
void gs_log_bytes(const char *name, const void *p, size_t n);
uint64_t gs_conc(uint64_t v);                           // enumerate values of v
uint64_t gs_param(const char *name, uint64_t dflt);     // bound
void gs_unsupported(const char *what);                  // path leaves the model
void gs_end_path(const char *label);                    // stop this path here
uint64_t gs_heap_live(void);                            // live operator-new allocations
void gs_print(const char *s);
// file-system environment (model: in-memory; native: scratch directory)
const char *gs_path(const char *name);                  // full name of a scratch file
void gs_put_file(const char *path, const void *p, size_t n);
long gs_file_size(const char *path);                    // -1: does not exist
long gs_get_file(const char *path, void *buf, long max); // bytes copied, -1: does not exist
void gs_file_limit(long n);                             // writes beyond n bytes of any file fail (-1: no limit)
void gs_make_dir(const char *path);
int gs_count_files(void);                               // files in the scratch and temporary directories
void gs_capture(void);                                  // from here on standard output is kept ...
size_t gs_captured(char *buf, size_t max);              // ... and returned here
void gs_set_env(const char *name, const char *value);
int gs_native(void);
int gs_is_symbolic(uint64_t v);                         // does v depend on arbitrary inputs on this path
#ifdef __cplusplus
}
static inline uint64_t gs_u64(const char *n){ return gs_sym(n,64); }
static inline uint32_t gs_u32(const char *n){ return (uint32_t)gs_sym(n,32); }
static inline uint8_t gs_u8(const char *n){ return (uint8_t)gs_sym(n,8); }
static inline int gs_bool(const char *n){ return (int)gs_sym(n,1); }
#endif
