// Both builds: the gs_fault_at-th database call of the code under test fails without taking effect
// (gs_fault_kind 2: gs_crash_fn is called instead and does not return: the process dies there;
// binding numbers cannot fail; gs_fault_kind 1: and the open transaction is rolled back, as SQLite does on a full disk or an I/O error).
#define GS_FAULT_IMPL
#include "fault.h"
#include "gs.h"
#include <string.h>
extern "C" {
int gs_fault_at = -1, gs_fault_kind = 0, gs_fault_count = 0, gs_fault_hit = 0; static int faulted; void (*gs_crash_fn)(void);
static int hit(sqlite3 *db) { if (gs_fault_count++ != gs_fault_at) { return 0; } gs_fault_hit = 1; if (gs_fault_kind == 2) gs_crash_fn(); if (gs_fault_kind == 1 && db) sqlite3_exec(db, "ROLLBACK", 0, 0, 0); return 10; }
int gsf_step(sqlite3_stmt *s) { faulted = 0; int r = hit(s ? sqlite3_db_handle(s) : 0); if (r) { faulted = 1; return r; } return sqlite3_step(s); }
int gsf_prepare(sqlite3 *d, const char *z, int n, sqlite3_stmt **o, const char **t) { int r = hit(0); if (r) { *o = 0; return r; } return sqlite3_prepare_v2(d, z, n, o, t); }
int gsf_exec(sqlite3 *d, const char *z, int (*c)(void *, int, char **, char **), void *a, char **e) { if (gs_fault_kind != 2 && !strncmp(z, "ROLLBACK", 8)) return sqlite3_exec(d, z, c, a, e); int r = hit(d); if (r) { if (e) *e = 0; return r; } return sqlite3_exec(d, z, c, a, e); }
int gsf_changes(sqlite3 *d) { return faulted ? 0 : sqlite3_changes(d); }
int gsf_bind_text(sqlite3_stmt *s, int i, const char *p, int n, void (*f)(void *)) { int r = hit(0); return r ? r : sqlite3_bind_text(s, i, p, n, f); }
int gsf_bind_blob(sqlite3_stmt *s, int i, const void *p, int n, void (*f)(void *)) { int r = hit(0); return r ? r : sqlite3_bind_blob(s, i, p, n, f); }
int gsf_open(const char *f, sqlite3 **o, int fl, const char *v) { int r = hit(0); if (r) { *o = 0; return r; } return sqlite3_open_v2(f, o, fl, v); }
int gsf_cg_new(sqlite3_changegroup **g) { int r = hit(0); if (r) { *g = 0; return r; } return sqlite3changegroup_new(g); }
int gsf_cg_add(sqlite3_changegroup *g, int n, void *p) { int r = hit(0); return r ? r : sqlite3changegroup_add(g, n, p); }
int gsf_cg_output(sqlite3_changegroup *g, int *n, void **p) { int r = hit(0); if (r) { *n = 0; *p = 0; return r; } return sqlite3changegroup_output(g, n, p); }
}
