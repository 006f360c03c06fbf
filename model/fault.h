/* included before every repository source of jobs with statement faults: calls go through gs_fault.cpp */
#pragma once
#include <sqlite3.h>
#ifdef __cplusplus
extern "C" {
#endif
int gsf_step(sqlite3_stmt*); int gsf_prepare(sqlite3*,const char*,int,sqlite3_stmt**,const char**); int gsf_exec(sqlite3*,const char*,int(*)(void*,int,char**,char**),void*,char**); int gsf_changes(sqlite3*);
int gsf_bind_text(sqlite3_stmt*,int,const char*,int,void(*)(void*)); int gsf_bind_blob(sqlite3_stmt*,int,const void*,int,void(*)(void*));
int gsf_open(const char*,sqlite3**,int,const char*); int gsf_cg_new(sqlite3_changegroup**); int gsf_cg_add(sqlite3_changegroup*,int,void*); int gsf_cg_output(sqlite3_changegroup*,int*,void**);
#ifdef __cplusplus
}
#endif
#ifndef GS_FAULT_IMPL
#define sqlite3_step gsf_step
#define sqlite3_prepare_v3(d,z,n,fl,o,t) gsf_prepare(d,z,n,o,t)
#define sqlite3_changes64 gsf_changes
#define sqlite3_bind_text64(s,i,p,n,f,e) gsf_bind_text(s,i,p,(int)(n),f)
#define sqlite3_bind_blob64(s,i,p,n,f) gsf_bind_blob(s,i,p,(int)(n),f)
#define sqlite3_open(f,o) gsf_open(f,o,6,0)
#define sqlite3_prepare_v2 gsf_prepare
#define sqlite3_exec gsf_exec
#define sqlite3_changes gsf_changes
#define sqlite3_bind_text gsf_bind_text
#define sqlite3_bind_blob gsf_bind_blob
#define sqlite3_open_v2 gsf_open
#define sqlite3changegroup_new gsf_cg_new
#define sqlite3changegroup_add gsf_cg_add
#define sqlite3changegroup_output gsf_cg_output
#endif
