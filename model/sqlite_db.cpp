// Symbolic build only: the SQLite C API used by the drivers and harnesses, on top of the SQL engine in sql.h.
// A database file holds a magic string and the number of a committed snapshot, so copies of files behave as copies.
#include <sqlite3.h>
#include <map>
#include "sql.h"
using namespace gsql;
struct sqlite3_value { SV v; std::string txt; bool conv; sqlite3_value() : conv(false) {} };
static std::vector<Db *> snaps;
static const char *MAGICS = "SQLite format 3";
struct sqlite3_stmt;
struct sqlite3 : Host {
  Session s; int err; std::string msg; int open; bool gpkg; char mutex; std::string path; bool bad;
  sqlite3() : err(0), open(0), gpkg(false), mutex(0), bad(false) { s.host = this; }
  static int read(const std::string &p, int64_t &id) { long n = gs_file_size(p.c_str()); id = 0; if (n < 0) return 14; if (n == 0) return 0; unsigned char b[24]; if (n != 24 || gs_get_file(p.c_str(), b, 24) != 24 || memcmp(b, MAGICS, 16)) return 26; for (int i = 0; i < 8; i++) id = id << 8 | b[16 + i]; if (id < 1 || id > (int64_t)snaps.size()) return 26; return 0; }
  void load(Att &a) override { int64_t id; int rc = read(a.path, id); if (rc) throw Error(rc, rc == 26 ? "file is not a database" : "unable to open database file"); if (id != a.id) { a.id = id; a.db = id ? *snaps[id - 1] : Db(); } }
  void save(Att &a) override { snaps.push_back(new Db(a.db)); a.id = (int64_t)snaps.size(); unsigned char b[24]; memcpy(b, MAGICS, 16); for (int i = 0; i < 8; i++) b[16 + i] = (unsigned char)(a.id >> (8 * (7 - i))); gs_put_file(a.path.c_str(), b, 24); }
  bool attach(const std::string &p, Att &a) override { if (gs_file_size(p.c_str()) < 0) { gs_put_file(p.c_str(), "", 0); if (gs_file_size(p.c_str()) < 0) return false; } a.path = p; a.id = -1; load(a); return true; }
  bool func(const std::string &n, std::vector<SV> &a, SV &r) override {
    if (!gpkg) return false;
    if (n == "st_isempty" && a.size() == 1) { r = svInt(a[0].s.empty()); return true; }
    if (n == "initspatialmetadata") { static const char *sql =
#include "gpkg_meta.inc"
      ; Parser p(sql); std::vector<SV> none; std::vector<Row> out; while (p.cur().k != T_END) { if (p.op(";")) continue; Stmt *st = p.statement(); s.depth++; try { s.exec(st, none, out); } catch (Error &) { s.depth--; throw; } s.depth--; } r = SV(); return true; }
    return false;
  }
};
struct sqlite3_stmt { sqlite3 *db; Stmt *st; std::string sql; std::vector<std::string> names; std::vector<SV> par; std::vector<Row> rows; sqlite3_value *cur; size_t ncur; size_t pos; int state; /*0 ready 1 running 2 halted*/ sqlite3_stmt() : db(nullptr), st(nullptr), cur(nullptr), ncur(0), pos(0), state(0) {} void dropRow() { if (cur) { delete[] cur; cur = nullptr; ncur = 0; } } };
static int fail(sqlite3 *d, int rc, const std::string &m) { d->err = rc; d->msg = m; return rc; }
static sqlite3_value nullValue;
extern "C" {
void gs_put_file(const char *, const void *, size_t);
int sqlite3_open_v2(const char *fn, sqlite3 **out, int flags, const char *) {
  sqlite3 *d = new sqlite3; *out = d; d->path = fn; long n = gs_file_size(fn); Att *a = new Att; a->name = "main"; a->path = fn; d->s.dbs.push_back(a);
  if (n < 0) { FILE *f = (flags & SQLITE_OPEN_CREATE) ? fopen(fn, "wb") : nullptr; if (!f) { d->bad = true; return fail(d, 14, "unable to open database file"); } fclose(f); }
  return 0;
}
int sqlite3_open(const char *fn, sqlite3 **out) { return sqlite3_open_v2(fn, out, SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE, nullptr); }
int sqlite3_close(sqlite3 *d) { if (!d) return 0; if (d->open) return fail(d, 5, "unable to close due to unfinalized statements"); d->s.rollbackAll(); for (auto a : d->s.dbs) delete a; delete d; return 0; }
const char *sqlite3_errmsg(sqlite3 *d) { return !d ? "out of memory" : d->err ? d->msg.c_str() : "not an error"; }
int sqlite3_errcode(sqlite3 *d) { return d->err; }
int sqlite3_extended_errcode(sqlite3 *d) { return d->err; }
sqlite3_mutex *sqlite3_db_mutex(sqlite3 *d) { return (sqlite3_mutex *)&d->mutex; }
void sqlite3_mutex_enter(sqlite3_mutex *m) { if (m) ++*(char *)m; }
void sqlite3_mutex_leave(sqlite3_mutex *m) { if (m) { if (*(char *)m == 0) gs_check(0, "mutex left without being entered"); --*(char *)m; } }
int sqlite3_enable_load_extension(sqlite3 *, int) { return 0; }
int sqlite3_gpkg_auto_init(sqlite3 *d, char **, const sqlite3_api_routines *) { d->gpkg = true; return 0; }
sqlite3 *sqlite3_db_handle(sqlite3_stmt *q) { return q ? q->db : nullptr; }
int sqlite3_get_autocommit(sqlite3 *d) { return !d->s.inTx(); }
int sqlite3_changes(sqlite3 *d) { return d->s.changes; }
int sqlite3_prepare_v2(sqlite3 *d, const char *sql, int n, sqlite3_stmt **out, const char **tail) {
  *out = nullptr; if (d->bad) return fail(d, 21, "bad parameter or other API misuse"); std::string z = n < 0 ? std::string(sql) : std::string(sql, strnlen(sql, n));
  try {
    // only the first statement counts: find its end with the tokenizer
    d->s.reload(); Parser p(z); while (p.op(";")) {} if (p.cur().k == T_END) { if (tail) *tail = sql + z.size(); d->err = 0; return 0; }
    Stmt *st = p.statement(); if (p.cur().k != T_END && !p.isOp(";")) p.syn(); size_t e = p.cur().k == T_END ? z.size() : p.cur().e; if (tail) *tail = sql + e; Session &s = d->s; s.prepareRefs(st, nullptr);
    sqlite3_stmt *q = new sqlite3_stmt; q->db = d; q->st = st; q->sql = z.substr(0, e); q->par.resize(st->nparam); d->open++; *out = q; d->err = 0; return 0;
  } catch (Error &e) { return fail(d, e.code, e.msg); }
}
int sqlite3_finalize(sqlite3_stmt *q) { if (!q) return 0; q->db->open--; q->dropRow(); delete q; return 0; }
int sqlite3_reset(sqlite3_stmt *q) { if (!q) return 0; q->dropRow(); q->rows.clear(); q->state = 0; q->pos = 0; return 0; }
int sqlite3_clear_bindings(sqlite3_stmt *q) { for (auto &v : q->par) v = SV(); return 0; }
int sqlite3_step(sqlite3_stmt *q) {
  if (!q) return 21; sqlite3 *d = q->db; if (q->state == 2) sqlite3_reset(q);
  if (q->state == 0) { try { d->s.reload(); q->rows.clear(); q->pos = 0; d->s.prepareRefs(q->st, nullptr); d->s.exec(q->st, q->par, q->rows); } catch (Error &e) { q->state = 2; return fail(d, e.code, e.msg); } q->state = 1; }
  q->dropRow(); d->err = 0;
  if (q->pos < q->rows.size()) { Row &r = q->rows[q->pos++]; q->ncur = r.size(); q->cur = new sqlite3_value[r.size() ? r.size() : 1]; for (size_t i = 0; i < r.size(); i++) q->cur[i].v = r[i]; return 100; }
  q->state = 2; return 101;
}
static int bind(sqlite3_stmt *q, int i, const SV &v) { if (!q) return 21; if (q->state == 1) return fail(q->db, 21, "bad parameter or other API misuse"); if (q->state == 2) return fail(q->db, 21, "bad parameter or other API misuse"); if (i < 1 || (size_t)i > q->par.size()) return fail(q->db, 25, "column index out of range"); q->par[i - 1] = v; q->db->err = 0; return 0; }
int sqlite3_bind_int64(sqlite3_stmt *q, int i, sqlite3_int64 n) { return bind(q, i, svInt(n)); }
int sqlite3_bind_int(sqlite3_stmt *q, int i, int n) { return bind(q, i, svInt(n)); }
int sqlite3_bind_double(sqlite3_stmt *q, int i, double x) { if (x != x) return bind(q, i, SV()); return bind(q, i, svReal(x)); }
int sqlite3_bind_null(sqlite3_stmt *q, int i) { return bind(q, i, SV()); }
static int bindS(sqlite3_stmt *q, int i, const void *p, int n, int t) { SV v; if (p) { v.t = t; if (n < 0) v.s = std::string((const char *)p); else if (n) v.s.assign((const char *)p, (size_t)n); } return bind(q, i, v); }
int sqlite3_bind_text(sqlite3_stmt *q, int i, const char *p, int n, void (*)(void *)) { return bindS(q, i, p, n, V_TEXT); }
int sqlite3_bind_blob(sqlite3_stmt *q, int i, const void *p, int n, void (*)(void *)) { return bindS(q, i, p, n, V_BLOB); }
int sqlite3_bind_zeroblob(sqlite3_stmt *q, int i, int n) { SV v; v.t = V_BLOB; v.s.assign((size_t)n, 0); return bind(q, i, v); }
int sqlite3_column_count(sqlite3_stmt *q) { if (!q) return 0; if (q->state == 1 && q->cur) return (int)q->ncur; std::vector<std::string> n; if (q->st->kind != Stmt::SELECT) return 0; q->db->s.colNames(q->st->sel, nullptr, n); return (int)n.size(); }
sqlite3_value *sqlite3_column_value(sqlite3_stmt *q, int i) { if (!q || !q->cur || i < 0 || (size_t)i >= q->ncur) return &nullValue; return &q->cur[i]; }
int sqlite3_value_type(sqlite3_value *v) { return v->v.t; }
sqlite3_int64 sqlite3_value_int64(sqlite3_value *v) { switch (v->v.t) { case V_INT: return v->v.n; case V_NULL: return 0; case V_REAL: { double d = svD(v->v); if (d >= 9223372036854775808.0) return INT64_MAX; if (d < -9223372036854775808.0) return INT64_MIN; return (int64_t)d; } default: return atoll(v->v.s.c_str()); } }
int sqlite3_value_int(sqlite3_value *v) { return (int)sqlite3_value_int64(v); }
double sqlite3_value_double(sqlite3_value *v) { switch (v->v.t) { case V_INT: return (double)v->v.n; case V_REAL: return svD(v->v); case V_NULL: return 0; default: gs_unsupported("text read as a real number"); return 0; } }
static void toText(sqlite3_value *v) { if (v->v.t == V_INT || v->v.t == V_REAL) { v->txt = Session::num(v->v); v->conv = true; } }
const unsigned char *sqlite3_value_text(sqlite3_value *v) { if (v->v.t == V_NULL) return nullptr; toText(v); return (const unsigned char *)(v->conv ? v->txt.c_str() : v->v.s.c_str()); }
const void *sqlite3_value_blob(sqlite3_value *v) { if (v->v.t == V_NULL) return nullptr; toText(v); const std::string &s = v->conv ? v->txt : v->v.s; return s.empty() ? nullptr : s.data(); }
int sqlite3_value_bytes(sqlite3_value *v) { if (v->v.t == V_NULL) return 0; toText(v); return (int)(v->conv ? v->txt : v->v.s).size(); }
sqlite3_value *sqlite3_value_dup(const sqlite3_value *v) { sqlite3_value *c = new sqlite3_value; c->v = v->v; return c; }
void sqlite3_value_free(sqlite3_value *v) { delete v; }
int sqlite3_column_type(sqlite3_stmt *q, int i) { return sqlite3_value_type(sqlite3_column_value(q, i)); }
sqlite3_int64 sqlite3_column_int64(sqlite3_stmt *q, int i) { return sqlite3_value_int64(sqlite3_column_value(q, i)); }
int sqlite3_column_int(sqlite3_stmt *q, int i) { return sqlite3_value_int(sqlite3_column_value(q, i)); }
double sqlite3_column_double(sqlite3_stmt *q, int i) { return sqlite3_value_double(sqlite3_column_value(q, i)); }
const unsigned char *sqlite3_column_text(sqlite3_stmt *q, int i) { return sqlite3_value_text(sqlite3_column_value(q, i)); }
const void *sqlite3_column_blob(sqlite3_stmt *q, int i) { return sqlite3_value_blob(sqlite3_column_value(q, i)); }
int sqlite3_column_bytes(sqlite3_stmt *q, int i) { return sqlite3_value_bytes(sqlite3_column_value(q, i)); }
int sqlite3_bind_text64(sqlite3_stmt *q, int i, const char *p, sqlite3_uint64 n, void (*)(void *), unsigned char enc) { if (enc != SQLITE_UTF8) gs_unsupported("UTF-16 text"); return bindS(q, i, p, n > 0x7fffffff ? -1 : (int)n, V_TEXT); }
int sqlite3_bind_blob64(sqlite3_stmt *q, int i, const void *p, sqlite3_uint64 n, void (*)(void *)) { return bindS(q, i, p, (int)n, V_BLOB); }
int sqlite3_bind_zeroblob64(sqlite3_stmt *q, int i, sqlite3_uint64 n) { return sqlite3_bind_zeroblob(q, i, (int)n); }
int sqlite3_bind_value(sqlite3_stmt *q, int i, const sqlite3_value *v) { return bind(q, i, v->v); }
int sqlite3_bind_parameter_count(sqlite3_stmt *q) { return q ? (int)q->par.size() : 0; }
sqlite3_int64 sqlite3_changes64(sqlite3 *d) { return d->s.changes; }
int sqlite3_prepare_v3(sqlite3 *d, const char *sql, int n, unsigned int, sqlite3_stmt **out, const char **tail) { return sqlite3_prepare_v2(d, sql, n, out, tail); }
int sqlite3_close_v2(sqlite3 *d) { if (d && d->open) gs_unsupported("sqlite3_close_v2 with open statements"); return sqlite3_close(d); }
int sqlite3_data_count(sqlite3_stmt *q) { return q && q->cur ? (int)q->ncur : 0; }
int sqlite3_stmt_busy(sqlite3_stmt *q) { return q && q->state == 1; }
int sqlite3_stmt_readonly(sqlite3_stmt *q) { return !q || q->st->kind == Stmt::SELECT; }
int sqlite3_busy_timeout(sqlite3 *, int) { return 0; }
int sqlite3_extended_result_codes(sqlite3 *, int on) { if (on) gs_unsupported("extended result codes"); return 0; }
int sqlite3_threadsafe(void) { return 1; }
const char *sqlite3_libversion(void) { return "3.45.1"; }
int sqlite3_libversion_number(void) { return 3045001; }
const char *sqlite3_errstr(int c) { return c == 0 ? "not an error" : c == 100 ? "another row available" : c == 101 ? "no more rows available" : "SQL logic error"; }
int sqlite3_strnicmp(const char *a, const char *b, int n) { if (!a) return b ? -1 : 0; if (!b) return 1; for (; n-- > 0; a++, b++) { int x = lc(*a), y = lc(*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int sqlite3_strlike(const char *p, const char *z, unsigned int e) { if (e) gs_unsupported("LIKE with an escape"); return !Session::like(z, 0, p, 0, true); }
int sqlite3_strglob(const char *p, const char *z) { return !Session::glob(z, 0, p, 0); }
const char *sqlite3_column_name(sqlite3_stmt *q, int i) { if (!q || q->st->kind != Stmt::SELECT) gs_unsupported("sqlite3_column_name"); if (q->names.empty()) q->db->s.colNames(q->st->sel, nullptr, q->names); return i >= 0 && (size_t)i < q->names.size() ? q->names[i].c_str() : nullptr; }
char *sqlite3_expanded_sql(sqlite3_stmt *q) { char *p = (char *)malloc(q->sql.size() + 1); memcpy(p, q->sql.c_str(), q->sql.size() + 1); return p; }
const char *sqlite3_sql(sqlite3_stmt *q) { return q->sql.c_str(); }
int sqlite3_stricmp(const char *a, const char *b) { if (!a) return b ? -1 : 0; if (!b) return 1; for (;; a++, b++) { int x = lc(*a), y = lc(*b); if (x != y) return x - y; if (!x) return 0; } }
int sqlite3_exec(sqlite3 *d, const char *sql, int (*cb)(void *, int, char **, char **), void *, char **em) {
  if (em) *em = nullptr; if (cb) gs_unsupported("sqlite3_exec callback"); int rc = 0; if (!sql) sql = "";
  while (*sql) { sqlite3_stmt *q; const char *tail; rc = sqlite3_prepare_v2(d, sql, -1, &q, &tail); if (rc) break; sql = tail; if (!q) continue; do rc = sqlite3_step(q); while (rc == 100); std::string m = d->msg; int er = d->err; sqlite3_finalize(q); if (rc != 101) { d->err = er; d->msg = m; break; } rc = 0; }
  if (rc && em) { *em = (char *)malloc(d->msg.size() + 1); strcpy(*em, d->msg.c_str()); } return rc;
}
// ------------------------------------------------------------------ changegroup (combination rules of the session extension)
}
typedef std::vector<std::string> Rec; // one serialized field per column ("\0": undefined)
struct Chg { int op; bool ind; Rec o, w; };
struct GTab { std::string name, head; std::string pk; std::vector<Chg> c; };
struct sqlite3_changegroup { std::vector<GTab> t; };
static bool field(const unsigned char *p, size_t n, size_t &i, std::string &f) { if (i >= n) return false; size_t b = i; int t = (int)gs_conc(p[i++]); if (t == 1 || t == 2) i += 8; else if (t == 3 || t == 4) { uint64_t v = 0; for (int k = 0; k < 9; k++) { if (i >= n) return false; unsigned char c = p[i++]; if (k == 8) { v = v << 8 | c; break; } v = v << 7 | (c & 127); if (!(c & 128)) break; } v = gs_conc(v); if (v > n) return false; i += v; } else if (t != 0 && t != 5) return false; if (i > n) return false; f.assign((const char *)p + b, i - b); return true; }
static bool recd(const unsigned char *p, size_t n, size_t &i, size_t nc, Rec &r) { for (size_t k = 0; k < nc; k++) { std::string f; if (!field(p, n, i, f)) return false; r.push_back(f); } return true; }
static bool undefF(const std::string &f) { return f.size() == 1 && f[0] == 0; }
static bool sameKey(const GTab &t, const Rec &a, const Rec &b) { for (size_t i = 0; i < t.pk.size(); i++) if (t.pk[i]) { if (a[i].size() != b[i].size()) return false; if (memcmp(a[i].data(), b[i].data(), a[i].size())) return false; } return true; }
static bool feq(const std::string &a, const std::string &b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
static Rec mergeRec(const Rec &l, const Rec &r) { Rec o; for (size_t i = 0; i < l.size(); i++) o.push_back(undefF(r[i]) ? l[i] : r[i]); return o; }
static const std::string &mv(const Rec *one, const Rec *two, size_t i) { if (two && !undefF((*two)[i])) return (*two)[i]; return (*one)[i]; }
static bool mergeUpd(const GTab &t, const Rec *o1, const Rec *o2, const Rec *n1, const Rec *n2, Rec &oo, Rec &on) { bool req = false; std::string U(1, '\0'); for (size_t i = 0; i < t.pk.size(); i++) { const std::string &a = mv(o1, o2, i), &b = mv(n1, n2, i); bool d = !feq(a, b); if (t.pk[i] || d) { if (!t.pk[i]) req = true; oo.push_back(a); } else oo.push_back(U); on.push_back(t.pk[i] || !d ? U : b); } return req; }
extern "C" {
int sqlite3changegroup_new(sqlite3_changegroup **g) { *g = new sqlite3_changegroup; return 0; }
void sqlite3changegroup_delete(sqlite3_changegroup *g) { delete g; }
int sqlite3changegroup_add(sqlite3_changegroup *g, int n0, void *data) {
  const unsigned char *p = (const unsigned char *)data; size_t n = (size_t)n0, i = 0; GTab *t = nullptr;
  while (i < n) {
    int k = (int)gs_conc(p[i]);
    if (k == 'T') { size_t b = i++; uint64_t nc = 0; for (int q = 0; q < 9; q++) { if (i >= n) return 11; unsigned char c = p[i++]; nc = nc << 7 | (c & 127); if (!(c & 128)) break; } nc = gs_conc(nc); if (nc == 0 || nc > 65536 || i + nc >= n) return 11; std::string pk((const char *)p + i, nc); i += nc; std::string name; while (i < n && p[i]) name += (char)p[i++]; if (i >= n) return 11; i++; GTab *f = nullptr; for (auto &x : g->t) if (ieq(x.name, name)) f = &x; if (f) { if (f->pk != pk) return 17; t = f; } else { GTab x; x.name = name; x.pk = pk; x.head.assign((const char *)p + b, i - b); g->t.push_back(x); t = &g->t.back(); } continue; }
    if (k != 18 && k != 23 && k != 9) return 11; if (!t) return 11; i++; if (i >= n) return 11; Chg c; c.op = k; c.ind = p[i++] != 0; size_t nc = t->pk.size();
    if (k != 18 && !recd(p, n, i, nc, c.o)) return 11; if (k != 9 && !recd(p, n, i, nc, c.w)) return 11;
    const Rec &key = k == 18 ? c.w : c.o; size_t e = 0; for (; e < t->c.size(); e++) if (sameKey(*t, t->c[e].op == 18 ? t->c[e].w : t->c[e].o, key)) break;
    if (e == t->c.size()) { t->c.push_back(c); continue; }
    Chg x = t->c[e], r; r.ind = x.ind && c.ind; bool keep = true; int a = x.op, b = c.op;
    if ((a == 18 && b == 18) || (a == 23 && b == 18) || (a == 9 && b != 18)) continue;
    if (a == 18 && b == 9) keep = false; else if (a == 18) { r.op = 18; r.w = mergeRec(x.w, c.w); } else if (a == 9) { r.op = 23; keep = mergeUpd(*t, &x.o, nullptr, &c.w, nullptr, r.o, r.w); } else if (b == 23) { r.op = 23; keep = mergeUpd(*t, &c.o, &x.o, &x.w, &c.w, r.o, r.w); } else { r.op = 9; r.o = mergeRec(c.o, x.o); }
    t->c.erase(t->c.begin() + e); if (keep) t->c.push_back(r);
  }
  return 0;
}
int sqlite3changegroup_output(sqlite3_changegroup *g, int *pn, void **pp) { std::string o; for (auto &t : g->t) { if (t.c.empty()) continue; o += t.head; for (auto &c : t.c) { o += (char)c.op; o += (char)c.ind; for (auto &f : c.o) o += f; for (auto &f : c.w) o += f; } } *pn = (int)o.size(); *pp = nullptr; if (!o.empty()) { *pp = malloc(o.size()); memcpy(*pp, o.data(), o.size()); } return 0; }
}
