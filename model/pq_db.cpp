// Stand-in for libpq and the server behind it (symbolic and native builds), on the SQL engine of sql.h.
#define GSQL_PG 1
#include <libpq-fe.h>
#include <cctype>
#include <map>
#include "sql.h"
#include "pq.h"
using namespace gsqlpg;
struct Seq { std::string schema, table, col, name; int64_t last; bool called; };
struct Meta { std::string schema, table, col, geom; int srid; bool seq; };
struct Crs { int srid; std::string auth; int code; std::string wkt; };
// to_char of a timestamp written YYYY-MM-DDTHH:MI:SS
static std::string toChar(const std::string &ts, const std::string &f) {
  std::string o; for (size_t i = 0; i < f.size();) { if (f[i] == '"') { for (i++; i < f.size() && f[i] != '"'; i++) o += f[i]; i++; continue; } static const char *const K[] = {"YYYY", "MM", "DD", "HH24", "HH12", "HH", "MI", "SS"}; static const int at[] = {0, 5, 8, 11, 11, 11, 14, 17}; int k = 0; for (; k < 8; k++) if (!f.compare(i, strlen(K[k]), K[k])) break; if (k == 8) { if (isalnum((unsigned char)f[i])) gs_unsupported("to_char format"); o += f[i++]; continue; } std::string v = ts.substr(at[k], k ? 2 : 4); if (k == 4 || k == 5) { int h = (v[0] - '0') * 10 + (v[1] - '0'); h = h % 12 ? h % 12 : 12; v[0] = (char)('0' + h / 10); v[1] = (char)('0' + h % 10); } o += v; i += strlen(K[k]); } return o;
}
struct Idx { std::string schema, table; std::vector<int> cols; };
struct Quiet { std::string schema, table; };
struct Server : Host {
  Session s; std::vector<Seq> seqs; std::vector<Meta> metas; std::vector<Crs> crs; std::vector<Quiet> quiet; std::vector<Idx> idx; bool aborted, commitFails; Server() : aborted(false), commitFails(false) { s.pg = true; s.host = this; }
  void load(Att &) override {} void save(Att &) override {}
  Meta *meta(const std::string &sc, const std::string &t, const std::string &c) { for (auto &m : metas) if (ieq(m.schema, sc) && ieq(m.table, t) && ieq(m.col, c)) return &m; return nullptr; }
  Seq *seqNamed(const std::string &sc, const std::string &n) { for (auto &q : seqs) if (ieq(q.schema, sc) && ieq(q.name, n)) return &q; return nullptr; }
  Seq *seqOf(const std::string &sc, const std::string &t, const std::string &c) { for (auto &q : seqs) if (ieq(q.schema, sc) && ieq(q.table, t) && ieq(q.col, c)) return &q; return nullptr; }
  bool isCatalog(const std::string &n) override { static const char *K[] = {"pg_namespace", "pg_tables", "pg_class", "tables", "schemata", "geometry_columns", "spatial_ref_sys", 0}; for (int i = 0; K[i]; i++) if (n == K[i]) return true; return false; }
  bool table(const std::string &db, const std::string &name, std::vector<SV> &, Table &t) override {
    bool cat = db.empty() || ieq(db, "pg_catalog") || ieq(db, "public"); t.name = name; auto col = [&](const char *n, const char *ty) { t.cols.push_back(Session::mkCol(n, ty)); }; auto add = [&](const Row &r) { TRow x; x.c = r; x.rowid = 0; t.rows.push_back(x); };
    if (cat && ieq(name, "pg_namespace")) { col("oid", "bigint"); col("nspname", "name"); for (size_t i = 0; i < s.dbs.size(); i++) { Row r(2); r[0] = svInt(20000 + (int64_t)i); r[1] = svText(s.dbs[i]->name); add(r); } return true; }
    if (cat && ieq(name, "pg_class")) { col("oid", "bigint"); col("relname", "name"); col("relnamespace", "bigint"); col("relkind", "text"); int64_t o = 30000; for (size_t i = 0; i < s.dbs.size(); i++) for (auto &q : s.dbs[i]->db.tables) { Row r(4); r[0] = svInt(o++); r[1] = svText(q.name); r[2] = svInt(20000 + (int64_t)i); r[3] = svText("r"); add(r); } return true; }
    if (ieq(db, "information_schema") && ieq(name, "tables")) { col("table_schema", "name"); col("table_name", "name"); col("table_type", "text"); for (auto a : s.dbs) for (auto &q : a->db.tables) { Row r(3); r[0] = svText(a->name); r[1] = svText(q.name); r[2] = svText("BASE TABLE"); add(r); } return true; }
    if (ieq(db, "information_schema") && ieq(name, "schemata")) { col("schema_name", "name"); for (auto a : s.dbs) { Row r(1); r[0] = svText(a->name); add(r); } return true; }
    if (ieq(db, "information_schema") || ieq(db, "pg_catalog") || (db.empty() && name.compare(0, 3, "pg_") == 0)) { if (!(ieq(db, "pg_catalog") && (ieq(name, "pg_tables")))) if (!(db.empty() && ieq(name, "pg_tables"))) gs_unsupported("system table"); }
    if (cat && ieq(name, "pg_tables")) { col("schemaname", "name"); col("tablename", "name"); for (auto a : s.dbs) for (auto &q : a->db.tables) { Row r(2); r[0] = svText(a->name); r[1] = svText(q.name); add(r); } return true; }
    if (cat && ieq(name, "geometry_columns")) { col("f_table_schema", "name"); col("f_table_name", "name"); col("f_geometry_column", "name"); col("srid", "integer"); col("type", "text"); for (auto &m : metas) if (!m.geom.empty()) { Row r(5); r[0] = svText(m.schema); r[1] = svText(m.table); r[2] = svText(m.col); r[3] = svInt(m.srid); r[4] = svText(m.geom); add(r); } return true; }
    if (cat && ieq(name, "spatial_ref_sys")) { col("srid", "integer"); col("auth_name", "text"); col("auth_srid", "integer"); col("srtext", "text"); for (auto &c : crs) { Row r(4); r[0] = svInt(c.srid); r[1] = svText(c.auth); r[2] = svInt(c.code); r[3] = svText(c.wkt); add(r); } return true; }
    for (auto &q : seqs) if (ieq(q.name, name) && (ieq(q.schema, db) || (db.empty() && ieq(q.schema, "public")))) { col("last_value", "bigint"); col("log_cnt", "bigint"); col("is_called", "boolean"); Row r(3); r[0] = svInt(q.last); r[1] = svInt(0); r[2] = svInt(q.called); add(r); return true; }
    return false;
  }
  static bool unhex(const std::string &z, std::string &o) { if (z.size() < 2 || z[0] != '\\' || z[1] != 'x' || z.size() % 2) return false; o.clear(); for (size_t i = 2; i < z.size(); i += 2) { unsigned v = 0; for (int k = 0; k < 2; k++) { unsigned char c = z[i + k]; unsigned d = (unsigned)(c - '0'); bool dig = d < 10u; unsigned l = (unsigned)(lc(c) - 'a'); if (!(dig | (l < 6u))) return false; v = v * 16 + (dig ? d : l + 10); } o += (char)v; } return true; }
  static bool toInt(const std::string &z, int64_t &n) { size_t i = 0; bool neg = false; if (i < z.size() && (z[i] == '-' || z[i] == '+')) neg = z[i++] == '-'; if (i >= z.size() || z.size() - i > 18) return false; n = 0; for (; i < z.size(); i++) { if (!isdigit((unsigned char)z[i])) return false; n = n * 10 + (z[i] - '0'); } if (neg) n = -n; return true; }
  // value of an expression as a value of the column's type (assign: INSERT and UPDATE allow more casts than comparisons)
  void coerce(const Column &c, SV &v, bool assign) override {
    if (v.t == V_NULL) return; const std::string &ty = c.type;
    if (ty == "integer" || ty == "bigint" || ty == "smallint") { if (v.t == V_TEXT) { int64_t n; if (!toInt(v.s, n)) throw Error(1, "invalid input syntax for type integer"); v = svInt(n); if (!assign && ty == "integer" && (v.n < -2147483648LL || v.n > 2147483647LL)) throw Error(1, "out of range for type integer"); } else if (v.t == V_REAL && assign) { double d = svD(v); if (!(d >= -2147483648.0 && d < 2147483648.0)) throw Error(1, "integer out of range"); if ((double)(int64_t)d != d) gs_unsupported("rounded number"); v = svInt((int64_t)d); } else if (v.t == V_BLOB) throw Error(1, "type mismatch"); if (assign && v.t == V_INT && ty == "integer" && (v.n < -2147483648LL || v.n > 2147483647LL)) throw Error(1, "integer out of range"); return; }
    if (ty == "boolean") { if (v.t == V_TEXT) { if (v.s == "t" || v.s == "true" || v.s == "1") v = svInt(1); else if (v.s == "f" || v.s == "false" || v.s == "0") v = svInt(0); else throw Error(1, "invalid input syntax for type boolean"); return; } throw Error(1, "column is of type boolean"); }
    if (ty == "double precision" || ty == "real") { if (v.t == V_INT) v = svReal((double)v.n); else if (v.t == V_TEXT) { if (v.s == "NaN") v = svReal(__builtin_nan("")); else if (v.s == "Infinity") v = svReal(__builtin_inf()); else if (v.s == "-Infinity") v = svReal(-__builtin_inf()); else { char *e; double d = strtod(v.s.c_str(), &e); if (v.s.empty() || *e) throw Error(1, "invalid input syntax for type double precision"); v = svReal(d); } } else if (v.t == V_BLOB) throw Error(1, "type mismatch"); return; }
    if (ty.compare(0, 8, "geometry") == 0) { if (v.t != V_BLOB) { if (v.t == V_TEXT) throw Error(1, "parse error - invalid geometry"); throw Error(1, "type mismatch"); } for (auto &m : metas) if (&m == (Meta *)nullptr) return; int want = -1; size_t k = ty.find(','); if (k != std::string::npos) want = atoi(ty.c_str() + k + 1); if (assign && want >= 0 && v.n != want) throw Error(1, "Geometry SRID does not match column SRID"); return; }
    if (ty == "bytea") { if (v.t == V_TEXT) { std::string o; if (!v.s.empty() && v.s[0] == '\\' && v.s.size() > 1 && v.s[1] == 'x') { if (!unhex(v.s, o)) throw Error(1, "invalid hexadecimal data"); } else { for (char ch : v.s) if (ch == '\\') throw Error(1, "invalid input syntax for type bytea"); o = v.s; } v = SV(); v.t = V_BLOB; v.s = o; return; } if (v.t != V_BLOB) throw Error(1, "type mismatch"); return; }
    if (ty == "timestamp without time zone") { if (v.t != V_TEXT) throw Error(1, "type mismatch"); std::string z = v.s; if (z.size() != 19 && z.size() != 20) throw Error(1, "invalid input syntax for type timestamp"); static const char *F = "dddd-dd-ddTdd:dd:ddZ"; for (size_t i = 0; i < z.size(); i++) if (F[i] == 'd' ? !isdigit((unsigned char)z[i]) : F[i] == 'T' ? z[i] != 'T' && z[i] != ' ' : z[i] != F[i]) throw Error(1, "invalid input syntax for type timestamp"); z[10] = 'T'; if (z.size() == 19) z += 'Z'; v = svText(z); return; }
    // text-like
    if (v.t == V_TEXT) return; if (v.t == V_BLOB) throw Error(1, "type mismatch"); if (!assign) throw Error(1, "operator does not exist: text = integer"); if (v.t == V_INT) { v = svText(std::to_string((long long)v.n)); return; } gs_unsupported("text of a real number");
  }
  // a possibly quoted, possibly qualified name given as text
  static void nameParts(const std::string &z, std::vector<std::string> &out) { Parser p(z, true); do out.push_back(p.name()); while (p.op(".")); if (p.cur().k != T_END) p.syn(); }
  static std::string quoteIdent(const std::string &n) { bool plain = !n.empty(); for (size_t i = 0; i < n.size(); i++) { unsigned char c = n[i]; bool ok = ((unsigned)(c - 'a') < 26u) || c == '_' || (i && (unsigned)(c - '0') < 10u); if (!ok) plain = false; } if (plain && !Parser::reserved(n)) return n; std::string r = "\""; for (char c : n) { r += c; if (c == '"') r += c; } return r + "\""; }
  Seq *seqFromText(const std::string &z) { std::vector<std::string> n; nameParts(z, n); Seq *q = n.size() == 2 ? seqNamed(n[0], n[1]) : n.size() == 1 ? seqNamed("public", n[0]) : nullptr; if (!q) throw Error(1, "relation does not exist: " + z); return q; }
  bool func(const std::string &n, std::vector<SV> &a, SV &r) override {
    if (n == "st_asbinary" && a.size() == 1) { r = a[0]; r.n = 0; return true; }
    if (n == "to_char" && a.size() == 2) { if (a[0].t == V_NULL) { r = SV(); return true; } if (a[1].t != V_TEXT || a[0].t != V_TEXT || a[0].s.size() < 19) gs_unsupported("to_char format"); r = svText(toChar(a[0].s, a[1].s)); return true; }
    if ((n == "st_geomfromwkb" || n == "st_setsrid") && a.size() == 2) { if (a[0].t == V_NULL || a[1].t == V_NULL) { r = SV(); return true; } SV b = a[0]; if (b.t == V_TEXT) { std::string o; if (!unhex(b.s, o)) throw Error(1, "invalid bytea"); b = SV(); b.t = V_BLOB; b.s = o; } if (a[1].t != V_INT) throw Error(1, "function does not exist"); b.n = a[1].n; r = b; return true; }
    if (n == "pg_get_serial_sequence" && a.size() == 2) { std::vector<std::string> t; nameParts(a[0].s, t); if (t.size() == 1) t.insert(t.begin(), "public"); Table *q = t.size() == 2 ? s.find(t[0], t[1]) : nullptr; if (!q) throw Error(1, "relation does not exist"); if (q->col(a[1].s) < 0) throw Error(1, "column does not exist"); Seq *x = seqOf(t[0], t[1], a[1].s); r = x ? svText(quoteIdent(x->schema) + "." + quoteIdent(x->name)) : SV(); return true; }
    if (n == "setval" && (a.size() == 2 || a.size() == 3)) { if (a[0].t == V_NULL || a[1].t == V_NULL) { r = SV(); return true; } Seq *q = seqFromText(a[0].s); if (a[1].t != V_INT) throw Error(1, "function does not exist"); Table *qt = s.find(q->schema, q->table); int qc = qt ? qt->col(q->col) : -1; bool big = qc >= 0 && qt->cols[qc].type == "bigint"; if (a[1].n < 1 || (!big && a[1].n > 2147483647LL)) throw Error(1, "setval: value is out of bounds"); q->last = a[1].n; q->called = a.size() == 2 || a[2].n != 0; r = a[1]; return true; }
    if (n == "nextval" && a.size() == 1) { Seq *q = seqFromText(a[0].s); if (q->called) q->last++; q->called = true; r = svInt(q->last); return true; }
    if (n == "greatest") { r = SV(); for (auto &x : a) if (x.t == V_INT && (r.t == V_NULL || x.n > r.n)) r = x; return true; }
    return false;
  }
};
static Server *S; int pqFaultAt = -1, pqFaultKind, pqCount, pqHit, pqOpen, pqResults, pqConnectFail; std::vector<std::string> pqLog;
struct Canned { std::string table; std::vector<std::vector<PqText> > rows; int which; }; static std::vector<Canned> cans;
struct pg_conn { bool ok; std::string err; };
struct pg_result { ExecStatusType st; std::string err, tuples, tag, state; std::vector<std::string> names; std::vector<std::vector<PqText> > rows; };
static Server &sv() { if (!S) pqReset(); return *S; }
void pqReset() { if (S) { for (auto a : S->s.dbs) delete a; delete S; } S = new Server; pqFaultAt = -1; pqCount = pqHit = pqConnectFail = 0; pqLog.clear(); cans.clear(); pqSchema("public"); pqCrs(4326, "EPSG", 4326, "WGS 84"); }
void pqSchema(const std::string &n) { Att *a = new Att; a->name = n; sv().s.dbs.push_back(a); }
bool pqHasSchema(const std::string &n) { return sv().s.db(n) != nullptr; }
static std::string canonical(std::string ty) { for (auto &c : ty) c = (char)lc(c); if (ty == "int" || ty == "int4") return "integer"; if (ty == "int8") return "bigint"; if (ty == "bool") return "boolean"; if (ty == "float" || ty == "float8") return "double precision"; if (ty == "timestamp") return "timestamp without time zone"; if (ty == "varchar") return "character varying"; return ty; }
static void addSeq(const std::string &sc, const std::string &t, const std::string &c) { Seq q; q.schema = sc; q.table = t; q.col = c; q.name = t + "_" + c + "_seq"; q.last = 1; q.called = false; sv().seqs.push_back(q); }
void pqTable(const std::string &sc, const std::string &name, const std::vector<PqCol> &cols, const std::vector<PqRow> &rows) {
  Att *a = sv().s.db(sc); Table t; t.name = name; std::vector<int> pk; for (size_t i = 0; i < cols.size(); i++) { Column c; c.name = cols[i].name; c.type = canonical(cols[i].type); c.notnull = cols[i].notnull || cols[i].pk; c.pk = 0; if (cols[i].pk) { pk.push_back((int)i); c.pk = (int)pk.size(); } if (cols[i].seq) addSeq(sc, name, c.name); if (!cols[i].geomType.empty()) { Meta m; m.schema = sc; m.table = name; m.col = c.name; m.geom = cols[i].geomType; m.srid = cols[i].srid; m.seq = false; sv().metas.push_back(m); } t.cols.push_back(c); }
  if (!pk.empty()) { t.uniq.push_back(pk); t.uact.push_back(""); } for (auto &r : rows) { TRow x; x.rowid = ++t.lastRowid; for (size_t i = 0; i < r.size(); i++) { SV v; v.t = r[i].t; v.n = r[i].n; v.s = r[i].s; if (v.t == V_BLOB && !cols[i].geomType.empty()) v.n = cols[i].srid; x.c.push_back(v); } t.rows.push_back(x); } a->db.tables.push_back(t);
}
void pqCrs(int srid, const std::string &au, int code, const std::string &wkt) { Crs c; c.srid = srid; c.auth = au; c.code = code; c.wkt = wkt; sv().crs.push_back(c); }
static Db *committed(const std::string &sc) { Server &v = sv(); for (size_t i = 0; i < v.s.dbs.size(); i++) if (v.s.dbs[i]->name == sc) { if (!v.s.saves.empty()) return i < v.s.saves[0].copy.size() ? &v.s.saves[0].copy[i] : nullptr; return &v.s.dbs[i]->db; } return nullptr; }
bool pqColumns(const std::string &sc, const std::string &name, std::vector<PqCol> &cols) { cols.clear(); Db *d = committed(sc); Table *t = d ? d->table(name) : nullptr; if (!t) return false; for (auto &c : t->cols) { PqCol x; x.name = c.name; x.type = c.type; x.pk = c.pk; x.notnull = c.notnull; x.seq = sv().seqOf(sc, name, c.name) != nullptr; Meta *m = sv().meta(sc, name, c.name); if (m) { x.geomType = m->geom; x.srid = m->srid; } cols.push_back(x); } return true; }
std::vector<PqRow> pqRows(const std::string &sc, const std::string &name) { std::vector<PqRow> o; Db *d = committed(sc); Table *t = d ? d->table(name) : nullptr; if (t) for (auto &r : t->rows) { PqRow q; for (auto &v : r.c) { PqCell c; c.t = v.t; c.n = v.n; c.s = v.s; if (v.t == V_REAL && svD(v) != svD(v)) c.n = 0x7ff8000000000000LL; q.push_back(c); } o.push_back(q); } return o; }
std::vector<std::string> pqTables(const std::string &sc) { std::vector<std::string> o; Db *d = committed(sc); if (d) for (auto &t : d->tables) o.push_back(t.name); return o; }
void pqSequence(const std::string &sc, const std::string &t, const std::string &c, int64_t last, bool called) { Seq *q = sv().seqOf(sc, t, c); if (!q) { addSeq(sc, t, c); q = sv().seqOf(sc, t, c); } q->last = last; q->called = called; }
int64_t pqNextval(const std::string &sc, const std::string &t, const std::string &c) { Seq *q = sv().seqOf(sc, t, c); return q ? q->last + (q->called ? 1 : 0) : 0; }
void pqRowTrigger(const std::string &sc, const std::string &t) { Quiet q; q.schema = sc; q.table = t; sv().quiet.push_back(q); }
void pqIndex(const std::string &sc, const std::string &t, const std::vector<int> &cols) { Idx x; x.schema = sc; x.table = t; x.cols = cols; sv().idx.push_back(x); }
void pqCommitCheck(bool f) { sv().commitFails = f; }
void pqCanned(const std::string &t, const std::vector<std::vector<PqText> > &rows, int which) { Canned c; c.table = t; c.rows = rows; c.which = which; cans.push_back(c); }
bool pqInTransaction() { return !sv().s.saves.empty(); }
static PGresult *result(ExecStatusType st) { PGresult *r = new pg_result; r->st = st; pqResults++; return r; }
static const char HEX[] = "0123456789abcdef";
static std::string hexOut(const std::string &b) { std::string o = "\\x"; for (unsigned char c : b) { o += HEX[c >> 4]; o += HEX[c & 15]; } return o; }
static PqText cell(const SV &v, const std::string &ty) {
  PqText t; t.null = v.t == V_NULL; if (t.null) return t;
  if (ty == "boolean") t.s = v.n ? "t" : "f"; else if (v.t == V_INT) t.s = std::to_string((long long)v.n); else if (v.t == V_REAL) { double d = svD(v); if (d != d) t.s = "NaN"; else if (d - d != 0) t.s = d > 0 ? "Infinity" : "-Infinity"; else { char b[40]; for (int p = 15; p <= 17; p++) { snprintf(b, sizeof b, "%.*g", p, d); if (strtod(b, nullptr) == d) break; } t.s = b; } }
  else if (v.t == V_BLOB) t.s = hexOut(v.s); else if (ty == "timestamp without time zone") { t.s = v.s; t.s[10] = ' '; t.s.resize(19); } else t.s = v.s; return t;
}
static std::string exprType(Expr *e, Frame *f, Session &s) { const Column *c = s.colOf(e, f); if (c) return c->type; switch (e->op) { case O_AND: case O_OR: case O_NOT: case O_EQ: case O_NE: case O_LT: case O_LE: case O_GT: case O_GE: case O_IS: case O_ISNOT: case O_LIKE: case O_NLIKE: case O_IN: case O_NIN: case O_EXISTS: return "boolean"; case O_CAST: return canonical(e->s); case O_FUNC: return e->s == "coalesce" && !e->k.empty() ? exprType(e->k[0], f, s) : e->s == "bool_or" || e->s == "bool_and" ? "boolean" : ""; case O_CASE: return e->k.size() > 1 ? exprType(e->k[e->i ? 2 : 1], f, s) : ""; case O_LIT: return ""; default: return ""; } }
// the query of the columns of a table in the system catalogue
static void bindText(Parser &p, const std::vector<PqText> &par);
static bool columnsQuery(const std::string &sql, const std::vector<PqText> *par, PGresult *r) {
  Parser p(sql, true); if (par) bindText(p, *par); bool is = false; for (auto &k : p.t) is |= k.k == T_ID && kweq(k.s, "pg_attribute"); if (!is) return false; std::string tn, sn; bool a = false, b = false;
  for (size_t i = 0; i + 2 < p.t.size(); i++) if (p.t[i].k == T_ID && p.t[i + 1].k == T_OP && p.t[i + 1].s == "=" && p.t[i + 2].k == T_STR) { if (kweq(p.t[i].s, "relname")) { tn = p.t[i + 2].s; a = true; } if (kweq(p.t[i].s, "nspname")) { sn = p.t[i + 2].s; b = true; } }
  if (!a || !b) gs_unsupported("query of the system catalogue"); if (!p.kw("select")) p.syn(); std::vector<int> items; std::vector<bool> coal; bool co = false; int d = 0, what = -1; // parentheses must balance, too
  bool inList = true; for (; p.cur().k != T_END; p.p++) { if (p.isOp("(")) d++; else if (p.isOp(")")) { if (--d < 0) p.syn(); } else if (p.isOp(";")) { if (d || p.t[p.p + 1].k != T_END) p.syn(); } else if (inList && !d && p.isOp(",")) { items.push_back(what); coal.push_back(co); what = -1; co = false; } else if (inList && !d && p.isKw("from", p.p)) { items.push_back(what); coal.push_back(co); inList = false; } else if (inList && p.isKw("coalesce", p.p)) co = true; else if (inList && what < 0 && p.cur().k == T_ID) { static const char *W[] = {"attname", "format_type", "indisprimary", "attnotnull", "exists", 0}; for (int q = 0; W[q]; q++) if (kweq(p.cur().s, W[q])) what = q; } }
  if (d || inList) p.syn(); for (int w : items) if (w < 0) gs_unsupported("query of the system catalogue");
  Server &v = sv(); Table *t = v.s.find(sn, tn); if (!t) return true;
  // pg_index has a row for each index of the table: a join with it gives a row for each index that has the column, unless it asks for the primary key's index only (or the rows are merged)
  bool joined = false, primary = false; int dep = 0; bool inJoin = false; for (size_t i = 0; i < p.t.size(); i++) { if (p.t[i].k == T_OP && p.t[i].s == "(") dep++; if (p.t[i].k == T_OP && p.t[i].s == ")") dep--; if (p.t[i].k != T_ID) continue; if (!dep && kweq(p.t[i].s, "from")) inJoin = true; if (!dep && (kweq(p.t[i].s, "where"))) inJoin = false; if (inJoin && !dep && kweq(p.t[i].s, "pg_index")) joined = true; if (inJoin && joined && kweq(p.t[i].s, "indisprimary")) primary = true; if (!dep && (kweq(p.t[i].s, "distinct") || kweq(p.t[i].s, "group"))) primary = true; if (dep && inJoin && kweq(p.t[i].s, "pg_index")) primary = true; }
  for (size_t ci = 0; ci < t->cols.size(); ci++) { Column &c = t->cols[ci]; std::vector<int> hits; if (c.pk) hits.push_back(1); if (joined && !primary) for (auto &x : v.idx) if (ieq(x.schema, sn) && ieq(x.table, tn)) for (int k : x.cols) if (k == (int)ci) hits.push_back(0); if (hits.empty()) hits.push_back(-1);
    for (int h : hits) { std::vector<PqText> row; for (size_t wi = 0; wi < items.size(); wi++) { int w = items[wi]; PqText x; x.null = false; if (w == 0) x.s = c.name; else if (w == 1) x.s = c.type; else if (w == 2) { x.s = h == 1 ? "t" : h == 0 ? "f" : ""; x.null = h < 0; if (coal[wi] && x.null) { x.null = false; x.s = "f"; } } else if (w == 3) x.s = c.notnull ? "t" : "f"; else x.s = v.seqOf(sn, tn, c.name) ? "t" : "f"; row.push_back(x); } r->rows.push_back(row); } }
  return true;
}
static void noteTypes(const std::string &schema, Table &t) { for (auto &c : t.cols) { std::string ty = canonical(c.type); if (ty == "serial" || ty == "bigserial" || ty == "serial4") { c.type = ty == "bigserial" ? "bigint" : "integer"; c.notnull = true; addSeq(schema, t.name, c.name); continue; } if (ty.compare(0, 8, "geometry") == 0) { Meta m; m.schema = schema; m.table = t.name; m.col = c.name; m.seq = false; m.srid = 0; size_t a = c.type.find('('), k = c.type.find(','); std::string g = a == std::string::npos ? "GEOMETRY" : c.type.substr(a + 1, (k == std::string::npos ? c.type.find(')') : k) - a - 1); for (auto &ch : g) ch = (char)toupper((unsigned char)ch); m.geom = g; if (k != std::string::npos) m.srid = atoi(c.type.c_str() + k + 1); sv().metas.push_back(m); c.type = ty; continue; } static const char *K[] = {"integer", "bigint", "smallint", "double precision", "real", "text", "boolean", "bytea", "timestamp without time zone", "citext", "character varying", "date", "uuid", 0}; bool ok = false; for (int i = 0; K[i]; i++) ok |= ty == K[i]; if (!ok && ty.compare(0, 8, "varchar(") && ty.compare(0, 8, "numeric(") && ty.compare(0, 5, "char(")) throw Error(1, "type \"" + ty + "\" does not exist"); c.type = ty; } }
static PGresult *run1(Parser &p) {
  Server &v = sv(); Session &s = v.s; std::vector<SV> none; std::vector<Row> out; PGresult *r = result(PGRES_COMMAND_OK);
  try {
    size_t at = p.p;
    if (p.kw("create") && p.kw("schema")) { bool ine = false; if (p.kw("if")) { p.needKw("not"); p.needKw("exists"); ine = true; } std::string n = p.name(); if (p.cur().k != T_END && !p.isOp(";")) p.syn(); if (v.aborted) throw Error(1, "current transaction is aborted"); if (s.db(n)) { if (!ine) throw Error(1, "schema already exists"); } else pqSchema(n); return r; }
    p.p = at; if (p.kw("drop") && p.kw("schema")) { bool ie = false; if (p.kw("if")) { p.needKw("exists"); ie = true; } std::string n = p.name(); bool cas = p.kw("cascade"); p.kw("restrict"); if (p.cur().k != T_END && !p.isOp(";")) p.syn(); if (v.aborted) throw Error(1, "current transaction is aborted"); Att *a = s.db(n); if (!a) { if (!ie) throw Error(1, "schema does not exist"); return r; } if (!cas && !a->db.tables.empty()) throw Error(1, "cannot drop schema because other objects depend on it"); if (s.inTx()) gs_unsupported("DROP SCHEMA in a transaction"); for (size_t i = 0; i < s.dbs.size(); i++) if (s.dbs[i] == a) { s.dbs.erase(s.dbs.begin() + i); break; } for (size_t i = v.seqs.size(); i-- > 0;) if (ieq(v.seqs[i].schema, n)) v.seqs.erase(v.seqs.begin() + i); for (size_t i = v.metas.size(); i-- > 0;) if (ieq(v.metas[i].schema, n)) v.metas.erase(v.metas.begin() + i); delete a; return r; }
    p.p = at; Stmt *st = p.statement(); if (p.cur().k != T_END && !p.isOp(";")) p.syn();
    if (v.aborted && st->kind != Stmt::ROLLBACK && st->kind != Stmt::COMMIT) throw Error(1, "current transaction is aborted");
    switch (st->kind) {
      case Stmt::BEGIN: if (!s.inTx()) s.exec(st, none, out); return r;
      case Stmt::COMMIT: if (!s.inTx()) return r; if (v.aborted) { s.rollbackAll(); v.aborted = false; return r; } if (v.commitFails) { s.rollbackAll(); throw Error(1, "deferred constraint"); } s.exec(st, none, out); return r;
      case Stmt::ROLLBACK: if (s.inTx()) s.exec(st, none, out); v.aborted = false; return r;
      case Stmt::SELECT: { s.prepareRefs(st, nullptr); s.exec(st, none, out); r->st = PGRES_TUPLES_OK; std::vector<Table *> tmp; Frame g; s.bind(st->sel, g, nullptr, tmp, none, false); std::vector<std::string> ty; for (auto &i : st->sel->items) { if (i.star) { for (auto t : g.tab) for (auto &c : t->cols) ty.push_back(c.type); } else ty.push_back(exprType(i.e, &g, s)); } for (auto &q : out) { std::vector<PqText> row; for (size_t i = 0; i < q.size(); i++) row.push_back(cell(q[i], ty[i])); r->rows.push_back(row); } s.colNames(st->sel, nullptr, r->names); r->tuples = std::to_string(r->rows.size()); r->tag = "SELECT " + r->tuples; for (auto t : tmp) delete t; return r; }
      case Stmt::INSERT: case Stmt::UPDATE: case Stmt::DELETE: { s.prepareRefs(st, nullptr); bool q = false; for (auto &x : v.quiet) q |= ieq(x.schema, st->db) && ieq(x.table, st->name); if (q) { r->tuples = "0"; return r; } s.exec(st, none, out); r->tuples = std::to_string(s.changes); return r; }
      case Stmt::CREATE_TABLE: { s.prepareRefs(st, nullptr); if (s.inTx()) gs_unsupported("CREATE TABLE in a transaction"); s.exec(st, none, out); Att *a = st->db.empty() ? s.db("public") : s.db(st->db); Table *t = a->db.table(st->name); try { noteTypes(a->name, *t); } catch (Error &) { a->db.tables.pop_back(); throw; } for (size_t i = 0; i < t->cols.size(); i++) if (t->cols[i].pk) t->cols[i].notnull = true; return r; }
      default: gs_unsupported("PostgreSQL statement"); return r;
    }
  } catch (Error &e) { r->st = PGRES_FATAL_ERROR; r->err = e.msg; r->rows.clear(); if (s.inTx()) v.aborted = true; return r; }
}
// parameters are text of unknown type, like quoted literals
static void bindText(Parser &p, const std::vector<PqText> &par) { for (auto &k : p.t) if (k.k == T_PARAM) { size_t i = (size_t)k.n; if (i < 1 || i > par.size()) throw Error(1, "there is no parameter"); if (par[i - 1].null) { k.k = T_ID; k.s = "NULL"; } else { k.k = T_STR; k.s = par[i - 1].s; } } }
static PGresult *execute(PGconn *c, const char *z, const std::vector<PqText> *par) {
  Server &v = sv(); std::string sql(z); int n = pqCount++; pqLog.push_back(sql);
  if (!c || !c->ok) { if (c) c->err = "no connection to the server\n"; return nullptr; }
  if (n == pqFaultAt) { pqHit++; switch (pqFaultKind) { case 1: { PGresult *r = result(PGRES_FATAL_ERROR); r->err = "ERROR: injected"; if (v.s.inTx()) v.aborted = true; return r; } case 2: return nullptr; case 3: v.s.rollbackAll(); v.aborted = false; c->ok = false; c->err = "server closed the connection unexpectedly"; return nullptr; default: { v.s.rollbackAll(); v.aborted = false; c->ok = false; c->err = "server closed the connection unexpectedly"; PGresult *r = result(PGRES_FATAL_ERROR); r->err = c->err; return r; } } }
  PGresult *last = nullptr; 
  try {
    { pg_result tmp; if (columnsQuery(sql, par, &tmp)) { PGresult *r = result(PGRES_TUPLES_OK); r->rows = tmp.rows; if (v.aborted) { r->st = PGRES_FATAL_ERROR; r->rows.clear(); } return r; } }
    for (auto &k : cans) if (k.which > 0 && sql.find(k.table) != std::string::npos && (kweq(sql.substr(0, 7), "select "))) { if (--k.which == 0) { PGresult *r = result(PGRES_TUPLES_OK); r->rows = k.rows; return r; } }
    Parser p(sql, true); if (par) bindText(p, *par); bool any = false; while (p.op(";")) {} if (p.cur().k == T_END) return result(PGRES_EMPTY_QUERY);
    while (p.cur().k != T_END) { if (last) PQclear(last); last = run1(p); any = true; if (last->st == PGRES_FATAL_ERROR) break; while (p.op(";")) {} } (void)any; return last;
  } catch (Error &e) { if (last) PQclear(last); PGresult *r = result(PGRES_FATAL_ERROR); r->err = e.msg; if (v.s.inTx()) v.aborted = true; return r; }
}
static std::vector<std::pair<std::string, std::string> > prepared;
static std::vector<PqText> texts(int n, const char *const *v, const int *fmt) { std::vector<PqText> o; for (int i = 0; i < n; i++) { if (fmt && fmt[i]) gs_unsupported("binary parameters"); PqText x; x.null = !v[i]; if (v[i]) x.s = v[i]; o.push_back(x); } return o; }
static char *copyOut(const std::string &z) { char *o = (char *)malloc(z.size() + 1); memcpy(o, z.c_str(), z.size() + 1); return o; }
static std::string upTo(const char *z, size_t n) { size_t k = 0; while (k < n && z[k]) k++; return std::string(z, k); }
static std::string doubled(const std::string &z, char q) { std::string o; for (char c : z) { o += c; if (c == q) o += c; } return o; }
extern "C" {
PGresult *PQexec(PGconn *c, const char *z) { return execute(c, z, nullptr); }
PGresult *PQexecParams(PGconn *c, const char *z, int n, const Oid *, const char *const *v, const int *, const int *fmt, int rf) { if (rf) gs_unsupported("binary results"); std::vector<PqText> t = texts(n, v, fmt); return execute(c, z, &t); }
PGresult *PQprepare(PGconn *c, const char *name, const char *z, int, const Oid *) { (void)c; for (auto &q : prepared) if (q.first == name) q.second = z; prepared.push_back(std::make_pair(std::string(name), std::string(z))); return result(PGRES_COMMAND_OK); }
PGresult *PQexecPrepared(PGconn *c, const char *name, int n, const char *const *v, const int *, const int *fmt, int rf) { if (rf) gs_unsupported("binary results"); std::vector<PqText> t = texts(n, v, fmt); for (auto &q : prepared) if (q.first == name) return execute(c, q.second.c_str(), &t); gs_unsupported("unknown prepared statement"); return nullptr; }
void PQfreemem(void *p) { free(p); }
char *PQescapeIdentifier(PGconn *, const char *z, size_t n) { return copyOut("\"" + doubled(upTo(z, n), '"') + "\""); }
char *PQescapeLiteral(PGconn *, const char *z, size_t n) { std::string t = upTo(z, n); bool e = t.find('\\') != std::string::npos; t = doubled(t, '\''); return copyOut(e ? " E'" + doubled(t, '\\') + "'" : "'" + t + "'"); }
size_t PQescapeStringConn(PGconn *, char *to, const char *z, size_t n, int *err) { if (err) *err = 0; std::string t = doubled(upTo(z, n), '\''); memcpy(to, t.c_str(), t.size() + 1); return t.size(); }
size_t PQescapeString(char *to, const char *z, size_t n) { return PQescapeStringConn(nullptr, to, z, n, nullptr); }
unsigned char *PQescapeByteaConn(PGconn *, const unsigned char *z, size_t n, size_t *len) { std::string o = hexOut(std::string((const char *)z, n)); if (len) *len = o.size() + 1; return (unsigned char *)copyOut(o); }
unsigned char *PQunescapeBytea(const unsigned char *z, size_t *len) { std::string o; if (!Server::unhex((const char *)z, o)) gs_unsupported("bytea escapes"); *len = o.size(); return (unsigned char *)copyOut(o); }
int PQfnumber(const PGresult *r, const char *name) { if (!r) return -1; if (r->names.empty()) gs_unsupported("names of result columns"); std::vector<std::string> n; try { Server::nameParts(name, n); } catch (Error &) { return -1; } for (size_t i = 0; i < r->names.size(); i++) if (n.size() == 1 && r->names[i] == n[0]) return (int)i; return -1; }
char *PQfname(const PGresult *r, int i) { if (r && r->names.empty()) gs_unsupported("names of result columns"); return r && i >= 0 && (size_t)i < r->names.size() ? (char *)r->names[i].c_str() : nullptr; }
int PQfformat(const PGresult *, int) { return 0; }
int PQbinaryTuples(const PGresult *) { return 0; }
char *PQcmdStatus(PGresult *r) { if (r && r->tag.empty()) gs_unsupported("command status"); return (char *)(r ? r->tag.c_str() : ""); }
char *PQresStatus(ExecStatusType s) { return (char *)(s == PGRES_COMMAND_OK ? "PGRES_COMMAND_OK" : s == PGRES_TUPLES_OK ? "PGRES_TUPLES_OK" : s == PGRES_FATAL_ERROR ? "PGRES_FATAL_ERROR" : s == PGRES_EMPTY_QUERY ? "PGRES_EMPTY_QUERY" : "invalid ExecStatusType code"); }
char *PQresultErrorField(const PGresult *r, int f) { if (!r || r->st != PGRES_FATAL_ERROR) return nullptr; if (f == 'M') return (char *)r->err.c_str(); if (f == 'S' || f == 'V') return (char *)"ERROR"; if (f == 'C') return (char *)"XX000"; return nullptr; }
char *PQresultVerboseErrorMessage(const PGresult *r, PGVerbosity, PGContextVisibility) { return copyOut(r ? r->err : ""); }
int PQserverVersion(const PGconn *) { return 140000; }
int PQlibVersion(void) { return 140000; }
int PQprotocolVersion(const PGconn *) { return 3; }
int PQclientEncoding(const PGconn *) { return 6; }
int PQsetClientEncoding(PGconn *, const char *) { return 0; }
const char *PQparameterStatus(const PGconn *, const char *n) { std::string k(n); return k == "standard_conforming_strings" ? "on" : k == "client_encoding" || k == "server_encoding" ? "UTF8" : k == "server_version" ? "14.0" : nullptr; }
PQnoticeProcessor PQsetNoticeProcessor(PGconn *, PQnoticeProcessor, void *) { return nullptr; }
PQnoticeReceiver PQsetNoticeReceiver(PGconn *, PQnoticeReceiver, void *) { return nullptr; }
PGVerbosity PQsetErrorVerbosity(PGconn *, PGVerbosity) { return PQERRORS_DEFAULT; }
int PQisthreadsafe(void) { return 1; }
PGconn *PQconnectdb(const char *) { pg_conn *c = new pg_conn; c->ok = !pqConnectFail; if (!c->ok) c->err = "could not connect"; pqOpen++; return c; }
ConnStatusType PQstatus(const PGconn *c) { return c && c->ok ? CONNECTION_OK : CONNECTION_BAD; }
char *PQerrorMessage(const PGconn *c) { return (char *)(c ? c->err.c_str() : "connection pointer is NULL\n"); }
void PQfinish(PGconn *c) { if (!c) return; Server &v = sv(); if (v.s.inTx()) v.s.rollbackAll(); v.aborted = false; pqOpen--; delete c; }
ExecStatusType PQresultStatus(const PGresult *r) { return r ? r->st : PGRES_FATAL_ERROR; }
char *PQresultErrorMessage(const PGresult *r) { return (char *)(r ? r->err.c_str() : ""); }
void PQclear(PGresult *r) { if (r) { pqResults--; delete r; } }
int PQntuples(const PGresult *r) { return r ? (int)r->rows.size() : 0; }
int PQnfields(const PGresult *r) { if (r && !r->names.empty()) return (int)r->names.size(); return r && !r->rows.empty() ? (int)r->rows[0].size() : 0; }
char *PQcmdTuples(PGresult *r) { return (char *)(r ? r->tuples.c_str() : ""); }
static bool at(const PGresult *r, int i, int j) { return r && i >= 0 && i < (int)r->rows.size() && j >= 0 && j < (int)r->rows[i].size(); }
int PQgetisnull(const PGresult *r, int i, int j) { return at(r, i, j) ? r->rows[i][j].null : 1; }
char *PQgetvalue(const PGresult *r, int i, int j) { return at(r, i, j) ? (char *)r->rows[i][j].s.c_str() : nullptr; }
int PQgetlength(const PGresult *r, int i, int j) { return at(r, i, j) ? (int)r->rows[i][j].s.size() : 0; }
PGTransactionStatusType PQtransactionStatus(const PGconn *) { return sv().aborted ? PQTRANS_INERROR : sv().s.inTx() ? PQTRANS_INTRANS : PQTRANS_IDLE; }
}
