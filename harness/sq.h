// Databases built and read back through the SQLite C API (model in the symbolic build, real library in replays).
#pragma once
#include "db.h"
#include <sqlite3.h>
struct ST : Tab { std::vector<std::string> cols, types; bool noKey; std::string extra, keyClause; ST() : noKey(false) {} };  // table: Tab plus column names and types
typedef std::vector<ST> SDb;
static inline std::string qid(const std::string &s) { std::string r = "\""; for (char c : s) { r += c; if (c == '"') r += c; } return r + "\""; }
static inline void sqMust(int ok, const char *w) { if (!ok) { gs_print(w); gs_unsupported(w); } }
static inline ST sqTab(const char *name, const char *cols, int pkmask) { ST t; t.name = name; std::string s(cols), w; s += ","; for (char c : s) { if (c != ',') { w += c; continue; } size_t q = w.find(' '); t.cols.push_back(w.substr(0, q)); t.types.push_back(q == std::string::npos ? "" : w.substr(q + 1)); w.clear(); } for (size_t i = 0; i < t.cols.size(); i++) t.pk.push_back(pkmask >> i & 1); t.noKey = pkmask == 0; return t; }
static inline std::string sqCreate(const ST &t) { std::string s = "CREATE TABLE " + qid(t.name) + "(", k; for (size_t i = 0; i < t.cols.size(); i++) { if (i) s += ", "; s += qid(t.cols[i]) + (t.types[i].empty() ? "" : " ") + t.types[i]; if (t.pk[i]) k += (k.empty() ? "" : ", ") + qid(t.cols[i]); } if (!k.empty()) s += ", PRIMARY KEY (" + k + ")" + t.keyClause; return s + t.extra + ")"; }
static inline void sqBind(sqlite3_stmt *q, int i, const OV &v) { int rc; if (v.t == T_INT) rc = sqlite3_bind_int64(q, i, (int64_t)v.n); else if (v.t == T_REAL) rc = sqlite3_bind_double(q, i, bitsd(v.n)); else if (v.t == T_TEXT) rc = sqlite3_bind_text(q, i, v.s.empty() ? "" : (const char *)v.s.data(), (int)v.s.size(), SQLITE_TRANSIENT); else if (v.t == T_BLOB) rc = sqlite3_bind_blob(q, i, v.s.empty() ? "" : (const char *)v.s.data(), (int)v.s.size(), SQLITE_TRANSIENT); else rc = sqlite3_bind_null(q, i); sqMust(rc == 0, "bind"); }
static inline sqlite3 *sqOpen(const char *path, bool create) { sqlite3 *d; int rc = sqlite3_open_v2(path, &d, SQLITE_OPEN_READWRITE | (create ? SQLITE_OPEN_CREATE : 0), nullptr); sqMust(rc == 0, "open"); return d; }
static inline void sqExec(sqlite3 *d, const std::string &s) { int rc = sqlite3_exec(d, s.c_str(), nullptr, nullptr, nullptr); if (rc) gs_unsupported(sqlite3_errmsg(d)); sqMust(rc == 0, "exec"); }
static inline void sqFill(sqlite3 *d, const ST &t) { for (auto &r : t.rows) { std::string s = "INSERT INTO " + qid(t.name) + " VALUES ("; for (size_t i = 0; i < r.size(); i++) s += i ? ",?" : "?"; s += ")"; sqlite3_stmt *q; sqMust(sqlite3_prepare_v2(d, s.c_str(), -1, &q, nullptr) == 0, "prepare insert"); for (size_t i = 0; i < r.size(); i++) sqBind(q, (int)i + 1, r[i]); int rc = sqlite3_step(q); sqlite3_finalize(q); gs_assume(rc == 101); } }
static inline void sqMake(const char *path, const SDb &db, const std::vector<std::string> &more = std::vector<std::string>()) { sqlite3 *d = sqOpen(path, true); sqExec(d, "BEGIN"); for (auto &t : db) { sqExec(d, sqCreate(t)); sqFill(d, t); } for (auto &m : more) sqExec(d, m); sqExec(d, "COMMIT"); sqlite3_close(d); }
static inline OV sqCell(sqlite3_stmt *q, int i) { sqlite3_value *v = sqlite3_column_value(q, i); OV o; o.t = sqlite3_value_type(v); if (o.t == T_INT) o.n = (uint64_t)sqlite3_value_int64(v); else if (o.t == T_REAL) o.n = dbits(sqlite3_value_double(v)); else if (o.t == T_TEXT || o.t == T_BLOB) { const unsigned char *p = (const unsigned char *)(o.t == T_TEXT ? (const void *)sqlite3_value_text(v) : sqlite3_value_blob(v)); int n = sqlite3_value_bytes(v); if (n) o.s.assign(p, p + n); } return o; }
static inline std::vector<Row> sqQuery(sqlite3 *d, const std::string &s) { std::vector<Row> out; sqlite3_stmt *q; int rc = sqlite3_prepare_v2(d, s.c_str(), -1, &q, nullptr); sqMust(rc == 0, "query"); while ((rc = sqlite3_step(q)) == 100) { Row r; int n = sqlite3_column_count(q); for (int i = 0; i < n; i++) r.push_back(sqCell(q, i)); out.push_back(r); } sqlite3_finalize(q); sqMust(rc == 101, "query end"); return out; }
static inline std::string ovs(const OV &v) { return std::string(v.s.begin(), v.s.end()); }
// schema as text, one line per object
static inline std::vector<std::string> sqSchema(const char *path) { sqlite3 *d = sqOpen(path, false); std::vector<std::string> r; for (auto &x : sqQuery(d, "SELECT type, name, tbl_name, sql FROM sqlite_master ORDER BY type, name")) r.push_back(ovs(x[0]) + "|" + ovs(x[1]) + "|" + ovs(x[2]) + "|" + ovs(x[3])); sqlite3_close(d); return r; }
static inline SDb sqRead(const char *path, const SDb &like) { sqlite3 *d = sqOpen(path, false); SDb r; for (auto &t : like) { ST x = t; std::string cs; for (auto &c : t.cols) cs += (cs.empty() ? "" : ",") + qid(c); x.rows = sqQuery(d, "SELECT " + cs + " FROM " + qid(t.name)); r.push_back(x); } sqlite3_close(d); return r; }
// the same multiset of rows (tables with keys have distinct rows)
static inline bool multi(const std::vector<Row> &a, const std::vector<Row> &b) { if (a.size() != b.size()) return false; std::vector<bool> used(b.size(), false); for (auto &r : a) { bool ok = false; for (size_t i = 0; i < b.size() && !ok; i++) if (!used[i] && rowEq(r, b[i])) { used[i] = true; ok = true; } if (!ok) return false; } return true; }
static inline bool sqSame(const SDb &a, const SDb &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!multi(a[i].rows, b[i].rows)) return false; return true; }
static inline void sqCopy(const char *from, const char *to) { Bytes b = readFile(from); putFile(to, b); }
static inline Db plain(const SDb &s) { Db d; for (auto &t : s) d.push_back(t); return d; }
static inline SDb withRows(const SDb &like, const Db &d) { SDb r = like; for (size_t i = 0; i < r.size(); i++) r[i].rows = d[i].rows; return r; }
// cells as a database keeps them: no NaN, no negative zero
static inline OV symCell(unsigned mask, int maxlen, const char *tag) { OV v = symValue(mask & ~M_UNDEF, maxlen, tag); if (v.t == T_REAL) { gs_assume((v.n & 0x7fffffffffffffffULL) <= 0x7ff0000000000000ULL); gs_assume(v.n != 0x8000000000000000ULL); } return v; }
// few-valued cells (2 low bits, bit 32, sign; letters), for code that formats values as text
static inline OV fewCell(unsigned mask, int maxlen, const char *tag) { int ts[6], n = 0; for (int t = 1; t < 6; t++) if (mask >> t & 1) ts[n++] = t; OV v; std::string id = nm(tag, gsCtr++); v.t = n > 1 ? ts[gs_choice((id + ".type").c_str(), n)] : ts[0]; if (v.t == T_INT) { uint64_t x = gs_sym((id + ".n").c_str(), 3); v.n = (x & 3) | (x >> 2) << 32; } else if (v.t == T_REAL) { static const double ds[] = {0.5, 0.25, -1e300}; v.n = dbits(ds[gs_choice((id + ".d").c_str(), 3)]); } else if (v.t == T_TEXT || v.t == T_BLOB) { int len = maxlen > 0 ? gs_choice((id + ".len").c_str(), maxlen + 1) : 0; for (int i = 0; i < len; i++) v.s.push_back((unsigned char)('a' + gs_sym((id + nm(".c", i)).c_str(), 2))); } return v; }
static inline void fewRows(ST &t, int n, const std::vector<unsigned> &masks, int maxlen, const char *tag);
static inline bool distinctKeys(const Tab &t) { for (size_t i = 0; i < t.rows.size(); i++) for (size_t j = 0; j < i; j++) if (keyEq(t.pk, t.rows[i], t.rows[j])) return false; return true; }
static inline void symRows(ST &t, int n, const std::vector<unsigned> &masks, int maxlen, const char *tag) { for (int i = 0; i < n; i++) { Row r; for (size_t c = 0; c < t.pk.size(); c++) r.push_back(symCell(masks[c], maxlen, (std::string(tag) + nm("r", i)).c_str())); t.rows.push_back(r); } if (!t.noKey) gs_assume(distinctKeys(t)); }
static inline void fewRows(ST &t, int n, const std::vector<unsigned> &masks, int maxlen, const char *tag) { for (int i = 0; i < n; i++) { Row r; for (size_t c = 0; c < t.pk.size(); c++) r.push_back(fewCell(masks[c], maxlen, (std::string(tag) + nm("r", i)).c_str())); t.rows.push_back(r); } if (!t.noKey) gs_assume(distinctKeys(t)); }
// the meta tables of a GeoPackage for the geometry column geom of table t
static inline void sqGpkg(SDb &B) {
  ST c = sqTab("gpkg_contents", "table_name TEXT,data_type,identifier,description,last_change,min_x,min_y,max_x,max_y,srs_id INTEGER", 1); Row r; const char *const C[] = {"t", "features", "t", "", "2020-01-01T00:00:00.000Z"}; for (int i = 0; i < 5; i++) r.push_back(ovStr(T_TEXT, C[i])); for (int i = 0; i < 4; i++) r.push_back(ovNull()); r.push_back(ovInt(4326)); c.rows.push_back(r); B.push_back(c);
  ST g = sqTab("gpkg_geometry_columns", "table_name,column_name,geometry_type_name,srs_id INTEGER,z INTEGER,m INTEGER", 0); r.clear(); const char *const G[] = {"t", "geom", "POINT"}; for (int i = 0; i < 3; i++) r.push_back(ovStr(T_TEXT, G[i])); r.push_back(ovInt(4326)); r.push_back(ovInt(0)); r.push_back(ovInt(0)); g.rows.push_back(r); B.push_back(g);
  ST s = sqTab("gpkg_spatial_ref_sys", "srs_name,srs_id INTEGER,organization,organization_coordsys_id INTEGER,definition", 2); r.clear(); r.push_back(ovStr(T_TEXT, "n")); r.push_back(ovInt(4326)); r.push_back(ovStr(T_TEXT, "EPSG")); r.push_back(ovInt(4326)); r.push_back(ovStr(T_TEXT, "W")); s.rows.push_back(r); B.push_back(s); }
static inline OV symGeom(const char *tag) { int k = gs_choice((std::string(tag) + ".geom").c_str(), 4); if (k == 0) return ovNull(); OV v = ovStr(T_BLOB, k == 1 ? "" : "GP"); if (k == 1) return v; v.s.push_back(0); v.s.push_back(k == 2 ? 1 : 0x11); for (int i = 0; i < 3; i++) v.s.push_back(i == 1 ? 0x10 : 0); v.s.push_back(gs_u8((std::string(tag) + ".s").c_str())); v.s.push_back(gs_u8((std::string(tag) + ".w").c_str())); return v; }
// feature count and spatial index (its table is an ordinary one here) with the triggers GeoPackage writers create
static inline void sqGpkgTriggers(std::vector<std::string> &m, int n) {
  m.push_back("CREATE TABLE gpkg_ogr_contents (table_name TEXT PRIMARY KEY, feature_count INTEGER)"); m.push_back("INSERT INTO gpkg_ogr_contents VALUES ('t', " + std::to_string(n) + ")"); m.push_back("CREATE TABLE rtree_t_geom (id INTEGER PRIMARY KEY, x)"); m.push_back("INSERT INTO rtree_t_geom SELECT id, 1 FROM t WHERE geom IS NOT NULL");
  m.push_back("CREATE TRIGGER \"trigger_insert_feature_count_t\" AFTER INSERT ON \"t\" BEGIN UPDATE gpkg_ogr_contents SET feature_count = feature_count + 1 WHERE table_name = 't'; END"); m.push_back("CREATE TRIGGER \"trigger_delete_feature_count_t\" AFTER DELETE ON \"t\" BEGIN UPDATE gpkg_ogr_contents SET feature_count = feature_count - 1 WHERE table_name = 't'; END");
  m.push_back("CREATE TRIGGER \"rtree_t_geom_insert\" AFTER INSERT ON \"t\" WHEN (NEW.geom IS NOT NULL) BEGIN INSERT OR REPLACE INTO rtree_t_geom VALUES (NEW.id, 1); END"); m.push_back("CREATE TRIGGER \"rtree_t_geom_update1\" AFTER UPDATE OF geom ON \"t\" WHEN OLD.id = NEW.id AND NEW.geom IS NOT NULL BEGIN INSERT OR REPLACE INTO rtree_t_geom VALUES (NEW.id, 1); END"); m.push_back("CREATE TRIGGER \"rtree_t_geom_update2\" AFTER UPDATE OF geom ON \"t\" WHEN OLD.id = NEW.id AND NEW.geom IS NULL BEGIN DELETE FROM rtree_t_geom WHERE id = OLD.id; END"); m.push_back("CREATE TRIGGER \"rtree_t_geom_delete\" AFTER DELETE ON \"t\" WHEN OLD.geom IS NOT NULL BEGIN DELETE FROM rtree_t_geom WHERE id = OLD.id; END"); }
