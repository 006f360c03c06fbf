// A small SQL engine (parser, evaluator, tables, triggers, savepoints). Cell contents may be symbolic; SQL text,
// value types and lengths are concrete on each path. Anything outside the subset ends the path as "unsupported".
#pragma once
#ifdef GSQL_PG
#define gsql gsqlpg
#endif
#include "gs.h"
#include <string>
#include <vector>
#include <cstring>
#include <cstdlib>
namespace gsql {
enum { V_INT = 1, V_REAL = 2, V_TEXT = 3, V_BLOB = 4, V_NULL = 5 };
struct SV { int t; int64_t n; std::string s; SV() : t(V_NULL), n(0) {} };
typedef std::vector<SV> Row;
static inline SV svInt(int64_t n) { SV v; v.t = V_INT; v.n = n; return v; }
static inline SV svText(const std::string &s) { SV v; v.t = V_TEXT; v.s = s; return v; }
static inline double svD(const SV &v) { double d; memcpy(&d, &v.n, 8); return d; }
static inline SV svReal(double d) { SV v; v.t = V_REAL; memcpy(&v.n, &d, 8); return v; }
static inline unsigned char lc(unsigned char c) { return (unsigned char)(c + (((unsigned)(c - 'A') < 26u) ? 32 : 0)); }
static inline bool kweq(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; unsigned d = 0; for (size_t i = 0; i < a.size(); i++) d |= lc(a[i]) ^ lc(b[i]); return d == 0; }
#ifdef GSQL_PG
static inline bool ieq(const std::string &a, const std::string &b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size()) == 0); } // names are case-sensitive, the parser folds unquoted ones
#else
static inline bool ieq(const std::string &a, const std::string &b) { return kweq(a, b); }
#endif

// ------------------------------------------------------------------ tokens
enum { T_END, T_ID, T_QID, T_STR, T_INTL, T_REALL, T_BLOBL, T_PARAM, T_OP };
struct Tok { int k; std::string s; int64_t n; size_t b, e; };
struct Error { int code; std::string msg; bool rollback; Error(int c, const std::string &m, bool rb = false) : code(c), msg(m), rollback(rb) {} };

// ------------------------------------------------------------------ syntax trees
struct Select;
enum Op { O_LIT, O_COL, O_NAME, O_PARAM, O_AND, O_OR, O_NOT, O_EQ, O_NE, O_LT, O_LE, O_GT, O_GE, O_IS, O_ISNOT, O_LIKE, O_NLIKE, O_IN, O_NIN, O_EXISTS, O_SUBQ, O_CASE, O_NEG, O_ADD, O_SUB, O_MUL, O_CAT, O_FUNC, O_CAST, O_COLL, O_GLOB, O_NGLOB, O_DIV, O_MOD, O_ROW };
struct Expr { int op; std::vector<Expr *> k; std::string s, tb, db; SV v; int i, j, d; bool quoted; Select *sub; Expr(int o) : op(o), i(0), j(0), d(0), quoted(false), sub(nullptr) {} };
struct Src { std::string db, name, alias; bool func; std::vector<Expr *> args; Expr *on; std::vector<std::string> usings; bool left; Src() : func(false), on(nullptr), left(false) {} };
struct Item { Expr *e; std::string alias; bool star; std::string tb, db; Item() : e(nullptr), star(false) {} };
struct Select { bool distinct; std::vector<std::pair<int, Select *> > more; Expr *offset; std::vector<Item> items; std::vector<Src> from; Expr *where; std::vector<std::pair<Expr *, bool> > order; Expr *limit; Select() : distinct(false), offset(nullptr), where(nullptr), limit(nullptr) {} };
struct Column { std::string name, type, coll, nnAct; bool notnull; int pk; Expr *dflt, *gen; std::string dfltText; Column() : notnull(false), pk(0), dflt(nullptr), gen(nullptr) {} };
struct Fk { std::vector<std::string> from, to; std::string table; };
struct Stmt {
  enum K { SELECT, INSERT, UPDATE, DELETE, SAVEPOINT, RELEASE, ROLLBACKTO, BEGIN, COMMIT, ROLLBACK, ATTACH, DETACH, CREATE_TABLE, CREATE_TRIGGER, CREATE_INDEX, DROP, PRAGMA, NOP, OTHER } kind;
  std::string db, name, text, what, arg; // arg: pragma argument / trigger table
  Select *sel; std::vector<std::string> cols; std::vector<std::vector<Expr *> > values; std::string orWhat;
  std::vector<std::pair<std::string, Expr *> > set; Expr *where; Expr *e1, *e2;
  std::vector<Column> defs; std::vector<std::vector<std::string> > uniq; std::vector<std::string> uniqAct; std::string pkAct; std::vector<std::string> pkcols; std::vector<Expr *> checks; std::vector<Fk> fks; bool withoutRowid, ifExists; 
  std::string event, timing; std::vector<Stmt *> body; Expr *when; int nparam; std::string returning;
  Stmt() : kind(NOP), sel(nullptr), where(nullptr), e1(nullptr), e2(nullptr), withoutRowid(false), ifExists(false), when(nullptr), nparam(0) {}
};

// ------------------------------------------------------------------ parser
struct Parser {
  std::string z; std::vector<Tok> t; size_t p; int nparam; bool pg;
  Parser(const std::string &sql, bool pgDialect = false) : z(sql), p(0), nparam(0), pg(pgDialect) { lex(); }
  void bad(const std::string &m) { throw Error(1, m); }
  static bool idc(unsigned char c) { return ((unsigned)(lc(c) - 'a') < 26u) || ((unsigned)(c - '0') < 10u) || c == '_' || c == '$' || c >= 128; }
  void lex() {
    size_t i = 0, n = z.size();
    for (;;) {
      while (i < n) { unsigned char c = z[i]; if (c == ' ' || (unsigned)(c - 9) < 5u) i++; else if (c == '-' && i + 1 < n && z[i + 1] == '-') { while (i < n && z[i] != '\n') i++; } else if (c == '/' && i + 1 < n && z[i + 1] == '*') { i += 2; while (i + 1 < n && !(z[i] == '*' && z[i + 1] == '/')) i++; i = i + 2 < n ? i + 2 : n; } else break; }
      Tok k; k.n = 0; k.b = i; if (i >= n) { k.k = T_END; k.e = i; t.push_back(k); return; }
      unsigned char c = z[i];
      if (c == '"' || (c == '`' && !pg)) { i++; for (;; i++) { if (i >= n) bad("unrecognized token: unterminated quoted identifier"); if ((unsigned char)z[i] == c) { if (i + 1 < n && (unsigned char)z[i + 1] == c) { k.s += c; i++; continue; } break; } k.s += z[i]; } i++; if (pg && k.s.empty()) bad("zero-length delimited identifier"); k.k = T_QID; }
      else if (c == '[' && !pg) { i++; while (i < n && z[i] != ']') k.s += z[i++]; if (i >= n) bad("unrecognized token: ["); i++; k.k = T_QID; }
      else if (c == '\'') { i++; for (;; i++) { if (i >= n) bad("unrecognized token: unterminated string"); if (z[i] == '\'') { if (i + 1 < n && z[i + 1] == '\'') { k.s += '\''; i++; continue; } break; } k.s += z[i]; } i++; k.k = T_STR; }
      else if ((unsigned)(c - '0') < 10u || (c == '.' && i + 1 < n && (unsigned)((unsigned char)z[i + 1] - '0') < 10u)) { bool real = false; size_t b = i; while (i < n && ((unsigned)((unsigned char)z[i] - '0') < 10u)) i++; if (i < n && z[i] == '.') { real = true; i++; while (i < n && ((unsigned)((unsigned char)z[i] - '0') < 10u)) i++; } if (i < n && (z[i] == 'e' || z[i] == 'E')) { size_t q = i + 1; if (q < n && (z[q] == '+' || z[q] == '-')) q++; if (q < n && (unsigned)((unsigned char)z[q] - '0') < 10u) { real = true; i = q; while (i < n && ((unsigned)((unsigned char)z[i] - '0') < 10u)) i++; } }
        if (i < n && idc(z[i])) bad("unrecognized token: " + z.substr(b, i - b + 1)); k.s = z.substr(b, i - b); k.k = real ? T_REALL : T_INTL; if (!real) { for (char ch : k.s) { if (k.n > 922337203685477580LL) { k.k = T_REALL; break; } k.n = k.n * 10 + (ch - '0'); if (k.n < 0) { k.k = T_REALL; break; } } } }
      else if (c == '?' || c == ':' || c == '@' || (pg && c == '$')) { if (c == ':' && i + 1 < n && z[i + 1] == ':') { k.k = T_OP; k.s = "::"; i += 2; } else { i++; size_t b = i; while (i < n && idc(z[i])) i++; k.k = T_PARAM; k.s = z.substr(b, i - b); if (c == '?' || c == '$') { if (k.s.empty()) k.n = 0; else k.n = atoi(k.s.c_str()); } else { gs_unsupported("named SQL parameter"); } } }
      else if (((c == 'x' || c == 'X') && i + 1 < n && z[i + 1] == '\'')) { i += 2; k.k = T_BLOBL; while (i < n && z[i] != '\'') { unsigned v = 0; for (int h = 0; h < 2; h++, i++) { unsigned char d = i < n ? lc(z[i]) : 0; if (d - '0' < 10u) v = v * 16 + d - '0'; else if ((unsigned)(d - 'a') < 6u) v = v * 16 + d - 'a' + 10; else bad("unrecognized token: blob"); } k.s += (char)v; } if (i >= n) bad("unrecognized token: blob"); i++; }
      else if (pg && (c == 'E' || c == 'e') && i + 1 < n && z[i + 1] == '\'') { i += 2; for (;; i++) { if (i >= n) bad("unterminated quoted string"); if (z[i] == '\'') { if (i + 1 < n && z[i + 1] == '\'') { k.s += '\''; i++; continue; } break; } if (z[i] == '\\') { if (++i >= n) bad("unterminated quoted string"); unsigned char q = z[i]; if (q == 'b') k.s += '\b'; else if (q == 'f') k.s += '\f'; else if (q == 'n') k.s += '\n'; else if (q == 'r') k.s += '\r'; else if (q == 't') k.s += '\t'; else if (q == 'u' || q == 'U') bad("invalid Unicode escape"); else if ((unsigned)(q - '0') < 8u) { unsigned v = 0; int d = 0; while (d < 3 && i < n && (unsigned)((unsigned char)z[i] - '0') < 8u) { v = v * 8 + (z[i] - '0'); i++; d++; } i--; k.s += (char)v; } else if (q == 'x' && i + 1 < n && isxdigit((unsigned char)z[i + 1])) { unsigned v = 0; int d = 0; i++; while (d < 2 && i < n && isxdigit((unsigned char)z[i])) { unsigned char h = lc(z[i]); v = v * 16 + (h <= '9' ? h - '0' : h - 'a' + 10); i++; d++; } i--; k.s += (char)v; } else k.s += (char)q; continue; } k.s += z[i]; } i++; k.k = T_STR; }
      else if (idc(c)) { size_t b = i; while (i < n && idc(z[i])) i++; k.k = T_ID; k.s = z.substr(b, i - b); }
      else { static const char *two[] = {"<>", "!=", "<=", ">=", "==", "||", "<<", ">>", 0}; k.k = T_OP; k.s = z.substr(i, 1); for (int q = 0; two[q]; q++) if (i + 1 < n && z[i] == two[q][0] && z[i + 1] == two[q][1]) { k.s = two[q]; break; } if (k.s.size() == 1 && !strchr("()+-*/%,.;=<>~&|", z[i])) bad("unrecognized token: \"" + k.s + "\""); i += k.s.size(); }
      k.e = i; t.push_back(k);
    }
  }
  Tok &cur() { return t[p]; }
  bool isKw(const char *w, size_t at) { return at < t.size() && t[at].k == T_ID && t[at].s.size() == strlen(w) && kweq(t[at].s, w); }
  bool kw(const char *w) { if (isKw(w, p)) { p++; return true; } return false; }
  bool op(const char *w) { if (t[p].k == T_OP && t[p].s == w) { p++; return true; } return false; }
  bool isOp(const char *w) { return t[p].k == T_OP && t[p].s == w; }
  void needOp(const char *w) { if (!op(w)) syn(); }
  void needKw(const char *w) { if (!kw(w)) syn(); }
  // PostgreSQL has more syntax than this parser: what may be well-formed ends the path instead
  void syn() { if (pg) { static const char *W[] = {"with", "group", "having", "over", "returning", "conflict", "array", "unnest", "any", "some", "row", "natural", "full", "right", "lateral", "window", "using", "union", "except", "intersect", "ilike", "similar", "interval", "fetch", "for", "filter", "within", "extract", "overlay", "position", "trim", "set", "show", "lock", "prepare", "execute", "declare", "copy", "truncate", "do", "discard", "reset", "comment", "grant", "merge", "explain", "analyze", "vacuum", "alter", "call", "restart", "nulls", "escape", "regexp", "values", "isolation", "read", "at", "only", "tablesample", "recursive", "materialized", "authorization", 0}; for (size_t i = 0; i < t.size(); i++) { for (int q = 0; W[q]; q++) if (isKw(W[q], i)) { if (kweq(t[i].s, "set") && isKw("update", 0)) continue; if (kweq(t[i].s, "values") && isKw("insert", 0)) continue; gs_unsupported("PostgreSQL syntax"); } if (t[i].k == T_OP && (t[i].s == "[" || t[i].s == "~" || t[i].s == "#" || t[i].s == "->")) gs_unsupported("PostgreSQL syntax"); } } bad("near \"" + z.substr(cur().b, cur().e - cur().b) + "\": syntax error"); }
  static bool reserved(const std::string &s) { static const char *R[] = {"select", "from", "where", "and", "or", "not", "insert", "into", "values", "update", "set", "delete", "create", "table", "drop", "order", "by", "group", "having", "limit", "case", "when", "then", "else", "exists", "null", "is", "in", "primary", "references", "unique", "check", "default", "constraint", "join", "on", "using", "union", "distinct", "as", "between", "foreign", "collate", "index", "transaction", "to", "add", "alter", "commit", "escape", "isnull", "notnull", "natural", "left", "inner", "outer", "cross", "full", "right", "intersect", "except", "returning", "autoincrement", "deferrable", "nothing", 0}; for (int i = 0; R[i]; i++) if (s.size() == strlen(R[i]) && kweq(s, R[i])) return true; return false; }
  bool isName(size_t at) { return t[at].k == T_QID || t[at].k == T_STR || (t[at].k == T_ID && !reserved(t[at].s)); }
  std::string fold(const Tok &k) { if (pg && k.k == T_ID) { std::string s = k.s; for (auto &c : s) c = (char)lc(c); return s; } return k.s; }
  std::string name() { if (!isName(p) || (pg && t[p].k == T_STR)) syn(); return fold(t[p++]); }
  // ---- expressions
  // row values: compared column by column
  Expr *bin(int o, Expr *a, Expr *b) { if (a->op == O_ROW || b->op == O_ROW) { if (a->op != b->op || a->k.size() != b->k.size() || (o != O_EQ && o != O_NE && o != O_IS && o != O_ISNOT)) gs_unsupported("SQL row value"); Expr *r = nullptr; for (size_t i = 0; i < a->k.size(); i++) { Expr *q = bin(o, a->k[i], b->k[i]); r = r ? bin(o == O_EQ || o == O_IS ? O_AND : O_OR, r, q) : q; } return r; } Expr *e = new Expr(o); e->k.push_back(a); e->k.push_back(b); return e; }
  Expr *expr() { Expr *a = eAnd(); while (kw("or")) a = bin(O_OR, a, eAnd()); return a; }
  Expr *eAnd() { Expr *a = eNot(); while (kw("and")) a = bin(O_AND, a, eNot()); return a; }
  Expr *eNot() { if (isKw("not", p) && !isKw("exists", p + 1)) { p++; Expr *e = new Expr(O_NOT); e->k.push_back(eNot()); return e; } return eCmp(); }
  Expr *eCmp() {
    Expr *a = eRel();
    for (;;) {
      if (op("=") || op("==")) a = bin(O_EQ, a, eRel()); else if (op("<>") || op("!=")) a = bin(O_NE, a, eRel());
      else if (kw("is")) { bool n = kw("not"); if (pg && kw("unknown")) { a = bin(n ? O_ISNOT : O_IS, a, new Expr(O_LIT)); continue; } if (kw("distinct")) { needKw("from"); n = !n; } a = bin(n ? O_ISNOT : O_IS, a, eRel()); }
      else if (kw("isnull")) a = bin(O_IS, a, new Expr(O_LIT)); else if (kw("notnull")) a = bin(O_ISNOT, a, new Expr(O_LIT));
      else if (isKw("like", p) || (isKw("not", p) && isKw("like", p + 1))) { bool n = kw("not"); kw("like"); a = bin(n ? O_NLIKE : O_LIKE, a, eRel()); }
      else if (isKw("in", p) || (isKw("not", p) && isKw("in", p + 1))) { bool n = kw("not"); kw("in"); Expr *e = new Expr(n ? O_NIN : O_IN); e->k.push_back(a); needOp("("); if (isKw("select", p)) e->sub = select(); else if (!isOp(")")) do e->k.push_back(expr()); while (op(",")); needOp(")"); a = e; }
      else if (isKw("glob", p) || (isKw("not", p) && isKw("glob", p + 1))) { bool n = kw("not"); kw("glob"); a = bin(n ? O_NGLOB : O_GLOB, a, eRel()); }
      else if (isKw("between", p) || (isKw("not", p) && isKw("between", p + 1))) { bool n = kw("not"); kw("between"); Expr *x = eRel(); needKw("and"); Expr *y = eRel(); a = bin(O_AND, bin(O_GE, a, x), bin(O_LE, a, y)); if (n) { Expr *q = new Expr(O_NOT); q->k.push_back(a); a = q; } }
      else if (isKw("match", p) || isKw("escape", p) || isKw("regexp", p)) gs_unsupported("SQL operator");
      else return a;
    }
  }
  Expr *eRel() { Expr *a = eAdd(); for (;;) { if (op("<")) a = bin(O_LT, a, eAdd()); else if (op("<=")) a = bin(O_LE, a, eAdd()); else if (op(">")) a = bin(O_GT, a, eAdd()); else if (op(">=")) a = bin(O_GE, a, eAdd()); else return a; } }
  Expr *eAdd() { Expr *a = eMul(); for (;;) { if (op("+")) a = bin(O_ADD, a, eMul()); else if (op("-")) a = bin(O_SUB, a, eMul()); else return a; } }
  Expr *eMul() { Expr *a = eCat(); for (;;) { if (op("*")) a = bin(O_MUL, a, eCat()); else if (!pg && op("/")) a = bin(O_DIV, a, eCat()); else if (!pg && op("%")) a = bin(O_MOD, a, eCat()); else if (isOp("/") || isOp("%") || isOp("&") || isOp("|") || isOp("<<") || isOp(">>")) gs_unsupported("SQL operator"); else return a; } }
  Expr *eCat() { Expr *a = eUn(); while (op("||")) a = bin(O_CAT, a, eUn()); return a; }
  Expr *eUn() { if (op("-")) { Expr *e = new Expr(O_NEG); e->k.push_back(eUn()); return e; } if (op("+")) return eUn(); Expr *e = prim(); while (op("::")) { Expr *c = new Expr(O_CAST); c->k.push_back(e); c->s = name(); if (pg) { while (op(".")) c->s = name(); if (c->s == "double") kw("precision"); if (c->s == "timestamp" && (isKw("without", p) || isKw("with", p))) { p++; needKw("time"); needKw("zone"); } if (op("(")) { do expr(); while (op(",")); needOp(")"); } if (isOp("[")) gs_unsupported("PostgreSQL syntax"); } e = c; } if (pg && kw("collate")) { name(); if (op(".")) name(); } while (!pg && kw("collate")) { Expr *c = new Expr(O_COLL); c->k.push_back(e); c->s = name(); for (auto &ch : c->s) ch = (char)lc(ch); if (c->s != "nocase" && c->s != "binary") gs_unsupported("collation"); e = c; } return e; }
  Expr *prim() {
    Tok &k = cur(); Expr *e;
    if (k.k == T_INTL) { p++; e = new Expr(O_LIT); e->v = svInt(k.n); return e; }
    if (k.k == T_REALL) { p++; e = new Expr(O_LIT); e->v = svReal(strtod(k.s.c_str(), nullptr)); return e; }
    if (k.k == T_STR) { p++; e = new Expr(O_LIT); e->v = svText(k.s); return e; }
    if (k.k == T_BLOBL) { p++; e = new Expr(O_LIT); e->v.t = V_BLOB; e->v.s = k.s; return e; }
    if (k.k == T_PARAM) { p++; e = new Expr(O_PARAM); if (k.n) e->i = (int)k.n; else e->i = nparam + 1; if (e->i > nparam) nparam = e->i; return e; }
    if (op("(")) { if (isKw("select", p)) { e = new Expr(O_SUBQ); e->sub = select(); needOp(")"); return e; } e = expr(); if (isOp(",")) { Expr *r = new Expr(O_ROW); r->k.push_back(e); while (op(",")) r->k.push_back(expr()); e = r; } needOp(")"); return e; }
    if (k.k == T_ID) {
      if (kw("null")) return new Expr(O_LIT);
      if (isKw("not", p) && isKw("exists", p + 1)) { p++; e = new Expr(O_NOT); e->k.push_back(prim()); return e; }
      if (kw("exists")) { needOp("("); e = new Expr(O_EXISTS); e->sub = select(); needOp(")"); return e; }
      if (kw("case")) { e = new Expr(O_CASE); e->i = 0; if (!isKw("when", p)) { e->i = 1; e->k.push_back(expr()); } while (kw("when")) { e->k.push_back(expr()); needKw("then"); e->k.push_back(expr()); } if (kw("else")) { e->j = 1; e->k.push_back(expr()); } needKw("end"); return e; }
      if (isKw("cast", p)) { p++; needOp("("); e = new Expr(O_CAST); e->k.push_back(expr()); needKw("as"); e->s = name(); needOp(")"); return e; }
      if (pg && (isKw("true", p) || isKw("false", p))) { e = new Expr(O_LIT); e->v = svInt(isKw("true", p)); p++; return e; }
      if (!reserved(k.s) && t[p + 1].k == T_OP && t[p + 1].s == "(") { e = new Expr(O_FUNC); e->s = name(); for (auto &c : e->s) c = (char)lc(c); p++; if (op("*")) e->i = 1; else if (!isOp(")")) do e->k.push_back(expr()); while (op(",")); needOp(")"); return e; }
    }
    if (isName(p)) { e = new Expr(O_NAME); e->quoted = t[p].k == T_QID; e->s = name(); if (op(".")) { e->tb = e->s; e->s = name(); e->quoted = false; if (op(".")) { e->db = e->tb; e->tb = e->s; e->s = name(); } }
      if (isOp("(")) { if (!pg) syn(); e->op = O_FUNC; p++; if (op("*")) e->i = 1; else if (!isOp(")")) do e->k.push_back(expr()); while (op(",")); needOp(")"); } return e; }
    syn(); return nullptr;
  }
  // ---- statements
  Select *select(bool top = true) {
    needKw("select"); Select *s = new Select; if (kw("distinct")) s->distinct = true; else kw("all");
    if (!(pg && (isKw("from", p) || isKw("where", p)))) do { Item it; if (op("*")) it.star = true; else if (isName(p) && t[p + 1].k == T_OP && t[p + 1].s == "." && t[p + 2].k == T_OP && t[p + 2].s == "*") { it.star = true; it.tb = name(); p += 2; } else if (isName(p) && t[p + 1].k == T_OP && t[p + 1].s == "." && isName(p + 2) && t[p + 3].k == T_OP && t[p + 3].s == "." && t[p + 4].k == T_OP && t[p + 4].s == "*") { it.star = true; it.db = name(); p++; it.tb = name(); p += 2; } else { it.e = expr(); if (kw("as")) it.alias = name(); else if (isName(p)) it.alias = name(); } s->items.push_back(it); } while (op(","));
    if (kw("from")) { bool left = false; for (;;) { Src x; x.left = left; if (pg && isKw("only", p) && isName(p + 1)) p++; x.name = name(); if (op(".")) { x.db = x.name; x.name = name(); } if (op("(")) { x.func = true; if (!isOp(")")) do x.args.push_back(expr()); while (op(",")); needOp(")"); } if (kw("as")) x.alias = name(); else if (isName(p) && !isKw("limit", p)) x.alias = name(); if (kw("on")) x.on = expr(); else if (!pg && kw("using")) { needOp("("); do x.usings.push_back(name()); while (op(",")); needOp(")"); if (s->from.size() != 1) gs_unsupported("USING"); const Src &l = s->from[0]; for (auto &u : x.usings) { Expr *a = new Expr(O_NAME), *b = new Expr(O_NAME); a->tb = l.alias.empty() ? l.name : l.alias; b->tb = x.alias.empty() ? x.name : x.alias; if (a->tb == b->tb) { a->db = l.db.empty() ? "main" : l.db; b->db = x.db.empty() ? "main" : x.db; } a->s = b->s = u; Expr *q = bin(O_EQ, a, b); x.on = x.on ? bin(O_AND, x.on, q) : q; } } s->from.push_back(x); left = false; if (op(",")) continue; if (kw("left")) { kw("outer"); needKw("join"); left = true; continue; } if (kw("inner") || kw("cross")) { needKw("join"); continue; } if (kw("join")) continue; break; } }
    if (kw("where")) s->where = expr();
    if (isKw("group", p) || isKw("having", p)) gs_unsupported("SQL clause");
    if (top && (isKw("union", p) || isKw("except", p) || isKw("intersect", p))) { if (pg) gs_unsupported("SQL clause"); while (isKw("union", p) || isKw("except", p) || isKw("intersect", p)) { int k = kw("except") ? 2 : kw("intersect") ? 3 : 0; if (!k) { kw("union"); k = kw("all") ? 0 : 1; } s->more.push_back(std::make_pair(k, select(false))); } }
    if (!top) return s;
    if (kw("order")) { needKw("by"); do { Expr *e = expr(); bool desc = false; if (kw("desc")) desc = true; else kw("asc"); s->order.push_back(std::make_pair(e, desc)); } while (op(",")); }
    if (kw("limit")) { s->limit = expr(); if (isOp(",")) gs_unsupported("SQL offset"); if (kw("offset")) s->offset = expr(); }
    return s;
  }
  void qname(Stmt *s) { s->name = name(); if (op(".")) { s->db = s->name; s->name = name(); } }
  std::string rest(size_t b) { return z.substr(b, (p > 0 ? t[p - 1].e : b) - b); }
  std::string typeName() { std::string ty; while (t[p].k == T_ID || t[p].k == T_QID || t[p].k == T_STR) { if (t[p].k == T_ID && (isKw("primary", p) || isKw("not", p) || isKw("null", p) || isKw("unique", p) || isKw("default", p) || isKw("check", p) || isKw("references", p) || isKw("collate", p) || isKw("generated", p) || isKw("as", p) || isKw("constraint", p) || isKw("generated", p))) break; if (!ty.empty()) ty += " "; ty += t[p].s; p++; } if (isOp("(") && !ty.empty()) { size_t b = t[p].b; int d = 0; do { if (isOp("(")) d++; else if (isOp(")")) d--; else if (t[p].k == T_END) syn(); p++; } while (d); ty += z.substr(b, t[p - 1].e - b); } return ty; }
  void fkTail(Fk &f) { f.table = name(); if (op("(")) { do f.to.push_back(name()); while (op(",")); needOp(")"); } for (;;) { if (kw("on")) { if (!kw("delete")) needKw("update"); if (kw("set")) p++; else if (kw("no")) p++; else p++; } else if (isKw("deferrable", p) || (isKw("not", p) && isKw("deferrable", p + 1))) { kw("not"); p++; if (kw("initially")) p++; } else break; } }
  void createTable(Stmt *s) {
    if (kw("if")) { needKw("not"); needKw("exists"); s->ifExists = true; }
    qname(s); size_t b = t[p - 1].b; if (kw("as")) gs_unsupported("CREATE TABLE AS"); needOp("(");
    for (;;) {
      std::string cn; if (kw("constraint")) name();
      if (kw("primary")) { needKw("key"); needOp("("); do { s->pkcols.push_back(name()); if (kw("asc") || kw("desc")) gs_unsupported("ordered key"); } while (op(",")); needOp(")"); s->pkAct = confl(); }
      else if (kw("unique")) { needOp("("); std::vector<std::string> u; do u.push_back(name()); while (op(",")); needOp(")"); s->uniqAct.push_back(confl()); s->uniq.push_back(u); }
      else if (kw("check")) { needOp("("); s->checks.push_back(expr()); needOp(")"); }
      else if (kw("foreign")) { needKw("key"); Fk f; needOp("("); do f.from.push_back(name()); while (op(",")); needOp(")"); needKw("references"); fkTail(f); s->fks.push_back(f); }
      else { Column c; c.name = name(); c.type = typeName(); if (!pg) { static const char *std_[] = {"ANY", "BLOB", "INT", "INTEGER", "REAL", "TEXT", 0}; for (int q = 0; std_[q]; q++) if (ieq(c.type, std_[q])) c.type = std_[q]; }
        for (;;) { if (kw("constraint")) name(); else if (kw("primary")) { needKw("key"); if (kw("desc")) gs_unsupported("ordered key"); kw("asc"); s->pkAct = confl(); if (kw("autoincrement")) s->what = "autoincrement"; s->pkcols.push_back(c.name); } else if (kw("not")) { needKw("null"); c.nnAct = confl(); c.notnull = true; } else if (kw("null")) {} else if (kw("unique")) { s->uniqAct.push_back(confl()); s->uniq.push_back(std::vector<std::string>(1, c.name)); } else if (kw("check")) { needOp("("); s->checks.push_back(expr()); needOp(")"); } else if (kw("default")) { size_t b0 = t[p].b; if (op("(")) { c.dflt = expr(); needOp(")"); } else c.dflt = eUn(); c.dfltText = rest(b0); } else if (kw("references")) { Fk f; f.from.push_back(c.name); fkTail(f); s->fks.push_back(f); } else if (kw("generated") || kw("as")) { if (kw("always")) needKw("as"); needOp("("); c.gen = expr(); needOp(")"); if (!kw("stored")) kw("virtual"); } else if (kw("collate")) { c.coll = name(); if (!ieq(c.coll, "binary")) gs_unsupported("collation"); } else break; }
        s->defs.push_back(c); }
      if (op(",")) continue; needOp(")"); break;
    }
    if (kw("without")) { if (!kw("rowid")) syn(); s->withoutRowid = true; } if (kw("strict")) gs_unsupported("strict table");
    s->text = "CREATE TABLE " + rest(b);
  }
  std::string confl() { if (!kw("on")) return ""; needKw("conflict"); std::string a = t[p++].s; for (auto &c : a) c = (char)lc(c); return a; }
  Stmt *statement() {
    Stmt *s = new Stmt;
    if (isKw("select", p)) { s->kind = Stmt::SELECT; s->sel = select(); }
    else if (isKw("insert", p) || isKw("replace", p)) { if (kw("replace")) s->orWhat = "replace"; else { p++; if (kw("or")) { s->orWhat = cur().s; for (auto &c : s->orWhat) c = (char)lc(c); p++; } } needKw("into"); s->kind = Stmt::INSERT; qname(s); if (kw("as")) name(); if (op("(")) { do s->cols.push_back(name()); while (op(",")); needOp(")"); } if (kw("overriding")) { p++; needKw("value"); } if (kw("values")) { do { needOp("("); std::vector<Expr *> v; do v.push_back(expr()); while (op(",")); needOp(")"); s->values.push_back(v); } while (op(",")); } else if (isKw("select", p)) s->sel = select(); else if (kw("default")) { needKw("values"); s->values.push_back(std::vector<Expr *>()); } else syn(); if (isKw("on", p)) gs_unsupported("UPSERT"); if (kw("returning")) gs_unsupported("RETURNING"); }
    else if (kw("update")) { s->kind = Stmt::UPDATE; if (kw("or")) { s->orWhat = cur().s; p++; if (!ieq(s->orWhat, "abort") && !ieq(s->orWhat, "fail") && !ieq(s->orWhat, "ignore") && !ieq(s->orWhat, "replace") && !ieq(s->orWhat, "rollback")) syn(); for (auto &c : s->orWhat) c = (char)lc(c); } if (pg && isKw("only", p) && isName(p + 1)) p++; qname(s); if (pg && (isKw("as", p) || (isName(p) && !isKw("set", p)))) gs_unsupported("alias of a table in UPDATE"); needKw("set"); if (pg && isOp("(")) gs_unsupported("PostgreSQL syntax"); do { std::string c = name(); needOp("="); s->set.push_back(std::make_pair(c, expr())); } while (op(",")); if (kw("where")) s->where = expr(); }
    else if (kw("delete")) { s->kind = Stmt::DELETE; needKw("from"); if (pg && isKw("only", p) && isName(p + 1)) p++; qname(s); if (pg && (isKw("as", p) || (isName(p) && !isKw("where", p)))) gs_unsupported("alias of a table in DELETE"); if (kw("where")) s->where = expr(); }
    else if (kw("savepoint")) { s->kind = Stmt::SAVEPOINT; s->name = name(); }
    else if (kw("release")) { s->kind = Stmt::RELEASE; kw("savepoint"); s->name = name(); }
    else if (kw("rollback")) { kw("transaction"); kw("work"); if (kw("to")) { kw("savepoint"); s->kind = Stmt::ROLLBACKTO; s->name = name(); } else s->kind = Stmt::ROLLBACK; }
    else if (isKw("begin", p) || (pg && isKw("start", p))) { p++; kw("deferred") || kw("immediate") || kw("exclusive"); kw("transaction"); kw("work"); s->kind = Stmt::BEGIN; }
    else if (isKw("commit", p) || isKw("end", p)) { p++; kw("transaction"); kw("work"); s->kind = Stmt::COMMIT; }
    else if (kw("attach")) { kw("database"); s->kind = Stmt::ATTACH; s->e1 = expr(); needKw("as"); s->name = name(); }
    else if (kw("detach")) { kw("database"); s->kind = Stmt::DETACH; s->name = name(); }
    else if (kw("create")) {
      bool temp = kw("temp") || kw("temporary"); if (temp) gs_unsupported("temporary object"); bool uniq = kw("unique");
      if (kw("table")) { s->kind = Stmt::CREATE_TABLE; createTable(s); }
      else if (kw("index")) { s->kind = Stmt::CREATE_INDEX; if (kw("if")) { needKw("not"); needKw("exists"); s->ifExists = true; } qname(s); size_t b = t[p - 1].b; needKw("on"); s->arg = name(); needOp("("); do s->cols.push_back(name()); while (op(",")); needOp(")"); if (isKw("where", p)) gs_unsupported("partial index"); s->what = uniq ? "u" : ""; s->text = (uniq ? "CREATE UNIQUE INDEX " : "CREATE INDEX ") + rest(b); }
      else if (kw("trigger")) { s->kind = Stmt::CREATE_TRIGGER; if (kw("if")) { needKw("not"); needKw("exists"); s->ifExists = true; } qname(s); size_t b = t[p - 1].b; s->timing = "after"; if (kw("before")) s->timing = "before"; else if (kw("after")) {} else if (isKw("instead", p)) gs_unsupported("INSTEAD OF trigger"); else s->timing = "before"; if (kw("insert")) s->event = "insert"; else if (kw("delete")) s->event = "delete"; else if (kw("update")) { s->event = "update"; if (kw("of")) do s->cols.push_back(name()); while (op(",")); } else syn(); needKw("on"); s->arg = name(); if (kw("for")) { needKw("each"); needKw("row"); } if (kw("when")) s->when = expr(); needKw("begin"); while (!isKw("end", p)) { s->body.push_back(statement()); needOp(";"); } needKw("end"); s->text = "CREATE TRIGGER " + rest(b); }
      else if (isKw("virtual", p) || isKw("view", p)) gs_unsupported("CREATE VIEW/VIRTUAL TABLE"); else if (pg) { s->kind = Stmt::OTHER; s->what = "create"; while (cur().k != T_END && !isOp(";")) p++; } else syn();
    }
    else if (kw("drop")) { s->kind = Stmt::DROP; s->what = cur().s; for (auto &c : s->what) c = (char)lc(c); if (s->what != "trigger" && s->what != "table" && s->what != "index" && s->what != "view" && s->what != "schema") syn(); p++; if (kw("if")) { needKw("exists"); s->ifExists = true; } qname(s); if (pg) kw("cascade"); }
    else if (kw("pragma")) { s->kind = Stmt::PRAGMA; s->name = name(); if (op(".")) { s->db = s->name; s->name = name(); } for (auto &c : s->name) c = (char)lc(c); if (op("=")) { s->what = "="; s->arg = cur().s; p++; } else if (op("(")) { s->what = "("; s->arg = cur().s; p++; needOp(")"); } }
    else if (isKw("explain", p) || isKw("vacuum", p) || isKw("alter", p) || isKw("with", p) || isKw("analyze", p) || isKw("reindex", p)) { if (!pg && !isKw("analyze", p)) gs_unsupported("SQL statement"); s->kind = Stmt::OTHER; s->what = cur().s; while (cur().k != T_END && !isOp(";")) p++; }
    else syn();
    s->nparam = nparam; return s;
  }
};

// ------------------------------------------------------------------ storage
struct Index { std::string name, table, text; std::vector<int> cols; bool uniq, autoPk; };
struct TRow { Row c; int64_t rowid; };
struct Table { std::string name, text; std::vector<Column> cols; std::vector<TRow> rows; int ipk; bool withoutRowid; std::vector<std::vector<int> > uniq; std::vector<std::string> uact; std::vector<Expr *> checks; std::vector<Fk> fks; int64_t lastRowid; std::string kind; Table() : ipk(-1), withoutRowid(false), lastRowid(0) {} int col(const std::string &n) const { for (size_t i = 0; i < cols.size(); i++) if (ieq(cols[i].name, n)) return (int)i; return -1; } };
struct Trigger { std::string name, text; Stmt *def; };
struct Db { std::vector<Table> tables; std::vector<Trigger> triggers; std::vector<Index> indexes; std::vector<std::pair<char, std::string> > order; // creation order of all schema objects
  Table *table(const std::string &n) { for (auto &t : tables) if (ieq(t.name, n)) return &t; return nullptr; } };
static inline char affinity(const std::string &type) { std::string s = type; for (auto &c : s) c = (char)lc(c); if (s.find("int") != s.npos) return 'i'; if (s.find("char") != s.npos || s.find("clob") != s.npos || s.find("text") != s.npos) return 't'; if (s.find("blob") != s.npos || s.empty()) return 'b'; if (s.find("real") != s.npos || s.find("floa") != s.npos || s.find("doub") != s.npos) return 'r'; return 'n'; }
#ifdef GSQL_PG
enum { PGNAN = 1 }; // NaN equals NaN and is above every number
#else
enum { PGNAN = 0 };
#endif
static inline int cls(const SV &v) { return v.t == V_NULL ? 0 : v.t == V_INT || v.t == V_REAL ? 1 : v.t == V_TEXT ? 2 : 3; }
// -1/0/1 comparison of int and real as SQLite does it
static inline int cmpIR(int64_t i, double r) { if (r != r) return 1; if (r < -9223372036854775808.0) return 1; if (r >= 9223372036854775808.0) return -1; int64_t y = (int64_t)r; if (i < y) return -1; if (i > y) return 1; double s = (double)i; return (s < r) ? -1 : (s > r); }
static inline int svCmp(const SV &a, const SV &b) { int ca = cls(a), cb = cls(b); if (ca != cb) return ca < cb ? -1 : 1; switch (ca) { case 0: return 0; case 1: if (a.t == V_INT && b.t == V_INT) return (a.n > b.n) - (a.n < b.n); if (a.t == V_REAL && b.t == V_REAL) { double x = svD(a), y = svD(b); if (PGNAN && (x != x || y != y)) return (x != x) - (y != y); return (x > y) - (x < y); } if (a.t == V_INT) return cmpIR(a.n, svD(b)); return -cmpIR(b.n, svD(a)); default: { size_t m = a.s.size() < b.s.size() ? a.s.size() : b.s.size(); int c = m ? memcmp(a.s.data(), b.s.data(), m) : 0; int l = a.s.size() < b.s.size() ? -1 : a.s.size() > b.s.size(); return c ? c : l; } } }
static inline bool svEq(const SV &a, const SV &b) { int ca = cls(a), cb = cls(b); if (ca != cb) return false; switch (ca) { case 0: return true; case 1: if (a.t == V_INT && b.t == V_INT) return a.n == b.n; if (a.t == V_REAL && b.t == V_REAL) { double x = svD(a), y = svD(b); if (PGNAN && (x != x || y != y)) return x != x && y != y;
#ifdef GSQL_PG
  if (x != x && y != y) return true;
#endif
  return x == y; } return svCmp(a, b) == 0; default: return a.s.size() == b.s.size() && (a.s.empty() || memcmp(a.s.data(), b.s.data(), a.s.size()) == 0); } }

// ------------------------------------------------------------------ sessions
struct Att { std::string name, path; Db db; bool dirty; int64_t id; Att() : dirty(false), id(-1) {} };
struct Save { std::string name; bool begin; std::vector<Db> copy; std::vector<bool> dirty; };
struct Frame { std::vector<std::string> alias, db; std::vector<const Table *> tab; std::vector<const Row *> row; Frame *up; const std::vector<std::string> *us; bool usings(const std::string &c) const { if (us) for (auto &u : *us) if (ieq(u, c)) return true; return false; } Frame() : up(nullptr), us(nullptr) {} };
struct Host { virtual void load(Att &) {} virtual void save(Att &) {} virtual bool attach(const std::string &, Att &) { return false; } virtual bool func(const std::string &, std::vector<SV> &, SV &) { return false; } virtual bool table(const std::string &, const std::string &, std::vector<SV> &, Table &) { return false; } virtual bool isCatalog(const std::string &) { return false; } virtual void coerce(const Column &, SV &, bool) {} virtual ~Host() {} };
struct Session {
  std::vector<Att *> dbs; std::vector<Save> saves; Host *host; int changes; bool pg; int depth; std::vector<std::string> path; // path: PostgreSQL search path
  Session() : host(nullptr), changes(0), pg(false), depth(0) {}
  Att *db(const std::string &n) { for (auto a : dbs) if (pg ? a->name == n : ieq(a->name, n)) return a; return nullptr; }
  static bool isMaster(const std::string &n) { return ieq(n, "sqlite_master") || ieq(n, "sqlite_schema"); }
  Table *find(const std::string &d, const std::string &n, Att **out = nullptr) { for (auto a : dbs) if (d.empty() || (pg ? a->name == d : ieq(a->name, d))) { if (pg && d.empty() && a->name != "public") continue; for (auto &t : a->db.tables) if (pg ? t.name == n : ieq(t.name, n)) { if (out) *out = a; return &t; } } return nullptr; }
  void reload() { if (saves.empty() && depth == 0) for (auto a : dbs) host->load(*a); }
  static Column mkCol(const char *n, const char *ty) { Column c; c.name = n; c.type = ty; return c; }
  Table master(Att *a) { Table t; t.name = "sqlite_master"; const char *cn[] = {"type", "name", "tbl_name", "rootpage", "sql"}; for (int i = 0; i < 5; i++) t.cols.push_back(mkCol(cn[i], i == 3 ? "INT" : "TEXT")); for (auto &o : a->db.order) { Row r(5); TRow x; if (o.first == 't') { Table *q = a->db.table(o.second); if (!q) continue; r[0] = svText("table"); r[1] = svText(q->name); r[2] = svText(q->name); r[3] = svInt(2); r[4] = svText(q->text); x.c = r; x.rowid = 0; t.rows.push_back(x); for (auto &ix : a->db.indexes) if (ix.autoPk && ieq(ix.table, q->name)) { r[0] = svText("index"); r[1] = svText(ix.name); r[4] = SV(); x.c = r; t.rows.push_back(x); } } else if (o.first == 'g') { for (auto &g : a->db.triggers) if (g.name == o.second) { r[0] = svText("trigger"); r[1] = svText(g.name); r[2] = svText(g.def->arg); r[3] = svInt(0); r[4] = svText(g.text); x.c = r; x.rowid = 0; t.rows.push_back(x); } } else { for (auto &g : a->db.indexes) if (!g.autoPk && g.name == o.second) { r[0] = svText("index"); r[1] = svText(g.name); r[2] = svText(g.table); r[3] = svInt(3); r[4] = svText(g.text); x.c = r; x.rowid = 0; t.rows.push_back(x); } } } return t; }
  Table fkList(Att *a, const std::string &tn) { Table r; r.name = "pragma_foreign_key_list"; const char *cn[] = {"id", "seq", "table", "from", "to", "on_update", "on_delete", "match"}; for (int i = 0; i < 8; i++) r.cols.push_back(mkCol(cn[i], "")); Table *t = a->db.table(tn); if (t) for (size_t i = t->fks.size(); i-- > 0;) for (size_t j = 0; j < t->fks[i].from.size(); j++) { TRow x; x.rowid = 0; x.c.resize(8); x.c[0] = svInt((int64_t)(t->fks.size() - 1 - i)); x.c[1] = svInt((int64_t)j); x.c[2] = svText(t->fks[i].table); x.c[3] = svText(t->fks[i].from[j]); for (auto &k : t->cols) if (ieq(k.name, t->fks[i].from[j])) x.c[3] = svText(k.name); if (j < t->fks[i].to.size()) x.c[4] = svText(t->fks[i].to[j]); x.c[5] = svText("NO ACTION"); x.c[6] = svText("NO ACTION"); x.c[7] = svText("NONE"); r.rows.push_back(x); } return r; }
  // the rows of a FROM item; temporary tables are kept in tmp
  const Table *source(const Src &s, std::vector<Table *> &tmp, Frame *f, std::vector<SV> &par) {
    if (pg && host) { std::vector<SV> args; Table t; if (host->table(s.db, s.name, args, t)) { Table *q = new Table(t); tmp.push_back(q); return q; } }
    if (s.func) { std::vector<SV> args; for (auto e : s.args) args.push_back(eval(e, f, par)); Att *a = s.db.empty() ? dbs[0] : db(s.db); if (!a) throw Error(1, "unknown database " + s.db); std::string fn = s.name; for (auto &c : fn) c = (char)lc(c); if (fn == "pragma_foreign_key_list" && args.size() >= 1) { a = dbs[0]; for (auto x : dbs) if (x->db.table(args[0].s)) { a = x; break; } Table *q = new Table(fkList(a, args[0].s)); tmp.push_back(q); return q; } if (fn == "pragma_table_info" && args.size() >= 1) { Table *q = new Table(tableInfo(a, args[0].s)); tmp.push_back(q); return q; } gs_unsupported("table function"); }
    if (!pg && isMaster(s.name)) { Att *a = s.db.empty() ? dbs[0] : db(s.db); if (!a) throw Error(1, "no such table: " + s.db + "." + s.name); Table *q = new Table(master(a)); tmp.push_back(q); return q; }
    Table *t = find(s.db, s.name); if (!t) throw Error(1, "no such table: " + (s.db.empty() ? s.name : s.db + "." + s.name)); return t;
  }
  Table tableInfo(Att *a, const std::string &tn) { Table r; r.name = "pragma_table_info"; const char *cn[] = {"cid", "name", "type", "notnull", "dflt_value", "pk"}; for (int i = 0; i < 6; i++) r.cols.push_back(mkCol(cn[i], "")); Table *t = a->db.table(tn); if (t) for (size_t i = 0; i < t->cols.size(); i++) { if (t->cols[i].gen) continue; TRow x; x.rowid = 0; x.c.resize(6); x.c[0] = svInt((int64_t)r.rows.size()); x.c[1] = svText(t->cols[i].name); x.c[2] = svText(t->cols[i].type); x.c[3] = svInt(t->cols[i].notnull || (t->withoutRowid && t->cols[i].pk)); if (t->cols[i].dflt) x.c[4] = svText(t->cols[i].dfltText); x.c[5] = svInt(t->cols[i].pk); r.rows.push_back(x); } return r; }
  // ---- name resolution
  bool lookup(const std::string &d, const std::string &tb, const std::string &c, Frame *f, int &dep, int &si, int &ci) {
    dep = 0; for (Frame *g = f; g; g = g->up, dep++) { int found = 0; for (size_t i = 0; i < g->tab.size(); i++) { if (!tb.empty() && !(pg ? g->alias[i] == tb : ieq(g->alias[i], tb))) continue; if (!d.empty() && !(pg ? g->db[i] == d : ieq(g->db[i], d))) continue; for (size_t j = 0; j < g->tab[i]->cols.size(); j++) if (pg ? g->tab[i]->cols[j].name == c : ieq(g->tab[i]->cols[j].name, c)) { if (!found++) { si = (int)i; ci = (int)j; } break; } } if (found > 1 && !(tb.empty() && g->usings(c))) throw Error(1, "ambiguous column name: " + c); if (found == 1) return true; } return false; }
  void resolve(Expr *e, Frame *f) { if (!e) return; if (e->op == O_NAME || e->op == O_COL) { int d = 0, i = 0, j = 0; if (lookup(e->db, e->tb, e->s, f, d, i, j)) { e->op = O_COL; e->d = d; e->i = i; e->j = j; return; } if ((ieq(e->s, "rowid") || ieq(e->s, "_rowid_") || ieq(e->s, "oid")) && !pg && !(e->quoted && e->tb.empty())) { for (size_t q = 0; f && q < f->tab.size(); q++) if ((e->tb.empty() ? f->tab.size() == 1 : ieq(f->alias[q], e->tb)) && f->tab[q]->ipk >= 0) { e->op = O_COL; e->d = 0; e->i = (int)q; e->j = f->tab[q]->ipk; return; } gs_unsupported("rowid"); } if (!pg && !e->quoted && e->tb.empty() && (ieq(e->s, "true") || ieq(e->s, "false"))) { e->op = O_LIT; e->v = svInt(ieq(e->s, "true")); return; } if (e->quoted && e->tb.empty() && !pg) { e->op = O_LIT; e->v = svText(e->s); return; } if (pg) for (Frame *g = f; g; g = g->up) for (auto q : g->tab) if (host->isCatalog(q->name)) gs_unsupported("column of a system table"); throw Error(1, "no such column: " + (e->tb.empty() ? e->s : e->tb + "." + e->s)); } for (auto k : e->k) resolve(k, f); if (e->sub) { std::vector<Table *> tmp; std::vector<SV> none; Frame g; bind(e->sub, g, f, tmp, none, true); for (auto t : tmp) delete t; } }
  void bind(Select *s, Frame &g, Frame *up, std::vector<Table *> &tmp, std::vector<SV> &par, bool res) { g.up = up; for (auto &x : s->from) { if (!x.usings.empty()) g.us = &x.usings; g.tab.push_back(source(x, tmp, up, par)); std::string d = x.db; if (d.empty()) { Att *a = nullptr; if (find(d, x.name, &a)) d = a->name; else d = "main"; } g.alias.push_back(x.alias.empty() ? x.name : x.alias); g.db.push_back(d); g.row.push_back(nullptr); } if (res) { resolve(s->where, &g); for (auto &x : s->from) resolve(x.on, &g); for (auto &i : s->items) { if (i.star && g.tab.empty()) throw Error(1, "no tables specified"); if (i.star && !i.tb.empty()) { bool any = false; for (size_t k = 0; k < g.tab.size(); k++) any |= ieq(g.alias[k], i.tb); if (!any) throw Error(1, "no such table: " + i.tb); } resolve(i.e, &g); } for (auto &o : s->order) { bool al = false; if (o.first->op == O_NAME) for (auto &i : s->items) if (!i.alias.empty() && ieq(i.alias, o.first->s)) { o.first = i.e; al = true; break; } if (!al) resolve(o.first, &g); } resolve(s->limit, &g); resolve(s->offset, &g); for (auto &x : s->more) { std::vector<Table *> t2; Frame h; bind(x.second, h, up, t2, par, true); for (auto t : t2) delete t; } } }
  // ---- evaluation. Booleans are INT 0/1 or NULL.
  static SV boolSV(bool b) { return svInt(b); }
  // 0 false, 1 true (possibly symbolic); null is reported separately
  bool truth(const SV &v, bool &isNull) { isNull = false; switch (v.t) { case V_NULL: isNull = true; return false; case V_INT: return v.n != 0; case V_REAL: return svD(v) != 0.0; default: if (pg) gs_unsupported("text as boolean"); return atoi(v.s.c_str()) != 0; } }
  bool holds(const SV &v) { bool n; bool b = truth(v, n); return !n && b; }
  const Column *colOf(Expr *e, Frame *f) { if (e->op != O_COL) return nullptr; Frame *g = f; for (int i = 0; i < e->d; i++) g = g->up; return &g->tab[e->i]->cols[e->j]; }
  // comparison affinity: only the cases where no conversion can happen are decided
  // may the text be a number as a whole? "maybe" counts as yes, for texts only
  static bool numLike(const std::string &s) { size_t i = 0, n = s.size(); auto sp = [](unsigned char c) { return (c == ' ') | ((unsigned)(c - 9) < 5u); }; auto dg = [](unsigned char c) { return (unsigned)(c - '0') < 10u; };
    while (i < n && sp(s[i])) i++; if (i < n && ((s[i] == '+') | (s[i] == '-'))) i++; size_t d = 0; while (i < n && dg(s[i])) i++, d++; if (i < n && s[i] == '.') { i++; while (i < n && dg(s[i])) i++, d++; } if (!d) return false;
    if (i < n && ((s[i] == 'e') | (s[i] == 'E'))) { i++; if (i < n && ((s[i] == '+') | (s[i] == '-'))) i++; size_t k = 0; while (i < n && dg(s[i])) i++, k++; if (!k) return false; } while (i < n && sp(s[i])) i++; return i == n; }
  void affCheck(Expr *a, Expr *b, SV &x, SV &y, Frame *f) { if (pg) { const Column *ca = colOf(a, f), *cb = colOf(b, f); if (ca && !cb) host->coerce(*ca, y, false); else if (cb && !ca) host->coerce(*cb, x, false); return; } if ( cls(x) == cls(y) || x.t == V_NULL || y.t == V_NULL) return; const Column *ca = colOf(a, f), *cb = colOf(b, f); char fa = ca ? affinity(ca->type) : 0, fb = cb ? affinity(cb->type) : 0; bool na = fa == 'i' || fa == 'r' || fa == 'n', nb = fb == 'i' || fb == 'r' || fb == 'n'; if (na && !nb) { if (y.t == V_TEXT && numLike(y.s)) gs_unsupported("numeric affinity of text"); } else if (nb && !na) { if (x.t == V_TEXT && numLike(x.s)) gs_unsupported("numeric affinity of text"); } else if (fa == 't' && !cb) { if (cls(y) == 1) gs_unsupported("text affinity of number"); } else if (fb == 't' && !ca) { if (cls(x) == 1) gs_unsupported("text affinity of number"); } }
  static bool like(const std::string &s, size_t i, const std::string &p, size_t j, bool ci) { for (; j < p.size(); i++, j++) { if (p[j] == '%') { while (j < p.size() && p[j] == '%') j++; if (j == p.size()) return true; for (size_t k = i; k <= s.size(); k++) if (like(s, k, p, j, ci)) return true; return false; } if (i >= s.size()) return false; if (p[j] == '_') continue; if (ci ? lc(s[i]) != lc(p[j]) : s[i] != p[j]) return false; } return i == s.size(); }
  static std::string num(const SV &v) { if (v.t == V_TEXT || v.t == V_BLOB) return v.s; if (v.t == V_INT) return std::to_string((long long)v.n); gs_unsupported("text of a real number"); return ""; }
  static bool glob(const std::string &s, size_t i, const std::string &p, size_t j) { for (; j < p.size(); i++, j++) { if (p[j] == '*') { while (j < p.size() && p[j] == '*') j++; if (j == p.size()) return true; for (size_t k = i; k <= s.size(); k++) if (glob(s, k, p, j)) return true; return false; } if (p[j] == '[') gs_unsupported("SQL operator"); if (i >= s.size()) return false; if (p[j] == '?') continue; if (s[i] != p[j]) return false; } return i == s.size(); }
  static bool nocase(Expr *e, Frame *f, Session *s) { if (e->op == O_COLL) return e->s == "nocase"; const Column *c = s->colOf(e, f); return c && ieq(c->coll, "nocase"); }
  void fold(Expr *a, Expr *b, SV &x, SV &y, Frame *f) { if (pg || x.t != V_TEXT || y.t != V_TEXT) return; bool nc = a->op == O_COLL || b->op == O_COLL ? (a->op == O_COLL ? nocase(a, f, this) : nocase(b, f, this)) : colOf(a, f) ? nocase(a, f, this) : nocase(b, f, this); if (nc) { for (auto &c : x.s) c = (char)lc(c); for (auto &c : y.s) c = (char)lc(c); } }
  SV eval(Expr *e, Frame *f, std::vector<SV> &par) {
    switch (e->op) {
      case O_LIT: return e->v;
      case O_COL: { Frame *g = f; for (int i = 0; i < e->d; i++) g = g->up; if (!g->row[e->i]) return SV(); return (*g->row[e->i])[e->j]; }
      case O_PARAM: return (size_t)e->i <= par.size() ? par[e->i - 1] : SV();
      case O_AND: case O_OR: { bool isAnd = e->op == O_AND; SV a = eval(e->k[0], f, par); bool n1, n2; bool x = truth(a, n1); if (!n1 && a.t == V_INT && !gs_is_symbolic((uint64_t)x)) { if (isAnd && !x) return svInt(0); if (!isAnd && x) return svInt(1); } SV b = eval(e->k[1], f, par); bool y = truth(b, n2); if (!n1 && !n2) return boolSV(isAnd ? (x & y) : (x | y)); if (n1 && n2) return SV(); bool z = n1 ? y : x; if (isAnd) { if (!z) return svInt(0); return SV(); } if (z) return svInt(1); return SV(); }
      case O_NOT: { SV a = eval(e->k[0], f, par); bool n; bool x = truth(a, n); if (n) return SV(); return boolSV(!x); }
      case O_EQ: case O_NE: case O_LT: case O_LE: case O_GT: case O_GE: { SV a = eval(e->k[0], f, par), b = eval(e->k[1], f, par); if (a.t == V_NULL || b.t == V_NULL) return SV(); affCheck(e->k[0], e->k[1], a, b, f); fold(e->k[0], e->k[1], a, b, f); if (e->op == O_EQ) return boolSV(svEq(a, b)); if (e->op == O_NE) return boolSV(!svEq(a, b)); int c = svCmp(a, b); return boolSV(e->op == O_LT ? c < 0 : e->op == O_LE ? c <= 0 : e->op == O_GT ? c > 0 : c >= 0); }
      case O_IS: case O_ISNOT: { SV a = eval(e->k[0], f, par), b = eval(e->k[1], f, par); if (a.t != V_NULL && b.t != V_NULL) { affCheck(e->k[0], e->k[1], a, b, f); fold(e->k[0], e->k[1], a, b, f); } bool q = svEq(a, b); return boolSV(e->op == O_IS ? q : !q); }
      case O_LIKE: case O_NLIKE: { SV a = eval(e->k[0], f, par), b = eval(e->k[1], f, par); if (a.t == V_NULL || b.t == V_NULL) return SV(); bool r = like(num(a), 0, num(b), 0, !pg); return boolSV(e->op == O_LIKE ? r : !r); }
      case O_IN: case O_NIN: { SV a = eval(e->k[0], f, par); bool any = false, nul = false; std::vector<SV> c; if (e->sub) { std::vector<Row> rs; run(e->sub, f, par, rs); for (auto &r : rs) c.push_back(r[0]); } else for (size_t i = 1; i < e->k.size(); i++) c.push_back(eval(e->k[i], f, par)); if (c.empty()) return svInt(e->op == O_NIN); if (a.t == V_NULL) return SV(); for (auto &x : c) { if (x.t == V_NULL) nul = true; else any |= svEq(a, x); } if (nul) { if (any) return svInt(e->op == O_IN); return SV(); } return boolSV(e->op == O_IN ? any : !any); }
      case O_COLL: return eval(e->k[0], f, par);
      case O_GLOB: case O_NGLOB: { SV a = eval(e->k[0], f, par), b = eval(e->k[1], f, par); if (a.t == V_NULL || b.t == V_NULL) return SV(); bool r = glob(num(a), 0, num(b), 0); return boolSV(e->op == O_GLOB ? r : !r); }
      case O_DIV: case O_MOD: { SV a = eval(e->k[0], f, par), b = eval(e->k[1], f, par); if (a.t == V_NULL || b.t == V_NULL) return SV(); if (a.t != V_INT || b.t != V_INT) gs_unsupported("arithmetic on other than integers"); if (b.n == 0) return SV(); if (b.n == -1) return svInt(e->op == O_MOD ? 0 : (int64_t)(0 - (uint64_t)a.n)); return svInt(e->op == O_DIV ? a.n / b.n : a.n % b.n); }
      case O_EXISTS: return boolSV(exists(e->sub, f, par));
      case O_SUBQ: { std::vector<Row> rs; run(e->sub, f, par, rs); return rs.empty() ? SV() : rs[0][0]; }
      case O_CASE: { size_t i = 0; SV base; if (e->i) base = eval(e->k[i++], f, par); size_t end = e->k.size() - (e->j ? 1 : 0); for (; i + 1 < end + 0 || i + 1 == end; i += 2) { SV c = eval(e->k[i], f, par); bool h; if (e->i) h = base.t != V_NULL && c.t != V_NULL && svEq(base, c); else h = holds(c); if (h) return eval(e->k[i + 1], f, par); if (i + 2 >= end) break; } return e->j ? eval(e->k.back(), f, par) : SV(); }
      case O_NEG: { SV a = eval(e->k[0], f, par); if (a.t == V_INT) { if (e->k[0]->op == O_LIT) return svInt((int64_t)(0 - (uint64_t)a.n)); return svInt((int64_t)(0 - (uint64_t)a.n)); } if (a.t == V_REAL) { if (svD(a) == 9223372036854775808.0 && e->k[0]->op == O_LIT) return svInt(INT64_MIN); return svReal(-svD(a)); } if (a.t == V_NULL) return a; gs_unsupported("negated text"); return a; }
      case O_ADD: case O_SUB: case O_MUL: { SV a = eval(e->k[0], f, par), b = eval(e->k[1], f, par); if (a.t == V_NULL || b.t == V_NULL) return SV(); if (a.t == V_INT && b.t == V_INT) { uint64_t x = (uint64_t)a.n, y = (uint64_t)b.n; int64_t r; bool ov = e->op == O_ADD ? __builtin_add_overflow(a.n, b.n, &r) : e->op == O_SUB ? __builtin_sub_overflow(a.n, b.n, &r) : __builtin_mul_overflow(a.n, b.n, &r); (void)x; (void)y; if (ov) gs_unsupported("integer overflow in SQL"); return svInt(r); } gs_unsupported("arithmetic on other than integers"); return SV(); }
      case O_CAT: { SV a = eval(e->k[0], f, par), b = eval(e->k[1], f, par); if (a.t == V_NULL || b.t == V_NULL) return SV(); return svText(num(a) + num(b)); }
      case O_CAST: { SV a = eval(e->k[0], f, par); if (pg || a.t == V_NULL) return a; char af = affinity(e->s); if (af == 't') { if (a.t == V_BLOB) a.t = V_TEXT; if (a.t == V_TEXT) return a; if (a.t == V_INT && !gs_is_symbolic((uint64_t)a.n)) return svText(std::to_string((long long)a.n)); } if (af == 'i') { if (a.t == V_INT) return a; if (a.t == V_REAL) { double d = svD(a); if (d >= -9223372036854775808.0 && d < 9223372036854775808.0) return svInt((int64_t)d); } if (a.t == V_TEXT) { return svInt(strtoll(a.s.c_str(), nullptr, 10)); } } if (ieq(e->s, "blob")) { if (a.t == V_TEXT) a.t = V_BLOB; if (a.t == V_BLOB) return a; } if (af == 'r') { if (a.t == V_REAL) return a; if (a.t == V_INT) return svReal((double)a.n); } gs_unsupported("CAST"); return a; }
      case O_FUNC: { std::vector<SV> a; std::string fn = e->s; if (fn == "coalesce" || fn == "ifnull") { for (auto k : e->k) { SV v = eval(k, f, par); if (v.t != V_NULL) return v; } return SV(); } for (auto k : e->k) a.push_back(eval(k, f, par)); SV r; if (fn == "typeof" && a.size() == 1) return svText(a[0].t == V_INT ? "integer" : a[0].t == V_REAL ? "real" : a[0].t == V_TEXT ? "text" : a[0].t == V_BLOB ? "blob" : "null"); if (host && host->func(fn, a, r)) return r; 
#ifndef GSQL_PG
        if ((fn == "lower" || fn == "upper") && a.size() == 1 && (a[0].t == V_TEXT || a[0].t == V_NULL)) { for (auto &c : a[0].s) c = (char)(fn == "lower" ? lc(c) : (unsigned char)(c - (((unsigned)((unsigned char)c - 'a') < 26u) ? 32 : 0))); return a[0]; }
        if (fn == "length" && a.size() == 1 && a[0].t == V_TEXT) { int64_t n = 0; for (unsigned char c : a[0].s) { if (c == 0) break; n += (c & 0xc0) != 0x80; } return svInt(n); }
        if ((fn == "substr" || fn == "substring") && a.size() >= 2 && a[0].t == V_TEXT && a[1].t == V_INT && a[1].n > 0 && (a.size() == 2 || (a[2].t == V_INT && a[2].n >= 0))) { size_t b = (size_t)a[1].n - 1, n = a.size() == 2 ? a[0].s.size() : (size_t)a[2].n; for (unsigned char c : a[0].s) if (c >= 128) gs_unsupported("SQL function"); return svText(b < a[0].s.size() ? a[0].s.substr(b, n) : std::string()); }
        if (fn == "instr" && a.size() == 2 && a[0].t == V_TEXT && a[1].t == V_TEXT) { for (unsigned char c : a[0].s) if (c >= 128) gs_unsupported("SQL function"); return svInt((int64_t)(a[0].s.find(a[1].s) + 1)); }
        if (fn == "nullif" && a.size() == 2) return a[0].t != V_NULL && a[1].t != V_NULL && svEq(a[0], a[1]) ? SV() : a[0];
        if (fn == "iif" && a.size() == 3) return holds(a[0]) ? a[1] : a[2];
        if (fn == "abs" && a.size() == 1 && a[0].t == V_INT && a[0].n != INT64_MIN) return svInt(a[0].n < 0 ? -a[0].n : a[0].n);
        if (fn == "changes" && a.empty()) return svInt(changes);
        if (fn == "hex" && a.size() == 1 && (a[0].t == V_TEXT || a[0].t == V_BLOB || a[0].t == V_NULL)) { std::string h; for (unsigned char c : a[0].s) { h += "0123456789ABCDEF"[c >> 4]; h += "0123456789ABCDEF"[c & 15]; } return svText(h); }
        if (fn == "length" && a.size() == 1 && (a[0].t == V_BLOB || a[0].t == V_NULL)) return a[0].t == V_NULL ? a[0] : svInt((int64_t)a[0].s.size());
#endif
        if (fn == "length" || fn == "lower" || fn == "upper" || fn == "quote" || fn == "abs" || fn == "substr" || fn == "random" || fn == "hex" || fn == "substring" || fn == "instr" || fn == "replace" || fn == "trim" || fn == "printf" || fn == "format" || fn == "last_insert_rowid" || fn == "total" || fn == "avg" || fn == "group_concat" || fn == "sum" || fn == "max" || fn == "min" || fn == "unicode" || fn == "char" || fn == "zeroblob" || fn == "round" || fn == "ltrim" || fn == "rtrim" || fn == "sqlite_version" || fn == "datetime" || fn == "strftime" || fn == "date" || fn == "julianday" || fn == "likely" || fn == "unlikely" || fn == "glob" || fn == "like" || fn == "nullif" || fn == "iif") gs_unsupported("SQL function"); if (pg) gs_unsupported("PostgreSQL function"); throw Error(1, "no such function: " + fn); }
      case O_NAME: throw Error(1, "no such column: " + e->s);
    }
    gs_unsupported("SQL expression"); return SV();
  }
  bool exists(Select *s, Frame *up, std::vector<SV> &par) { std::vector<Table *> tmp; Frame g; bind(s, g, up, tmp, par, false); bool any = false; if (s->from.size() == 1 && !s->from[0].on) { for (auto &r : g.tab[0]->rows) { g.row[0] = &r.c; if (!s->where) any = true; else any |= holds(eval(s->where, &g, par)); } } else { std::vector<Row> rs; Select q = *s; run(&q, up, par, rs); any = !rs.empty(); } for (auto t : tmp) delete t; return any; }
  void join(Select *s, size_t i, Frame &g, std::vector<SV> &par, std::vector<std::vector<const Row *> > &out) { if (i == s->from.size()) { if (!s->where || holds(eval(s->where, &g, par))) out.push_back(g.row); return; } bool any = false; for (auto &r : g.tab[i]->rows) { g.row[i] = &r.c; if (s->from[i].on && !holds(eval(s->from[i].on, &g, par))) continue; any = true; join(s, i + 1, g, par, out); } g.row[i] = nullptr; if (s->from[i].left && !any) join(s, i + 1, g, par, out); }
  static bool aggregate(Expr *e) { if (!e) return false; if (e->op == O_FUNC && (e->s == "count" || ((e->s == "max" || e->s == "min") && e->k.size() == 1) || e->s == "sum")) return true; for (auto k : e->k) if (aggregate(k)) return true; return false; }
  SV evalAgg(Expr *e, Frame &g, std::vector<SV> &par, std::vector<std::vector<const Row *> > &ms) { if (e->op == O_FUNC && e->s == "count") { int64_t n = 0; for (auto &m : ms) { g.row = m; if (e->i || e->k.empty()) n++; else n += eval(e->k[0], &g, par).t != V_NULL; } return svInt(n); } if (e->op == O_FUNC && (e->s == "max" || e->s == "min") && e->k.size() == 1) { SV best; for (auto &m : ms) { g.row = m; SV v = eval(e->k[0], &g, par); if (v.t == V_NULL) continue; if (best.t == V_NULL) { best = v; continue; } if (v.t == V_INT && best.t == V_INT) { bool gt = e->s == "max" ? v.n > best.n : v.n < best.n; best.n = gt ? v.n : best.n; continue; } int c = svCmp(v, best); if (e->s == "max" ? c > 0 : c < 0) best = v; } return best; } if (e->k.empty()) return eval(e, &g, par); Expr c = *e; std::vector<Expr> lits; lits.reserve(e->k.size()); c.k.clear(); for (auto k : e->k) { Expr l(O_LIT); l.v = evalAgg(k, g, par, ms); lits.push_back(l); } for (auto &l : lits) c.k.push_back(&l); return eval(&c, &g, par); }
  void run(Select *s, Frame *up, std::vector<SV> &par, std::vector<Row> &out) {
    std::vector<Table *> tmp; Frame g; bind(s, g, up, tmp, par, false); std::vector<std::vector<const Row *> > ms; join(s, 0, g, par, ms); bool agg = false; for (auto &i : s->items) agg |= aggregate(i.e);
    if (agg) { Row r; g.row.assign(s->from.size(), nullptr); for (auto &i : s->items) r.push_back(evalAgg(i.e, g, par, ms)); out.push_back(r); }
    else { std::vector<Row> keys; for (auto &m : ms) { g.row = m; Row r; for (auto &i : s->items) { if (i.star) { for (size_t q = 0; q < g.tab.size(); q++) if ((i.tb.empty() || ieq(i.tb, g.alias[q])) && (i.db.empty() || ieq(i.db, g.db[q]))) { if (s->from[q].usings.empty() || !i.tb.empty()) { if (g.row[q]) for (auto &v : *g.row[q]) r.push_back(v); else r.resize(r.size() + g.tab[q]->cols.size()); } else for (size_t c = 0; c < g.tab[q]->cols.size(); c++) { bool skip = false; for (auto &u : s->from[q].usings) skip |= ieq(u, g.tab[q]->cols[c].name); if (!skip) r.push_back(g.row[q] ? (*g.row[q])[c] : SV()); } } } else r.push_back(eval(i.e, &g, par)); } if (s->distinct) { bool dup = false; for (auto &o : out) { bool same = true; for (size_t q = 0; q < r.size(); q++) same &= svEq(o[q], r[q]); if (same) { dup = true; break; } } if (dup) continue; } if (!s->order.empty()) { Row k; for (auto &o : s->order) { if (o.first->op == O_LIT && o.first->v.t == V_INT) k.push_back(r[(size_t)o.first->v.n - 1]); else k.push_back(eval(o.first, &g, par)); } size_t pos = out.size(); while (pos > 0) { int c = 0; for (size_t q = 0; q < k.size() && !c; q++) { c = svCmp(keys[pos - 1][q], k[q]); if (s->order[q].second) c = -c; } if (c > 0) pos--; else break; } keys.insert(keys.begin() + pos, k); out.insert(out.begin() + pos, r); } else out.push_back(r); } }
    if (!s->more.empty()) { auto has = [](const std::vector<Row> &v, const Row &r) { for (auto &o : v) { bool same = o.size() == r.size(); for (size_t q = 0; same && q < r.size(); q++) same = svEq(o[q], r[q]); if (same) return true; } return false; };
      if (!s->order.empty() && (s->order.size() > 1 || s->order[0].first->op != O_LIT)) gs_unsupported("SQL clause"); for (auto &m : s->more) { std::vector<Row> b; run(m.second, up, par, b); if (m.first == 0) { for (auto &r : b) out.push_back(r); continue; } std::vector<Row> n; for (auto &r : out) if ((m.first == 1 || (m.first == 3) == has(b, r)) && !has(n, r)) n.push_back(r); if (m.first == 1) for (auto &r : b) if (!has(n, r)) n.push_back(r); out.swap(n); }
      if (!s->order.empty() || s->more.back().first) { size_t c = s->order.empty() ? 0 : (size_t)s->order[0].first->v.n - 1; bool desc = !s->order.empty() && s->order[0].second; std::vector<Row> n; for (auto &r : out) { size_t pos = n.size(); while (pos > 0) { int k = 0; for (size_t q = s->order.empty() ? 0 : c; q < (s->order.empty() ? r.size() : c + 1) && !k; q++) k = svCmp(n[pos - 1][q], r[q]); if (desc) k = -k; if (k > 0) pos--; else break; } n.insert(n.begin() + pos, r); } out.swap(n); } }
    if (s->offset) { SV o = eval(s->offset, &g, par); for (int64_t n = o.n; o.t == V_INT && n > 0 && !out.empty(); n--) out.erase(out.begin()); if (s->limit) { SV l = eval(s->limit, &g, par); if (l.t == V_INT && l.n >= 0 && (size_t)l.n < out.size()) out.resize((size_t)l.n); } } else
    if (s->limit) { SV l = eval(s->limit, &g, par); if (l.t == V_INT && l.n >= 0 && (size_t)l.n < out.size()) out.resize((size_t)l.n); }
    for (auto t : tmp) delete t;
  }
  void colNames(Select *s, Frame *up, std::vector<std::string> &names) { std::vector<Table *> tmp; std::vector<SV> none; Frame g; bind(s, g, up, tmp, none, false); for (auto &i : s->items) { if (i.star) { for (size_t q = 0; q < g.tab.size(); q++) if (i.tb.empty() || ieq(i.tb, g.alias[q])) for (auto &c : g.tab[q]->cols) { bool skip = false; if (i.tb.empty()) for (auto &u : s->from[q].usings) skip |= ieq(u, c.name); if (!skip) names.push_back(c.name); } } else names.push_back(!i.alias.empty() ? i.alias : i.e->op == O_COL ? i.e->s : "expr"); } for (auto t : tmp) delete t; }
  // ---- writes
  SV store(const Table &t, size_t i, const SV &v) { const Column &c = t.cols[i]; if (pg) { SV w = v; host->coerce(c, w, true); return w; } char a = affinity(c.type); if ((int)i == t.ipk) { if (v.t == V_TEXT && numLike(v.s)) gs_unsupported("numeric affinity of text"); if (v.t == V_REAL) gs_unsupported("real integer key"); if (v.t != V_INT && v.t != V_NULL) throw Error(20, "datatype mismatch"); return v; } if (a == 't' && (v.t == V_INT || v.t == V_REAL)) { if (v.t == V_INT && !gs_is_symbolic((uint64_t)v.n)) return svText(std::to_string((long long)v.n)); gs_unsupported("text affinity of number"); } if ((a == 'i' || a == 'n' || a == 'r') && v.t == V_TEXT && numLike(v.s)) gs_unsupported("numeric affinity of text"); if ((a == 'i' || a == 'n') && v.t == V_REAL) { double d = svD(v); if (d >= -9223372036854775808.0 && d < 9223372036854775808.0 && (double)(int64_t)d == d) return svInt((int64_t)d); } if (a == 'r' && v.t == V_INT) return svReal((double)v.n); return v; }
  void check(const Table &t, const Row &r, std::vector<SV> &par, const std::string &orWhat = "") { for (size_t i = 0; i < t.cols.size(); i++) if ((t.cols[i].notnull || ((t.withoutRowid || pg) && t.cols[i].pk)) && r[i].t == V_NULL) { std::string act = orWhat.empty() ? t.cols[i].nnAct : orWhat; if (act == "ignore" || act == "replace" || act == "fail") gs_unsupported("NOT NULL ON CONFLICT"); throw Error(19, "NOT NULL constraint failed: " + t.name + "." + t.cols[i].name, act == "rollback"); } if (!t.checks.empty()) { Frame g; g.tab.push_back(&t); g.alias.push_back(t.name); g.db.push_back(""); g.row.push_back(&r); for (auto e : t.checks) { resolve(e, &g); SV v = eval(e, &g, par); bool n; bool b = truth(v, n); if (!n && !b) throw Error(19, "CHECK constraint failed: " + t.name); } } }
  // index of a row that has the same value in a unique set of columns, or -1
  int clash(const Table &t, const Row &r, int skip, std::string &act) { for (size_t ui = 0; ui < t.uniq.size(); ui++) { auto &u = t.uniq[ui]; act = t.uact[ui]; bool nul = false; for (int c : u) nul |= r[c].t == V_NULL; if (nul) continue; bool any = false; for (size_t i = 0; i < t.rows.size(); i++) if ((int)i != skip) { bool same = true; for (int c : u) same &= t.rows[i].c[c].t != V_NULL && svEq(t.rows[i].c[c], r[c]); any |= same; } if (any) { for (size_t i = 0; i < t.rows.size(); i++) if ((int)i != skip) { bool same = true; for (int c : u) same &= t.rows[i].c[c].t != V_NULL && svEq(t.rows[i].c[c], r[c]); if (same) return (int)i; } } } return -1; }
  // the OR clause of a statement takes the place of those of the statements in the triggers it fires
  std::string over;
  void fire(Att *a, const std::string &table, const char *event, const char *timing, const Row *oldR, const Row *newR, const std::vector<std::string> &setCols, const std::string &orw = "") { std::vector<Stmt *> todo; for (auto &g : a->db.triggers) if (ieq(g.def->arg, table) && g.def->event == event && g.def->timing == timing) { if (!g.def->cols.empty()) { bool any = false; for (auto &c : g.def->cols) for (auto &q : setCols) any |= ieq(c, q); if (!any) continue; } todo.push_back(g.def); } if (todo.empty()) return; if (depth > 8) throw Error(1, "too many levels of trigger recursion"); Table *t = a->db.table(table); Table shape; shape.name = t->name; shape.cols = t->cols; std::vector<SV> none; for (auto d : todo) { Frame f; if (newR) { f.tab.push_back(&shape); f.alias.push_back("new"); f.db.push_back(""); f.row.push_back(newR); } if (oldR) { f.tab.push_back(&shape); f.alias.push_back("old"); f.db.push_back(""); f.row.push_back(oldR); } if (d->when) { resolve(d->when, &f); if (!holds(eval(d->when, &f, none))) continue; } depth++; int ch = changes; std::string outer = over; for (auto b : d->body) { std::vector<Row> rs; std::vector<std::string> cn; prepareRefs(b, &f); over = orw; try { exec(b, none, rs, &f); } catch (...) { over = outer; throw; } over = outer; } changes = ch; depth--; } }
  void gens(const Table &t, Row &r, std::vector<SV> &par) { for (size_t i = 0; i < t.cols.size(); i++) if (t.cols[i].gen) { Frame g; g.tab.push_back(&t); g.alias.push_back(t.name); g.db.push_back(""); g.row.push_back(&r); resolve(t.cols[i].gen, &g); r[i] = store(t, i, eval(t.cols[i].gen, &g, par)); } }
  void insert(Att *a, Stmt *s, Frame *up, std::vector<SV> &par) {
    Table *t = find(s->db, s->name, &a); std::vector<Row> src; if (s->sel) run(s->sel, up, par, src); else for (auto &vs : s->values) { Row r; for (auto e : vs) r.push_back(eval(e, up, par)); src.push_back(r); } int n = 0; std::vector<std::string> none; const std::string orw = over.empty() ? s->orWhat : over;
    for (auto &r : src) { Row full(t->cols.size()); std::vector<bool> given(t->cols.size(), false); if (s->cols.empty() && !r.empty()) { size_t i = 0; for (auto &v : r) { while (i < full.size() && t->cols[i].gen) i++; full[i] = v; given[i++] = true; } } else for (size_t i = 0; i < s->cols.size(); i++) { int c = t->col(s->cols[i]); full[c] = r[i]; given[c] = true; } for (size_t i = 0; i < full.size(); i++) if (!given[i] && t->cols[i].dflt) full[i] = eval(t->cols[i].dflt, nullptr, par); for (size_t i = 0; i < full.size(); i++) full[i] = store(*t, i, full[i]);
      TRow x; x.rowid = ++t->lastRowid; if (t->ipk >= 0 && full[t->ipk].t == V_NULL) { int64_t m = 0; for (auto &o : t->rows) m = o.c[t->ipk].n > m ? o.c[t->ipk].n : m; full[t->ipk] = svInt(m + 1); } gens(*t, full, par);
      fire(a, t->name, "insert", "before", nullptr, &full, none, orw); t = find(s->db, s->name); check(*t, full, par, orw); int k; bool skip = false; std::string act; while ((k = clash(*t, full, -1, act)) >= 0) { if (!orw.empty()) act = orw; if (act == "replace") { t->rows.erase(t->rows.begin() + k); continue; } if (act == "ignore") { skip = true; break; } if (act == "fail") gs_unsupported("ON CONFLICT FAIL"); throw Error(19, "UNIQUE constraint failed: " + t->name, act == "rollback"); } if (skip) continue; x.c = full; t->rows.push_back(x); n++; a->dirty = true; fire(a, t->name, "insert", "after", nullptr, &full, none, orw); t = find(s->db, s->name); }
    changes = n;
  }
  void update(Att *a, Stmt *s, Frame *up, std::vector<SV> &par) {
    Table *t = find(s->db, s->name, &a); std::vector<int64_t> hit; std::vector<std::string> sc; const std::string orw = over.empty() ? s->orWhat : over; for (auto &p : s->set) sc.push_back(p.first); Frame g; g.up = up; g.tab.push_back(t); g.alias.push_back(t->name); g.db.push_back(a->name); g.row.push_back(nullptr); for (auto &r : t->rows) { g.row[0] = &r.c; if (!s->where || holds(eval(s->where, &g, par))) hit.push_back(r.rowid); } int n = 0;
    for (int64_t id : hit) { size_t i = 0; while (i < t->rows.size() && t->rows[i].rowid != id) i++; if (i == t->rows.size()) continue; Row old = t->rows[i].c, nw = old; g.tab[0] = t; g.row[0] = &old; for (auto &p : s->set) { int c = t->col(p.first); if (t->cols[c].gen) throw Error(1, "cannot UPDATE generated column"); SV v = store(*t, c, eval(p.second, &g, par)); if (c == t->ipk && v.t == V_NULL) throw Error(20, "datatype mismatch"); nw[c] = v; } gens(*t, nw, par); fire(a, t->name, "update", "before", &old, &nw, sc, orw); t = find(s->db, s->name); check(*t, nw, par, orw); std::string act; int k; bool skip = false; while ((k = clash(*t, nw, (int)i, act)) >= 0) { if (!orw.empty()) act = orw; if (act == "ignore") { skip = true; break; } if (act == "replace") { t->rows.erase(t->rows.begin() + k); if (k < (int)i) i--; continue; } if (act == "fail") gs_unsupported("ON CONFLICT FAIL"); throw Error(19, "UNIQUE constraint failed: " + t->name, act == "rollback"); } if (skip) continue; t->rows[i].c = nw; n++; a->dirty = true; fire(a, t->name, "update", "after", &old, &nw, sc, orw); t = find(s->db, s->name); }
    changes = n;
  }
  void del(Att *a, Stmt *s, Frame *up, std::vector<SV> &par) {
    Table *t = find(s->db, s->name, &a); std::vector<int64_t> hit; std::vector<std::string> none; Frame g; g.up = up; g.tab.push_back(t); g.alias.push_back(t->name); g.db.push_back(a->name); g.row.push_back(nullptr); for (auto &r : t->rows) { g.row[0] = &r.c; if (!s->where || holds(eval(s->where, &g, par))) hit.push_back(r.rowid); } int n = 0;
    for (int64_t id : hit) { size_t i = 0; while (i < t->rows.size() && t->rows[i].rowid != id) i++; if (i == t->rows.size()) continue; Row old = t->rows[i].c; fire(a, t->name, "delete", "before", &old, nullptr, none); t = find(s->db, s->name); i = 0; while (i < t->rows.size() && t->rows[i].rowid != id) i++; if (i < t->rows.size()) { t->rows.erase(t->rows.begin() + i); n++; a->dirty = true; } fire(a, t->name, "delete", "after", &old, nullptr, none); t = find(s->db, s->name); }
    changes = n;
  }
  // SQLite's own tables (their rows are not modelled)
  void internal(Att *a, const char *n, const char *cols) { if (a->db.table(n)) return; Parser q(std::string("CREATE TABLE ") + n + "(" + cols + ")"); createTable(a, q.statement()); }
  void createTable(Att *a, Stmt *s) {
    if (a->db.table(s->name)) { if (s->ifExists) return; throw Error(1, "table " + s->name + " already exists"); } Table t; t.name = s->name; t.text = s->text; t.cols = s->defs; t.withoutRowid = s->withoutRowid; t.checks = s->checks; t.fks = s->fks; std::vector<int> pk; for (auto &n : s->pkcols) { int c = t.col(n); if (c < 0) throw Error(1, "unknown column \"" + n + "\" in primary key"); pk.push_back(c); t.cols[c].pk = (int)pk.size(); } for (size_t i = 0; i < t.cols.size(); i++) for (size_t j = 0; j < i; j++) if (ieq(t.cols[i].name, t.cols[j].name)) throw Error(1, "duplicate column name: " + t.cols[i].name);
    if (pk.size() == 1 && ieq(t.cols[pk[0]].type, "integer") && !t.withoutRowid && !pg) t.ipk = pk[0]; if (!pk.empty()) { t.uniq.push_back(pk); t.uact.push_back(s->pkAct); if (t.ipk < 0) { Index ix; ix.name = "sqlite_autoindex_" + t.name + "_1"; ix.table = t.name; ix.cols = pk; ix.uniq = true; ix.autoPk = true; a->db.indexes.push_back(ix); } } for (size_t ui = 0; ui < s->uniq.size(); ui++) { auto &u = s->uniq[ui]; t.uact.push_back(s->uniqAct[ui]); std::vector<int> c; for (auto &n : u) { int k = t.col(n); if (k < 0) throw Error(1, "no such column"); c.push_back(k); } t.uniq.push_back(c); }
    a->db.tables.push_back(t); a->db.order.push_back(std::make_pair('t', t.name)); a->dirty = true; if (s->what == "autoincrement" && !pg) internal(a, "sqlite_sequence", "name,seq");
  }
  // resolve every name before execution, so that errors are reported when preparing
  void prepareRefs(Stmt *s, Frame *up) {
    std::vector<Table *> tmp; std::vector<SV> none;
    switch (s->kind) {
      case Stmt::SELECT: { Frame g; bind(s->sel, g, up, tmp, none, true); break; }
      case Stmt::INSERT: { Att *a = nullptr; Table *t = find(s->db, s->name, &a); if (!t) { if (isMaster(s->name)) throw Error(1, "table sqlite_master may not be modified"); throw Error(1, "no such table: " + s->name); } for (auto &c : s->cols) if (t->col(c) < 0) throw Error(1, "table " + s->name + " has no column named " + c); else if (t->cols[t->col(c)].gen) throw Error(1, "cannot INSERT into generated column"); size_t want = s->cols.size(); if (s->cols.empty()) for (auto &c : t->cols) want += !c.gen; for (auto &v : s->values) { if (v.size() != want && !(v.empty() && s->cols.empty())) throw Error(1, "wrong number of values"); for (auto e : v) resolve(e, up); } if (s->sel) { Frame g; bind(s->sel, g, up, tmp, none, true); std::vector<std::string> cn; colNames(s->sel, up, cn); if (cn.size() != want) throw Error(1, "wrong number of values"); } break; }
      case Stmt::UPDATE: case Stmt::DELETE: { Att *a = nullptr; Table *t = find(s->db, s->name, &a); if (!t) throw Error(1, "no such table: " + s->name); Frame g; g.up = up; g.tab.push_back(t); g.alias.push_back(t->name); g.db.push_back(a->name); g.row.push_back(nullptr); for (auto &p : s->set) { if (t->col(p.first) < 0) throw Error(1, "no such column: " + p.first); resolve(p.second, &g); } resolve(s->where, &g); break; }
      case Stmt::DROP: { if (s->ifExists) break; bool ok = false; for (auto a : dbs) if (s->db.empty() || ieq(a->name, s->db)) { if (s->what == "trigger") for (auto &g : a->db.triggers) ok |= ieq(g.name, s->name); else if (s->what == "table") ok |= a->db.table(s->name) != nullptr; else for (auto &g : a->db.indexes) ok |= !g.autoPk && ieq(g.name, s->name); } if (!ok) throw Error(1, "no such " + s->what + ": " + s->name); break; }
      case Stmt::CREATE_TRIGGER: { Att *a = s->db.empty() ? dbs[0] : db(s->db); if (!a) throw Error(1, "unknown database " + s->db); for (auto &g : a->db.triggers) if (ieq(g.name, s->name)) { if (s->ifExists) break; throw Error(1, "trigger " + s->name + " already exists"); } if (!a->db.table(s->arg)) throw Error(1, "no such table: " + s->arg); break; }
      case Stmt::CREATE_TABLE: case Stmt::CREATE_INDEX: { Att *a = s->db.empty() ? dbs[0] : db(s->db); if (!a) throw Error(1, "unknown database " + s->db); if (!pg && s->name.size() >= 7 && ieq(s->name.substr(0, 7), "sqlite_")) throw Error(1, "object name reserved for internal use: " + s->name); if (s->kind == Stmt::CREATE_TABLE && a->db.table(s->name) && !s->ifExists) throw Error(1, "table " + s->name + " already exists"); break; }
      case Stmt::PRAGMA: if (!s->db.empty() && !db(s->db)) throw Error(1, "unknown database " + s->db); break;
      case Stmt::ATTACH: if (s->e1->op == O_NAME) { s->e1->op = O_LIT; s->e1->v = svText(s->e1->s); } break;
      default: break;
    }
    for (auto t : tmp) delete t;
  }
  bool inTx() { return !saves.empty(); }
  void commit() { for (auto a : dbs) if (a->dirty) { host->save(*a); a->dirty = false; } }
  void snapshot(Save &s) { for (auto a : dbs) { s.copy.push_back(a->db); s.dirty.push_back(a->dirty); } }
  void restore(const Save &s) { for (size_t i = 0; i < s.copy.size() && i < dbs.size(); i++) { dbs[i]->db = s.copy[i]; dbs[i]->dirty = s.dirty[i]; } }
  void rollbackAll() { if (!saves.empty()) { restore(saves[0]); saves.clear(); } }
  void exec(Stmt *s, std::vector<SV> &par, std::vector<Row> &out, Frame *up = nullptr) {
    bool write = false; Save before;
    switch (s->kind) {
      case Stmt::INSERT: case Stmt::UPDATE: case Stmt::DELETE: { write = true; if (depth == 0) snapshot(before); try { Att *a = nullptr; if (!find(s->db, s->name, &a)) throw Error(1, "no such table: " + s->name); if (s->kind == Stmt::INSERT) insert(a, s, up, par); else if (s->kind == Stmt::UPDATE) update(a, s, up, par); else del(a, s, up, par); } catch (Error &er) { if (depth == 0 || up == nullptr) { depth = 0; restore(before); changes = 0; if (er.rollback) rollbackAll(); } throw; } break; }
      case Stmt::SELECT: run(s->sel, up, par, out); write = true; break;
      case Stmt::SAVEPOINT: { Save v; v.name = s->name; v.begin = saves.empty(); snapshot(v); saves.push_back(v); break; }
      case Stmt::BEGIN: { if (inTx()) throw Error(1, "cannot start a transaction within a transaction"); Save v; v.name = ""; v.begin = true; snapshot(v); saves.push_back(v); break; }
      case Stmt::COMMIT: if (!inTx()) throw Error(1, "cannot commit - no transaction is active"); saves.clear(); commit(); break;
      case Stmt::ROLLBACK: if (!inTx()) throw Error(1, "cannot rollback - no transaction is active"); rollbackAll(); break;
      case Stmt::RELEASE: { int k = -1; for (int i = (int)saves.size() - 1; i >= 0; i--) if (ieq(saves[i].name, s->name)) { k = i; break; } if (k < 0) throw Error(1, "no such savepoint: " + s->name); bool outer = k == 0 && saves[0].begin; saves.resize(k); if (outer) commit(); break; }
      case Stmt::ROLLBACKTO: { int k = -1; for (int i = (int)saves.size() - 1; i >= 0; i--) if (ieq(saves[i].name, s->name)) { k = i; break; } if (k < 0) throw Error(1, "no such savepoint: " + s->name); restore(saves[k]); saves.resize(k + 1); break; }
      case Stmt::ATTACH: { if (inTx()) throw Error(1, "cannot ATTACH database within transaction"); SV v = eval(s->e1, nullptr, par); if (db(s->name)) throw Error(1, "database " + s->name + " is already in use"); Att *a = new Att; a->name = s->name; a->path = v.s; if (!host->attach(v.s, *a)) { delete a; throw Error(14, "unable to open database: " + v.s); } dbs.push_back(a); break; }
      case Stmt::DETACH: gs_unsupported("DETACH"); break;
      case Stmt::CREATE_TABLE: write = true; createTable(s->db.empty() ? dbs[0] : db(s->db), s); break;
      case Stmt::CREATE_TRIGGER: { write = true; Att *a = s->db.empty() ? dbs[0] : db(s->db); for (auto &g : a->db.triggers) if (ieq(g.name, s->name)) { if (s->ifExists) return; throw Error(1, "trigger already exists"); } Trigger g; g.name = s->name; g.text = s->text; g.def = s; a->db.triggers.push_back(g); a->db.order.push_back(std::make_pair('g', g.name)); a->dirty = true; break; }
      case Stmt::CREATE_INDEX: { write = true; Att *a = s->db.empty() ? dbs[0] : db(s->db); Table *t = a->db.table(s->arg); if (!t) throw Error(1, "no such table: " + s->arg); Index ix; ix.name = s->name; ix.table = t->name; ix.text = s->text; ix.uniq = s->what == "u"; ix.autoPk = false; for (auto &c : s->cols) { int k = t->col(c); if (k < 0) throw Error(1, "no such column: " + c); ix.cols.push_back(k); } if (ix.uniq) { if (!t->rows.empty()) gs_unsupported("unique index on existing rows"); { t->uniq.push_back(ix.cols); t->uact.push_back(""); } } a->db.indexes.push_back(ix); a->db.order.push_back(std::make_pair('i', ix.name)); a->dirty = true; break; }
      case Stmt::DROP: { write = true; bool ok = false; for (auto a : dbs) if (!ok && (s->db.empty() || ieq(a->name, s->db))) { if (s->what == "trigger") { for (size_t i = 0; i < a->db.triggers.size(); i++) if (ieq(a->db.triggers[i].name, s->name)) { a->db.triggers.erase(a->db.triggers.begin() + i); ok = true; a->dirty = true; break; } } else if (s->what == "table") { for (size_t i = 0; i < a->db.tables.size(); i++) if (ieq(a->db.tables[i].name, s->name)) { std::string tn = a->db.tables[i].name; a->db.tables.erase(a->db.tables.begin() + i); for (size_t q = 0; q < a->db.triggers.size();) if (ieq(a->db.triggers[q].def->arg, tn)) a->db.triggers.erase(a->db.triggers.begin() + q); else q++; for (size_t q = 0; q < a->db.indexes.size();) if (ieq(a->db.indexes[q].table, tn)) a->db.indexes.erase(a->db.indexes.begin() + q); else q++; ok = true; a->dirty = true; break; } } else gs_unsupported("DROP"); if (ok) { char k = s->what == "trigger" ? 'g' : 't'; for (size_t i = 0; i < a->db.order.size(); i++) if (a->db.order[i].first == k && ieq(a->db.order[i].second, s->name)) { a->db.order.erase(a->db.order.begin() + i); break; } } } if (!ok && !s->ifExists) throw Error(1, "no such " + s->what + ": " + s->name); break; }
      case Stmt::PRAGMA: { Att *a = s->db.empty() ? dbs[0] : db(s->db); if (s->name == "table_info") { Table t; if (s->db.empty()) for (auto q : dbs) if (q->db.table(s->arg)) { a = q; break; } t = tableInfo(a, s->arg); for (auto &r : t.rows) out.push_back(r.c); } else if (s->name == "foreign_key_list") { Table t = fkList(a, s->arg); for (auto &r : t.rows) out.push_back(r.c); }
        else if (s->name == "index_list") { int64_t seq = 0; for (size_t i = a->db.indexes.size(); i-- > 0;) { Index &ix = a->db.indexes[i]; if (!ieq(ix.table, s->arg)) continue; Row r(5); r[0] = svInt(seq++); r[1] = svText(ix.name); r[2] = svInt(ix.uniq); r[3] = svText(ix.autoPk ? "pk" : "c"); r[4] = svInt(0); out.push_back(r); } }
        else if (s->name == "index_xinfo") { for (auto &ix : a->db.indexes) if (ieq(ix.name, s->arg)) { Table *t = a->db.table(ix.table); int64_t seq = 0; for (int c : ix.cols) { Row r(6); r[0] = svInt(seq++); r[1] = svInt(c); r[2] = svText(t->cols[c].name); r[3] = svInt(0); r[4] = svText("BINARY"); r[5] = svInt(1); out.push_back(r); } if (!t->withoutRowid) { Row r(6); r[0] = svInt(seq++); r[1] = svInt(-1); r[3] = svInt(0); r[4] = svText("BINARY"); r[5] = svInt(0); out.push_back(r); } else for (size_t c = 0; c < t->cols.size(); c++) { bool in = false; for (int k : ix.cols) in |= k == (int)c; if (in) continue; Row r(6); r[0] = svInt(seq++); r[1] = svInt((int64_t)c); r[2] = svText(t->cols[c].name); r[3] = svInt(0); r[4] = svText("BINARY"); r[5] = svInt(0); out.push_back(r); } } }
        else if (s->name == "foreign_keys" || s->name == "defer_foreign_keys") { if (s->what.empty()) { Row r(1); r[0] = svInt(0); out.push_back(r); } else if (s->arg != "0" && !ieq(s->arg, "off")) { for (auto q : dbs) for (auto &t : q->db.tables) if (!t.fks.empty()) gs_unsupported("foreign key enforcement"); } }
        else if (s->name == "journal_mode" || s->name == "synchronous" || s->name == "cache_size" || s->name == "temp_store" || s->name == "busy_timeout" || s->name == "encoding") {} else gs_unsupported("PRAGMA"); break; }
      case Stmt::NOP: break;
      case Stmt::OTHER: if (!pg && ieq(s->what, "analyze")) { write = true; internal(dbs[0], "sqlite_stat1", "tbl,idx,stat"); } else gs_unsupported("SQL statement"); break;
    }
    if (write && depth == 0 && !inTx()) commit();
  }
};
} // namespace gsql
