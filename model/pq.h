// Harness side of the PostgreSQL stand-in (pq_db.cpp): a server held in memory.
#pragma once
#include <string>
#include <vector>
#include <stdint.h>
struct PqCol { std::string name, type; bool pk, notnull, seq; std::string geomType; int srid; PqCol() : pk(false), notnull(false), seq(false), srid(0) {} };
struct PqCell { int t; int64_t n; std::string s; };  // t as in changesets: 1 int/bool, 2 double bits, 3 text, 4 bytes (geometry: WKB), 5 NULL
typedef std::vector<PqCell> PqRow;
void pqReset();
void pqSchema(const std::string &name);
bool pqHasSchema(const std::string &name);
void pqTable(const std::string &schema, const std::string &name, const std::vector<PqCol> &cols, const std::vector<PqRow> &rows);
void pqIndex(const std::string &schema, const std::string &table, const std::vector<int> &cols);  // an index besides the primary key's
void pqCrs(int srid, const std::string &auth, int code, const std::string &wkt);
bool pqColumns(const std::string &schema, const std::string &name, std::vector<PqCol> &cols);  // committed state
std::vector<PqRow> pqRows(const std::string &schema, const std::string &name);
std::vector<std::string> pqTables(const std::string &schema);
void pqSequence(const std::string &schema, const std::string &table, const std::string &col, int64_t last, bool called);
int64_t pqNextval(const std::string &schema, const std::string &table, const std::string &col);  // what nextval would give
void pqRowTrigger(const std::string &schema, const std::string &table);      // a trigger that suppresses every change of a row
void pqCommitCheck(bool fail);                                                // deferred constraint: COMMIT fails
// statement number at (from 0) fails: 1 server error, 2 no result, 3 connection lost before it ran, 4 lost with a result
extern int pqFaultAt, pqFaultKind, pqCount, pqHit, pqOpen, pqResults, pqConnectFail;
extern std::vector<std::string> pqLog;
// canned result for SELECT statements that read the given table, instead of running them (cells as text; null = SQL NULL)
struct PqText { bool null; std::string s; };
void pqCanned(const std::string &schemaQualifiedTable, const std::vector<std::vector<PqText> > &rows, int which);
bool pqInTransaction();
