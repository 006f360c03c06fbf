#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept readable here; run to regenerate).
import json, os
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=["geodiff/src/"+f for f in files],mechanism=[dict(name=n,where="geodiff/src/"+w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Changeset written then read back is unchanged",
  "Any sequence of tables and entries (insert, update, delete; every value type, including NULL, undefined, empty and binary text/blob and extreme integers) written with the changeset writer is returned by the changeset reader with the same order, table, primary-key flags, operation and bit-identical values, followed by end of file.",
  ["inputs"],"every changeset built from any tables, operations, value types and value bytes",
  "The repository's tests read a few canned files; they never write and re-read, and cannot cover every integer, length and type combination.",
  ["changesetwriter.cpp","changesetreader.cpp","changeset.h","changesetvarint.h"],
  [("ChangesetWriter::writeEntry/writeRowValues","changesetwriter.cpp"),("ChangesetReader::nextEntry/readRowValues","changesetreader.cpp")],
  ["ChangesetReader::nextEntry results after ChangesetWriter wrote the file"])
p("C02","Reading any bytes as a changeset is safe and terminates",
  "For every byte sequence given as a changeset file, reading it to the end (and counting, inverting or exporting it) either yields entries and end of file or reports a read error; it never reads or writes memory outside its buffers, crashes, trips an internal assertion or loops forever, however truncated or corrupted the file is.",
  ["inputs"],"every byte string as changeset file",
  "Tests open only well-formed files produced by the library; malformed input space is unbounded.",
  ["changesetreader.cpp","changesetvarint.h","changesetutils.cpp","geodiffutils.cpp"],
  [("ChangesetReader bounds checks","changesetreader.cpp"),("getVarint32","changesetvarint.h")],
  ["ChangesetReader::open/nextEntry, GEODIFF_changesCount, GEODIFF_hasChanges, GEODIFF_invertChangeset, GEODIFF_listChanges on a file with those bytes"])
p("C03","Changeset files follow the documented SQLite session format",
  "The bytes the writer produces are exactly those of the documented changeset format (table header, varint lengths, big-endian 64-bit integers and doubles, operation and indirect bytes), and a stream that follows the format is decoded to exactly the values it encodes, so files interchange with SQLite's session extension.",
  ["inputs"],"every table header, every value and every varint from 0 to 2^32-1",
  "A writer and reader that are wrong in the same way still agree with each other, and canned files use only single-byte lengths.",
  ["changesetwriter.cpp","changesetreader.cpp","changesetvarint.h","../../docs/changeset-format.md"],
  [("putVarint32/getVarint32/sqlite3VarintLen","changesetvarint.h"),("ChangesetWriter::beginTable","changesetwriter.cpp")],
  ["bytes of the written file; values returned by ChangesetReader"])
p("C04","Inverting a changeset reverses every entry exactly",
  "The inverted changeset has the same tables and number of entries, with each insert turned into a delete of the same row, each delete into an insert of the same row, and each update into an update whose old and new values are swapped while the primary key and untouched columns stay correctly encoded; inverting twice gives back the original changeset.",
  ["inputs"],"every well-formed changeset",
  "Three canned inversions are tested; composite keys, keys that are not the first column, several tables and other value types are not.",
  ["changesetutils.cpp","geodiff.cpp"],
  [("invertChangeset","changesetutils.cpp"),("GEODIFF_invertChangeset","geodiff.cpp")],
  ["entries of the file produced by GEODIFF_invertChangeset"])
p("C05","Values compare, copy and assign by type and content",
  "Two changeset values are equal exactly when they have the same type and the same content (integers, ordinary non-NaN doubles numerically, bytes of text and blobs including embedded zero bytes, NULL, undefined); copying, assigning (self-assignment included) or overwriting a value preserves content, leaves the source intact and never leaks, aliases or double-frees storage; accessors return what was set.",
  ["inputs","histories"],"every pair of values and every short sequence of set/copy/assign/compare operations",
  "No test touches these operations directly; wrong results show only for particular contents or type transitions.",
  ["changeset.h"],[("struct Value","changeset.h")],["Value accessors, operator==, copy constructor, operator="])
p("C06","Applying a created changeset to base yields modified (SQLite)",
  "For two SQLite databases with the same schema (tables with a primary key that is not NULL in any row, no further constraints), the changeset created from base to modified, applied to a copy of base, succeeds and leaves every such table with exactly the rows of modified.",
  ["inputs","histories"],"every pair of table contents (any keys, values, NULLs, types, several tables, composite keys)",
  "The tests that use the SQLite driver are not even in the stable set, and they sample fixed files.",
  ["drivers/sqlitedriver.cpp","drivers/sqliteutils.cpp","geodiff.cpp"],
  [("SqliteDriver::createChangeset","drivers/sqlitedriver.cpp"),("SqliteDriver::applyChangeset","drivers/sqlitedriver.cpp")],
  ["GEODIFF_createChangeset then GEODIFF_applyChangeset, then table contents"])
p("C07","A created changeset is the exact difference (SQLite)",
  "The changeset created between two databases has, for every user table with a primary key, exactly one entry for each row inserted, deleted or changed (matched by primary key, which is never NULL) and none for unchanged rows; tables without primary key are ignored; inserts and deletes carry the full row, updates carry the old key and old and new values of exactly the changed columns; identical databases give an empty changeset.",
  ["inputs"],"every pair of table contents",
  "Needs every combination of changed/unchanged columns, NULL transitions and value types; tests compare a few files.",
  ["drivers/sqlitedriver.cpp","changesetwriter.cpp"],
  [("handleInserted/handleUpdated","drivers/sqlitedriver.cpp")],
  ["entries of the changeset file written by GEODIFF_createChangeset"])
p("C08","Applying a changeset to SQLite is all-or-nothing",
  "When applying a changeset fails for any reason (a conflicting or missing row, a constraint violation, a malformed or truncated changeset, an unknown table or a database error at any statement), the call returns an error or conflict code and the database content, schema and triggers are exactly as before the call; a process that dies at any point leaves the content either as before or with the whole changeset applied.",
  ["inputs","fault_sequences","crash_points"],"every changeset, every database content and a failure at any statement of the apply",
  "Tests check that a conflict is reported for one or two files; they do not fail the k-th statement or compare content afterwards.",
  ["drivers/sqlitedriver.cpp","drivers/sqliteutils.cpp"],
  [("Sqlite3SavepointTransaction","drivers/sqlitedriver.cpp"),("SqliteDriver::applyChangeset","drivers/sqlitedriver.cpp")],
  ["return code of GEODIFF_applyChangeset and database content afterwards"])
p("C09","Apply changes exactly the described rows or reports a conflict",
  "An update or delete entry changes the one row whose primary key and recorded old values all match, setting only the columns that have new values; if no such row exists, or an insert's key is already taken, the call reports a conflict and never touches another row.",
  ["inputs"],"every single entry or short sequence against every table content",
  "Depends on matching NULLs, partially recorded old values and value types, sampled only by fixed files.",
  ["drivers/sqlitedriver.cpp"],
  [("sqlForUpdate/sqlForDelete/sqlForInsert, bindValue","drivers/sqlitedriver.cpp")],
  ["return code of GEODIFF_applyChangeset and rows afterwards"])
p("C10","Applying the inverse changeset restores base",
  "After a changeset has been applied to a database, applying its inverse succeeds and restores exactly the content the database had before.",
  ["inputs","histories"],"every base/modified pair",
  "The round trip through create, invert and apply is sampled by fixed files only.",
  ["changesetutils.cpp","drivers/sqlitedriver.cpp","geodiff.cpp"],
  [("invertChangeset","changesetutils.cpp"),("SqliteDriver::applyChangeset","drivers/sqlitedriver.cpp")],
  ["table content after apply and apply of the inverse"])
p("C11","Triggers do not fire during apply and survive it",
  "While a changeset is applied to a SQLite database, user triggers do not run, so the only data changes are those in the changeset and what the GeoPackage's own triggers (feature count, spatial index) derive from them; after the call, successful or not, every trigger exists with its original definition.",
  ["inputs","fault_sequences"],"every set of triggers (names needing quoting included), every outcome of the apply",
  "One GeoPackage with ordinary trigger names is used by tests that are not in the stable set.",
  ["drivers/sqlitedriver.cpp","drivers/sqliteutils.cpp"],
  [("sqliteTriggers and drop/create in applyChangeset","drivers/sqlitedriver.cpp")],
  ["sqlite_master content and rows after GEODIFF_applyChangeset"])
p("C12","Diff refuses databases whose schemas differ",
  "Creating a changeset between databases whose set of user tables differs, or where the columns of a user table (names, order, types, primary key membership, nullability, geometry attributes) differ, returns an error rather than success with a wrong or partial changeset; equal schemas are never refused.",
  ["inputs","configurations"],"every pair of small schemas",
  "Tests sample two or three mismatching schemas.",
  ["drivers/sqlitedriver.cpp","tableschema.cpp"],
  [("SqliteDriver::createChangeset schema comparison","drivers/sqlitedriver.cpp"),("TableSchema::operator==","tableschema.h")],
  ["return code of GEODIFF_createChangeset"])
p("C13","Rebased changeset applies on top of theirs and keeps both edits",
  "Given two changesets made from the same base (tables with one integer primary key column, keys within 32 bits, and no base row with a key above the largest key theirs inserted into that table), applying theirs and then the rebased version of ours succeeds without conflict and yields both sides' edits: rows ours inserted keep their content, under their own key or, if theirs or a moved row uses it, under a new unused key; rows theirs deleted stay deleted, a column both changed takes our value, and every other edit is unaffected.",
  ["inputs","histories"],"every pair of changesets from a common base: all operation pairs on same or different rows, several tables, any key values",
  "Tests cover a couple of dozen scripted pairs with integer keys in small ranges.",
  ["geodiffrebase.cpp","geodiff.cpp"],
  [("rebase, _handle_insert/_handle_update/_handle_delete","geodiffrebase.cpp")],
  ["entries of the rebased changeset; table content after applying theirs and rebased"])
p("C14","Rebase reports exactly the real edit conflicts",
  "The rebase reports a conflict for a row and column exactly when both sides updated that column of that row to different values, with the correct table, key, column and base, theirs and our values (only column 4 of gpkg_contents is exempt); edits that touch different columns, different rows or make the same change are not reported, and no conflict file is left when there is none.",
  ["inputs"],"every pair of updates over every subset of columns and every values",
  "Needs every overlap pattern of changed columns; tests use two.",
  ["geodiffrebase.cpp","geodiffutils.cpp","geodiff.cpp"],
  [("_handle_update","geodiffrebase.cpp"),("conflictsToJSON","changesetutils.cpp")],
  ["ConflictFeature list / conflict file of GEODIFF_createRebasedChangeset"])
p("C15","Rebase against an empty side is the identity",
  "When theirs is empty the rebased changeset equals ours, when ours is empty it is empty, input changeset files are never modified, and the output file is always produced on success.",
  ["inputs","configurations"],"both sides empty or not, any content",
  "The early-exit branches are file operations; a test must look at every file afterwards, which none does.",
  ["geodiffrebase.cpp","geodiffutils.cpp"],
  [("rebase early exits, filecopy","geodiffrebase.cpp")],
  ["content of input and output files after GEODIFF_createRebasedChangeset"])
p("C16","End-to-end rebase merges concurrent database edits",
  "Rebasing a locally modified database onto another modified version of the same base succeeds and leaves the local database with their edits plus ours as merged by the rebase rules, base and their database unchanged; if any step fails the local database keeps its content and an error is returned, and if the process dies it has either its old content or the result.",
  ["inputs","fault_sequences","crash_points"],"every triple base/theirs/ours of small tables",
  "Tests run a few fixed triples and check few outcomes of failure.",
  ["geodiff.cpp","geodiffrebase.cpp","drivers/sqlitedriver.cpp"],
  [("GEODIFF_rebase/GEODIFF_rebaseEx, GEODIFF_createRebasedChangeset","geodiff.cpp")],
  ["table content of the three databases and return code"])
p("C17","Concatenated changeset equals applying them in sequence",
  "The concatenation of three changesets as used by rebase has, on any database on which applying them one after another succeeds, the same effect as that sequence, and a failure to combine the inputs or write the output is reported as an error.",
  ["inputs","fault_sequences"],"every list of changesets that chain on a common base",
  "Tests concatenate one set of files; failure paths are not exercised.",
  ["geodiffrebase.cpp","geodiff.cpp"],
  [("concatChangesets","geodiffrebase.cpp"),("GEODIFF_rebaseEx","geodiff.cpp")],
  ["file produced by concatChangesets and its return code"])
p("C18","The C API reports every failure as an error code",
  "Every C API function called with NULL, non-existing, unreadable or malformed arguments returns an error code (never success) and never lets an exception escape, crashes or terminates the process.",
  ["inputs","fault_sequences"],"every API function, every combination of invalid arguments and of failing file operations",
  "A handful of NULL calls are tested; combinations and failing files are not.",
  ["geodiff.cpp","geodiff.h"],
  [("argument checks and try/catch in each GEODIFF_ function","geodiff.cpp")],
  ["return codes of GEODIFF_* functions"])
p("C19","Change counting agrees with the changeset's content",
  "The number of changes reported for a changeset file equals the number of entries it contains, and it is reported as having changes exactly when that number is not zero; an unreadable file, or one corrupted before the point that needs to be read (the whole file for counting, the first entry for having changes), gives the error value.",
  ["inputs"],"every changeset file",
  "Tests count a few canned files.",
  ["geodiff.cpp","changesetreader.cpp"],
  [("GEODIFF_changesCount, GEODIFF_hasChanges","geodiff.cpp")],
  ["GEODIFF_changesCount, GEODIFF_hasChanges"])
p("C20","A failed output write is never reported as success",
  "Whenever an operation that produces a file (creating, inverting, rebasing or concatenating changesets, exporting JSON, copying) returns success, the complete output is on disk; if opening, writing or closing the output fails at any point, the call returns an error.",
  ["fault_sequences","crash_points"],"a failure of any single file operation, at any point of each operation",
  "Needs fault injection at each file operation; tests never make a write fail.",
  ["changesetwriter.cpp","geodiffutils.cpp","changesetutils.cpp","geodiff.cpp"],
  [("ChangesetWriter::open/writeEntry, flushString, Buffer::write, filecopy","geodiffutils.cpp")],
  ["return code versus content of output file"])
p("C21","Operations leave inputs untouched and no temporary files behind",
  "No operation modifies its input databases or changesets other than its documented target, and every temporary file it creates is gone when it returns, whether it succeeded or failed.",
  ["inputs","fault_sequences"],"every operation, success and failure paths",
  "Tests look at outputs only.",
  ["geodiff.cpp","geodiffutils.cpp","geodiffrebase.cpp"],
  [("TmpFile","geodiffutils.cpp"),("GEODIFF_rebaseEx/createRebasedChangesetEx/makeCopy","geodiff.cpp")],
  ["directory content and input bytes before and after each call"])
p("C22","JSON export is valid JSON and faithful to the changeset",
  "The JSON listing of any changeset is syntactically valid JSON and describes every entry in order with its table, operation and every present old and new value (UTF-8 text escaped, blobs as base64, NULL as null, finite numbers exactly) so that distinct changes are distinguishable; the conflict listing likewise.",
  ["inputs"],"every changeset; any text content including quotes, backslashes and control characters",
  "Two canned exports are tested; string content is benign.",
  ["changesetutils.cpp","3rdparty/base64utils.cpp"],
  [("changesetToJSON, conflictsToJSON, escapeJSONString","changesetutils.cpp")],
  ["file written by GEODIFF_listChanges and by rebase with a conflict file"])
p("C23","Summary counts match the changeset per table",
  "The JSON summary lists exactly the tables that have changes, each once, with its exact number of inserts, updates and deletes.",
  ["inputs"],"every changeset",
  "One canned file.",
  ["changesetutils.cpp"],[("changesetToJSONSummary","changesetutils.cpp")],["file written by GEODIFF_listChangesSummary"])
p("C24","Binary-to-text helpers are exact inverses",
  "Base64 encoding follows RFC 4648 for every byte string, and hexadecimal encoding and decoding are inverse to each other for every byte string.",
  ["inputs"],"every byte string",
  "Tests use one string; padding and high-bit bytes vary by length and content.",
  ["3rdparty/base64utils.cpp","changesetutils.cpp"],
  [("base64_encode","3rdparty/base64utils.cpp"),("bin2hex/hex2bin","changesetutils.cpp")],
  ["returned strings"])
p("C25","PostgreSQL statements carry any value and name safely and exactly",
  "Whatever the table, schema and column names and text values in a changeset, each statement the PostgreSQL driver sends is a single well-formed statement in which names appear as quoted identifiers and values as literals denoting exactly the changeset's values; no content can change the statement's structure.",
  ["inputs"],"every identifier and every value, including quotes, backslashes and extreme numbers",
  "PostgreSQL tests need a server and are not run; injection needs adversarial values.",
  ["drivers/postgresdriver.cpp","drivers/postgresutils.cpp"],
  [("quotedIdentifier, quotedString, valueToSql, sqlFor*","drivers/postgresdriver.cpp")],
  ["statements passed to PQexec"])
p("C26","Applying a changeset to PostgreSQL is all-or-nothing",
  "When applying a changeset to PostgreSQL meets a statement error, a conflict (a statement that affects other than one row) or a malformed changeset, the call returns an error or conflict code and the transaction is rolled back; it is committed exactly when every entry took effect and success is returned.",
  ["inputs","fault_sequences"],"every changeset and every sequence of server results",
  "No server in the tests, and failing the k-th statement needs fault injection.",
  ["drivers/postgresdriver.cpp","drivers/postgresutils.h"],
  [("PostgresDriver::applyChangeset, PostgresTransaction","drivers/postgresdriver.cpp")],
  ["statements sent to the server and return code"])
p("C27","A changeset created from PostgreSQL results is the exact difference",
  "The changeset created from two PostgreSQL schemas contains exactly the rows the difference queries return, with each column's text converted to the value it denotes (integers, booleans, doubles, text, NULL, geometry) and unchanged columns omitted from updates.",
  ["inputs"],"every row content returned by the server",
  "No server in the tests.",
  ["drivers/postgresdriver.cpp"],
  [("handleInserted/handleUpdated, resultToValue","drivers/postgresdriver.cpp")],
  ["entries of the changeset written by PostgresDriver::createChangeset for given server results"])
p("C28","Geometry is carried between GeoPackage and PostgreSQL unchanged",
  "Converting a GeoPackage geometry to the PostgreSQL form and back keeps the geometry bytes and spatial reference system, the header written is a valid GeoPackage header, and any blob too short or otherwise not a GeoPackage geometry is rejected without reading outside it.",
  ["inputs"],"every blob, every SRID",
  "No server in the tests; header variants (envelopes, short blobs) are rare.",
  ["drivers/postgresdriver.cpp"],
  [("resultToValue, valueToSql","drivers/postgresdriver.cpp")],
  ["SQL literal for a geometry value; value read from a geometry result"])
p("C29","Sequences never fall behind keys applied to PostgreSQL",
  "After a successful apply of inserts to a PostgreSQL table whose integer key is filled by a sequence, the sequence is moved so that its next value exceeds every inserted key, and it is never moved backwards.",
  ["inputs"],"every set of inserted keys and every sequence state",
  "No server in the tests.",
  ["drivers/postgresdriver.cpp"],
  [("updateSequenceObject, getSequenceObjectName","drivers/postgresdriver.cpp")],
  ["setval statements sent to the server"])
p("C30","Column types are mapped as documented and the rest of a schema is kept",
  "Converting a SQLite schema for PostgreSQL maps every column type regardless of letter case: the integer family to integer (serial when auto-incremented), double/real/float to double precision, bool to boolean, text and text(n)/varchar(n) to text, blob to bytea, datetime to timestamp, geometry columns to geometry(TYPE[Z][M], srid), and anything else to text; converting PostgreSQL to SQLite only turns geometry(...) types into the plain geometry type; the same driver changes nothing, other combinations are refused, and names, keys, nullability, auto-increment and geometry attributes are always kept.",
  ["inputs","configurations"],"every type name and every column definition",
  "A few schemas are sampled by tests outside the stable set.",
  ["tableschema.cpp","tableschema.h"],
  [("tableSchemaSqliteToPostgres, tableSchemaPostgresToSqlite, tableSchemaConvert","tableschema.cpp")],
  ["returned schema"])
p("C31","Log callback receives exactly the messages its level admits",
  "A registered logger callback receives every message whose severity is within the current maximum level and none above it, with the message's own level; changing level or callback takes effect at once, and without a callback nothing is delivered.",
  ["histories","configurations"],"every sequence of level, callback and message operations",
  "Tests set one logger and one level.",
  ["geodifflogger.cpp","geodiff.cpp"],
  [("Logger::log, setMaxLogLevel","geodifflogger.cpp"),("GEODIFF_setMaximumLoggerLevel","geodiff.cpp")],
  ["calls of the registered callback"])
p("C32","Copying a database through dump reproduces schema and rows",
  "Copying a data source to a new database, or dumping it to a changeset, reproduces every user table that has a primary key with the same columns and exactly the same rows, or returns an error (as it does for tables without geometry copied from PostgreSQL to GeoPackage).",
  ["inputs","fault_sequences"],"every small database content",
  "Tests outside the stable set copy one file.",
  ["geodiff.cpp","drivers/sqlitedriver.cpp","drivers/postgresdriver.cpp"],
  [("GEODIFF_makeCopy, createTables, dumpData","geodiff.cpp")],
  ["tables of the destination, entries of the dump"])
p("C33","SQLite statements treat names as data",
  "Databases whose table, column or trigger names contain quotes, spaces or SQL keywords, and changesets that name them, are diffed and applied exactly like any other; a name can never change what a statement does.",
  ["inputs"],"every identifier",
  "Tests use plain names.",
  ["drivers/sqlitedriver.cpp","drivers/sqliteutils.cpp"],
  [("sqlitePrintf %w/%q quoting","drivers/sqlitedriver.cpp")],
  ["statements prepared on the database and their results"])
p("C34","Text and path helpers do what their names say",
  "The string helpers (prefix test, replacing all occurrences of a non-empty string, lower-casing ASCII letters, index of a name, joining names, number to text, layer-table test, temporary names and directory) return the mathematically expected result for every input and terminate.",
  ["inputs"],"every pair/triple of strings",
  "They are tested only through a few calls.",
  ["geodiffutils.cpp"],[("startsWith, replace, lowercaseString, concatNames, randomString","geodiffutils.cpp")],["return values"])
p("C35","Concurrent calls never share a temporary file",
  "Library calls that run at the same time in different processes or threads, and calls made one after another in one process, never use the same temporary file name, whatever process ids, times and random numbers they see; so a call that runs while another one is between two steps of its own work leaves the other's result as it would have been alone.",
  ["schedules"],"every pair of process ids, every random number, and every opening of a temporary file as the moment at which the other call runs",
  "Tests run single-threaded in one process.",
  ["geodiffutils.cpp","geodiff.cpp"],[("randomString, tmpFilePath, TmpFile","geodiffutils.cpp"),("temporary files of rebaseEx and makeCopy","geodiff.cpp")],["names of temporary files opened; results of the overlapping calls"])
p("C36","The Python binding maps every call and return code faithfully",
  "Every method of the Python binding calls its C function once with its text arguments unchanged (UTF-8) and in order; result 0 returns normally, 1 raises the library error, 2 the conflict error, 3 the unsupported-change error, and any other code some error, while counts and yes/no answers are returned unchanged unless negative, which raises the library error. The binding refuses a library of another version, and a registered logger callback receives each message with its level for as long as the library may call it.",
  ["inputs"],"every integer result and every argument text of every wrapped function",
  "Tests sample success and one or two failures.",
  ["../../pygeodiff/geodifflib.py","../../pygeodiff/main.py"],[("GeoDiffLib methods and _parse_return_code","../../pygeodiff/geodifflib.py")],["exception type or value per return code; arguments the C function receives"])
p("C37","The command line tool runs its mode's function and exits with its result",
  "For each documented mode, the command line tool calls the library function of that name once with the given arguments in order and exits with its result code; a missing or unknown mode, or too few arguments, gives a nonzero exit code, and \"version\" prints the library's version. Unless the environment sets a log level, only warnings and errors are logged.",
  ["inputs","configurations"],"every mode text, number of arguments, argument text and result code",
  "No test runs the tool.",
  ["geodiffinfo.cpp"],[("main and the mode functions","geodiffinfo.cpp")],["calls of the library's functions, exit code, standard output"])
p("C38","Rebasing refuses databases with foreign keys or unknown triggers",
  "Creating a rebased changeset for a modified SQLite database is refused with an error, and leaves no changeset or other file behind, exactly when a table other than GeoPackage's own (names starting with gpkg_ or rtree_) has a foreign key of any form, or the database has a trigger other than those of GeoPackage (names starting with gpkg_, rtree_, trigger_insert_feature_count_ or trigger_delete_feature_count_); other valid databases are never refused.",
  ["inputs","configurations"],"every form of foreign key and every combination of trigger and table names",
  "No test rebases a database with foreign keys or triggers of its own.",
  ["drivers/sqliteutils.cpp","drivers/sqlitedriver.cpp","geodiff.cpp"],[("sqliteForeignKeys and sqliteTriggers","drivers/sqliteutils.cpp"),("checkCompatibleForRebase","drivers/sqlitedriver.cpp")],["result code, files present after the call"])
p("C39","Merging in PostgreSQL keeps the edits of both sides",
  "For tables with a single integer primary key (values within 32 bits) in PostgreSQL schemas, and changesets that fit the base, a successful rebase leaves in the modified schema exactly the three-way merge of base, their changeset and our edits: their edits, ours on top where both changed a value, a row deleted when either side deleted it, and inserts of both (ours get a new key only if theirs took it); a conflict file exists exactly when both sides changed a value differently. Base and other schemas stay as they were, and a rebase that fails at any statement reports an error and leaves the modified schema as it was.",
  ["inputs","fault_sequences"],"every combination of edits and values, and a failure at every statement sent to the server",
  "No server in the tests.",
  ["geodiff.cpp","geodiffrebase.cpp","drivers/postgresdriver.cpp"],[("GEODIFF_rebaseEx","geodiff.cpp"),("rebase","geodiffrebase.cpp"),("applyChangeset","drivers/postgresdriver.cpp")],["content of the server's schemas, the conflict file, result code"])
p("C40","Changesets carry changes between SQLite and its copy in PostgreSQL",
  "After a SQLite or GeoPackage table (integer, boolean, real, text, date-time and point geometry columns whose values are in the form the drivers write, i.e. ISO UTC times and geometry headers without envelope) is copied to PostgreSQL, a changeset made on either side applies to the other side without conflicts and leaves both with equal rows, equal dumps, and a sequence above inserted keys; the same holds for the result of a merge done in PostgreSQL.",
  ["inputs","histories"],"every row, type and edit on either side",
  "No server in the tests.",
  ["geodiff.cpp","drivers/postgresdriver.cpp","drivers/sqlitedriver.cpp","tableschema.cpp"],[("makeCopy, createChangesetEx, applyChangesetEx, rebaseEx, dumpData","geodiff.cpp"),("type mapping","tableschema.cpp")],["rows on both sides, dumps, result codes"])
p("C41","Rounds of synchronisation between clients converge and lose no edit",
  "Two clients and a server start from equal SQLite tables with an integer primary key (keys within 32 bits; keys of inserted rows above those the client knows). After any history of edits and synchronisations - a client rebases its database onto the server's and pushes the difference, or rebases its changeset with createRebasedChangeset, pushes it and applies both changesets to its base - every step succeeds, client and server are equal afterwards, every edit made since the client's last synchronisation is present (unless the row was deleted on the other side), rows others changed keep their changes, inserted rows keep their key unless theirs took it, and a conflict file is written exactly when both sides changed a value differently. Once all have synchronised, all databases are equal and a changeset between them is empty.",
  ["inputs","histories"],"every history of edits, keys and values over several rounds",
  "No test makes a second round.",
  ["geodiff.cpp","geodiffrebase.cpp","drivers/sqlitedriver.cpp"],[("GEODIFF_rebase, createRebasedChangeset, createChangeset, applyChangeset","geodiff.cpp"),("rebase","geodiffrebase.cpp")],["rows of the clients' and the server's databases after every step, conflict file, result codes"])
for x in P:
    x["anchors"]["files"]=[os.path.normpath(f) for f in x["anchors"]["files"]]
    for m in x["anchors"]["mechanism"]: m["where"]=os.path.normpath(m["where"])
    assert len(x["title"])<=80,x["title"]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
