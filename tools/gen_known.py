#!/usr/bin/env python3
# (Development tool.) Writes known_findings.json: fixed defects from /repo's "fix:" commits, plus open findings.
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {"871a949": "C13", "c72efd9": "C34", "be17b3a": "C16", "4a9f797": "C31", "a990f3a": "C02,C20", "fc47f19": "C34", "02baa66": "C14", "daa11ba": "C24", "7f8367f": "C26",
 "320cb14": "C29", "1cdb87f": "C25", "61983ba": "C28", "cdfc88d": "C32", "dea97de": "C25", "7f178ea": "C26", "e19222a": "C27", "152f8f8": "C27", "84484a1": "C26", "c69e3e8": "C12,C20,C08",
 "9030148": "C11,C33", "0074aec": "C09", "db6c0b9": "C08,C09", "9ff0ca1": "C06,C07,C09", "2369be9": "C06,C07", "7751612": "C22,C25", "11453a5": "C22", "9c88459": "C17", "db2b935": "C20",
 "aacb537": "C20", "fb7c36a": "C20", "c00001f": "C04", "332e71f": "C13", "dce0342": "C13", "3737324": "C13", "88d0b85": "C14", "c56a347": "C15", "267550e": "C18", "7f32d43": "C19", "57ed2be": "C19,C18",
 "73281d7": "C05", "8b19faf": "C05,C14", "a1b6f29": "C02", "1d1be1e": "C02", "20837fc": "C02"}
EXTRA = {"fix: do not override the conflict clauses in GeoPackage triggers when applying changes": "C09,C06,C11", "fix: report SQLite errors when reading columns for foreign keys": "C38,C20", "fix: leave out all internal tables of SQLite when comparing databases": "C12,C06",
 "fix: PostgreSQL columns that are also in other indexes were listed repeatedly": "C27,C25",
 "fix: foreign keys to missing or differently spelled columns are foreign keys too": "C38",
 "fix: ON CONFLICT clauses of a table do not drop rows or end the transaction while applying a changeset": "C08,C09",
 "fix: applying a changeset stops when the database has rolled back its transaction": "C08",
  "fix: a sequence not used yet could return the key of an applied insert": "C29",
 "fix: calls in different processes used the same temporary files": "C35",
 "fix: differences and dumps of tables with generated columns had misplaced values": "C06,C07,C32",
}  # subject prefix -> property for newer commits
OPEN = json.load(open(V + "/tools/open_findings.json")) if os.path.exists(V + "/tools/open_findings.json") else []
out = []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
for l in reversed(log):
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    p = M.get(h) or EXTRA.get(s)
    assert p, l
    for q in p.split(","):
        out.append({"status": "fixed", "property": q, "commit": h, "what": "fixed: property=%s %s %s" % (q, h, s[4:].strip())})
json.dump({"findings": out + OPEN}, open(V + "/known_findings.json", "w"), indent=1)
