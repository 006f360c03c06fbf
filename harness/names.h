#pragma once
// names at most one edit away from the prefixes that mark GeoPackage's or SQLite's own tables and triggers
static const char *const OWN_TRIGGERS[] = {"gpkg_", "rtree_", "trigger_insert_feature_count_", "trigger_delete_feature_count_"};
static const char *const OWN_TABLES[] = {"gpkg_ogr_contents", "rtree_", "sqlite_"};
static inline bool ownName(const std::string &n, const char *const *P, int k) { for (int i = 0; i < k; i++) { std::string p = P[i]; if (n.size() < p.size()) continue; bool eq = true; for (size_t j = 0; j < p.size(); j++) eq = eq && n[j] == p[j]; if (eq) return true; } return false; }
static inline std::string editedName(const char *const *P, int k) { std::string n = P[gs_choice("name of", k)]; n += gs_choice("rest", 2) ? "tx" : ""; int how = gs_choice("edit", 4), at = gs_choice("at", (int)n.size()); char c = (char)gs_sym("character", 8); gs_assume((c >= 'a' && c <= 'z') || c == '_' || (c >= 'A' && c <= 'Z') || c == ' '); if (how == 0) n[at] = c; if (how == 1) n.insert(n.begin() + at, c); if (how == 2) n.erase(n.begin() + at); if (how == 3) n = std::string(gs_choice("before", 2) ? "a_" : "x") + n.substr(0, at + 1); if (n.empty()) gs_end_path("no name"); return n; }
