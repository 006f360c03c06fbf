# Which harness entries decide which property, with bounds per tier.
M = ["sqlite_mem.c"]
MDB = M + ["sqlite_db.cpp"]
# texts of conflict messages are built by a stand-in where they do not matter (C22 decides the JSON export itself)
NOJSON = {"_Z20changesetEntryToJSONB5cxx11RK14ChangesetEntry": "gs_stub_entry_json"}
NOJSON2 = dict(NOJSON, **{"_Z15conflictsToJSONB5cxx11RKSt6vectorI15ConflictFeatureSaIS0_EE": "gs_stub_conflicts_json"})
PGO = dict(thorough_params=dict(pglens=11), redirect=NOJSON, harness="h_pg.cpp", models_sym=MDB, models=["pq_db.cpp", "pq_rest.c"], fake_pq=True)
JOBS = {
 "reader": dict(harness="h_reader.cpp", models_sym=M, entries=["h_reader_any", "h_reader_tail", "h_reader_len", "h_reader_cut", "h_reader_cut2", "h_reader_header"], quick_params=dict(bytes=6, tail=7), thorough_params=dict(bytes=9, tail=9), quick_time=200, thorough_time=900),
 "codec": dict(harness="h_codec.cpp", models_sym=M, entries=["h_codec_one", "h_codec_multi", "h_codec_len", "h_codec_wide", "h_codec_two", "h_codec_many"], quick_time=150, thorough_params=dict(tables=3)),
 "varint": dict(harness="h_varint.cpp", models_sym=M, entries=["h_varint"]),
 "changes": dict(harness="h_changes.cpp", models_sym=M, entries=["h_inv_one", "h_inv_types", "h_inv_multi", "h_inv_names", "h_inv_keys", "h_inv_wide", "h_inv_many", "h_inv_counts", "h_inv_big"], thorough_params=dict(tables=3, namelens=7, counts=7)),
 "count": dict(harness="h_changes.cpp", models_sym=M, entries=["h_count_any"], quick_params=dict(bytes=4), thorough_params=dict(bytes=7)),
 "json": dict(harness="h_json.cpp", models_sym=M, entries=["h_json_text", "h_json_table", "h_json_blob", "h_json_int", "h_json_real", "h_json_struct", "h_json_big", "h_json_many"], thorough_params=dict(chars=3, blob=7)),
 "value": dict(harness="h_value.cpp", models_sym=M, entries=["h_value_eq", "h_value_ops", "h_value_read"], thorough_params=dict(steps=4)),
 "hex": dict(harness="h_text.cpp", models_sym=M, entries=["h_base64", "h_base64_long", "h_hex", "h_unhex"], thorough_params=dict(b64=8, hex=5)),
 "text": dict(harness="h_text.cpp", models_sym=M, entries=["h_prefix", "h_replace", "h_lower", "h_names", "h_layer", "h_tmp", "h_number", "h_files"], thorough_params=dict(str=6, rstr=5)),
 "schema": dict(harness="h_schema.cpp", models_sym=M, entries=["h_schema_known", "h_schema_any", "h_schema_geom", "h_schema_back"], thorough_params=dict(type=9)),
 "schemaeq": dict(harness="h_schema.cpp", models_sym=M, entries=["h_schema_eq"]),
 "log": dict(harness="h_log.cpp", models_sym=M, entries=["h_log", "h_log_api", "h_log_env", "h_log_envtext"], thorough_params=dict(steps=6)),
 "rebase": dict(harness="h_rebase.cpp", models_sym=M, entries=["h_rebase_row", "h_rebase_types", "h_rebase_file", "h_rebase_conf", "h_rebase_gpkg", "h_rebase_tables", "h_rebase_empty", "h_rebase_wide", "h_rebase_big", "h_rebase_many"], quick_time=120),
 "diff": dict(harness="h_diff.cpp", models_sym=MDB, entries=["h_diff_geom", "h_diff_rows", "h_diff_types", "h_diff_generated", "h_diff_keys", "h_diff_tables", "h_diff_name", "h_diff_bigint", "h_diff_wide", "h_diff_big", "h_diff_many", "h_diff_manytables"]),
 "apply": dict(redirect=NOJSON, harness="h_apply.cpp", models_sym=MDB, entries=["h_apply_geom", "h_apply_rows", "h_apply_types", "h_apply_keys", "h_apply_wide", "h_apply_big", "h_apply_many", "h_apply_manytables"]),
 "applybad": dict(redirect=NOJSON, harness="h_apply.cpp", models_sym=MDB, entries=["h_apply_bytes", "h_apply_constraints", "h_apply_conflicts", "h_apply_manyconflicts", "h_apply_tables"], thorough_params=dict(conflicts=4)),
 "applytrig": dict(redirect=NOJSON, harness="h_apply.cpp", models_sym=MDB, entries=["h_apply_geom", "h_apply_triggers"]),
 "faultdb": dict(redirect=NOJSON, wrap=["fault.h"], models=["fault.cpp"], harness="h_faultdb.cpp", models_sym=MDB, entries=["h_fault_apply"]),
 "crashdb": dict(redirect=NOJSON, wrap=["fault.h"], models=["fault.cpp"], harness="h_faultdb.cpp", models_sym=MDB, entries=["h_crash_apply"]),
 "crashrebase": dict(redirect=NOJSON, wrap=["fault.h"], models=["fault.cpp"], harness="h_faultdb.cpp", models_sym=MDB, entries=["h_crash_rebase"]),
 "faultout": dict(redirect=NOJSON, wrap=["fault.h"], models=["fault.cpp"], harness="h_faultdb.cpp", models_sym=MDB, entries=["h_fault_create", "h_fault_dump", "h_fault_concat", "h_fault_rebase"]),
 "faultcreate": dict(redirect=NOJSON, wrap=["fault.h"], models=["fault.cpp"], harness="h_faultdb.cpp", models_sym=MDB, entries=["h_fault_create"]),
 "faultdump": dict(redirect=NOJSON, wrap=["fault.h"], models=["fault.cpp"], harness="h_faultdb.cpp", models_sym=MDB, entries=["h_fault_dump"]),
 "faultconcat": dict(redirect=NOJSON, wrap=["fault.h"], models=["fault.cpp"], harness="h_faultdb.cpp", models_sym=MDB, entries=["h_fault_concat"]),
 "faultrebase": dict(redirect=NOJSON, wrap=["fault.h"], models=["fault.cpp"], harness="h_faultdb.cpp", models_sym=MDB, entries=["h_fault_rebase"]),
 "faultrebasable": dict(redirect=NOJSON, wrap=["fault.h"], models=["fault.cpp"], harness="h_faultdb.cpp", models_sym=MDB, entries=["h_fault_rebasable"]),
 "merge": dict(redirect=NOJSON2, harness="h_merge.cpp", models_sym=MDB, entries=["h_merge_rows", "h_merge_types", "h_merge_inserts", "h_merge_tables", "h_merge_schema", "h_merge_many", "h_merge_big", "h_merge_keys", "h_rebased_keys", "h_merge_constraint"], thorough_params=dict(rows=2)),
 "rounds": dict(redirect=NOJSON2, harness="h_sync.cpp", models_sym=MDB, entries=["h_rounds_one", "h_rounds_two", "h_rounds_types"], quick_time=60, thorough_params=dict(rounds=3, rows=2)),
 "rebasable": dict(redirect=NOJSON2, harness="h_merge.cpp", models_sym=MDB, entries=["h_rebasable_fk", "h_rebasable_trigger", "h_rebasable_triggername", "h_rebasable_tablename"]),
 "concat": dict(redirect=NOJSON2, harness="h_merge.cpp", models_sym=MDB, entries=["h_concat_rows", "h_concat_tables", "h_concat_bad", "h_concat_many", "h_concat_big"]),
 "schemadb": dict(redirect=NOJSON, harness="h_dbmisc.cpp", models_sym=MDB, entries=["h_schema_tables", "h_schema_internal", "h_schema_gpkg", "h_schema_letters", "h_schema_srs"]),
 "names": dict(redirect=NOJSON, harness="h_dbmisc.cpp", models_sym=MDB, entries=["h_name_table", "h_name_near", "h_name_column", "h_name_all", "h_name_trigger", "h_name_unknown", "h_name_file"]),
 "dump": dict(redirect=NOJSON, harness="h_dbmisc.cpp", models_sym=MDB, entries=["h_dump", "h_dump_many", "h_copy"]),
 "args": dict(harness="h_io.cpp", models_sym=MDB, entries=["h_bad_args", "h_good_args"]),
 "out": dict(harness="h_io.cpp", models_sym=MDB, entries=["h_out_create", "h_out_dump", "h_out_invert", "h_out_json", "h_out_rebase", "h_out_copyside", "h_out_concat", "h_out_large", "h_out_full"]),
 "pgapply": dict(PGO, entries=["h_pg_rows", "h_pg_types", "h_pg_special", "h_pg_stale", "h_pg_text", "h_pg_textkey", "h_pg_big", "h_pg_many"]),
 "pgnames": dict(PGO, entries=["h_pg_tablename", "h_pg_columnname", "h_pg_keyname", "h_pg_schemaname", "h_pg_diffname"]),
 "pgfault": dict(PGO, entries=["h_pg_fault", "h_pg_commit", "h_pg_connect", "h_pg_bytes", "h_pg_misfit"]),
 "pgseq": dict(PGO, entries=["h_pg_seq", "h_pg_seqlimits"]),
 "pgdiff": dict(PGO, harness="h_pgread.cpp", entries=["h_pgd_rows", "h_pgd_types", "h_pgd_keys", "h_pgd_tables", "h_pgd_indexes", "h_pgd_schema", "h_pgd_fault", "h_pgd_cells", "h_pgd_many", "h_pgd_big"]),
 "pggeom": dict(PGO, harness="h_pgread.cpp", entries=["h_pgd_badgeom", "h_pgg_write", "h_pgg_roundtrip"], thorough_params=dict(pgwkb=3, pgwkb2=2, pglens=11)),
 "proc": dict(redirect=NOJSON2, harness="h_proc.cpp", models_sym=MDB + ["proc_sym.cpp"], models_nat=["proc_nat.cpp"], entries=["h_tmp_processes", "h_tmp_interleaved", "h_tmp_threads", "h_tmp_rand"], thorough_params=dict(moments=12, pidbits=15, pidmin=1, pidmax=32767)),
 "tool": dict(harness="h_tool.cpp", only={"geodiffinfo.cpp": ["-Dmain=gs_tool_main"]}, entries=["h_tool_modes", "h_tool_unknown", "h_tool_none", "h_tool_version"], thorough_params=dict(arglen=4, modelen=30)),
 "pgmerge": dict(PGO, redirect=NOJSON2, harness="h_pgsync.cpp", entries=["h_pgm_rows", "h_pgm_inserts", "h_pgm_types", "h_pgm_tables", "h_pgm_fault"]),
 "pgsync": dict(PGO, redirect=NOJSON2, harness="h_pgsync.cpp", entries=["h_sync_topg", "h_sync_tosqlite", "h_sync_both"]),
 "pgcopy": dict(PGO, harness="h_pgread.cpp", entries=["h_pgc_tosqlite", "h_pgc_plain", "h_pgc_topg", "h_pgc_fault", "h_pgc_dump"]),
 "rebfile": dict(harness="h_rebase.cpp", models_sym=M, entries=["h_rebase_file", "h_rebase_conf"], quick_time=120),
 "rebins": dict(harness="h_rebase.cpp", models_sym=M, entries=["h_rebase_insert", "h_rebase_chain"], thorough_params=dict(theirs=3, ours=3, chaint=2, chaino=4), quick_time=120, thorough_time=800),
}
CHECKS = {
 "C01": dict(jobs=["codec"]),
 "C02": dict(jobs=["reader", "count"]),
 "C03": dict(jobs=["codec", "varint"]),
 "C04": dict(jobs=["changes"]),
 "C06": dict(jobs=["diff", "faultcreate"]),
 "C07": dict(jobs=["diff", "faultcreate"]),
 "C10": dict(jobs=["diff"]),
 "C08": dict(jobs=["applybad", "faultdb", "applytrig", "crashdb"]),
 "C09": dict(jobs=["apply", "applybad"]),
 "C11": dict(jobs=["applytrig", "faultdb", "crashdb"]),
 "C05": dict(jobs=["value"]),
 "C13": dict(jobs=["rebase", "rebins"]),
 "C14": dict(jobs=["rebase", "rebins"]),
 "C15": dict(jobs=["rebase"]),
 "C16": dict(jobs=["merge", "crashrebase", "faultrebase"]),
 "C17": dict(jobs=["concat", "faultconcat"]),
 "C12": dict(jobs=["schemadb", "schemaeq"]),
 "C32": dict(jobs=["dump", "pgcopy", "faultdump"]),
 "C33": dict(jobs=["names"]),
 "C18": dict(jobs=["args", "faultout", "faultdb"]),
 "C20": dict(jobs=["out", "faultout"]),
 "C21": dict(jobs=["args", "out", "diff", "merge", "faultout", "concat", "dump"]),
 "C19": dict(jobs=["changes", "count"]),
 "C22": dict(jobs=["json", "rebfile"]),
 "C23": dict(jobs=["changes"]),
 "C25": dict(jobs=["pgapply", "pgnames"]),
 "C26": dict(jobs=["pgfault", "pgapply"]),
 "C27": dict(jobs=["pgdiff"]),
 "C28": dict(jobs=["pggeom"]),
 "C29": dict(jobs=["pgseq"]),
 "C24": dict(jobs=["hex"]),
 "C30": dict(jobs=["schema"]),
 "C31": dict(jobs=["log"]),
 "C34": dict(jobs=["text"]),
 "C35": dict(jobs=["proc"]),
 "C38": dict(jobs=["rebasable", "faultrebasable"]),
 "C39": dict(jobs=["pgmerge"]),
 "C40": dict(jobs=["pgsync"]),
 "C41": dict(jobs=["rounds"]),
 "C37": dict(jobs=["tool"]),
 "C36": dict(py="bind", technique="symbolic execution of the real Python binding with Z3, every path replayed with real ctypes", note="The binding's methods run with symbolic integers and texts (every C int, every text without NUL); its branches are decided by Z3 on all paths. Trusted: CPython, ctypes (a stand-in records calls symbolically; each path's values are also run through real ctypes and a generated C library)."),
}
COMMON_ASSUMPTIONS = []

NOT_APPLICABLE = {}
