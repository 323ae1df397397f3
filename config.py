SAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
VARIANTS = {
    "asan": dict(cflags=[], asan=":malloc_fill_byte=190:max_malloc_fill_size=1000000"),
    "pat": dict(rot=3, cflags=["-ftrivial-auto-var-init=pattern"], asan=":malloc_fill_byte=255:max_malloc_fill_size=1000000"),
    "zero": dict(rot=5, cflags=["-ftrivial-auto-var-init=zero"], asan=":malloc_fill_byte=0:max_malloc_fill_size=1000000:quarantine_size_mb=0:thread_local_quarantine_size_kb=0"),
}
CHECKS = "tables header keywords visrefmap unique_targets targets_present arrname elements_present corr_present flagging t3amp waveorder time flux".split()
PROPS = {
    "C01": dict(quick=16000, thorough=100000, need=["files_roundtripped", "values_compared"]),
    "C02": dict(quick=20000, thorough=150000, need=["files_decoded", "cells_compared"]),
    "C03": dict(quick=24000, thorough=150000, need=["files_read", "foreign_hdus"]),
    "C04": dict(quick=12000, thorough=150000, need=["v1_files_read", "upgraded_by_write", "tables_upgraded", "merged_v1"]),
    "C05": dict(quick=8000, thorough=200000, secs=30, variants=["asan", "pat"], need=["read_ok", "read_errors", "filtered", "merged", "written", "write_errors", "points_iterated", "single_tables_read"]),
    "C06": dict(quick=4000, thorough=50000, secs=20, need=["full_disk_points", "unwritable_paths", "existing_files_tried", "unreadable_inputs", "truncated_read_error", "truncated_read_ok"]),
    "C07": dict(quick=12000, thorough=80000, need=["lookups_found", "lookups_missing", "elements_looked_up", "targets_looked_up"]),
    "C08": dict(quick=200000, thorough=3000000, need=["class_one", "class_two", "class_neither", "atomic_yes", "atomic_no", "data_counted", "summaries"]),
    "C09": dict(quick=160000, thorough=2000000, need=["filters_applied", "records_out", "nonempty_outputs", "empty_outputs", "inspol_tables_out"]),
    "C10": dict(quick=120000, thorough=1500000, need=["references_followed", "targets_selected", "input_freed_first", "output_freed_first", "nonempty_outputs"]),
    "C11": dict(quick=160000, thorough=2000000, need=["points_visited", "ends_seen"]),
    "C12": dict(quick=120000, thorough=1000000, need=["data_matched", "idempotence_checked", "default_records_kept"]),
    "C13": dict(quick=60000, thorough=400000, need=["merges", "records_compared", "v1_tables_merged", "renamed_references", "storage_blocks_compared"]),
    "C14": dict(quick=80000, thorough=400000, need=["references_followed", "inspol_references_followed", "stations_followed", "targets_followed", "tables_shared", "tables_renamed"]),
    "C15": dict(quick=80000, thorough=400000, need=["repeated_targets", "over_99_targets", "category_lists", "keywords_multiple", "keywords_common", "keywords_unspecified", "dates_compared"]),
    "C16": dict(quick=150000, thorough=800000, need=[p + n for p in ("breached_", "clean_") for n in CHECKS]),
    "C17": dict(quick=80000, thorough=600000, need=["reports", "empty_reports", "locations_matched", "truncated_reports", "mixed_descriptions", "printed_reports"]),
    "C18": dict(quick=6000, thorough=100000, need=["blocks_tracked", "copies", "tables_allocated", "damaged_failed", "damaged_read", "failed_writes", "failed_reads", "merges", "filters", "check_results", "live_blocks_compared"]),
    "C19": dict(quick=10000, thorough=50000, need=["pending_calls", "clean_successes", "failures_seen"]),
    "C20": dict(quick=3000, thorough=60000, variants=["asan", "pat", "zero"], need=["results_compared", "files_compared", "datasets_compared", "failed_reads_compared", "in_place_results_compared"]),
    "C21": dict(quick=10000, thorough=50000, need=["next_tables_read", "end_of_file_seen", "named_tables_read", "named_missing", "headers_read", "targets_read"]),
    "C22": dict(quick=16000, thorough=200000, need=["days_converted", "dates_derived", "dates_merged"]),
    "C23": dict(quick=3000, thorough=60000, need=["tool_runs", "breached_files_checked", "clean_files_checked", "filter_outputs", "merge_outputs", "upgrade_outputs", "overwritten_on_request", "failures_reported", "outputs_compared"]),
    "C24": dict(quick=240000, thorough=2000000, need=["options_given", "invalid_rejected", "defaults_checked", "descriptions", "user_filters_applied"]),
    "C25": dict(quick=16000, thorough=100000, need=["bad_tables", "mandatory_rejected"]),
    "C26": dict(quick=4000, thorough=50000, need=["intact_files", "corruptions_warned"]),
    "C28": dict(quick=15000, thorough=80000, need=["tables_written", "headers_written", "headers_after_tables", "tables_read_back", "appended_to_existing"]),
    "C30": dict(quick=16000, thorough=100000, need=["failures_reported", "failures_hushed", "ends_of_file_silent", "read_warnings", "width_warnings", "write_warnings", "intact_files_read", "single_reads", "single_writes", "filter_warnings", "name_warnings"]),
    "C29": dict(quick=6000, thorough=60000, need=["failures_injected", "ended_with_message"]),
    "C31": dict(quick=6000, thorough=60000, need=["texts_converted", "cells_compared", "files_listed", "own_outputs_listed", "missing_references", "failures_reported"]),
}
