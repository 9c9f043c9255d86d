"""Which scenarios decide which property."""
# property -> list of (binary, scenario, weight)
CHECKS = {
    "C01": [("pool", "pool_once", 2)],
    "C02": [("pool", "pool_progress", 2), ("pool", "pool_handover", 2), ("pool", "pool_once", 1)],
    "C03": [("pool", "pool_fail", 1)],
    "C04": [("pool", "pool_multi", 1)],
    "C05": [("vamana", "vamana_together", 2), ("vamana", "vamana_build", 2),
            ("vamana", "vamana_links", 1), ("dynamic", "dyn_history", 1),
            ("orch", "orch_static", 1), ("orch_c", "orch_dynamic", 1)],
    "C06": [("shared", "shared_values", 2), ("shared", "shared_spinlock", 1),
            ("shared", "shared_logger", 2), ("shared", "shared_parameters", 2)],
    "C07": [("vamana", "vamana_search", 3), ("vamana", "vamana_together", 1),
            ("vamana", "vamana_wide", 1), ("orch", "orch_static", 1)],
    "C08": [("vamana", "vamana_build", 1), ("vamana", "vamana_links", 1)],
    "C09": [("dynamic", "dyn_history", 3), ("dynamic_b", "dyn_history_ip", 2),
            ("dynamic_b", "dyn_history_i8", 2), ("dynamic", "dyn_wide", 1),
            ("orch_c", "orch_dynamic", 1)],
    "C10": [("dynamic", "dyn_faults", 1)],
    "C11": [("flat", "flat_exact", 2), ("flat", "flat_shared_pool", 1),
            ("orch_b", "orch_flat", 1)],
    "C12": [("inverted", "inv_cluster", 1), ("inverted", "inv_search", 2),
            ("inverted_b", "inv_cluster_ip", 1), ("inverted_b", "inv_search_ip", 2),
            ("inverted", "inv_random", 1), ("orch_b", "orch_inverted", 1)],
    "C13": [("io_data", "io_round_trip", 2), ("io_index", "io_index_round_trip", 2),
            ("io_dynamic", "io_dynamic_round_trip", 2), ("io_dynamic", "io_dynamic_continued", 2),
            ("io_inverted", "io_inverted_round_trip", 2), ("orch", "orch_static", 1),
            ("orch_b", "orch_inverted", 1), ("orch_c", "orch_dynamic", 1)],
    "C14": [("io_data", "io_failing_save", 2), ("io_index", "io_index_failing_save", 1),
            ("io_dynamic", "io_dynamic_failing_save", 2),
            ("io_inverted", "io_inverted_failing_save", 1)],
    "C15": [("io_data", "io_damaged_load", 2), ("io_index", "io_index_damaged_load", 1),
            ("io_dynamic", "io_dynamic_damaged_load", 2),
            ("io_inverted", "io_inverted_damaged_load", 1)],
    "C16": [("io_data", "io_crashed_save", 2), ("io_index", "io_index_crashed_save", 1),
            ("io_dynamic", "io_dynamic_crashed_save", 2),
            ("io_inverted", "io_inverted_crashed_save", 1)],
    "C17": [("mem_data", "mem_data", 2), ("mem_data", "mem_mappings", 1),
            ("mem_data", "mem_files", 1), ("mem_index", "mem_index", 2),
            ("mem_more", "mem_more", 1), ("io_data", "io_starved", 1),
            ("io_index", "io_index_starved", 1), ("io_dynamic", "io_dynamic_starved", 1),
            ("io_inverted", "io_inverted_starved", 1)],
    "C18": [("calib", "calib_static", 1), ("calib", "calib_split", 1),
            ("calib", "calib_dynamic", 1), ("calib", "calib_model", 1),
            ("orch", "orch_calibrate", 1), ("bench_b", "bench_calibrate_inverted", 1),
            ("bench_b", "bench_calibrate_vamana", 1)],
    "C19": [("names", "names_identifiers", 1), ("names", "names_context", 1),
            ("names", "names_find", 1), ("names", "names_saved_together", 1)],
    "C20": [("reduce", "reduce_medoid", 1), ("reduce", "reduce_kmeans", 1),
            ("reduce", "reduce_compact", 1)],
    "C23": [("lvq", "lvq_compress", 1), ("lvq", "lvq_round_trip", 1),
            ("lvq", "lvq_failing_save", 1), ("lvq", "lvq_damaged_load", 1),
            ("lvq", "lvq_crashed_save", 1), ("lvq", "lvq_memory", 1),
            ("lvq_index", "lvq_search", 2), ("lvq_index", "lvq_build", 1),
            ("lvq_index", "lvq_updates", 2), ("lvq_index", "lvq_scarce", 2),
            ("lvq_inverted", "lvq_clusters", 1),
            ("lean", "lean_reduce", 1), ("lean", "lean_search", 2), ("lean", "lean_build", 1),
            ("lean", "lean_round_trip", 1), ("lean", "lean_failing_save", 1),
            ("lean", "lean_damaged_load", 1), ("lean", "lean_crashed_save", 1),
            ("lean", "lean_memory", 1)],
    "C26": [("bench", "bench_results", 1)],
    "C27": [("bench", "bench_reference", 2), ("bench", "bench_reference_ip", 1),
            ("bench", "bench_dynamic", 1)],
    "C28": [("tools", "tools_round_trip", 2), ("tools", "tools_full_disk", 1),
            ("tools", "tools_crashed", 1), ("tools", "tools_bad_source", 1),
            ("tools", "tools_old_parameters", 1), ("tools", "tools_recall", 1)],
    "C29": [("timing", "timers", 1)],
}
# Properties whose scenarios inject faults by enumeration of points.
LEVEL = {}
BUDGET_QUICK = {"C23": 45}   # seconds of exploration, default below
DEFAULT_QUICK = 30
DEFAULT_THOROUGH = 900
