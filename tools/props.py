"""Which harness decides which property, and how it is built."""
# kind: seq (address sanitizer, sequential) | plain (no sanitizer) | sched (own thread runtime) | py
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "memcpy", "memmove", "memset")), "-rdynamic", "-ldl"]
PROPS = {
    "C01": dict(harness="h_cell.cpp", kind="seq"),
    "C02": dict(harness="h_ndt.cpp", kind="seq"),
    "C03": dict(harness="h_scan.cpp", kind="seq"),
    "C04": dict(harness="h_constraint.cpp", kind="seq"),
    "C05": dict(harness="h_solver.cpp", kind="seq", libs=["-lceres", "-lglog"]),
    "C06": dict(harness="h_solver_fail.cpp", kind="seq", libs=["-lceres", "-lglog"]),
    "C07": dict(harness="h_kdtree.cpp", kind="seq"),
    "C08": dict(harness="h_motion.cpp", kind="seq"),
    "C09": dict(harness="h_pf_stats.cpp", kind="seq"),
    "C10": dict(harness="h_pf_resample.cpp", kind="seq"),
    "C11": dict(harness="h_match.cpp", kind="seq"),
    "C12": dict(harness="h_matcher_map.cpp", kind="seq"),
    "C13": dict(harness="h_rays.cpp", kind="seq"),
    "C14": dict(harness="h_grid_history.cpp", kind="seq"),
    "C15": dict(harness="h_graph_io.cpp", kind="seq"),
    "C16": dict(harness="h_nearest.cpp", kind="seq"),
    "C19": dict(harness="h_threads.cpp", kind="sched", extra=["mc.cpp", "sched.cpp"], libs=["-lceres", "-lglog"], flags=["-DPROP_C19"], ldflags=WRAP),
    "C20": dict(harness="h_threads.cpp", kind="sched", extra=["mc.cpp", "sched.cpp"], libs=["-lceres", "-lglog"], flags=["-DPROP_C20"], ldflags=WRAP),
    "C21": dict(harness="h_threads.cpp", kind="sched", extra=["mc.cpp", "sched.cpp"], libs=["-lceres", "-lglog"], flags=["-DPROP_C21"], ldflags=WRAP),
    "C17": dict(harness="h_node.cpp", kind="sched", tech="hist", extra=["mc.cpp", "sched.cpp"], libs=["-lceres", "-lglog"], flags=["-DPROP_C17"], ldflags=WRAP),
    "C18": dict(harness="h_node.cpp", kind="sched", tech="hist", extra=["mc.cpp", "sched.cpp"], libs=["-lceres", "-lglog"], flags=["-DPROP_C18"], ldflags=WRAP),
    "C22": dict(harness="h_node.cpp", kind="sched", tech="hist", extra=["mc.cpp", "sched.cpp"], libs=["-lceres", "-lglog"], flags=["-DPROP_C22"], ldflags=WRAP),
    "C23": dict(harness="h_node.cpp", kind="sched", tech="fault", extra=["mc.cpp", "sched.cpp"], libs=["-lceres", "-lglog"], flags=["-DPROP_C23"], ldflags=WRAP),
    "C27": dict(harness="h_localise.cpp", kind="sched", tech="hist", extra=["mc.cpp", "sched.cpp"], libs=["-lceres", "-lglog"], instrument=["ndt_mapper.cpp"], flags=[], ldflags=WRAP),
    "C28": dict(harness="h_config.cpp", kind="sched", tech="hist", extra=["mc.cpp", "sched.cpp"], libs=["-lceres", "-lglog"], instrument=["ndt_mapper.cpp"], flags=[], ldflags=WRAP, whole=["scan_matcher_ndt"]),
    "C30": dict(harness="h_truth.cpp", kind="sched", tech="hist", extra=["mc.cpp", "sched.cpp"], libs=["-lceres", "-lglog"], flags=[], ldflags=WRAP, instrument=["ndt_mapper.cpp"], whole=["scan_matcher_ndt"]),
    "C29": dict(harness="h_node.cpp", kind="sched", tech="hist", extra=["mc.cpp", "sched.cpp"], libs=["-lceres", "-lglog"], instrument=["ndt_mapper.cpp"], flags=["-DPROP_C29"], ldflags=WRAP),
    "C24": dict(harness="h_markers.cpp", kind="seq"),
    "C25": dict(harness="h_conv.cpp", kind="seq"),
    "C26": dict(harness="h_scripts.py", kind="py"),
}
