#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
C = {
"C01": ("black-box monitoring of real searches (configuration matrix and planted searches); exact oracle on every output line", "exploration"),
"C02": ("black-box monitoring; results compared with an independent exhaustive enumeration and with planted genuine sequences up to n=31", "exploration"),
"C03": ("black-box monitoring; class identifiers of an independent reference model on every output list", "exploration"),
"C04": ("differential monitoring of configurations, staging, distributed and concurrent generation", "exploration"),
"C05": ("in-process monitors on canonical forms and reductions under random group elements; reference model decides equivalence", "exploration"),
"C06": ("in-process monitors on operations and class generation; reference orbits", "exploration"),
"C07": ("in-process round-trip monitors over quadruples and strings; comparison of the written file pairs", "exploration"),
"C08": ("in-process monitors with integer definitions on generated near misses; monitored verify command", "exploration"),
"C09": ("monitoring of pair files of real and planted pair generation; exact (integer and interval) recomputation of every key", "exploration"),
"C10": ("in-process and file monitors with independent recomputation of rowsums and candidates", "exploration"),
"C11": ("black-box and in-process monitoring; independent Hadamard equivalence decision", "exploration"),
"C12": ("black-box and in-process monitoring; independent quaternion matrix computation", "exploration"),
"C13": ("fault injection at every file operation (preloaded injector, size limits, full devices, damaged inputs); output comparison monitor", "fault_enumeration"),
"C14": ("fault injection into every stage of the scripts; monitor over the recorded stage trace, exit status and files", "fault_enumeration"),
"C15": ("trace monitor over histories of script calls; file tree snapshots before and after every call", "exploration"),
"C16": ("crash injection at file operations and times; comparison of redone runs with undisturbed ones", "fault_enumeration"),
"C17": ("AddressSanitizer, ThreadSanitizer, valgrind memcheck, and overflow and assertion checks under the workloads", "exploration"),
"C18": ("stress over thread counts and processor bindings; outputs compared with the reference", "exploration"),
"C19": ("in-process monitors; exact recomputation", "exploration"),
"C20": ("in-process monitors; exact recomputation of operators", "exploration"),
"C21": ("black-box monitoring of the finders' output against a reference search", "exploration"),
"C22": ("trace monitor over histories of computations; printed numbers compared with the files", "exploration"),
"C23": ("black-box monitoring of searches; class comparison with the reference model and with QT searches", "exploration"),
"C24": ("in-process monitors on correlations, spectra, filters and the matching table; exact recomputation", "exploration"),
"C25": ("in-process monitors evaluating the generated systems on every or on genuine and nearly genuine assignments; monitored equation files", "exploration"),
"C26": ("stress: computations run at once under injected delays; comparison monitor against the same computation run alone", "exploration"),
"C27": ("monitoring of script and command calls: recorded sort calls, files, keys and statuses against the options given", "exploration"),
}
NOTE = {
"C01": "every line of every list of the executed configurations is judged exactly; lengths beyond the reach of a full search are reached by planted candidate directories. Trusts the reference model in oracle/.",
"C02": "exhaustive comparison for ws n<=20, qts n<=11, wts n<=13 (quick) and no loss of planted sequences for 2..31; nothing is claimed for full searches at larger n.",
"C13": "each file operation of each command is failed once per kind of fault in small instances; assumes the libc calls of the injector are those the program uses (counted).",
"C17": "what the sanitizers see on the executed workloads; races on unexecuted paths and uninitialised reads outside the valgrind runs are not seen.",
"C18": "schedules are sampled (thread counts 1..32, 1..8 processors, injected contention), not enumerated.",
}
DEF = "holds for everything executed in the run (the evidence file counts it); random choices derive from VERIF_SEED. Trusts the reference model in oracle/ and the workload generators."
m = dict(version=1, setup_cmd="bin/setup",
         hooks=dict(guard="cargo feature `verif` of the crate rust", enable="a generated crate in build/harness compiles rust/src/main.rs with --features verif and VERIF_PROBE_DIR=/verif/harness/probe",
                    source_commits=["93008377f77200ae5615ca96369040a539307ae5"]),
         checks=[dict(property=p, quick_cmd=f"bin/check {p}", thorough_cmd=f"bin/check {p}", evidence_file=f"evidence/{p}.json", technique=t, level=l, level_note=NOTE.get(p, DEF)) for p, (t, l) in C.items()],
         not_applicable=[], notes="VERIF_TIER selects quick or thorough; VERIF_SEED seeds every random choice.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1); open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
