"""Writes MANIFEST.json from the table below and the check modules which exist."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
T = "property-based testing (Hypothesis), "
TABLE = {
    "C01": (T + "model and git differential over generated stores", "exploration", "Randomised search with a model, hashlib and git as oracles; not a proof. Trusts git 2.43, zlib, hashlib."),
    "C02": (T + "enumeration of crash points and failing file-system calls of generated operations", "fault_enumeration", "Every file-system call of each generated operation is crashed and failed in turn; process crashes only, no power loss (gitdb does not fsync)."),
    "C03": (T + "model-based read histories over generated zlib encodings", "exploration", "Randomised search against a byte-slice model."),
    "C04": (T + "packs built from generated delta forests, and by git, against their known contents", "exploration", "Randomised search; the builder's contents are cross-checked with git."),
    "C05": (T + "reference interpreter over generated and mutated deltas", "exploration", "Randomised search against an independent interpreter."),
    "C06": (T + "generated indices against a sorted model and git show-index", "exploration", "Randomised search; index writer compared byte for byte with an independent one."),
    "C07": (T + "brute-force oracle over generated clustered ids", "exploration", "Randomised search; every prefix length of chosen ids."),
    "C08": (T + "git index-pack and own parser on generated packs", "exploration", "Randomised search with git as oracle."),
    "C09": (T + "corruption of generated packs at generated (small packs: all) positions", "fault_enumeration", "Every byte position of small packs and random ones of larger packs."),
    "C10": (T + "generated packs against the builder's entry table, deterministic work budget", "exploration", "Randomised search; non-termination judged by counted work."),
    "C11": (T + "model-based query histories over generated object distributions", "exploration", "Randomised search against a dictionary model."),
    "C12": (T + "stateful histories of external changes against a fresh database", "exploration", "Randomised search; modification times are set by the harness."),
    "C13": (T + "stateful lock model, crash and fault enumeration, controlled schedules", "exploration", "Histories are random; crash points, failing calls and schedules up to two preemptions are enumerated."),
    "C14": (T + "model-based histories over memory and file databases", "exploration", "Randomised search against a dictionary model and git."),
    "C15": (T + "structure-aware mutation fuzzing with a counted work budget", "exploration", "Randomised mutation; termination judged by counted work."),
    "C16": (T + "metamorphic memory measurements (tracemalloc) and recorded reads", "exploration", "Peaks of Python-level allocations at two sizes; memory maps are not counted."),
    "C17": (T + "descriptor counts over generated histories", "exploration", "Randomised histories; descriptors read from /proc/self/fd."),
    "C18": (T + "controlled interleavings of processes at file-system-call granularity and of threads at line granularity", "exploration", "All schedules with few preemptions of small programs and random longer ones; assumes POSIX atomicity of single calls."),
    "C19": (T + "differential of merged against sequential delta application", "exploration", "Randomised search against an independent interpreter."),
    "C20": (T + "round trips against an independent codec, exhaustive for two-byte beginnings", "exploration", "Random and boundary sizes; the two-byte part is exhaustive."),
    "C21": (T + "write histories over all writers against hashlib and zlib, pipes which take a part, copies from sources of any portions", "exploration", "Randomised search."),
    "C22": (T + "all access paths compared with each other and with the builder's table of generated packs", "exploration", "Randomised search."),
    "C23": (T + "generated files and memory blocks against their bytes", "exploration", "Randomised search; one file of more than 2 GiB."),
    "C24": (T + "snapshots before and after generated query sequences, as owner and as a user who may only read", "exploration", "Randomised search; directory metadata except access times."),
    "C25": (T + "generated histories of three users of one database, with a model of what is stored and whom it belongs to", "exploration", "Randomised search; users change within one process."),
    "C26": (T + "model-based histories of held streams, infos and walks, with files removed and replaced, databases dropped, maps crowded out, and forks", "exploration", "Randomised search against the known contents; files are removed or replaced by renaming, not changed in place."),
    "C27": (T + "enumeration of failing calls to the system, and of shortages of descriptors, in generated queries on generated stores", "fault_enumeration", "Each call a generated query makes fails in turn; answers that something is missing are accepted while calls fail."),
}

checks, na = [], []
for cid in sorted(TABLE):
    tech, level, note = TABLE[cid]
    if os.path.exists(os.path.join(HERE, "vf", "checks", cid.lower() + ".py")):
        checks.append({"property": cid, "quick_cmd": "python3-vt run.py %s --tier quick" % cid,
                       "thorough_cmd": "python3-vt run.py %s --tier thorough" % cid,
                       "evidence_file": "evidence/%s.json" % cid, "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": cid, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "python3-vt -m vf.shimbuild", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Checks import gitdb from /repo's working tree at run time."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
