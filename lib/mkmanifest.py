import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "seq": "Every recorded history of the real crate (random and spec-walked call sequences with colliding hashes, tiny shards, tiny compaction thresholds) is accepted by TLC as a behaviour of the TLA+ specification; bounded to the generated scripts. Trusts TLC, the recording harness and the parking_lot shim.",
 "conc": "Histories of the real crate under a deterministic seeded scheduler (random and PCT priorities over locks, system calls, threads) are linearized by TLC against the TLA+ specification; bounded to explored schedules, sequentially consistent memory.",
 "crash": "The directory is snapshotted at file and mapped-memory mutations of recorded runs; each image is reopened by the real crate and TLC judges its contents against the crash states of the TLA+ specification. Process crash model (no reordering of stores); bounded to the generated scripts and sampled points.",
}
KIND = dict(C01="seq", C02="conc", C03="seq", C04="crash", C05="crash", C06="crash", C07="seq", C08="conc", C09="seq", C10="conc", C11="crash", C12="seq", C13="conc", C14="crash", C15="seq", C16="seq", C17="seq", C18="conc", C19="conc", C20="seq", C21="seq", C22="seq", C23="conc", C24="conc", C25="seq", C26="seq")
EXTRA = {
 "C21": " Second opens are tried from the same process, from other processes, through aliases of the path, while the owner is being dropped and after the owner died.",
 "C22": " Every kind of damage to each file of small directories, with and without clearing requested.",
 "C23": " Deadlock is decided by the scheduler (no thread can run), livelock by a step budget. The lock programs of recorded calls are set side by side in LockProgs.tla, cycles are explored by TLC, and a predicted deadlock is only reported once the real code hangs in it.",
 "C24": " A directory image is rebuilt from data-synced file contents only and reopened after flush returns.",
 "C26": " System calls of the store are made to fail at chosen points, those of one thread among several and those of the background compaction included.",
}
def design(p):
    mods = sorted({m for m, _, _ in plan.SPECS.get(p, [])})
    return f" The design specification {', '.join(mods)} is checked exhaustively with TLC." if mods else ""
checks = []
for i in range(1, 27):
    p = f"C{i:02d}"
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p}",
        technique="TLA+ specification checked with TLC; recorded executions of the real code validated against it (trace validation)",
        level="model_checking", level_note=NOTE[KIND[p]] + EXTRA.get(p, "") + design(p)))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[],
               notes="No hooks in /repo: the harness interposes libc calls and replaces parking_lot through [patch] in its own crate; known defects and repairs are listed in known_findings.txt."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
