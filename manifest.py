#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Every assertion of the harness holds for all values of the symbolic inputs within the bounds the evidence file lists; "
        "decided by z3 over the optimised LLVM IR of the crate, compiled afresh from /repo. Trusted: rustc, the executor's semantics "
        "(checked against native runs of solver-chosen paths), z3, the models of file system, hash seeds and clock. Beyond the bounds: nothing is claimed.")
EXTRA = {
    "C07": " The hash itself is decided for every string up to 15 bytes, longer ones (to 129 bytes) with 8 arbitrary bytes at the end or one arbitrary character at any place.",
    "C11": " Hash seeds and schema orders are a finite seeded selection; the values are symbolic.",
}
TECH = "symbolic execution of the crate's LLVM IR (own executor tsym), assertions decided by z3, counterexamples replayed natively"
DONE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"]
NA = {}
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {
        "guard": "cfg(tsfile_verif), cfg(tsfile_verif_small), cfg(tsfile_verif_far), cfg(tsfile_verif_pages)",
        "enable": "RUSTFLAGS='--cfg tsfile_verif' (accessors of internals) or '--cfg tsfile_verif_small' (small page and memory limits), both of them with '--cfg tsfile_verif_far' (a writer at any position of its file), '--cfg tsfile_verif_small' with '--cfg tsfile_verif_pages' (small pages only), set by check.py when it builds the harness variants",
        "source_commits": ["7d6768f", "cce511b", "d9b7287", "2b227f7"],
    },
    "checks": [dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                    technique=TECH, level="model_checking", level_note=NOTE + EXTRA.get(p, "")) for p in DONE],
    "not_applicable": [dict(property=p, reason=r) for p, r in NA.items() if p not in DONE],
}
import subprocess
m["hooks"]["source_commits"] = [subprocess.run(["git", "-C", "/repo", "rev-parse", c], stdout=subprocess.PIPE, check=True).stdout.decode().strip() for c in m["hooks"]["source_commits"]]
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
