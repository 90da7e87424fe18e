#!/usr/bin/env python3
"""writes MANIFEST.json from the checks which exist"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_REPLAY = "TLA+ specification checked with TLC; its transitions replayed on the code"
T_TRACE = "recorded traces validated against it by TLC"
T_SCHED = "schedules of the real threads enumerated"
NOTES = {
    "C01": (T_REPLAY + "; random histories recorded and validated by TLC",
            "Exhaustive for small block layouts and word values (MCSlave), random for large ones. Trusts the harness' framing."),
    "C02": (T_REPLAY + "; random malformed histories recorded and validated by TLC",
            "Exhaustive for small layouts, random for limits and truncations. Over-long requests may be refused or not."),
    "C03": (T_REPLAY + "; random histories of blocks validated by TLC",
            "Every history of blocks over a few names, tables, addresses and sizes is explored; random ones beyond."),
    "C04": ("TLA+ linearizability specification (Lin); " + T_SCHED + " under a deterministic scheduler, histories validated by TLC",
            "All (or evenly sampled) single preemptions between bytecodes of short scenarios, random ones beyond."),
    "C05": (T_REPLAY + "; random and concurrent histories validated by TLC",
            "All histories of 4 operations; random longer ones; single preemptions of concurrent scenarios."),
    "C06": (T_REPLAY + "; concurrent broadcasts validated by TLC against Lin",
            "All histories of 4 operations; random longer ones; single preemptions of concurrent scenarios."),
    "C23": (T_REPLAY + "; random histories over shared memory validated by TLC",
            "Every history of a few blocks over shared tables; random ones beyond."),
}
try:
    import notes
    NOTES.update(notes.NOTES)
except ImportError:
    pass


def main():
    with open(os.path.join(HERE, "properties.jsonl")) as handle:
        props = [json.loads(line)["id"] for line in handle if line.strip()]
    checks, rest = [], []
    for prop in props:
        if os.path.exists(os.path.join(HERE, "checks", prop.lower() + ".py")) and prop in NOTES:
            checks.append({
                "property": prop,
                "quick_cmd": "./check %s quick" % prop,
                "thorough_cmd": "./check %s thorough" % prop,
                "evidence_file": "evidence/%s.json" % prop,
                "technique": NOTES[prop][0],
                "level": "model_checking",
                "level_note": NOTES[prop][1],
            })
        else:
            rest.append({"property": prop, "reason": "its check is not built yet"})
    manifest = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "hooks": {"guard": "none", "enable": "no hooks: the checks import the code of /repo as it is (VERIF_REPO selects another tree)",
                  "source_commits": []},
        "checks": checks,
        "not_applicable": rest,
        "notes": "Specifications in spec/ (TLA+, TLC). DESIGN.md describes how each property is decided.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as handle:
        json.dump(manifest, handle, indent=1)
        handle.write("\n")


main()
