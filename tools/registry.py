#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PB = "dataprofiler/profilers/profile_builder.py"
NUM = "dataprofiler/profilers/numerical_column_stats.py"
PU = "dataprofiler/profilers/profiler_utils.py"
CAT = "dataprofiler/profilers/categorical_column_profile.py"

T = {
    "sim": "deterministic simulation: seeded search over delivery, merge and observation histories of a fleet of real profilers, reference-model oracle",
    "twin": "deterministic simulation: seeded histories run in two simulated worlds (with and without the event), histories compared",
    "fault": "deterministic simulation with fault injection: seeded schedules and faults behind the I/O, pool, clock and network seams",
    "sched": "deterministic simulation: seeded thread scheduler (one runnable thread, pre-emption decided by the seed) with history checks",
}
NOTE = (
    "Seeded random search, not exhaustive: assurance grows with the number of distinct histories in the evidence file. The code under test is the real package from "
    "/repo's working tree; only the seams named in the evidence file are simulated. The oracle is independent code in /verif/sim (or a twin run of the real code)."
)


def P(i, title, statement, over, text, why, files, mech, tech="sim", state=(), observe=(), hook=None, note=""):
    return dict(
        id=i,
        title=title,
        statement=statement,
        quantifier={"over": over, "text": text},
        why_tests_cant=why,
        anchors={
            "files": files,
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
        _tech=tech,
        _note=note,
    )


PROPS = []
exec(open(os.path.join(HERE, "tools", "props_text.py")).read())
PROPS.sort(key=lambda p: p["id"])

NOT_APPLICABLE = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "sim", "props")) if f.startswith("p") and f[1:3].isdigit()}
    na = {x["property"] for x in NOT_APPLICABLE}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            if p["id"] in have or p["id"] in na:
                f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] in have and p["id"] not in na:
            checks.append(
                {
                    "property": p["id"],
                    "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                    "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                    "evidence_file": f"evidence/{p['id']}.json",
                    "technique": T[p["_tech"]],
                    "level": "exploration",
                    "level_note": (p["_note"] + " " if p["_note"] else "") + NOTE,
                }
            )
    m = {
        "version": 1,
        "setup_cmd": "python3 check.py --selftest",
        "hooks": {"guard": "none", "enable": "no hooks were added to /repo: every seam is an existing module-level interface that the simulator replaces in its own process", "source_commits": []},
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "See DESIGN.md. /repo carries fix: commits only, listed in known-findings.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties in the table,", len(checks), "checks,", len(NOT_APPLICABLE), "not applicable")
    missing = sorted(have - {p["id"] for p in PROPS})
    if missing:
        print("no text for", missing)


main()
