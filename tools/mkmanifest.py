"""Writes MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))

import checks  # noqa: E402
import checks_more  # noqa: E402,F401

T = "deterministic simulation of the whole program (real code, simulated OS, memory, clock and model); seeded search over "
TECH = {
    "C01": "failing opens, writes, closes, full disks and closed standard output",
    "C02": "unreadable inputs and failing reads",
    "C03": "paths, directory states, failing mkdirs and racing processes",
    "C04": "crash points, then the same command again on the surviving disk",
    "C05": "short, interrupted and delayed transfers, against the undisturbed run",
    "C06": "heap layouts, residual memory, clocks, environments, against the plain run",
    "C07": "histories of documents in one process, against fresh processes",
    "C08": "damaged documents and corrupted reads, with and without address sanitizer",
    "C09": "damaged pages and fonts of documents with known words",
    "C10": "failing allocations, against the undisturbed run",
    "C11": "failures of the model party and its files",
    "C12": "answers of the model party, histories and role filters, against a reference",
    "C13": "delays in pipeline steps, clock jumps and speeds, against the simulator's record",
    "C14": "observation options (and the delays and allocations they cause), against the bare run",
    "C15": "failures while the visualization is produced and written",
    "C16": "documents, skipped steps, environments and faults, with conservation invariants and a reference serializer",
    "C17": "interleavings and kills of concurrent runs, against each run alone",
    "C18": "combinations of options, documents without text and missing resources, against invariants of a normal end",
}

LIMITS = {
    "C09": " Damage that merely describes other glyphs of a possible size is excluded.",
    "C08": " Crashes whose innermost frame is the Poppler library's are not counted.",
}

NA = {
    "N01": "A pure function of the page layout: no schedule, fault, clock or party takes part, so a simulator adds "
           "nothing to a test with that page; what is right is a judgement about layouts.",
    "N02": "A pure function of the words of the document; no nondeterminism or fault takes part.",
    "N03": "A pure function of the font encoding; no nondeterminism or fault takes part.",
    "N04": "A pure function of the character boxes; no nondeterminism or fault takes part.",
    "N05": "The quality of a trained model (TensorFlow and the model are not here); the simulator replaces the model "
           "by a party that answers what the seed says.",
    "N06": "A pure function of the command line; its text is judged by reading it.",
    "N07": "The serializer is not reachable from the program at this commit (the factory has no case for it) and is a "
           "pure function of the text.",
    "N08": "Needs package builds, containers and a network.",
}


def main():
    C = checks.CHECKS
    checks_ = []
    for k in sorted(C):
        c = C[k]
        checks_.append({
            "property": k,
            "quick_cmd": "python3 check.py %s quick" % k,
            "thorough_cmd": "python3 check.py %s thorough" % k,
            "technique": T + TECH[k],
            "level": c.level,
            "level_note": c.rule + LIMITS.get(k, "") + " Sampling, not exhaustive: a pass covers the runs "
                          "counted in the evidence."})
    props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
    na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in C]
    m = {"version": 1, "setup_cmd": "python3 lib/build.py plain asan", "checks": checks_, "not_applicable": na,
         "notes": "No hooks in /repo: every seam is a libc, libstdc++ or linker boundary (see DESIGN.md)."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
