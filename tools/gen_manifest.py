#!/usr/bin/env python3
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "sim"))
from props import PROPS
NOTES = {
 "P01": "Seeded search over random histories on the real time-travel code against a map model; sampled, not exhaustive.",
 "P02": "Seeded search; every can_undo/can_redo answer and every destination compared with a list-and-cursor model after each operation.",
 "P03": "Seeded search with collections placed anywhere; reachability model; AddressSanitizer catches uses of removed timepoints.",
 "P04": "Seeded search over whole sessions (real parser, domain, application layer); snapshots of everything observable per timepoint; dangling objects caught by name and by AddressSanitizer.",
 "P05": "Seeded search; each reached project is compared with a pristine process that only executes the effective steps and edits.",
 "P06": "Seeded search; step model with bounded progress; single stepping compared with running at once.",
 "P07": "Seeded search over several openings per process, including failing ones; compared with a pristine process.",
 "P08": "Seeded search over damaged documents and failing reads on a simulated disk; AddressSanitizer, UBSan and processor limits decide crash and hang.",
 "P09": "Seeded search over I/O faults on a simulated disk; the saved file is checked against the mesh and the input by an independent reader.",
 "P10": "Seeded search over crash points and failures inside a save on a simulated disk; crash images compared with old and new content. Process crash model: completed system calls survive.",
 "P11": "Seeded search over command lines and file systems through the real main(), on a simulated disk.",
 "P12": "Seeded search over chains of program lives on a simulated disk.",
 "P13": "Seeded search over listener and job histories on the real logger, progress and terminal code, with a failing or ending terminal.",
 "P14": "Each run executed under several simulated memory layouts and junk fills; outputs must be identical.",
 "P20": "Seeded search over sessions; each finished mesh is judged from the policies in effect and the lines asked for by the document.",
 "P21": "Seeded search over sessions; each finished mesh is judged from the intervals, zones and parameters in effect.",
 "P23": "Seeded search over sessions; line policies are judged from the edges, angles and parameters in effect.",
 "P24": "Seeded search over sessions; zones, angles and intervals are judged from the polygons and parameters in effect.",
 "P22": "Seeded search over sessions; edges are judged from the polygons and materials in effect.",
 "P26": "Seeded search over user actions on the real main window; what is painted, told and shown is recorded and judged from the project.",
 "P25": "Seeded search over sessions; polygons, fixed lines and warnings are judged from the document by an independent reader.",
 "P27": "Seeded search over sessions; the diagram and the report are read back by an independent reader and compared with the project.",
 "P15": "Seeded search over user actions on the real main window, offscreen, with simulated dialogs and disk.",
}
NA = {
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py %s" % i,
            thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
            technique="deterministic simulation with fault injection: " + PROPS[i].get("technique", "seeded search over histories"),
            level="exploration", level_note=NOTES[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Not covered yet; see DESIGN.md.")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    hooks=dict(guard="none", enable="No hooks in /repo: the simulator compiles /repo's sources as they are and takes over malloc-level and libc I/O symbols at link time.", source_commits=[]),
    notes="check.py PROP --replay FILE re-executes a reported violation.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
