#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "bounded model checking of the implementation: exhaustive enumeration of %s, each execution replayable, compared with a reference model"
W = {
 "C01": ("shapes, values and extremes' places and histories", "normalise"),
 "C02": ("shapes, block sizes, values and histories", ""),
 "C03": ("file contents, separators, arguments and histories", ""),
 "C04": ("values, separators and save/load histories", ""),
 "C05": ("load/unload/failing histories of a session", ""),
 "C06": ("datasets, thresholds, distances and clock schedules", ""),
 "C07": ("datasets, thresholds and distances", ""),
 "C08": ("sequence pairs and band ratios", ""),
 "C09": ("sequence pairs, ratios and cutoffs", ""),
 "C10": ("sequence pairs, ratios and histories of cached envelopes", ""),
 "C11": ("datasets, groupings (built and loaded), ratios and queries", ""),
 "C12": ("query and series lengths, datasets and queries", ""),
 "C13": ("datasets, thresholds and save/load histories", ""),
 "C14": ("mutations of group files", ""),
 "C15": ("histories and failing operations", ""),
 "C16": ("histories of data changes and groupings", ""),
 "C17": ("I/O fault points (failing reads, writes, opens, closes)", ""),
 "C18": ("command sequences of the real command line", ""),
 "C19": ("session histories under sanitizers and byte accounting", ""),
 "C20": ("histories of sequence objects", ""),
 "C21": ("clock schedules, heap fill patterns and preceding sessions", ""),
 "C22": ("query histories and band ratio changes", ""),
 "C23": ("candidate pairs, triples and arrangements", ""),
 "C24": ("data files, queries, half-widths and cutoffs", ""),
 "C25": ("datasets, operations and histories in the single-precision build", ""),
 "C26": ("requests on every shape and condition of a dataset", ""),
 "C27": ("datasets, groupings and file variants", ""),
}
note = ("Every execution of the driver within its bounds is run on the real library built from the working tree with address and undefined-behaviour "
        "sanitizers; nothing is sampled. Assurance is complete within the stated bounds (see DESIGN.md and the evidence file) and none beyond them. "
        "Trusts the explorer, the reference model in mc/ref.hpp, the compiler and the sanitizers.")
checks = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i, evidence_file="evidence/%s.json" % i,
                       technique=("fault enumeration inside " if i == "C17" else "") + T % W[i][0], level="model_checking", level_note=note))
json.dump(dict(version=1, setup_cmd="python3 -c 'import sys; sys.exit(0)' && g++ --version >/dev/null", checks=checks, not_applicable=[],
    notes="No hooks in /repo: the checks interpose on libc (clock, read, write, malloc) from the driver executable. check.py builds from /repo's working tree into /verif/build (git-ignored)."),
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
