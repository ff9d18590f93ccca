#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design_head.md, the table below, the evidence files, design_tail.md and seeded/."""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(ROOT, "tools")
D = {
"C01": ("closed form (v-min)/(max-min) on the table as loaded; the reported pair is the true extremes; the other dataset, dimensions and name are compared before and after", "needs the extremes at a particular place (odd lengths, first/last cell, huge shapes), special ranges, or a history (normalise, average, normalise)"),
"C02": ("block means computed from the loaded table, with an error bound relative to each block's own values", "any block size from INT_MIN to INT_MAX, the short last block, refused sizes inside histories"),
"C03": ("an independent tokenizer and number grammar; a refused load must leave an unloaded set and no dataset in the session", "every text over a set of pieces, not a sample file; bad tokens at every position, files larger than stream buffers"),
"C04": ("bitwise comparison of every value after save and load", "every exponent, sign and awkward mantissa; every separator byte; files that replaced longer ones"),
"C05": ("a map with lowest-free identifiers, compared through count, info and listing after every operation", "every operation history, every pattern of holes"),
"C06": ("partition of all subsequences of each length, read back from the saved group file and from the group objects", "every small table and threshold; thousands of groups and members; values that are not finite"),
"C07": ("leader clustering in the documented order, exact ties and thresholds included", "thresholds that equal a distance, ties between representatives, many groups"),
"C08": ("explicit enumeration of all warping paths in the band (small), full-matrix dynamic programme (large), closed-form RMS", "every pair of small sequences and ratio; every pair of lengths; magnitudes"),
"C09": ("exact distance from the reference for every cutoff around it (below, equal, above, 0, infinite, NaN-free)", "cutoffs just at the distance; caches left by earlier calls with other ratios and partners"),
"C10": ("window extremes by definition; DTW reference for the bounds", "every half-width in turn on the same object, monotone/peaked sequences that exercise every path of the deque"),
"C11": ("brute force over the groups read from the saved file", "the nearest of many groups or members at every position; queries that are views of the same dataset"),
"C12": ("brute force over all admissible subsequences; the set of lengths from the definition of the band", "every query length, series length and ratio; answers planted at every length"),
"C13": ("groups, representatives (bitwise), threshold and query distances compared before and after; canonical comparison of the second file", "values that need 17 digits, receivers with other groups, chains of saves and loads"),
"C14": ("independent reader plus partition check: accepted files must describe the resulting groups, refused ones must leave the old groups", "every truncation point and every token edit of each file"),
"C15": ("snapshot of everything observable before and after; the same continuation without the refused operation", "every history x refused operation x continuation"),
"C16": ("after every operation: either not grouped and matching refused, or the groups are a valid grouping of the current values", "every history of data changes, groupings and loads"),
"C17": ("success implies complete content; failure implies refusal and unchanged memory", "the storage fails at every byte and at every single system call, with short reads and writes"),
"C18": ("a registry model of the session; the figures in the printed answer; the library called directly on a twin session", "every command with every number and kind of arguments from several states, command histories"),
"C19": ("ASan/UBSan plus byte accounting of the allocator: repeating a cycle must not grow the process, ending a session returns to the baseline", "every history of operations, failing ones included"),
"C20": ("plain vectors of numbers; envelopes by definition", "every history over three objects: copies, moves, self-assignment, writes, envelopes asked in any order"),
"C21": ("the identical outcome under every clock answer, heap fill, preceding session", "the clock is chosen at every consultation; fresh memory filled with each pattern"),
"C22": ("the same query on a freshly built session; snapshot of everything before and after", "every sequence of queries and ratio changes"),
"C23": ("the rank (distance, index, start, length) by definition", "all pairs, triples and arrangements of a grid, positions and distances of every magnitude"),
"C24": ("brute-force z-normalised banded DTW over all windows; brute-force bounds", "every small data file, query and half-width; matches around chunk boundaries; spikes at every place"),
"C25": ("the double-precision build's reference, exact where single precision is exact, relative otherwise", "the single-precision build has no tests at all"),
"C26": ("the bounds rule", "every index/start/end, in every condition of the set, extreme integers included"),
"C27": ("an independent reader of the documented format; groups in memory through the public accessors", "every small grouping and both variants; sizes of the ladder; files replaced"),
}
out = [open(os.path.join(T, "design_head.md")).read()]
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    ev = os.path.join(ROOT, "evidence", i + ".json")
    out.append("### %s %s\n\nOracle: %s.  \nBeyond tests: %s.\n" % (i, p["title"], D[i][0], D[i][1]))
    if os.path.exists(ev):
        e = json.load(open(ev)); c = e["coverage"]
        out.append("Quick run: %s executions, %s comparisons, %s states, %.0f s.\n" % (format(c["evaluations"], ","), format(c.get("comparisons", 0), ","), format(c["states"], ","), sum(s["wall_s"] for s in c["suites"])))
        out.append("| suite (all choices enumerated) | executions | s |\n|---|---:|---:|")
        for s in c["suites"]:
            out.append("| %s | %s | %.0f |" % (s["suite"], format(s["executions"], ","), s["wall_s"]))
        out.append("")
out.append(open(os.path.join(T, "design_tail.md")).read())
out.append("| property | planted changes, all caught by its check |\n|---|---|")
by = {}
for f in sorted(glob.glob(os.path.join("/verif", "seeded", "*", "meta.json"))):
    by.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
for i in sorted(by):
    out.append("| %s | %s |" % (i, ", ".join(by[i])))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
