#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Normalisation maps a dataset exactly onto [0,1]",
  "After a dataset is normalised, every value v has become (v - min)/(max - min), where min and max are the true extremes over all its series and positions, so every value lies in [0,1], and the call reports exactly that (min, max). If all values are equal they all become 0. The dataset is marked normalised, its dimensions and name and every other dataset stay as they were, and an empty dataset is refused.",
  ["inputs", "histories"], "every dataset shape (rows x columns, odd and even), every placement of the extremes, repeated and mixed with block averaging",
  "The tests normalise two fixed files (5x10 and 3x11); extremes in other positions or shapes of other parity are never tried.",
  ["src/TimeSeriesSet.cpp", "src/OnexAPI.cpp"], [("pairwise min/max scan then rescale", "TimeSeriesSet::normalize")],
  [("data,itemLength,itemCount", "row-major values", "TimeSeriesSet.hpp"), ("normalized", "flag shown to the user", "TimeSeriesSet.hpp")],
  ["OnexAPI::normalizeDataset", "TimeSeriesSet::getTimeSeries", "OnexAPI::getDatasetInfo"])

p("C02", "Block averaging (PAA) replaces each series by its block means",
  "Block averaging with block size n > 0 replaces every series by the means of its consecutive blocks of n points, the last block possibly shorter, so a series of length L becomes ceil(L/n) points; the number and order of series are unchanged. A block size that is not positive, or a dataset without data, is refused and nothing changes.",
  ["inputs", "histories"], "every shape, every block size from negative to larger than the series, repeated applications",
  "One 3x11 file is averaged with block sizes 1, 3 and 5 and a handful of values compared.",
  ["src/TimeSeriesSet.cpp", "src/OnexAPI.cpp"], [("running block sum", "doPAA"), ("new length", "calcPAALength"), ("buffer swap", "TimeSeriesSet::PAA")],
  [("data,itemLength", "replaced together", "TimeSeriesSet.hpp")], ["OnexAPI::PAA", "TimeSeriesSet::getTimeSeries"])

p("C03", "Loading a text table yields exactly its numbers or is refused",
  "Loading a text table yields exactly the leading numeric values of the first N rows (all rows if N <= 0) without the first S columns, in order, splitting at any run of the given separator characters, and reports the matching item count and length and the path. A file that cannot be opened or read, that has no rows or keeps no columns, that is ragged within the rows read, or that holds a token without a numeric value or an out-of-range value in a kept column, and a negative S, is refused with the library's exception and leaves no dataset behind. Text in skipped rows or columns is ignored.",
  ["inputs", "configurations", "fault_sequences"], "every small text file over an alphabet of tokens, separators and line endings, every row limit and start column including negative and too large",
  "Seven fixed files are loaded; no test has blank lines, empty files, labels in skipped columns, negative or too large start columns, mixed separators or read errors.",
  ["src/TimeSeriesSet.cpp", "src/OnexAPI.cpp"], [("line count, tokenizer, stod and error exits", "TimeSeriesSet::loadData")],
  [("data,itemLength,itemCount,filePath", "result of the load", "TimeSeriesSet.hpp")], ["OnexAPI::loadDataset", "TimeSeriesSet::getTimeSeries"])

p("C04", "Saving a dataset and loading it back loses nothing",
  "A dataset saved to a file with any separator character that cannot be part of a number, and loaded again with that separator, has the same number of series, the same length and bit-for-bit the same values in the same order. This holds also after normalisation and block averaging, and saving changes nothing in memory.",
  ["inputs", "histories"], "every finite normal value pattern (including values needing 17 significant digits), every shape, every separator",
  "There is no test that saves a dataset.",
  ["src/TimeSeriesSet.cpp", "src/OnexAPI.cpp"], [("text output of every value", "TimeSeriesSet::saveData"), ("text input", "TimeSeriesSet::loadData")],
  [], ["OnexAPI::saveDataset", "OnexAPI::loadDataset"])

p("C05", "The dataset list behaves like a table of lowest-free identifiers",
  "A loaded dataset gets the lowest identifier not in use, keeps it until it is unloaded, and every operation given that identifier affects that dataset only. Count, single info and listing always agree with the datasets currently loaded (name, dimensions, grouped, normalised), in identifier order, and any use of an identifier that is not in use is refused. Unloading everything leaves an empty list that can be used again.",
  ["histories"], "every sequence of load, failed load, unload, unload-all and per-dataset operations",
  "Three fixed sequences of loads and unloads are tried.",
  ["src/OnexAPI.cpp", "src/OnexAPI.hpp"], [("slot search and reuse", "OnexAPI::loadDataset"), ("slot release", "OnexAPI::unloadDataset"), ("index validation", "OnexAPI::_checkDatasetIndex")],
  [("loadedDatasets", "slots, null when free", "OnexAPI.hpp"), ("datasetCount", "number of loaded datasets", "OnexAPI.hpp")],
  ["OnexAPI::getDatasetInfo", "OnexAPI::getAllDatasetInfo", "OnexAPI::getDatasetCount"])

p("C06", "Groups partition all subsequences of every length",
  "After a dataset is grouped, for every length from 2 to the series length every subsequence of that length belongs to exactly one group of that length, no group is empty, group sizes are the true member counts, and the reported number of groups is their total. Regrouping replaces the old groups completely. This holds for every threshold and for both grouping distances.",
  ["inputs", "histories"], "every small dataset, threshold and grouping distance, first grouping and regrouping",
  "Tests only check that the number of groups exceeds 2 or 20, or equals 1 or 2 for one length.",
  ["src/LocalLengthGroupSpace.cpp", "src/GlobalGroupSpace.cpp", "src/Group.cpp", "src/GroupableTimeSeriesSet.cpp"],
  [("assignment loop", "LocalLengthGroupSpace::generateGroups"), ("linked membership map", "Group::addMember")],
  [("memberMap", "previous member and group of each subsequence", "LocalLengthGroupSpace.hpp"), ("lastMemberCoord,count", "head and size of a group", "Group.hpp")],
  ["OnexAPI::groupDataset", "OnexAPI::saveGroup", "LocalLengthGroupSpace::getGroup"])

p("C07", "Groups respect the similarity threshold around their representatives",
  "In a dataset grouped with threshold ST, each group's representative equals one of its members, every member is within ST/2 of it under the grouping distance, and any two representatives of the same length are more than ST/2 apart. Subsequences are processed by starting position and then by series; each joins the nearest representative existing at that time (the oldest on a tie) if that is within ST/2 and otherwise founds a new group.",
  ["inputs"], "every small dataset, threshold (zero, reachable boundary values, huge, negative) and grouping distance",
  "One length of two fixed files with widely separated rows is grouped and only the number of groups is compared.",
  ["src/LocalLengthGroupSpace.cpp", "src/Group.cpp", "src/distance/Distance.cpp"], [("nearest representative with early abandoning", "LocalLengthGroupSpace::generateGroups"), ("representative", "Group::setCentroid")],
  [("centroid", "representative", "Group.hpp")], ["OnexAPI::saveGroup", "Group::getMembers", "Group::getCentroid"])

p("C08", "Distances are exact: Euclidean and banded time warping",
  "The Euclidean distance of two equally long sequences is the root mean square of their differences, and unequal lengths are refused. The warped distance is the square root of the cheapest warping path's squared cost within a band of half-width floor(ratio x longer length), at most longer length - 1, divided by twice the longer length, and infinite if no path fits the band. Both are symmetric and zero for identical sequences; a band ratio that is negative or not a number is refused.",
  ["inputs", "configurations"], "every pair of short sequences over a value alphabet, all length combinations from 1, all band ratios",
  "Five hand-computed pairs with one or two band ratios.",
  ["src/distance/Distance.cpp"], [("dynamic programme over the band", "warpedDistance"), ("point-wise distance", "pairwiseDistance"), ("band size", "calculateWarpingBandSize")],
  [("warpingBandRatio", "global band ratio", "Distance.cpp")], ["warpedDistance", "pairwiseDistance", "TimeSeriesSet::distanceBetween"])

p("C09", "Early abandoning never changes a distance that matters",
  "Given a cutoff, every distance (Euclidean, warped, and the cascaded one used for matching) returns the exact distance whenever that is below the cutoff, and otherwise either the exact distance or infinity. The result depends only on the values of the two sequences, the cutoff and the band ratio, not on earlier calls or on the order of the two arguments beyond that choice.",
  ["inputs", "histories"], "every pair of short sequences, every cutoff below, at and above the exact distance, repeated calls on the same objects with changing band ratios",
  "A single call with one cutoff (5) that does not trigger is tested.",
  ["src/distance/Distance.cpp", "src/TimeSeries.cpp"], [("row minimum test", "warpedDistance"), ("partial sum test", "pairwiseDistance"), ("lower bound cascade", "cascadeDistance, crossKeoghLowerBound")],
  [], ["pairwiseDistance", "warpedDistance", "cascadeDistance"])

p("C10", "Lower bounds never exceed the warped distance",
  "The upper and lower envelope of a sequence for half-width w hold, at each position, the maximum and minimum of the values at most w positions away. The envelope lower bounds used for pruning, in either direction and with any cutoff, never exceed the true warped distance unless that distance is above the cutoff too, so pruning with them never discards a better candidate.",
  ["inputs", "configurations"], "every short sequence, every half-width from 0 to beyond the length, every pair of lengths and band ratio",
  "Two fixed sequences with six half-widths; one lower bound value.",
  ["src/TimeSeries.cpp", "src/lib/trillionDTW.cpp", "src/lib/deque.cpp", "src/distance/Distance.cpp"],
  [("streaming min/max with two queues", "lower_upper_lemire"), ("envelope cache", "TimeSeries::getKeoghLower/Upper"), ("lower bound sum", "keoghLowerBound")],
  [("keoghCacheValid,cachedWarpingBand", "cached envelope", "TimeSeries.hpp")], ["TimeSeries::getKeoghLower", "TimeSeries::getKeoghUpper", "keoghLowerBound", "crossKeoghLowerBound"])

p("C11", "A match is the best member of the group with the nearest representative",
  "A best-match query on a grouped dataset returns an existing subsequence together with its true warped distance to the query. It is a nearest member of a group whose representative is nearest to the query among all groups of all lengths the warping band admits, so it is never farther than the nearest representative. Queries shorter than 2 points, on ungrouped data, or for which the dataset has no admissible subsequence are refused.",
  ["inputs", "configurations"], "every small dataset, query (also longer or shorter than the dataset's series), threshold and band ratio",
  "About fifteen queries are tried, all copied from the dataset, asserting distance 0.",
  ["src/GlobalGroupSpace.cpp", "src/LocalLengthGroupSpace.cpp", "src/Group.cpp", "src/GroupableTimeSeriesSet.cpp", "src/OnexAPI.cpp"],
  [("length loop", "GlobalGroupSpace::getBestMatch"), ("representative scan", "LocalLengthGroupSpace::getBestGroup"), ("member scan", "Group::getBestMatch")],
  [], ["OnexAPI::getBestMatch", "GroupableTimeSeriesSet::getBestMatch"])

p("C12", "Zero-threshold matching is globally exact over all admissible lengths",
  "The search visits each length from 2 to the series length that the warping band allows for the query exactly once and no other. Hence a dataset grouped with threshold 0 answers every query with the globally smallest warped distance over all its admissible subsequences, and a query that occurs in the dataset is found at distance 0.",
  ["inputs", "configurations"], "every query length, series length and band ratio; every small dataset and query",
  "One traversal order (query 3, length 7, ratio 0.4) is compared.",
  ["src/GlobalGroupSpace.cpp", "src/distance/Distance.cpp"], [("alternating walk of lengths", "generateTraverseOrder"), ("band size", "calculateWarpingBandSize")],
  [], ["generateTraverseOrder", "GroupableTimeSeriesSet::getBestMatch"])

p("C13", "Saved groups can be loaded back without loss",
  "Groups saved to a file and loaded into a dataset with the same data give the same number of groups, the same members in each group, the same representatives bit-for-bit, the same threshold, and the same distance for every query; saving them again describes the same groups. Loading replaces any groups the dataset had.",
  ["inputs", "histories", "configurations"], "every small dataset (including values that need 17 digits), threshold and grouping distance; load into ungrouped, grouped and other loaded copies",
  "There is no test that saves or loads groups.",
  ["src/GroupableTimeSeriesSet.cpp", "src/GlobalGroupSpace.cpp", "src/LocalLengthGroupSpace.cpp", "src/Group.cpp", "src/TimeSeries.cpp"],
  [("writer", "saveGroups, Group::saveGroup, TimeSeries::printData"), ("reader", "loadGroups, Group::loadGroup")],
  [], ["OnexAPI::saveGroup", "OnexAPI::loadGroup", "OnexAPI::getBestMatch"])

p("C14", "Unsuitable group files are refused and harm nothing",
  "A group file that is missing, truncated, malformed, of another version or other dataset dimensions, that names an unknown distance, or that holds sizes only, is refused with the library's exception, and the dataset keeps the groups it had before. Whenever a file is accepted, the dataset's groups are exactly those the file describes and form a partition of all subsequences of every length.",
  ["inputs", "fault_sequences"], "every truncation point and every single-token replacement, deletion, duplication or swap in saved group files",
  "There is no test that loads a group file.",
  ["src/GroupableTimeSeriesSet.cpp", "src/GlobalGroupSpace.cpp", "src/LocalLengthGroupSpace.cpp", "src/Group.cpp"],
  [("header checks", "GroupableTimeSeriesSet::loadGroups"), ("body reader", "GlobalGroupSpace::loadGroups, LocalLengthGroupSpace::loadGroups, Group::loadGroup")],
  [("groupsAllLengthSet", "current groups", "GroupableTimeSeriesSet.hpp")], ["OnexAPI::loadGroup", "OnexAPI::saveGroup"])

p("C15", "A refused operation changes nothing",
  "Every operation that reports an error - bad identifier, missing or malformed file, bad range, bad block size, unknown distance, ungrouped data, unwritable path - does so with the library's exception type and leaves the dataset list, every dataset's values, dimensions and flags, and every dataset's groups exactly as they were. Later operations behave as if the refused one had not been made.",
  ["histories", "inputs"], "every sequence of successful operations followed by every kind of refused operation, then any operation",
  "Tests check that some calls throw, never what state they leave.",
  ["src/OnexAPI.cpp", "src/GroupableTimeSeriesSet.cpp", "src/TimeSeriesSet.cpp", "src/GlobalGroupSpace.cpp"],
  [("validation before mutation", "OnexAPI::_checkDatasetIndex, GroupableTimeSeriesSet::groupAllLengths/loadGroups, TimeSeriesSet::PAA")],
  [], ["OnexAPI::*", "GroupableTimeSeriesSet::*"])

p("C16", "Groups never outlive the data they describe",
  "Whenever a dataset reports that it is grouped, its groups describe its current values: after its values change by normalising, block averaging, reloading or clearing, either the dataset is reported as not grouped and refuses to match, or its groups are a valid grouping of the new values. No history of operations makes a match use outdated or released values.",
  ["histories"], "every sequence of load, group, match, normalise, block-average, save/load groups, reload and clear",
  "No test changes a dataset after grouping it.",
  ["src/GroupableTimeSeriesSet.cpp", "src/TimeSeriesSet.cpp", "src/Group.cpp", "src/TimeSeries.cpp"],
  [("discarding groups when data change", "GroupableTimeSeriesSet"), ("representatives refer to the dataset's values", "Group::setCentroid")],
  [("groupsAllLengthSet", "current groups", "GroupableTimeSeriesSet.hpp"), ("keoghCacheValid", "cached envelopes of representatives", "TimeSeries.hpp")],
  ["GroupableTimeSeriesSet::isGrouped", "GroupableTimeSeriesSet::getBestMatch", "OnexAPI::getBestMatch"])

p("C17", "Storage failures are reported, never silently swallowed",
  "If the storage fails at any point while a dataset or groups are being saved, the save reports an error; a save that reports success has stored the complete content. If reading fails at any point while a dataset or group file is being loaded, the load is refused instead of silently yielding fewer or other data.",
  ["fault_sequences", "crash_points"], "the device filling up after every possible number of bytes; a read error at every read call",
  "No test injects a storage fault.",
  ["src/TimeSeriesSet.cpp", "src/GroupableTimeSeriesSet.cpp"],
  [("stream state after writing", "TimeSeriesSet::saveData, GroupableTimeSeriesSet::saveGroups"), ("stream state after reading", "TimeSeriesSet::loadData")],
  [], ["OnexAPI::saveDataset", "OnexAPI::saveGroup", "OnexAPI::loadDataset", "OnexAPI::loadGroup"])

p("C18", "The command line survives and faithfully executes every command",
  "Every input line is either executed with the same effect and reported figures as the corresponding library operation, or answered with a line starting with 'Error!' and no effect; the program then continues. Unknown commands, too few or too many arguments, non-numeric arguments and refused operations are such errors; comment and blank lines do nothing. The program ends only on quit, exit or a confirmed end of input, with status 0.",
  ["histories", "inputs"], "every sequence of command lines over all commands, argument counts and argument kinds",
  "The command line has no tests at all.",
  ["cli/OnexCLI.cpp", "cli/Command.hpp"], [("tokenise and dispatch", "processLine"), ("argument checks", "tooFewArgs/tooManyArgs and each command body"), ("error handling", "main")],
  [("commands", "command table", "OnexCLI.cpp"), ("gOnexAPI", "the library session", "OnexCLI.cpp")], ["standard output", "exit status"])

p("C19", "Sessions are memory safe and release everything",
  "No history of library operations reads or writes memory outside live objects or releases it wrongly. Unloading a dataset, regrouping, resetting, replacing groups and ending a session release all memory obtained for it, so repeating any cycle of operations does not make the process grow.",
  ["histories"], "every sequence of library operations, followed by unloading; every cycle repeated",
  "Tests run without any allocation accounting and never compare memory before and after.",
  ["src/OnexAPI.cpp", "src/TimeSeriesSet.cpp", "src/TimeSeries.cpp", "src/GlobalGroupSpace.cpp", "src/LocalLengthGroupSpace.cpp", "src/GroupableTimeSeriesSet.cpp"],
  [("destructors and reset", "~TimeSeries, ~OnexAPI, reset(), clearData()"), ("ownership on assignment", "TimeSeries::operator=")],
  [("isOwnerOfData", "who frees the values", "TimeSeries.hpp")], ["bytes allocated when the session is closed"])

p("C20", "Sequence objects keep value semantics",
  "A sequence that owns its values is independent of any copy of it; one that views a dataset or array shows the viewed values. After any history of construction, copying, copy- and move-assignment (also to itself), accumulation and element writes through the sequence, its length, coordinates, values and envelopes equal those a plain list of numbers would have. Accessing a position outside the sequence or accumulating a sequence of another length is refused without effect.",
  ["histories"], "every sequence of operations on a few sequence objects up to a depth, with reads of values and envelopes in between",
  "Tests cover construction, one write, one addition and envelopes of two constant arrays; assignment is never tested.",
  ["src/TimeSeries.cpp", "src/TimeSeries.hpp"], [("copy/assign/destroy", "TimeSeries"), ("envelope cache invalidation", "TimeSeries::operator+=, operator=, operator[]")],
  [("data,isOwnerOfData,start,end,length", "storage and view", "TimeSeries.hpp"), ("keoghCacheValid", "cached envelope", "TimeSeries.hpp")], ["TimeSeries"])

p("C21", "Results do not depend on clock, heap contents or earlier sessions",
  "Groupings, matches, saved files and errors are a function of the loaded data and the parameters only. They are the same whatever the system clock shows or how often progress is logged, whatever the memory they are given contained before, and whatever other sessions ran earlier in the process with the same band ratio.",
  ["schedules", "histories", "configurations"], "every clock answer at every point it is consulted (progress due / not due / backwards), different initial heap contents, preceding unrelated sessions",
  "Tests run in under a second with the real clock, so progress is due at most once per process; heap contents are whatever they are.",
  ["src/LocalLengthGroupSpace.cpp", "src/Group.cpp", "src/GlobalGroupSpace.cpp"], [("progress logging", "LocalLengthGroupSpace::generateGroups"), ("initialisation of members", "Group, TimeSeries, group_membership_t")],
  [("_last_time", "process-wide time of the last log", "LocalLengthGroupSpace.cpp")], ["OnexAPI::groupDataset", "OnexAPI::getBestMatch", "saved files"])

p("C22", "Queries are read-only and repeatable",
  "Matching, listing, saving and distance queries change no dataset, group or other answer. A query gives the same answer whatever queries were made before it, including queries of other lengths, from other datasets or under another band ratio, and equal to the answer of a freshly built session with the same data, threshold and current band ratio.",
  ["histories"], "every sequence of queries and band ratio changes on one session, compared with fresh sessions",
  "Each test makes queries once, in one order, with one band ratio.",
  ["src/TimeSeries.cpp", "src/GlobalGroupSpace.cpp", "src/LocalLengthGroupSpace.cpp", "src/distance/Distance.cpp"], [("envelope cache keyed by half-width", "TimeSeries::getKeoghLower/Upper")],
  [("keoghCacheValid,cachedWarpingBand", "cache living in the representatives", "TimeSeries.hpp"), ("warpingBandRatio", "global", "Distance.cpp")], ["OnexAPI::getBestMatch"])

p("C23", "Candidates are ordered by distance, then position",
  "Match candidates order by distance; candidates of equal distance (up to rounding) order by series index, then starting position, then length. The order is irreflexive, antisymmetric and transitive, and two different candidates of the same distance never tie, so sorting candidates always gives one well-defined ranking. Group candidates order by distance alone.",
  ["inputs"], "every triple of candidates over a grid of distances (including infinity), indices, starts and lengths; every permutation sorted",
  "No test compares two candidates.",
  ["src/TimeSeries.hpp", "src/Group.hpp"], [("comparison", "candidate_time_series_t::operator<"), ("comparison", "group_index_t::operator<")],
  [], ["candidate_time_series_t::operator<", "group_index_t::operator<"])

p("C24", "The bundled subsequence search finds the true nearest neighbour",
  "The bundled whole-file search reports the smallest z-normalised banded warping distance between the query and any window of the data file with the query's length, and a location where that distance is attained, together with the number of points scanned. Its lower bounds (first/last points, query envelope, data envelope) never exceed the warped distance they bound, its reported distance does not depend on which candidates were pruned, and its early-abandoned distances are at least the cutoff. A search releases all memory it takes.",
  ["inputs"], "every short data file and query (at least 6 points, no constant window) over a value alphabet and every band half-width; data crossing the internal chunk boundary",
  "No test calls it.",
  ["src/lib/trillionDTW.cpp", "src/lib/deque.cpp", "src/lib/util.cpp"], [("search loop", "calculate"), ("lower bounds", "lb_kim_hierarchy, lb_keogh_cumulative, lb_keogh_data_cumulative"), ("warped distance", "dtw")],
  [], ["calculate (standard output)", "dtw", "lb_kim_hierarchy"])

p("C25", "The single-precision build gives the same guarantees",
  "Built for single-precision values, the library loads, normalises, averages, groups, saves, reloads and matches the same data with the same outcome as the double-precision build up to single-precision rounding, and as memory-safely. Values that single precision represents exactly give the identical partition into groups.",
  ["configurations", "inputs"], "every small dataset over exactly representable values, all operations, in the other build configuration",
  "The tests are only built for double precision.",
  ["src/TimeSeries.hpp", "config.hpp.in", "src/TimeSeriesSet.cpp", "src/distance/Distance.cpp"], [("value type", "data_t")], [], ["OnexAPI::*"])

p("C26", "Subsequence addressing is exact and checked",
  "Asking a dataset for series i from s to e (e not included) gives exactly those values and coordinates when i is an existing series and 0 <= s < e <= length; with both s and e negative it gives the whole series; every other combination, also beyond the loaded rows, is refused. A distance asked for a position and length of a series obeys the same bounds with no whole-series shorthand, and an unknown distance name is refused.",
  ["inputs"], "every index, start, end and length from below zero to beyond the bounds, for every small shape",
  "Six invalid and two valid combinations are tried on one file.",
  ["src/TimeSeriesSet.cpp", "src/TimeSeries.cpp", "src/OnexAPI.cpp"], [("range checks", "TimeSeriesSet::getTimeSeries"), ("element check", "TimeSeries::operator[]"), ("distance by position", "TimeSeriesSet::distanceBetween")],
  [], ["TimeSeriesSet::getTimeSeries", "TimeSeriesSet::distanceBetween", "OnexAPI::getBestMatch"])

p("C27", "The group file describes the groups as documented",
  "A saved group file contains the version, threshold and dataset dimensions, the range of lengths and distance name, and for each length from 2 to the series length the number of groups followed by, per group, the representative's values and its member count with the members' series and start positions; an independent reader reconstructs from it exactly the groups in memory. The size-only variant holds the same header and, per length, the number of groups and each group's size in the same order.",
  ["inputs", "histories"], "every small dataset, threshold and grouping distance, groups built or loaded, both file variants",
  "There is no test that saves groups.",
  ["src/README.md", "src/GroupableTimeSeriesSet.cpp", "src/GlobalGroupSpace.cpp", "src/LocalLengthGroupSpace.cpp", "src/Group.cpp"],
  [("writer", "saveGroups in each class")], [], ["OnexAPI::saveGroup", "LocalLengthGroupSpace::getGroup"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
