"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
S = "src/aligned_textgrid/"
ATG, SEQ, LIST, TIER, PT, PTI = (S + "aligned_textgrid.py", S + "sequences/sequences.py", S + "sequence_list.py",
                                 S + "sequences/tiers.py", S + "points/points.py", S + "points/tiers.py")

OUT, CC, POLAR = S + "outputs/to_dataframe.py", S + "custom_classes.py", S + "polar"
P = {}


def prop(id, title, statement, over, text, tests, files, mech, observe, note):
    P[id] = dict(title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                 mech=mech, observe=observe, note=note)


prop("C01", "Superset/subset links are one mutual, exclusive, class-correct relation",
     "At any time, interval A lists interval B in its subset list exactly when B's super_instance is A, A's `contains` "
     "includes B and B's `within` is A; no interval is in two subset lists, and A's class is B's superset class. "
     "Every operation that adds, replaces, moves or removes a link (set_super_instance, remove_superset, set_subset_list, "
     "append_subset_list, append, remove_from_subset_list, pop, fusion, tier and textgrid edits) leaves exactly the links it should: "
     "the intervals it releases have no superset and the ones it takes have left their former superset.",
     ["histories", "inputs"],
     "every history of public linking and editing operations on free intervals, tiers, groups and textgrids, for any class "
     "hierarchy; intervals of one tier do not overlap, are not equal in start, end and label, and are not labelled '#'",
     "Tests link a handful of fixed intervals once; moving an interval between supersets, replacing lists and long edit "
     "histories are not sampled.",
     [SEQ, S + "mixins/within.py", LIST, TIER],
     [("set_super_instance / set_subset_list / append_subset_list / remove_from_subset_list", SEQ),
      ("within / contains setters", S + "mixins/within.py")],
     ["SequenceInterval.subset_list", "SequenceInterval.super_instance", "within", "contains"],
     "Random histories against a parent/children model plus an invariant sweep over all objects after every operation.")

prop("C02", "prev and fol follow the order of the sequence an entry belongs to",
     "In every subset list, every top-level tier and every point tier, the first entry's prev and the last entry's fol are "
     "boundary markers (label '#'), and for neighbours a, b it holds that a.fol is b and b.prev is a, in order of time. "
     "This is true after every operation: construction, linking, append, fusion, pop, removal, shift, cleanup, class insertion and removal.",
     ["histories", "inputs"],
     "every history of public operations on free intervals, tiers, groups and textgrids with distinct start times in a sequence",
     "Tests walk prev/fol on freshly read textgrids; the chains after multi-step edits are not walked.",
     [SEQ, TIER, PT, PTI, S + "mixins/mixins.py"],
     [("set_fol / set_prev / set_initial / set_final", S + "mixins/mixins.py"), ("_set_precedence / set_timing_precedence", SEQ)],
     ["prev", "fol", "first", "last"],
     "Each chain is walked forwards and backwards after every operation of random histories.")

prop("C03", "A SequenceList is a time-ordered list of entries of one class",
     "A SequenceList holds exactly the entries that were put in and not removed, in order of start time (points: time), whatever the order "
     "of insertion; starts, ends, labels, len, iteration, indexing, index() and `in` agree with them. "
     "Only entries of the first entry's class are accepted, `+` makes a new list without changing its operands, and "
     "append(shift=True) and concat() move the added entries by the end of the list, once.",
     ["histories", "inputs"],
     "every sequence of list operations with intervals or points of any class, with integer, float, zero and equal boundary times",
     "Tests append two or three entries in sorted order.",
     [LIST], [("SequenceList", LIST)], ["SequenceList"],
     "Model-based monitor: a plain Python list is driven next to the real list.")

prop("C04", "Positions and views of tiers, groups and textgrids agree with their entries",
     "For every tier, `intier` of an entry is its tier, `tier_index` is its position, indexing with an interval's index gives that interval, get_tierwise gives the entry that many places on (IndexError beyond either end), and entries are in time "
     "order; starts, ends, times, labels, xmin, xmax, first, last, len and sub_* views of tiers, intervals, groups and textgrids equal what "
     "the entries themselves say. Groups order their tiers from the top of the hierarchy down. All this holds after any history of edits, not only after reading.",
     ["histories", "inputs"],
     "every textgrid (any class hierarchy, times, input route, interval and point groups) and every history of public operations on it",
     "Tests compare views of one fixed file right after reading.",
     [TIER, PTI, ATG, SEQ, S + "mixins/tiermixins.py"],
     [("tier and group properties", S + "mixins/mixins.py"), ("SequenceTier / TierGroup / AlignedTextGrid properties", TIER)],
     ["SequenceTier", "TierGroup", "PointsGroup", "AlignedTextGrid"],
     "All views are recomputed from the entries after every operation of random histories.")

prop("C05", "Grouping tiers relates each interval to the right superset interval",
     "When tiers are grouped (TierGroup, AlignedTextGrid or a re-relate), tiers are ordered by their class hierarchy whatever order they are "
     "given in, and each interval becomes a subset of the superset-tier interval that contains it (of the one it overlaps most, when boundaries mismatch), "
     "or of none when it lies outside all of them. Where boundaries mismatch, superset and subset intervals are clipped to their overlap (none grows, inner boundaries and labels stay); "
     "otherwise every interval stays as it was, and blanks are added only for the parts of a superset interval that have no subset, so that subset intervals tile their superset in time order.",
     ["inputs", "configurations"],
     "every set of non-overlapping tiers over any hierarchy, complete or partial, with gaps, missing supersets, jittered boundaries and long recordings",
     "Tests relate one or two aligned files whose boundaries coincide exactly.",
     [TIER, SEQ], [("TierGroup.re_relate / _set_tier_precedence / timing comparison", TIER), ("set_subset_list / _extend", SEQ)],
     ["TierGroup", "subset_list", "super_instance"],
     "Reference relation computed directly from the input times.")

prop("C06", "Reading a textgrid keeps its tiers, intervals and points",
     "AlignedTextGrid made from a praatio textgrid or a file (path, str or keyword, any praatio format) has the tier groups that entry_classes asks for, each "
     "tier with the requested class and every source interval and point, with its time and label; anything it adds is a "
     "blank-labelled interval in a place that was free. Tiers keep their names.",
     ["inputs", "configurations"],
     "every textgrid with any number of groups, levels and point tiers, with gaps, in any order of tiers, for nested, tuple and flat entry_classes, and all file formats",
     "Tests read four bundled files.",
     [ATG, TIER, PTI], [("AlignedTextGrid.__init__ / _nestify_tiers / _reclone_classes / _init_tiers", ATG)],
     ["AlignedTextGrid"],
     "The object is compared tier by tier with the generated source rows.")

prop("C07", "Saving and reading back gives the same textgrid",
     "For any cleaned-up textgrid, however it was edited, save_textgrid in any format (and return_textgrid, and saving single tiers) writes every interval and point with its times and label "
     "under unique tier names, and reading the result with the same classes gives the same tiers, names, links and points. "
     "Saving or returning a textgrid changes nothing in it.",
     ["histories", "inputs", "configurations"],
     "every history of edits followed by cleanup and any file format; non-negative times, labels without outer white space (praatio strips it)",
     "Tests save one file and check that it exists or that tier names match.",
     [ATG, TIER, PTI, S + "mixins/mixins.py", S + "mixins/tiermixins.py"], [("return_textgrid / save_textgrid / return_tier", ATG)],
     ["save_textgrid", "return_textgrid", "save_as_tg", "return_tier"],
     "Round-trip monitor on random histories.")

prop("C08", "cleanup fills gaps with blank intervals and does nothing else",
     "cleanup of an interval, tier, group or textgrid keeps every existing interval and point (same object, times, label) and adds only blank-labelled "
     "intervals in places that were free. After cleanup of a group or textgrid every interval tier tiles its span without gaps, every lower interval has a superset, every interval of a "
     "non-lowest tier has subsets that tile it, and all interval groups of a textgrid share one start and end. Cleanup of one interval makes its subsets tile it (an interval without subsets gets one blank on each level below), "
     "and cleanup of one tier leaves no gap in it. A second cleanup changes nothing.",
     ["inputs", "histories"],
     "every textgrid with any pattern of gaps, missing subtrees, missing supersets, empty lower tiers, groups of different span and point groups; gaps of at least 0.1 ms",
     "Tests clean up two or three hand-made gap patterns.",
     [ATG, TIER, SEQ], [("cleanup", ATG), ("TierGroup.cleanup", TIER), ("SequenceTier.cleanup", TIER), ("SequenceInterval.cleanup", SEQ)],
     ["cleanup"],
     "Conservation and tiling monitors against the rows before.")

prop("C09", "Fusing two neighbours conserves everything but the boundary between them",
     "Fusing an interval leftwards or rightwards gives one interval spanning both, with the label function applied to the two labels in time order, "
     "holding the subset intervals of both in order, in the place of the two in its tier and superset; everything else in the textgrid stays as it was. "
     "At the edge of its sequence (nothing to fuse with) fusion raises and changes nothing, and a label function that raises leaves everything as it was.",
     ["histories", "inputs"],
     "every interval at every level, in both directions, inside textgrids, lone groups, ungrouped tiers or free siblings, with default and custom label functions, repeatedly",
     "Tests fuse one pair in two fixtures.",
     [SEQ, TIER], [("fuse_leftwards / fuse_rightwards", SEQ), ("pop", TIER)], ["fuse_leftwards", "fuse_rightwards"],
     "State before and after is compared for every fusion of random fusion histories.")

prop("C10", "shift moves every time by the increment, once, and nothing else",
     "Shifting a textgrid moves start and end of every interval and the time of every point at every level by the increment exactly once; shifting one "
     "group moves that group's entries only. Labels, links, order, identities and classes stay as they were, and shifting back restores every time.",
     ["histories", "inputs"],
     "every textgrid after any edits and every int, float, numpy, negative or zero increment",
     "Tests shift one textgrid by one number and compare its outer limits.",
     [ATG, TIER, PTI, SEQ, PT, S + "mixins/mixins.py", S + "mixins/tiermixins.py"], [("shift / _shift", S + "mixins/mixins.py"), ("TierGroup.shift", TIER)], ["shift"],
     "Entry-by-entry comparison before and after.")

prop("C11", "append, + and concat combine entries, tiers, groups and textgrids without loss",
     "Appending an entry to a tier (with or without its superset and subset intervals), a tier to a group, a group to a textgrid, or a subset to an interval leaves all previous entries "
     "and puts the new ones in their time order, linked to the superset interval they lie in and present in every tier they belong to. "
     "`+` gives all entries of both operands; concat gives the entries of the second, at all levels, moved by the end of the first exactly once.",
     ["inputs", "histories"],
     "every pair of operands over one hierarchy whose entries do not overlap, empty operands, any level, points and intervals",
     "Tests append single entries at one level of one hierarchy.",
     [TIER, PTI, ATG, LIST, SEQ], [("append / __add__ / concat", TIER)], ["append", "concat", "+"],
     "Result compared with the operands' rows and links.")

prop("C12", "interleave_class and pop_class change one tier and nothing else",
     "interleave_class adds, in every group that has the named class, one tier of a new class at the requested place, with the timing (and labels if asked) of the tier "
     "it copies from; pop_class removes one tier. All other tiers keep their interval objects, times and labels; superset, subset and within links, class hierarchy, names and accessors match the new order of tiers, "
     "and popping the interleaved class restores the textgrid.",
     ["histories", "inputs", "configurations"],
     "every sequence of interleave_class and pop_class calls on textgrids with 1-4 complete or partial groups, point groups and gaps, by class or by name, above or below, timing from either side",
     "Tests interleave one class once in one file.",
     [ATG], [("interleave_class / pop_class / shift of super- and subset classes", ATG)], ["interleave_class", "pop_class"],
     "A model that inserts or deletes one level is compared with every tier after each call.")

prop("C13", "A textgrid's class hierarchy and contents are its own",
     "Operations on one textgrid (class insertion and removal, append, shift, fusion, cleanup, relabelling) never change another textgrid made from the same classes or "
     "the same source, a free-standing group, or the class objects the user passed in. Each textgrid's classes are distinct from the user's, keep "
     "their names and user-defined attributes, and within a textgrid one class name means one class.",
     ["histories", "configurations"],
     "every set of textgrids made by any route from shared classes and every sequence of calls on one of them",
     "Tests make one textgrid at a time, or check class isolation after a single call.",
     [ATG, CC, S + "mixins/mixins.py", SEQ], [("_reclone_classes / _swap_classes", ATG), ("clone_class", CC)],
     ["entry_classes", "superset_class", "subset_class"],
     "Bystander snapshots are compared after every call.")

prop("C14", "ids and within paths identify objects",
     "In a textgrid every group, tier, attached interval and point reports `within_path` and `id` built from its position in each container from the textgrid down, "
     "no two objects share an id, and following `within` and `within_index` from an object leads to the textgrid and back to that object. This stays true after any edits.",
     ["histories", "inputs"],
     "every textgrid with interval and point groups and every history of public operations; intervals that lie outside every superset interval are not claimed",
     "Tests check ids of a few intervals right after reading.",
     [S + "mixins/within.py", ATG, TIER, SEQ], [("WithinMixins", S + "mixins/within.py")],
     ["id", "within_path", "within_index"],
     "All ids are recomputed and followed back after every operation.")

prop("C15", "Looking up entries by time gives the entry at that time",
     "get_interval_at_time gives, for a tier, the index of the interval with start <= time < end and None when there is none; for groups and textgrids the same per tier, and indexing "
     "with that answer gives the intervals themselves. get_nearest_points_index gives the nearest point per tier, and get_interval_at_point of a point gives the interval around it or None.",
     ["inputs", "histories"],
     "every tier, group and textgrid with or without gaps and after edits, and every query time: on, just before and after boundaries, in gaps, outside, int, float and numpy",
     "Tests query two or three times inside intervals.",
     [TIER, PTI, ATG, S + "mixins/mixins.py", S + "mixins/tiermixins.py"], [("get_interval_at_time / get_nearest_point_index / get_interval_index_at_time", TIER)],
     ["get_interval_at_time", "get_intervals_at_time", "get_nearest_point_index"],
     "Brute-force scan as reference at boundary-focused query times.")

prop("C16", "Points keep their order, and distances and nearest-point answers are exact",
     "A point tier holds every point it was given with its time and label, in time order, with prev and fol the neighbours. Distances to the previous and following point, to another point and to an interval "
     "are the differences of their times, and the nearest point to a time is one with the smallest distance, also in points groups and textgrids and after append, shift and re-casting.",
     ["inputs", "histories"],
     "every set of distinct point times (ints, floats, negative, zero), input order and sequence of edits",
     "Tests use two or three points in order.",
     [PT, PTI, S + "mixins/mixins.py", S + "mixins/tiermixins.py"], [("SequencePoint distances", PT), ("SequencePointTier", PTI)],
     ["fol_distance", "prev_distance", "distance_from", "get_nearest_point_index"],
     "Compared with the plain list of times.")

prop("C17", "to_df has one row per lowest-level entry, with the values of the objects",
     "to_df of an entry, tier, group or textgrid gives one row per lowest-level interval below it (an interval without subsets stands for itself), in order, with each level's label, start, end and id in "
     "columns named after the level, or one row per entry without subsets when with_subsets is false; values are those of the objects. Exporting changes nothing.",
     ["inputs", "histories"],
     "every object kind, shape, class hierarchy and history, int and float times",
     "Tests compare shapes for one file.",
     [OUT], [("to_dataframe", OUT)], ["to_df"],
     "Row-by-row comparison with a plain walk over the objects.")

prop("C18", "A cloudpickle copy is the same textgrid, complete and independent",
     "cloudpickle.dumps followed by loads (same or another process) of a textgrid, group, tier or interval gives equal values, classes, links, precedence, "
     "views, ids, names and accessors; the original is unchanged. The copy shares no entries with the original, and further operations give the same results on both.",
     ["histories", "inputs"],
     "every textgrid after any history of public operations, through memory, file or another process, up to hundreds of intervals per tier",
     "Tests pickle one freshly read file and compare lengths.",
     [ATG, SEQ, TIER, S + "mixins/mixins.py", S + "mixins/tiermixins.py"], [("__reduce__ / __setstate__ / __getstate__", SEQ)], ["cloudpickle"],
     "Snapshot comparison of original and copy plus lock-step continuation.")

prop("C19", "PoLaR labels are parsed; levels, turning points and ranges refer to each other",
     "Reading a PolarGrid gives for every range its low and high and equal bands between them (nan when the label is unreadable), for every level its numeric value, certainty, band limits and the range interval around it, and for every turning point "
     "its override and certainty. Levels and turning points at the same time refer to each other, and to nothing otherwise; no tier loses entries.",
     ["inputs", "configurations"],
     "every PoLaR textgrid: any order of tiers and groups, with or without word/phone tiers, gaps, missing partners and unreadable labels",
     "Tests read one PoLaR file.",
     [POLAR + "/polar_classes.py", POLAR + "/polar_grid.py"], [("PrStr/ToBI/TurningPoints/Levels/Ranges", POLAR + "/polar_classes.py"), ("PolarGrid", POLAR + "/polar_grid.py")],
     ["PolarGrid", "Levels", "Ranges", "TurningPoints"],
     "Direct computation from the generated rows.")

prop("C20", "An operation that does not fit is refused with an exception and changes nothing",
     "A call that does not fit (an entry or tier of the wrong class, kind or length, fusing at an edge, contradicting, missing or unknown class arguments, unknown names, out-of-range indices, wrong types) raises an exception, "
     "and the textgrid with all its entries, links, precedence, classes, names and ids is exactly as before the call.",
     ["histories", "fault_sequences", "inputs"],
     "every textgrid after any history and every sequence of about 45 kinds of calls that do not fit",
     "Tests check that a few constructors raise; they do not look at the state afterwards.",
     [SEQ, TIER, PT, PTI, ATG, LIST, CC], [("type and class checks in the setters", SEQ), ("argument checks of interleave_class / pop_class", ATG)],
     ["raised exceptions", "state after them"],
     "Fault injection of misfit calls with before/after snapshots.")

prop("C21", "validate() tells exactly whether the subset intervals tile their superset",
     "SequenceInterval.validate() is True exactly when the interval has no subset intervals, or they start with it, end with it and leave no gaps or overlaps between them; "
     "otherwise it is False and it warns. Validating changes nothing.",
     ["inputs", "histories"],
     "every interval with any number of subsets and any fault of at least 50 microseconds at any position, at any time in the recording, free or in a textgrid",
     "Tests validate three hand-made intervals.",
     [SEQ], [("validate", SEQ)], ["validate"],
     "Verdict compared with a direct computation.")

prop("C22", "Class hierarchies made by custom_classes and clone_class are consistent",
     "custom_classes gives one class per name, in the order asked for (names, indices), each the superset class of the next and the subset class of the previous, with Top above and Bottom below, and point classes apart; "
     "calls do not affect each other or the built-in classes. clone_class gives a separate hierarchy of the same names; get_class_hierarchy lists it top to bottom from any member; set_superset_class and set_subset_class "
     "make the two classes they are given each other's superset and subset class.",
     ["inputs", "configurations", "histories"],
     "every list of names, points selection and return order, and every sequence of cloning and re-linking",
     "Tests make one or two hierarchies of three names.",
     [CC, SEQ, PT, S + "sequences/word_and_phone.py"], [("custom_classes / clone_class / get_class_hierarchy", CC), ("set_superset_class / set_subset_class", SEQ)],
     ["custom_classes", "clone_class", "get_class_hierarchy"],
     "Structural monitors after each step.")

prop("C23", "Groups and tiers can be reached by name, and the name leads to the right one",
     "A textgrid gives each group as an attribute under its name (the part its tier names start with in common, or group_<i>), a group gives each of its tiers under its class name, tier_names lists the tier names in order, and "
     "get_class_by_name gives the class whose name was asked for. This, and the names of groups and tiers, stay true after any edits: appended groups, class insertion and removal, re-relating and pickling; the name of a removed group leads nowhere.",
     ["histories", "configurations"],
     "every textgrid and history of public operations, with names that share a speaker part or nothing at all",
     "Tests use one accessor on one file.",
     [ATG, TIER, PTI], [("_set_named_accessors / _set_group_names / get_class_by_name", ATG)],
     ["named attributes", "tier_names", "get_class_by_name"],
     "Accessors are followed after every operation.")

prop("C24", "Features set on entries stay with those entries",
     "Whatever a user attaches to an interval or point (set_feature, or any attribute of his own) stays on that entry, with the same value, through every operation "
     "that does not remove the entry: making tiers, groups and textgrids from entries (also re-casting them to another class), appending, cleanup, shifting, fusing (the interval that "
     "remains), re-relating, class insertion and removal, linking and unlinking, and pickling (in the copy). No operation removes other entries than the one it is "
     "asked to, and no entry gets another one's features.",
     ["histories", "inputs"],
     "every history of public operations on textgrids, and every route by which free entries get into tiers, groups and textgrids; any feature names that are not the library's own, any values",
     "Tests set one feature on one interval and read it back.",
     [SEQ, ATG, TIER, PTI, LIST, S + "mixins/mixins.py"],
     [("set_feature", SEQ), ("_cast", S + "mixins/mixins.py"), ("append / interleave_class / pop_class", ATG)],
     ["attributes of intervals and points"],
     "Every entry is marked with features; a conservation monitor counts the marks after every operation of random histories.")

prop("C25", "Data that is altered or doubtful is warned about, tidy data is not",
     "Grouping tiers warns, naming the two classes, the number of mismatching intervals and the largest mismatch, exactly when a subset interval reaches beyond the superset interval it is put in. "
     "Adding lists or tiers whose intervals overlap in time warns; so do making an empty textgrid, groups of the same name in a textgrid, tiers of the same class in a points group, asking for a class that is not "
     "there, removing the only tier of a group, and asking for the distance beyond either end of a point tier (which is None). Reading, grouping, editing and exporting tidy data gives no warning.",
     ["inputs", "configurations"],
     "every pair of tiers with matching or mismatching boundaries, every tidy textgrid with distinct names that are not attributes of the library's classes",
     "Tests filter warnings out or expect one on a fixed file.",
     [TIER, LIST, ATG, PT, S + "mixins/tiermixins.py"],
     [("_set_tier_relationships", TIER), ("_check_no_overlaps", LIST), ("_set_group_names", ATG), ("prev_distance / fol_distance", PT)],
     ["warnings"],
     "All warnings of every call are recorded and compared with what the input's times and names call for.")

prop("C26", "Containers are sequences of their parts and describe what is in them now",
     "Textgrids, groups, tiers, intervals and SequenceLists behave as Python sequences of their parts, after any history: len, repeated iteration, indices from both ends, reversed, index, count and `in` agree (and slices, for tiers, "
     "intervals and lists), an index out of range raises IndexError, and indexing a group with a list of one index per tier gives those entries. Conversions to praatio (return_interval, return_point, "
     "return_tier) give the entries' current times and labels. Printed descriptions name the current classes, numbers of tiers, group names, labels, superset and subset labels, and show_structure prints the classes from the top down.",
     ["histories", "inputs"],
     "every history of public operations on textgrids with interval and point groups",
     "Tests index a few entries of freshly read textgrids; descriptions are not compared.",
     [ATG, TIER, PTI, SEQ, LIST, PT, S + "mixins/mixins.py"],
     [("__getitem__ / __len__ / __repr__", TIER), ("__getitem__ / __repr__", ATG), ("return_interval / return_point", S + "mixins/mixins.py")],
     ["sequence protocol", "repr", "show_structure", "return_tier"],
     "Every container is used as a sequence and printed after every operation of random histories; compared with the list of its parts.")

LEVEL = ("Exploration: the property held in every execution observed (counts in the evidence file); executions are random, seeded "
         "by VERIF_SEED. Assumes the preconditions in the statement and evidence 'assumptions'; trusts praatio, polars, numpy, cloudpickle and the reference model in atgmon. ")


def main():
    lines, checks = [], []
    for id, p in sorted(P.items()):
        assert len(p["title"]) <= 80, (id, len(p["title"]))
        for f in p["files"] + [m[1] for m in p["mech"]]:
            assert Path("/repo", f).exists(), (id, f)
        lines.append(json.dumps({
            "id": id, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": sorted(set(p["files"])),
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}))
        checks.append({
            "property": id, "quick_cmd": f"bash run.sh {id}", "thorough_cmd": f"bash run.sh {id} thorough",
            "evidence_file": f"evidence/{id}.json",
            "technique": "runtime monitoring: " + p["note"].rstrip("."),
            "level": "exploration", "level_note": LEVEL + p["note"]})
    (ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
    (ROOT / "MANIFEST.json").write_text(json.dumps({
        "version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
        "notes": "No hooks in /repo: every monitor observes through the public API. Commits in /repo are repairs only (known_findings.json, DESIGN.md)."},
        indent=1) + "\n")


main()
