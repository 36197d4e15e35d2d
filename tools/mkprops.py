#!/usr/bin/env python3
"""Writes properties.jsonl: the properties are kept here in a readable form."""
import json, os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
BT = ["bptree/bptree.go", "bptree/leaf.go", "bptree/nonleaf.go", "bptree/leaflist.go"]
HM = ["hashmap/hashmap.go"]

def m(*ps):
    return [dict(name=n, where=w) for n, w in ps]

P = []
def prop(i, title, statement, over, text, why, files, mech, **kw):
    a = dict(files=files, mechanism=m(*mech))
    a.update(kw)
    a["hook_needed"] = None
    P.append(dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

prop("C01", "Point operations of the ordered dictionary are those of a map",
 "Every Set, SetIfExists, SetIfNotExists, Clear and Test on an ordered dictionary returns exactly the success flag and the (requested) old, present or removed value that a map from byte strings to byte strings would return after the same operations, and leaves the dictionary with that map's content. "
 "This holds for keys and values of any length (empty ones too), for every mixture of sizes and every order of insertions, replacements and removals; no operation panics or fails to return.",
 ["histories", "inputs"], "all finite sequences of point operations, all keys and all values, any sizes and order",
 "The tests run one fixed word list through a few phases: all records are small and alike, so page splits, shifts and merges at size boundaries, and sequences with mixed sizes, are not reached.",
 ["ordereddict.go"] + BT + ["bptree/key.go", "bptree/value.go"],
 [("search path and record update", "bptree/bptree.go"), ("page splits, shifts, merges", "bptree/bptree.go"), ("records of a leaf", "bptree/leaf.go"), ("separators of a non-leaf", "bptree/nonleaf.go")],
 observe_at=["results of every call", "a full range after some"])

prop("C02", "Point operations of the dictionary are those of a map",
 "Every Set, SetIfExists, SetIfNotExists, Clear and Test on a dictionary returns exactly the success flag and the (requested) old, present or removed value that a map from byte strings to byte strings would return after the same operations, and leaves the dictionary with that map's content. "
 "This holds for keys and values of any length, however many keys fall into the same place, and across every growth and shrinkage of the dictionary; no operation panics or fails to return.",
 ["histories", "inputs"], "all finite sequences of point operations, all keys and values",
 "The tests insert and remove one word list; collisions, keys around the length at which hashes are stored differently, and growth and shrinkage in every order are not sampled.",
 ["dict.go"] + HM,
 [("slot lookup", "hashmap/hashmap.go"), ("slot split and merge", "hashmap/hashmap.go"), ("slot encoding", "hashmap/internal/protocol")],
 observe_at=["results of every call", "a full scan after some"])

prop("C03", "Closing and reopening an ordered dictionary brings back its content",
 "After an ordered dictionary is closed and opened again, any number of times and at any points of a history, it holds exactly the keys and values it held when it was closed, in range queries as in point operations, and it continues to work as if it had never been closed. "
 "Its statistics (height, leaves, non-leaves, records, payload) are the same before closing and after opening.",
 ["histories"], "all histories with close and reopen at any points (clean closes; no crash)",
 "The tests reopen once, after one history; pages that moved, trees of other heights and repeated cycles are not covered.",
 ["ordereddict.go", "bptree/bptree.go"],
 [("storing and loading the description of the tree", "bptree/bptree.go"), ("open and close", "ordereddict.go")])

prop("C04", "Closing and reopening a dictionary brings back its content",
 "After a dictionary is closed and opened again, any number of times and at any points of a history, it holds exactly the keys and values it held when it was closed, in scans as in point operations, and it continues to work (growing and shrinking included) as if it had never been closed. "
 "Its statistics (directories, slots, items, payload) are the same before closing and after opening.",
 ["histories"], "all histories with close and reopen at any points (clean closes; no crash)",
 "The tests reopen once, after one history of one size; reopening at other sizes, and working on after it, is not covered.",
 ["dict.go"] + HM,
 [("storing and loading the description of the map", "hashmap/hashmap.go"), ("open and close", "dict.go")])

prop("C05", "Range queries deliver exactly the keys between the bounds, in order",
 "An ascending range query delivers exactly the stored records whose keys lie between its two bounds (both inclusive, in either position stored or not), each once, with its current value, in ascending byte order; a descending query delivers the same records in descending order. "
 "If no stored key lies between the bounds, or the lower bound exceeds the upper, nothing is delivered.",
 ["inputs", "histories"], "all contents reachable by operations, all pairs of bounds (stored, absent, outside, equal, reversed, smallest- and largest-key marks)",
 "The tests query ranges between stored words and a few others; absent bounds at the border between pages are not sampled (two defects there were found and repaired).",
 ["ordereddict.go", "bptree/bptree.go", "bptree/iterator.go", "bptree/leaflist.go"],
 [("locating both ends of a range", "bptree/bptree.go"), ("walking the leaf list", "bptree/iterator.go")])

prop("C06", "Iterators read keys and values, whole or in parts, and end properly",
 "At each position, an iterator of an ordered dictionary that is not modified meanwhile reports the sizes of the current key and value, returns them whole, and copies the requested part of them (any offset, any buffer length) into the caller's buffer, reporting how much it copied and touching nothing behind it. "
 "It reports the end exactly after the last record of the range; from then on it stays at the end, advancing is harmless, and every read returns the end-of-data error and nothing else.",
 ["inputs", "histories"], "all contents, ranges, positions, offsets (past the end too), buffer lengths and orders of calls on the iterator",
 "Tests read whole records in one pass; partial reads of values stored partly outside a page have countless combinations of offset and length.",
 ["bptree/iterator.go", "bptree/key.go", "bptree/value.go", "ordereddict.go"],
 [("iterator state and end", "bptree/iterator.go"), ("reading a stored key in parts", "bptree/key.go"), ("reading a stored value in parts", "bptree/value.go")])

prop("C07", "Scanning an unchanged dictionary delivers every item exactly once",
 "A scan from a fresh cursor over a dictionary that is not modified meanwhile delivers every stored key exactly once, with its current value, and nothing else; then it reports the end, and repeating the call keeps reporting the end. "
 "This holds at every size, including the empty dictionary and sizes at which the dictionary has just grown or shrunk.",
 ["histories", "inputs"], "all contents reachable by operations",
 "The tests scan the word list at a few sizes; empty places, crowded ones and every number of slots are not covered.",
 ["dict.go"] + HM, [("cursor and slot walk", "hashmap/hashmap.go")])

prop("C08", "The file of an ordered dictionary always holds a sound B+ tree",
 "After any history, the tree in a closed file has all leaves at the same depth, keys in strictly ascending order and separators that lead to every key, one circular doubly linked list of the leaves in key order, no page or external key/value area used twice, stored counters that match, and exactly the content of the dictionary. "
 "Every page's content adds up to what its header implies and always leaves room for one more record (or child) of maximal in-page size, every page but the root is at least one third full, and every non-leaf has at least two children.",
 ["histories", "inputs"], "all histories of operations with any key and value sizes",
 "The tests never look at page contents; a tree can answer the tested queries while pages are overfull, unlinked or wrongly separated, and fail later (three such defects were found and repaired).",
 BT, [("splits", "bptree/bptree.go"), ("how much to shift or merge", "bptree/leaf.go"), ("how much to shift or merge, with separators", "bptree/nonleaf.go"), ("leaf list", "bptree/leaflist.go")],
 observe_at=["the file, decoded independently"])

prop("C09", "Statistics of an ordered dictionary are true",
 "At any time the statistics of an ordered dictionary report the exact number of stored records and the exact sum of the lengths of their keys and values, and a height and numbers of leaves and non-leaves which are those of the tree in the file. "
 "An empty dictionary reports no records, no payload, height one, one leaf and no non-leaves.",
 ["histories"], "all histories of operations, at every point",
 "The tests compare counters at the end of one history; replacements with other sizes, refused operations and every way of changing the height are not covered.",
 ["ordereddict.go", "bptree/bptree.go"], [("counters updated with each change", "bptree/bptree.go")])

prop("C10", "Statistics and load of a dictionary are true and bounded",
 "At any time the statistics of a dictionary report the exact number of stored items and the exact sum of the lengths of their keys and values, and numbers of slots and directories which are those in the file. "
 "After every operation the load (items per slot) is below 1.62, and at least half of that as soon as there is more than one slot; the directories hold all slots with at most one directory to spare.",
 ["histories"], "all histories of operations, at every point, across all growths and shrinkages",
 "The tests check the counters once; the growth and shrink thresholds and the directory boundaries (every 4096 slots, both directions) are not reached by small tests.",
 ["dict.go"] + HM, [("growth and shrinkage by load", "hashmap/hashmap.go"), ("directories", "hashmap/hashmap.go"), ("counters updated with each change", "hashmap/hashmap.go")])

prop("C11", "An ordered dictionary gives back all space it no longer needs",
 "At any time the space allocated in the file of an ordered dictionary is exactly what its pages, its description and the areas of its stored long keys and values occupy: replacing, removing, splitting and merging leak nothing and free nothing twice. "
 "After all keys are removed, only the space of an empty dictionary remains allocated.",
 ["histories", "inputs"], "all histories of operations with any key and value sizes",
 "Tests never account for space: a leak or double release shows only in the allocation map of the file.",
 ["ordereddict.go"] + BT + ["bptree/key.go", "bptree/value.go"],
 [("external areas of keys and values", "bptree/key.go"), ("external areas of keys and values", "bptree/value.go"), ("pages freed by merges", "bptree/bptree.go")],
 observe_at=["allocation statistics", "releasing everything the decoded tree refers to leaves nothing"])

prop("C12", "A dictionary gives back all space it no longer needs",
 "At any time the space allocated in the file of a dictionary is exactly what its description, directory table, directories and stored slots and values occupy: replacing, removing, growing and shrinking leak nothing and free nothing twice. "
 "After all keys are removed, only the space of an empty dictionary remains allocated.",
 ["histories", "inputs"], "all histories of operations with any key and value sizes",
 "Tests never account for space: a leak or double release shows only in the allocation map of the file.",
 ["dict.go"] + HM, [("slots stored anew", "hashmap/hashmap.go"), ("directories removed", "hashmap/hashmap.go")],
 observe_at=["allocation statistics", "releasing everything the decoded map refers to leaves nothing"])

prop("C13", "The caller's buffers and the dictionaries are independent",
 "No operation modifies the key and value slices it is given or the memory around them, and overwriting those slices after the call has no effect on the dictionary. "
 "Slices returned by operations, iterators and scans stay what they were whatever is done with the dictionary later (further changes, growth of the file, closing), and overwriting them or appending to them has no effect on the dictionary, on other slices that were returned, or on the items a scan is still to deliver.",
 ["histories", "inputs"], "all operations, sizes (in-page and external) and later histories",
 "Tests use fresh slices and compare results at once, so aliasing with the mapped file goes unnoticed.",
 ["dict.go", "ordereddict.go", "bptree/key.go", "bptree/value.go", "bptree/iterator.go", "hashmap/hashmap.go"],
 [("copies made of keys and values", "bptree/key.go"), ("copies made of values", "bptree/value.go"), ("copies made of items", "hashmap/hashmap.go")])

prop("C14", "Refused and read-only operations change nothing",
 "SetIfExists on an absent key, SetIfNotExists on a present one and Clear on an absent one report the refusal and, like Test, range queries, scans and statistics, change neither the content nor the statistics of a dictionary, its allocated space included.",
 ["histories", "inputs"], "all contents and all refused or read-only operations, in either kind of dictionary",
 "Tests check the flag of a refused operation but not that nothing else (counters, space, shape) moved.",
 ["dict.go", "ordereddict.go", "bptree/bptree.go", "hashmap/hashmap.go"],
 [("decision before any change", "bptree/bptree.go"), ("decision before any change", "hashmap/hashmap.go")])

prop("C15", "Opening takes what is there, creates only if asked, and keeps nothing open",
 "Opening a file that holds a dictionary succeeds whether or not creation is allowed; opening a path where nothing is makes an empty dictionary if creation is allowed and fails otherwise; opening a file that is empty, too short, cut off, of another format, or a directory, or below a missing directory, fails. "
 "A failed open returns an error and no dictionary, leaves the path as it was, and keeps no file descriptor and no mapping; closing releases every descriptor and mapping, and the file can be opened again.",
 ["fault_sequences", "configurations", "histories"], "all of these states of the path, with and without creation, in any sequence of opens and closes",
 "Tests open missing and valid files only.",
 ["dict.go", "ordereddict.go"], [("open, cleanup on failure, close", "ordereddict.go"), ("open, cleanup on failure, close", "dict.go")],
 observe_at=["/proc/self/fd, /proc/self/maps", "bytes at the path"])

prop("C16", "The smallest- and largest-key marks stand for the ends of the key order",
 "In a range query the smallest-key mark stands for the smallest stored key and the largest-key mark for the largest, as either bound, ascending or descending, so that the two marks together deliver everything. "
 "In Test, Clear and SetIfExists on a dictionary that is not empty they stand for that key, with the results of an operation on it; on an empty dictionary these operations are refused and ranges are empty. Ordinary keys that equal the marks' bytes are ordinary keys.",
 ["inputs", "histories"], "all contents, all combinations of marks and ordinary keys as bounds and arguments",
 "Tests use the two marks together for a full range only.",
 ["plainkv.go", "bptree/key.go", "bptree/bptree.go"], [("recognising the marks", "bptree/key.go"), ("comparing with the marks", "bptree/key.go")])

prop("C17", "Files stay readable: the documented format does not change silently",
 "Files written by the library at its current version (of either kind, of all key and value sizes, empty or large) are opened by it with exactly their content and can be worked on; and the files it writes decode to exactly the dictionary's content by the current format. "
 "A change that makes written files unreadable for the earlier version, or the earlier version's files unreadable, violates this.",
 ["configurations", "inputs", "histories"], "all files, written before and after a change, both directions",
 "Tests write and read with the same build, so a change of format that is consistent with itself passes.",
 ["bptree/bptree.go", "bptree/leaf.go", "bptree/nonleaf.go", "bptree/key.go", "bptree/value.go", "hashmap/hashmap.go", "hashmap/internal/protocol"],
 [("fields of pages and descriptions", "bptree"), ("slot messages and tables", "hashmap")])

prop("C18", "Structures that share a storage do not disturb each other",
 "Several B+ trees and hash maps living in one storage, and several dictionaries open at the same time, each behave as if alone: operations on one, including creating, storing, loading and destroying it, change nothing in another. "
 "Storing and loading a structure preserves it; a structure that is emptied and then destroyed leaves no space allocated behind.",
 ["histories", "configurations"], "all interleavings of histories of several structures in one storage or several files",
 "Tests use one structure per storage.",
 ["bptree/bptree.go", "hashmap/hashmap.go", "ordereddict.go", "dict.go"],
 [("create, destroy, store, load", "bptree/bptree.go"), ("create, destroy, store, load", "hashmap/hashmap.go")])

prop("C19", "The dump of a B+ tree shows the whole tree and reports write errors",
 "Dumping a B+ tree writes every record (key and value) once in key order and every separator, drawn in the shape of the tree, and returns no error if the writer returned none. "
 "If the writer fails, the dump returns that error and writes nothing afterwards; what it wrote before is the beginning of the full dump.",
 ["inputs", "fault_sequences", "histories"], "all trees reachable by operations, failures at any write",
 "Tests print dumps for people to read; failing writers are not tried.",
 ["bptree/fprint.go"], [("recursive drawing, error returns", "bptree/fprint.go")])

prop("C20", "A scan misses nothing while items are added or replaced",
 "If items are added or replaced, but none removed, between the calls of a scan, the scan still delivers every key that was stored when it began, before it reports its end. "
 "Whatever happens between the calls, removals included, a scan delivers only keys of the dictionary with values which they had at some moment since it began, and it ends unless the dictionary keeps growing.",
 ["schedules", "histories"], "all interleavings of scan calls of several cursors with operations",
 "Tests scan only dictionaries at rest; growth moves items between the calls.",
 HM + ["dict.go"], [("cursor keeps the items of the slot it is in", "hashmap/hashmap.go"), ("growth moves items to higher slots only", "hashmap/hashmap.go")])

prop("C21", "The file of a dictionary always holds a sound hash table",
 "After any history, the table in a closed file has each item in the slot that the hash of its key selects at the stored number of slots, every key once, the stored hash of every item correct, no area used twice, and stored counters that match; its content is exactly that of the dictionary. "
 "The stored numbers of slots and directories, the level and the size of the directory table fit each other.",
 ["histories", "inputs"], "all histories of operations with any key and value sizes",
 "The tests never look at the file; an item in a wrong slot shows only when a later operation looks for it or moves it.",
 HM + ["hashmap/internal/protocol"], [("slot selection, split, merge", "hashmap/hashmap.go"), ("directories", "hashmap/hashmap.go")],
 observe_at=["the file, decoded independently"])

for p in P:
    assert len(p["title"]) <= 80, p["id"]
with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
