"""The properties: writes properties.jsonl and MANIFEST.json."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB, ITER, RLE = "src/lib.rs", "src/iter.rs", "src/rle.rs"
ORD, ROPE, GAP, LENF = ("src/generic_impl/%s.rs" % x for x in ("ord", "rope", "gap_buffer", "len_finder"))


def m(name, where):
    return {"name": name, "where": where}


P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": mech, "state": list(state), "observe_at": observe, "hook_needed": None}})


HI = ["histories", "inputs"]
prop("P01", "Inserting splices content at exactly the requested position",
     "After inserting an element at a position (given as a cursor in any of its equivalent forms, or by a length query), reading the "
     "sequence yields everything that was before the position, then the new content, then everything that was after it, unit by unit with "
     "unchanged payload. This holds whether the element merges into a neighbour, is absorbed, splits an existing element or splits nodes up to the root.",
     HI, "every tree shape, element lengths, position, cursor form and mergeability of the new element",
     "The tests insert at random or fixed positions into a few trees; the split at a full node, a merge with the right neighbour and a cursor at an element's end need specific combinations of fill level, offset and mergeability.",
     [LIB, ITER], [m("insert_by_path", LIB), m("insert", LIB), m("split_leaf_if_needed", LIB), m("split / split_node / split_root", LIB)],
     ["BTree::iter after BTree::insert / insert_by_path"])
prop("P02", "Draining a range removes and yields exactly that range",
     "Draining a range yields exactly the content of the range in order, and afterwards the sequence is the content outside the range in its old order. "
     "The tree ends up the same however much of the drain is consumed before it is dropped, and for every cursor form of either end.",
     HI, "every start and end position, tree shape and amount consumed",
     "Boundary elements, emptied nodes and two-sided underflow at different levels meet only for particular ranges in particular trees; tests drain a handful of ranges.",
     [ITER, LIB], [m("Drain", ITER), m("seal, handle_lack_on_path_to_leaf", ITER), m("handle_lack_recursively", LIB)],
     ["items of BTree::drain / drain_by_query; BTree::iter afterwards"])
prop("P03", "Removing one element removes it and nothing else",
     "Removing the element a live handle addresses returns that element and leaves every other element in place and in order, whatever rebalancing follows. "
     "Removing it again returns nothing and changes nothing.",
     HI, "every tree shape, element and short sequence of removals",
     "Borrowing from and merging with either sibling, at several levels, and losing a level of the tree depend on the exact fill of neighbouring nodes.",
     [LIB], [m("remove_leaf", LIB), m("handle_lack_recursively / handle_lack_single_layer", LIB), m("try_reduce_levels", LIB)],
     ["result of BTree::remove_leaf; BTree::iter afterwards"])
prop("P04", "Stored aggregates always equal the aggregates recomputed from the content",
     "After every public operation the aggregate of the whole tree and the aggregate stored for every subtree equal the combination of the aggregates of the elements below them. "
     "This holds for trees that maintain aggregates by differences and for trees that recompute them.",
     ["histories", "inputs", "configurations"], "every operation with every argument on every tree shape, for both ways of maintaining aggregates",
     "A stale aggregate is silent until a later query happens to be steered by it; the tests check a few histories.",
     [LIB, ITER], [m("recursive_update_cache", LIB), m("update_dirty_cache_map", LIB), m("update_root_cache", LIB), m("split_node, handle_lack_*", LIB)],
     ["BTree::root_cache; the child aggregates a query is shown"], [{"name": "cache", "meaning": "aggregate of a subtree", "where": LIB}])
prop("P05", "Locating a position finds the unit at that position",
     "In every reachable tree, locating a position inside the sequence succeeds and leads to the element and offset holding exactly that unit, locating the end leads to the end, and an empty tree locates nothing. "
     "The aggregates reported as preceding the located cursor add up to the position and to the weight before it, and a range query locates both its ends the same way. "
     "A result is marked as found exactly when every step of the search found its child, so a position past the end and a rejecting finder are reported as not found.",
     HI, "every position in every reachable tree", "Tests look up a few positions in a few trees; an off-by-one at an element or node boundary needs the boundary to be hit.",
     [LIB, LENF], [m("query / query_with_finder_return / range", LIB), m("LengthFinder", LENF), m("visit_previous_caches", LIB)],
     ["BTree::query, BTree::range, BTree::visit_previous_caches"])
prop("P06", "Iteration and range iteration yield exactly the content, in order",
     "Iterating yields every element once from left to right, and iterating a range yields exactly the content between its two cursors, in order, with cursors that lead to the yielded elements. "
     "This holds for all bound kinds and for every equivalent form of the bounding cursors; an end that is excluded and lies at the start of an element does not yield that element.",
     HI, "every pair of positions, bound kind and cursor form, in every tree shape",
     "First and last elements, single-element ranges and ranges starting at an element's end are combinations a few tests do not reach.",
     [LIB, ITER], [m("iter, iter_range, _iter_range", LIB), m("Iter", ITER)], ["items of BTree::iter and BTree::iter_range"])
prop("P07", "A batch insertion equals inserting its elements one after another",
     "Inserting a batch at a cursor (or into an empty tree) yields the old content up to the cursor, then the batch in order, then the rest, for batches of any size including none. "
     "Structure and aggregates are valid afterwards, whether or not elements of the batch merge with each other or with their surroundings.",
     HI, "batch sizes up to the bound, every position and mergeability pattern",
     "The batch path chooses between three strategies by size and builds subtrees of varying height; merges at the seams need particular patterns.",
     [LIB], [m("insert_many_by_cursor", LIB), m("create_subtrees_from_elem", LIB), m("merge_adj", LIB)], ["BTree::iter after BTree::insert_many_by_cursor"])
prop("P08", "A range update changes exactly the range",
     "Updating a range applies the change to exactly the units inside it, once, and leaves every other unit untouched and in place, splitting elements at the range's ends as needed. "
     "Elements the update empties disappear, and structure and aggregates are valid afterwards.",
     HI, "every start and end, cursor form and effect (change, empty, nothing)", "Needs ends inside the same element, at element ends and across nodes, combined with emptied leaves at both ends.",
     [LIB], [m("update", LIB), m("update_dirty_cache_map", LIB), m("filter_deleted_children", LIB)], ["BTree::iter after BTree::update"])
prop("P09", "A single-element update has exactly the requested effect",
     "Updating one element through its handle or through a search applies the change to exactly that element, places up to two further elements directly after it in order, and removes it when left empty. "
     "Structure and aggregates are valid afterwards and the result tells whether the element is still there.",
     HI, "every element, position, way of splitting and emptying, and tree shape", "The combinations of emptied element, no, one or two new neighbours and full or underfull node are many, and each runs different code.",
     [LIB], [m("update_leaf", LIB), m("update_leaf_by_search", LIB)], ["results of BTree::update_leaf / update_leaf_by_search; BTree::iter afterwards"])
prop("P10", "Annotating several ranges at once applies each to exactly its range",
     "Applying a batch of annotations, each to a range within one element, changes exactly the units of each range by each annotation covering them, overlapping or not, and keeps the order of the units. "
     "Structure and aggregates are valid afterwards.",
     HI, "every choice of elements, sub-ranges and overlaps within the bound", "Tests use few hand-written ranges; overlaps, shared ends and several ranges in one element interact through splitting.",
     [LIB], [m("update_leaves_with_arg_in_ranges", LIB)], ["BTree::iter after BTree::update_leaves_with_arg_in_ranges"])
prop("P11", "Cursor order and navigation agree with the sequence order",
     "Comparing two cursors orders them as their positions in the sequence; stepping to the next or previous element, moving by one position, switching to the left or right form of a cursor, and the first and last element all agree with left-to-right order. "
     "Navigation ends exactly at the ends of the sequence.",
     HI, "every pair of cursors in every reachable tree", "Parent links and slots must be right in every node after every rebalancing; a wrong one shows up only for cursors below that node.",
     [LIB], [m("compare_pos", LIB), m("next_elem / prev_elem", LIB), m("shift_path_by_one_offset, prefer_left, prefer_right", LIB)],
     ["BTree::compare_pos, next_elem, prev_elem, first_leaf, last_leaf, shift_path_by_one_offset, prefer_left, prefer_right"],
     [{"name": "parent, parent_slot", "meaning": "upward links", "where": LIB}])
prop("P12", "A tree built from a sequence holds exactly that sequence and stays usable",
     "Building a tree from any sequence of elements yields those elements in order with valid structure, aggregates and navigation, for every length. "
     "Every operation on a tree built this way behaves as on one built by insertions.",
     ["inputs"], "every length up to the bound, and every following operation at every position", "Remainders of the group size at every level are separate cases; tests build a few sizes.",
     [LIB], [m("FromIterator", LIB)], ["collect::<BTree>()"])
prop("P13", "A rope behaves like a string",
     "After any sequence of insertions, deletions (with any kind of range) and clears, a rope reads back as the string those edits produce and reports its length. "
     "The rope's internal consistency check accepts it.",
     HI, "edit sequences within the bound, every position", "The rope caches its last edit position and edits gap buffers in place; a stale cached position shows only for particular consecutive edits.",
     [ROPE, GAP, LIB], [m("insert, delete_range, clear", ROPE), m("GapBuffer", GAP)], ["Rope::to_string, Rope::len"])
prop("P14", "The ordered map and set behave like a sorted map and set",
     "After any sequence of insertions and deletions, the ordered map holds exactly the keys inserted and not deleted since, each with its latest value, in strictly increasing order, and reports the matching length; the set does likewise. "
     "Deleting returns the entry exactly when the key was present.",
     HI, "every sequence of keys (full 64-bit) and operations within the bound", "Tests compare with a handful of random runs; a wrong comparison at a node boundary needs a key falling between two nodes.",
     [ORD, LIB], [m("insert, delete", ORD), m("OrdTreeFinder-style query", ORD)], ["OrdTreeMap / OrdTreeSet API"])
prop("P15", "The tree stays a well-formed B-tree of logarithmic depth",
     "After every operation all elements are at the same depth, no node exceeds the maximum fan-out, no node is empty, no empty element remains, every stored node is reachable and parent links match. "
     "Growing a tree by insertions and shrinking it by removals, drains or updates keeps its depth logarithmic in the number of elements; no root sits above a single internal node.",
     HI, "every operation with every argument on every tree shape; long insertion sequences", "Malformed nodes are silent until a later operation meets them.",
     [LIB, ITER], [m("split_at / split_root", LIB), m("handle_lack_*", LIB), m("try_reduce_levels", LIB), m("purge", LIB)], ["BTree::node_len, depth, and the child tables a query is shown"])
prop("P16", "Handles to elements stay valid until their element goes away, and never alias",
     "A handle keeps leading to the element it was taken for across every operation as long as that element's first unit is in the tree, wherever rebalancing moves it. "
     "Once the element is removed the handle leads to nothing, and it never comes to address a different element, except after clearing the whole tree.",
     HI, "every handle across every operation and short sequences that reuse freed slots", "A handle that is silently retargeted needs removal, slot reuse and a later look-up to meet.",
     [LIB, ITER], [m("generational arenas, alloc_new_leaf, purge", LIB)], ["BTree::get_elem"])
prop("P17", "Operations report every element they create and where new content landed",
     "Every element that an insertion or update creates beside the ones it was given is reported to the caller, and nothing else is reported as new. "
     "The cursor an insertion returns points at the first unit of the inserted content.",
     HI, "every insertion and update at every position in every tree shape", "Callers keep side tables by handle; a missed report corrupts them silently and only for particular splits.",
     [LIB], [m("SplittedLeaves", LIB), m("insert_by_path, update, update_leaf*, update_leaves_with_arg_in_ranges", LIB)], ["returned cursors and reported leaves"])
prop("P18", "A clone is independent of its original",
     "A cloned tree holds the same content under the same handles, and no operation on either of the two changes the other. "
     "Both remain fully usable.",
     HI, "every operation at every position on either copy", "Shared state would show only for operations touching it.", [LIB], [m("Clone for BTree", LIB)], ["BTree::clone"])
prop("P19", "Slicing helpers cut elements exactly",
     "Slicing an element by any kind of range gives exactly the units inside it, splitting gives two parts that concatenate to the whole, and updating a part changes exactly that part. "
     "No empty pieces are produced by a partial update.",
     ["inputs"], "all lengths and bounds up to 2^32, all bound kinds", "Inclusive and exclusive bounds at the extremes are easily missed by examples.",
     [RLE], [m("Sliceable::slice, slice_, split, update_with_split", RLE)], ["Sliceable's provided methods"])
prop("P20", "Filtered traversal visits exactly the accepted elements",
     "Traversing with a filter over aggregates yields exactly the elements accepted all the way down, in order, each with the accumulated value of everything to its left. "
     "The updating form visits the same elements once each, hands out their stored aggregates once, and leaves the others alone.",
     HI, "every threshold and tree shape", "Skipping a subtree must still account for it; tests do not cover filters on deep trees.",
     [LIB], [m("iter_with_filter, update_cache_and_elem_with_filter", LIB)], ["BTree::iter_with_filter, update_cache_and_elem_with_filter"])
prop("P21", "Degenerate requests are harmless",
     "On an empty tree, for empty ranges, empty batches and unknown handles, every operation with a documented answer gives it without panicking and leaves the tree valid. "
     "Content, structure and aggregates are unchanged by requests that ask for nothing.",
     HI, "every such request on every small tree shape and every position", "Tests rarely exercise empty trees and empty ranges at ends and boundaries.",
     [LIB, ITER], [m("early returns in drain, update, insert_many_by_cursor, iter_range, ...", LIB)], ["the whole BTree API"])
prop("P22", "Pushing and prepending add at the ends",
     "Pushing adds the element after everything else and prepending adds it before everything else, merged or not, in empty, small, full and multi-level trees. "
     "Structure and aggregates are valid afterwards and every position can still be located.",
     HI, "every tree shape and interleaving of pushes and prepends within the bound", "The two have their own code paths beside the general insertion; splits at the edges of a tree need full edge nodes.",
     [LIB], [m("push, prepend", LIB)], ["BTree::push, BTree::prepend"])
prop("P23", "The built-in consistency check accepts every reachable tree",
     "The tree's own consistency check succeeds after every sequence of public operations. "
     "A user who calls it as an assertion never sees it fail.",
     HI, "every operation with every argument on every tree shape", "Tests call it after a few histories only.", [LIB], [m("check", LIB)], ["BTree::check"])
prop("P24", "In-place changes followed by a refresh leave all aggregates exact",
     "After changing an element through a mutable reference and asking the tree to refresh the aggregates above it - recomputed, by a given difference, or by a derived difference - every aggregate on the way to the root is exact. "
     "Content, handles and structure are otherwise untouched.",
     HI, "every element of every tree shape, every kind of refresh, for both ways of maintaining aggregates", "A missed level shows only in trees deep enough and for elements below it.",
     [LIB], [m("get_elem_mut, recursive_update_cache", LIB)], ["BTree::get_elem_mut, BTree::recursive_update_cache, BTree::root_cache"])
prop("P25", "One operation does work proportional to the depth, not to the size",
     "Locating, inserting, removing or updating one element, navigating from it, and operations on a range of a few elements consult a number of aggregates and elements bounded by a small multiple of fan-out times depth, however large the tree is. "
     "Building a tree from a sequence consults a number proportional to its length, and the ordered map finds a key with logarithmically many comparisons.",
     HI, "every kind of operation at every position of large trees", "A test on small inputs passes whether an operation touches one path or the whole tree; benchmarks are not run as checks.",
     [LIB, ITER, ORD], [m("recursive_update_cache, update_dirty_cache_map, update_root_cache", LIB), m("handle_lack_*", LIB), m("query", LIB), m("FromIterator", LIB)],
     ["calls of the user's BTreeTrait, UseLengthFinder and Ord implementations"])
prop("P26", "Searches by other aggregates agree with a scan",
     "In every reachable tree a search guided by a user-defined aggregate, such as a running total of weights or a maximum, ends at the element and offset where a left-to-right scan of the elements stops, and reports not found exactly when the scan finds nothing. "
     "That holds for searches that may miss in the middle of the sequence and for ones that prefer the end of an element to the start of the next. "
     "A range given by two such searches ends at those places, an insert puts its element there, a drain removes exactly what lies between them, and a search-and-update is handed that element.",
     HI, "every target in every reachable tree, for sums and for maxima", "The repository's tests search by length only; a stale or miscombined aggregate misleads only searches that depend on it.",
     [LIB], [m("query, range, insert, drain_by_query, update_leaf_by_search", LIB), m("calc_cache, update_cache, recursive_update_cache", LIB)],
     ["BTree methods that take a user-defined Query"])

NOTE = ("Within the bounds in the evidence file (tree shapes, leaf lengths, operation sequences) the assertion holds for every value of the symbolic "
        "inputs on every path of the compiled code; nothing is claimed beyond them. Trusts rustc/LLVM, the symbolic executor in /verif/engine "
        "(sampled paths are compared with native runs on every check) and Z3. Counterexamples are replayed natively before they are reported.")
TECH = "symbolic execution of the crate's LLVM IR with Z3 deciding every branch and assertion (bounded), native replay of counterexamples"


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 lib/build.py",
        "hooks": {"guard": "none: the checks use only the public API", "enable": "nothing to enable", "source_commits": []},
        "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} quick", "thorough_cmd": f"python3 run.py {p['id']} thorough",
                    "technique": TECH, "level": "model_checking", "level_note": NOTE} for p in P],
        "not_applicable": [],
        "notes": "See DESIGN.md. KNOWN-FINDINGS.txt lists the defects found and fixed.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
