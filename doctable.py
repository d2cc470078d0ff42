"""The properties: what should hold, for whom, where it is anchored. NA: those no check decides, with the reason."""
MTV = ["include/mdds/multi_type_vector/soa/main_def.inl", "include/mdds/multi_type_vector/aos/main_def.inl"]
ALL = ["inputs", "histories"]
P = []
NA = {
    "X02": "The nested loops advance through the blocks of two stores of different shape at once; the invariants that relate block ends, column ends and the copied prefix are not linear in the "
           "quantities our domains track (products of rows and columns meet positions of both stores). The analysis in rules/mtxrun.py explores them without finding invariants for all of them, so no sound verdict is in reach; "
           "one defect it pointed at (walk ranges ending past the matrix) was confirmed and fixed.",
    "Q02": "Removal picks a replacement node by distance, cuts subtrees along several paths and inserts them again, so the tree changes shape during recursions over it; the one-step invariant used for Q01 (the region "
           "behind each link) does not hold in between, and no shape domain in reach restores it. The property is in fact broken on this tree (see Open defects in DESIGN.md); the repair means replacing the algorithm and is not small.",
    "T01": "Whether a lookup or prefix search finds exactly the matching keys depends on a tree of maps whose depth is the length of the key, traversed with an explicit stack whose content must be related to the whole path from "
           "the root; relating the stack, the key buffer and the path needs quantified invariants over sequences that our relational domains do not express.",
    "T02": "The packed form encodes children by byte distances inside one array built bottom-up; that a distance leads back to the node it was computed for is an invariant over the whole array content (a quantified heap "
           "property of stored offsets), and the saved form adds stream contents. A sound static argument for all tries is out of reach.",
    "R01": "Insertion with splitting, forced reinsertion and removal with condensation rearrange subtrees along a path while sorting and distributing children by floating or integer areas; the invariants (every extent is the "
           "bounding box of what is below, counts stay within limits) hold only between operations, and restoring them is argued over sets of children of unbounded size that our heap domain cannot follow.",
    "C01": "The position of a collection iterator is a function of several containers at once (which vector, which of its blocks, which offset), each stepped by its own iterator; the invariant that ties them is relational "
           "over an unbounded array of iterator pairs, which neither our block-table domain (one container) nor our sequence domain (one array of scalars) expresses.",
}


def p(id, title, statement, quant, why, files, mech, over=ALL):
    P.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, over=over))


WHY = ("The tests drive a few hand-written block layouts; the outcome depends on the types and sizes of the neighbouring blocks, where a range "
       "starts and ends inside them and whether the first, last or only block is involved, which multiply into far more layouts than any test lists.")
Q = "every container reachable by any history (any number, sizes and types of blocks), both storage layouts, every position, range, value and hint"

p("M01", "Every multi_type_vector edit yields exactly the specified element sequence",
  "After any editing call (set, insert, push/emplace back, set or insert empty, erase, resize, clear, transfer, swap, release) that returns normally, "
  "the container's elements, in order, are exactly those a plain sequence would hold after the same edit, and the reported size is that sequence's length. "
  "The same holds for the second container of transfer and swap, and elements outside the edited range are untouched.",
  Q, WHY, MTV, [("public editing operations and their *_impl helpers", "soa/main_def.inl, aos/main_def.inl")])
p("M02", "Blocks always tile the vector: contiguous, non-empty, neighbours differ",
  "At every return the blocks of a multi_type_vector cover the logical range with no gap or overlap, each block's start is the end of the one before, no block is "
  "empty of positions, no two neighbouring blocks have the same element type, and every element block stores exactly as many elements as its block is long. "
  "Iteration, position lookup and block counts rely on it.",
  Q, WHY, MTV, [("block positions/sizes/element blocks updates, merge_with_*", "soa/main_def.inl, aos/main_def.inl")])
p("M03", "Each managed element and element block is freed exactly once or handed over",
  "For every edit, each element block and each owned (managed) element that was stored is afterwards either still stored in exactly one place, handed to the caller, "
  "or destroyed exactly once. Nothing is leaked, destroyed twice, or destroyed while still stored; release operations never destroy what they release.",
  Q, WHY + " Double destruction or leaks only show for managed types in particular merge paths.", MTV,
  [("overwrite_values / resize_block(0) before delete_element_block discipline", "soa/main_def.inl, aos/main_def.inl"), ("element_block_funcs", "include/mdds/multi_type_vector/block_funcs.hpp")])
p("M04", "Block acquired/released notifications mirror the blocks a container holds",
  "The event handler of a container hears of an element block being acquired exactly once when the container starts to hold it and of its release exactly once when it stops, "
  "so a handler that keeps the set of blocks always agrees with the container. For transfer and swap each of the two handlers hears about its own container.",
  Q, "The event tests count notifications on a few edits; a missing, doubled or misdirected notification in one merge path is invisible elsewhere.", MTV,
  [("m_hdl_event.element_block_acquired / released calls", "soa/main_def.inl, aos/main_def.inl")])
p("M05", "Returned iterators designate the block holding the edited position",
  "Each editing call that returns an iterator returns a dereferenceable iterator (or the end iterator where documented) to the block that contains the position the documentation "
  "names, with that block's current type, start, size and data. Using it as the hint of the next call is therefore valid.",
  Q, WHY + " A wrong block index is only visible when the edit merges with a neighbour.", MTV, [("get_iterator(block_index) returns", "soa/main_def.inl, aos/main_def.inl")])
p("M06", "Out-of-range calls are rejected before anything changes, valid ones never",
  "A call whose positions lie outside the container, or whose range is reversed, throws and leaves every involved container unchanged (no element, size, ownership or notification effect). "
  "A call whose arguments are in range never fails for reasons of position, with or without a position hint.",
  Q + ", including positions beyond the end and reversed ranges", "Tests probe a few bad arguments per method; the checks differ between overloads and some run after state has been modified.", MTV,
  [("get_block_position and range checks", "soa/main_def.inl, aos/main_def.inl")])
p("M07", "Reads report the addressed element: value, type, emptiness, position, sizes",
  "get, get_type, is_empty, position (with and without hint), release with value, size, block_size and empty report exactly the element or count at the given position for any container state and any valid hint, "
  "and reading changes nothing.",
  Q, "The block search and the hint walk depend on the whole layout and on the hint; tests use a few.", MTV, [("get_block_position (both overloads), get_impl, release_impl", "soa/main_def.inl, aos/main_def.inl")])

FST = ["include/mdds/flat_segment_tree.hpp", "include/mdds/flat_segment_tree_def.inl"]
FQ = "every tree reachable by any history (any number of segments, keys, values), every key range, value and starting iterator"
FW = ("Every edit links, splits, merges and drops leaf nodes depending on where its range falls relative to existing segments and on which neighbouring values coincide; "
      "tests walk a few fixed layouts.")
p("F01", "Each flat_segment_tree edit gives exactly the specified key-to-value map",
  "After insert_front, insert_back, insert with a start position, shift_left, shift_right or clear, every key of the tree's range maps to the value the specification gives it: "
  "the inserted value inside the (clipped) inserted range, the shifted or default value where a shift moved things, and its old value everywhere else. Reversed or non-overlapping ranges change nothing.",
  FQ, FW, FST, [("insert_segment_impl, insert_to_pos, shift_left, shift_right and shift helpers", "flat_segment_tree_def.inl"), ("append_new_segment, shift_leaf_key_*", "flat_segment_tree.hpp")])
p("F02", "The leaf list stays a doubly linked chain between two fixed end nodes",
  "After every edit the leaves of a flat_segment_tree form one chain from the left-most to the right-most leaf in which next and previous links mirror each other, keys strictly increase, "
  "the two end leaves keep their keys, and dropped leaves are released (no cycle of owning links keeps them alive). No edit follows a null link.",
  FQ, FW + " A one-sided link or an ownership cycle shows only in backward iteration or as a leak.", FST, [("link_nodes, disconnect_all_nodes and the splicing code of each edit", "flat_segment_tree_def.inl, node.hpp")])
p("F03", "Adjacent flat_segment_tree segments always carry different values",
  "If no two neighbouring segments have equal values before an edit, none have after it: edits merge equal neighbours. Equality of trees, leaf_size and segment iteration rely on this canonical form.",
  FQ, FW, FST, [("merging of equal neighbours in insert_segment_impl, shift_left, append_new_segment", "flat_segment_tree_def.inl, flat_segment_tree.hpp")])
p("F04", "Changing the leaves of a flat_segment_tree always marks its search tree invalid",
  "Whenever an edit adds, removes or moves a key of the leaf list, the tree is marked invalid, so search_tree refuses to answer from a stale tree until build_tree is called again.",
  FQ, "A forgotten flag only shows when a tree was built, then edited in that particular way, then searched.", FST, [("m_valid_tree = false in every edit", "flat_segment_tree_def.inl, flat_segment_tree.hpp")])
p("F05", "flat_segment_tree insertions return the inserted segment and a truthful flag",
  "The iterator returned by an insertion designates the leaf where the inserted (clipped) value now starts as documented, and the flag is true exactly when the map changed.",
  FQ, FW + " Tests check the returned position in few of the merge cases.", FST, [("return values of insert_to_pos / insert_segment_impl", "flat_segment_tree_def.inl")])
p("F06", "Leaf searches report exactly the segment that contains the key",
  "search by key, search from a starting position, the value/start/end reporting overloads and find report the segment [start, end) that contains the key and its value, for any starting iterator, "
  "and report failure exactly for keys outside the range; searching modifies nothing.",
  FQ, "The result depends on where the walk starts relative to the key; tests start it before the key only.", FST, [("search, search_impl, search_by_key_impl, get_insertion_pos_leaf", "flat_segment_tree_def.inl")])

BLK = ["include/mdds/multi_type_vector/types.hpp", "include/mdds/multi_type_vector/block_funcs.hpp", "include/mdds/multi_type_vector/delayed_delete_vector.hpp"]
p("F07", "flat_segment_tree tree searches find the segment that contains the key",
  "After build_tree, search_tree (both forms) of a flat_segment_tree succeeds exactly for keys in [min_key, max_key) and designates the leaf whose segment contains the key, with that segment's value, start and end; "
  "on a tree that was never built or is out of date it always reports failure.",
  "every tree of any number of segments, every key", "Whether the last inner node of a level has one child or two depends on the number of leaves at every level; tests build a handful of trees.",
  FST + ["include/mdds/node.hpp"], [("build_tree, search_tree, search_tree_for_leaf_node", "flat_segment_tree_def.inl"), ("tree_builder, count_needed_nonleaf_nodes, connect_nodes", "node.hpp")])
p("G01", "segment_tree queries report exactly the segments that contain the point",
  "After build_tree, search(p) on a segment_tree reports every stored segment with start <= p < end exactly once and no other, with the start, end and value it was inserted with; insert rejects exactly empty or reversed segments and "
  "makes the tree out of date; search on a tree that is out of date reports nothing; erase through a result removes that segment, and only it, from the store and from later queries; results can be walked in both directions and counted.",
  "every set of segments (any number, overlaps, duplicates, shared end points), every point, every erasure",
  "Which nodes a segment marks depends on how its ends fall among all other ends and on whether each level of the tree has an odd number of nodes; tests use a few dozen fixed segments.",
  ["include/mdds/segment_tree.hpp", "include/mdds/segment_tree_def.inl", "include/mdds/node.hpp"],
  [("build_tree, create_leaf_node_instances, insert, search, erase, remove_data_from_chains", "segment_tree_def.inl"), ("descend_tree_mark, descend_tree_for_search, tree_builder, fill_nonleaf_value_handler, init_handler", "segment_tree_def.inl, node.hpp")])
p("E01", "Element-block operations store, move, copy, compare and free the right elements",
  "Every element-block operation (set/get/append/prepend/insert/assign values, create, copy, clone, resize, erase, append/assign/prepend from another block, swap values, compare, overwrite, destroy), for default, managed and "
  "noncopyable managed blocks over both element stores, leaves in the blocks exactly the elements its name stands for at exactly the given positions; a copy is independent; managed elements are destroyed exactly by block destruction and overwrite_values; "
  "blocks are equal exactly when sizes and all elements are.",
  "every block length and content, every position, length and value within the precondition, both element stores, copyable/managed/noncopyable element types",
  "Tests reach these functions only through containers with a few elements; off-by-one lengths, wrong source offsets or a hidden front offset in the delayed store show only for particular lengths and earlier erasures.",
  BLK, [("element_block, copyable/noncopyable/default/managed blocks", "types.hpp"), ("element callbacks", "MDDS_MTV_DEFINE_ELEMENT_CALLBACKS in types.hpp, macro.hpp")])
p("E02", "Each block operation is dispatched to the block's own element type",
  "For every operation of element_block_funcs and every registered element type, the function called is the one of the block type registered under the block's own type id, it receives the caller's arguments unchanged and its result is returned; "
  "an unregistered type raises an error, blocks of different types compare unequal, and is_copyable reports exactly the copy-constructible types.",
  "every operation, every registered element type, every argument", "A wrong or missing entry concerns one operation of one type; the tests use few of the combinations, and swapped arguments of equal type compile.",
  ["include/mdds/multi_type_vector/block_funcs.hpp"], [("func_map tables and find_func", "block_funcs.hpp")])
p("E03", "delayed_delete_vector behaves as std::vector whatever was erased before",
  "For every operation of delayed_delete_vector (construction, copy, move, assignment, swap, insertion, erasure, resize, reserve, shrink, assign, element access, iteration in both directions, comparison, size), with any number of hidden erased "
  "front elements in any operand, the visible elements, the returned positions and the size are those of a std::vector after the same calls.",
  "every content, every number of hidden front elements in each operand, every position, count and value", "The hidden front offset is non-zero only after front erasures; tests rarely combine them with the other operations.",
  ["include/mdds/multi_type_vector/delayed_delete_vector.hpp"], [("m_front_offset handling", "delayed_delete_vector.hpp")])
p("E04", "Position adjustment shifts exactly the blocks from the start index on",
  "For every loop-unrolling factor and SIMD variant (none, lu4-lu32, SSE2, AVX2) and both storage layouts of multi_type_vector, adjusting block positions by delta from a start block adds delta to the position "
  "of every block from that index to the last one, for any number of blocks, and changes no other position and no other field; a start at or past the end changes nothing.",
  "any number of blocks, any start index, any delta, every unrolling factor", "The default factor is 16-fold unrolled, so a main-loop or remainder fault needs 16 or more blocks behind the edit; several variants are never instantiated by the tests.",
  ["include/mdds/multi_type_vector/soa/block_util.hpp", "include/mdds/multi_type_vector/aos/block_util.hpp"], [("adjust_block_positions", "soa/block_util.hpp, aos/block_util.hpp")])
p("X01", "multi_type_matrix calls touch exactly the cells they name",
  "For every matrix size: get, get_type, position and the other accessors report the cell (row, column) they are asked for, converting numeric, integer and boolean cells as documented; set, set_row, set_column, set_empty, set_row_empty and set_column_empty "
  "(single cells, runs of a column, rows and columns, by position or by iterators) change exactly the cells named; copy from a sequence of values fills exactly the named part; transpose exchanges (r, c) with (c, r) for every element type; "
  "walk over a whole matrix visits every cell once; numeric, size and empty report the truth.",
  "every number of rows and columns, every content, every cell, range and value type",
  "Cells live in one column-major multi_type_vector; wrong strides, swapped dimensions or off-by-one ends show only for non-square sizes, particular ranges or element types.",
  ["include/mdds/multi_type_matrix.hpp", "include/mdds/multi_type_matrix_def.inl"], [("get_pos, set_*, copy from a sequence, transpose, walk", "multi_type_matrix_def.inl, multi_type_matrix.hpp")])
p("X02", "multi_type_matrix copy, resize and walks over ranges keep cells in place",
  "copy(matrix) and resize keep every cell of the common part with its type and value and fill the rest as documented; walk over a range, or over two matrices at once, visits exactly the cells of the range, in order, each once, "
  "and rejects ranges outside either matrix.",
  "every pair of matrix sizes, every content and range", "The loops cut blocks of one store along the column boundaries of another; faults depend on where blocks end relative to columns.",
  ["include/mdds/multi_type_matrix.hpp", "include/mdds/multi_type_matrix_def.inl"], [("copy, resize, walk (range and two-matrix forms)", "multi_type_matrix_def.inl")])
p("Q02", "Removing a point from a quad tree keeps every other point",
  "remove(x, y) takes exactly the point at (x, y) out of the tree, if there is one; every other point stays findable with its value, and searches and size agree with that.",
  "every tree shape and every node that is removed (root, inner, leaf)", "Which nodes hang below the removed one and in which quadrants decides what has to be inserted again.",
  ["include/mdds/point_quad_tree.hpp"], [("remove, insert_node, clear_all_nodes", "point_quad_tree.hpp")])
p("T01", "trie_map finds exactly the keys that were inserted, alone and by prefix",
  "insert, erase, find, prefix_search, size and iteration of trie_map agree with an ordered map of the keys: every key is found with its last value, prefix_search yields exactly the keys with the prefix in order, erasing one key "
  "keeps all others (also those it is a prefix of).",
  "every set of keys (prefixes of each other, empty key, any length) and every order of insertion and erasure", "Keys that are prefixes of each other share nodes; erasure decides which of them may go.",
  ["include/mdds/trie_map.hpp", "include/mdds/trie_map_def.inl", "include/mdds/trie_map_itr.hpp"], [("insert, erase, find, prefix_search, iterators", "trie_map_def.inl, trie_map_itr.hpp")])
p("T02", "packed_trie_map holds what it was built from and survives saving and loading",
  "A packed_trie_map built from a sorted list or a trie_map finds exactly its keys with their values, alone and by prefix; load_state(save_state(m)) equals m.",
  "every set of keys and values, every value serializer", "Child positions are stored as distances in one array; an error shows only for particular shapes and sizes.",
  ["include/mdds/trie_map.hpp", "include/mdds/trie_map_def.inl"], [("compact, find, prefix_search, save_state, load_state", "trie_map_def.inl")])
p("R01", "rtree keeps every value findable and its extents exact",
  "After any history of insert, bulk load and erase, search (overlap or match) reports exactly the stored values whose extents satisfy it, every directory extent is the bounding box of its children, and the fill limits hold.",
  "every history, every set of boxes and every trait setting", "Splits, reinsertion and condensation depend on fill counts and areas that fixed tests sample thinly.",
  ["include/mdds/rtree.hpp", "include/mdds/rtree_def.inl"], [("insert, split, perform_forced_reinsertion, erase, search, bulk_loader", "rtree_def.inl")])
p("C01", "Iteration over a collection of vectors visits every element once in order",
  "collection over multi_type_vector instances of equal size visits, for each position in order, the element of each vector of the collection with its type, also for sub-collections and ranges.",
  "every number, layout and range of vectors", "The iterator steps through blocks of several vectors that end at different positions.",
  ["include/mdds/multi_type_vector/collection.hpp", "include/mdds/multi_type_vector/collection_def.inl"], [("side_iterator, collection", "collection.hpp, collection_def.inl")])
p("S01", "Sorted string map lookups agree with a linear search of the table",
  "For every sorted_string_map over entries with distinct ascending keys: find returns the value of the entry whose key equals the given string, and the null value exactly when there is none; "
  "find_key returns a key whose entry holds the given value, and an empty string exactly when no entry does, with the linear and with the hashed key finder; size is the number of entries; no entry outside the table is read.",
  "every table length (including none and one), every set of keys (prefixes of each other, embedded nulls, empty key), every string and value",
  "A binary search that goes wrong only at the first or last entry, for keys that are prefixes of each other or for particular table lengths passes tests over a few fixed tables.",
  ["include/mdds/sorted_string_map.hpp", "include/mdds/sorted_string_map_def.inl"],
  [("sorted_string_map(), find, find_key, size; ssmap::detail::compare", "sorted_string_map_def.inl"), ("linear_key_finder, hash_key_finder", "sorted_string_map_def.inl")])
p("Q01", "Quad tree insertion, lookup, region search and traversals agree on every point",
  "For every point_quad_tree built by insertions: a coordinate is stored once and its value is the last one inserted there; find returns exactly that value and throws exactly when the coordinate was never inserted; "
  "search_region (both forms, inclusive bounds) reports exactly the stored points inside the region, each once; size, empty, clear, swap and the collection of nodes behind copying and comparison reach every node exactly once; "
  "lookups modify nothing and clearing leaves no node that keeps others alive.",
  "every insertion history and tree shape, every coordinate including ties on either axis, every region with ordered corners",
  "Which child a point goes to, which children a search may skip and which it reports depend on ties on either axis and on the position of each inner node relative to the region; tests use a few fixed point sets.",
  ["include/mdds/point_quad_tree.hpp", "include/mdds/quad_node.hpp"],
  [("insert, find_node_ptr, count_all_nodes, get_all_stored_data", "point_quad_tree.hpp"), ("get_quadrant, get_search_region_space, search_region_node, disconnect_all_nodes", "quad_node.hpp, point_quad_tree.hpp")])
