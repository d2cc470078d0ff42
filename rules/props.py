"""Registry: property -> rules that decide it."""
import rules_mtv as mtv
import rules_mtx as mtx
import rules_fst as fst
import rules_seq as seq
import rules_quad as quad
import rules_seg as seg
import rules_ss as ss

PROPS = {}


def prop(pid, level, technique, explain, rules, note, assume=()):
    PROPS[pid] = {"level": level, "technique": technique, "explain": explain, "rules": rules, "note": note, "assume": list(assume)}


SEG = ("abstract interpretation of the LLVM IR of the real headers: segment-list shape domain for the block table x relational integer domain, "
       "loops closed by segment folding")
SEGX = ("Every public editing/access operation of both multi_type_vector layouts is compiled from the current headers with opaque value types, "
        "element-block functions and event handler, and its control-flow graph is interpreted abstractly from an arbitrary well-formed container "
        "(any number of blocks, any sizes, any types, any arguments). Every abstract exit is compared with the operation's specification; ")
SEGN = ("Covers all inputs of each operation that the abstract semantics reaches (loops summarised for any trip count); undecided paths and "
        "operations cut by the path budget are listed in the evidence. Trusts the models of std::vector, std::lower_bound and the element-block "
        "functions, the IR extractor, and clang's lowering.")
SEGA = ["std::vector and std::lower_bound behave as the standard says", "element-block functions do what their names say (decided separately)",
        "no allocation failure; user value types do not throw or re-enter the container", "sizes and positions do not overflow size_t"]

prop("M01", "other", SEG, SEGX + "rule: the element sequence after the call is the specified one.", [mtv.rule_seq], SEGN, SEGA)
prop("M02", "other", SEG, SEGX + "rule: blocks tile the logical range, none is empty, adjacent blocks differ in type, element blocks have the block's length.", [mtv.rule_struct], SEGN, SEGA)
prop("M03", "other", SEG, SEGX + "rule: every element block and every element of the original container is kept, handed out or destroyed exactly once.", [mtv.rule_own], SEGN, SEGA)
prop("M04", "other", SEG, SEGX + "rule: acquired/released notifications pair up with the blocks a container holds.", [mtv.rule_event], SEGN, SEGA)
prop("M05", "other", SEG, SEGX + "rule: the returned iterator designates the block that holds the position the operation documents.", [mtv.rule_iter], SEGN, SEGA)
prop("M06", "other", SEG, SEGX + "rule: a call is rejected exactly when its position arguments are out of range, and a rejecting path writes nothing before it throws.", [mtv.rule_bounds], SEGN, SEGA)
prop("M07", "other", SEG, SEGX + "rule: the value, type, emptiness, position or size reported is that of the addressed element.", [mtv.rule_read], SEGN, SEGA)

FSH = ("abstract interpretation of the LLVM IR of the real headers: shape domain for doubly linked leaf lists (runs unfolded and folded) x relational "
       "integer domain, loops closed by a join-until-stable fixpoint")
FSX = ("The public operation is compiled from the current headers (long keys, opaque values) and its control-flow graph is interpreted abstractly from an "
       "arbitrary canonical tree (any number of segments, any keys and values) with arbitrary arguments; every abstract exit is compared with the "
       "specification of the operation; ")
FSN = ("Covers all trees and all arguments of the listed operations (loops by fixpoint, no bound on the number of segments). Trusts the IR extractor, clang's "
       "lowering and that boost::intrusive_ptr counts references correctly; search_tree/build_tree are outside.")
FSA = ["keys behave as mathematical integers (no overflow in end_key - start_key or pos + size)", "value types compare and copy as values",
       "the tree is well formed and canonical before the call", "no allocation failure"]
prop("F01", "other", FSH, FSX + "rule: the function from keys to values after the call is the specified one.", [fst.rule_map], FSN, FSA)
prop("F02", "other", FSH, FSX + "rule: the leaves form a doubly linked list between the two end nodes and removed leaves do not own each other.", [fst.rule_links], FSN, FSA)
prop("F03", "other", FSH, FSX + "rule: neighbouring segments carry different values.", [fst.rule_canon], FSN, FSA)
prop("F04", "other", FSH, FSX + "rule: whenever a key is added, removed or moved the tree is marked invalid.", [fst.rule_tree], FSN, FSA)
prop("F05", "other", FSH, FSX + "rule: the iterator and flag returned by an insertion describe the resulting tree.", [fst.rule_ret], FSN, FSA)
prop("F06", "other", FSH, FSX + "rule: a leaf search reports exactly the segment that contains the key, wherever it starts, and modifies nothing.", [fst.rule_search], FSN, FSA)

SQ = ("abstract interpretation of the LLVM IR of the real headers: symbolic slice-list domain for vector contents x relational integer domain, loops closed by "
      "extrapolation plus an inductiveness check")
SQX = ("Functions are compiled from the current headers for opaque element types and interpreted abstractly on vectors of any length and content; "
       "every exit is compared with the specification of the operation; ")
SQN = ("Covers all lengths, positions, contents and values satisfying the documented precondition. Trusts the model of std::vector/std::function/std::unordered_map, "
       "the IR extractor and clang's lowering.")
SQA = ["std::vector, std::function and std::unordered_map behave as the standard says", "element copy, move and comparison are those of a value type", "no allocation failure"]
prop("E01", "other", SQ, SQX + "rule: the block holds the specified elements after the call (and managed elements are destroyed only by the operations that must).", [seq.rule_ops], SQN, SQA)
prop("E02", "other", SQ, SQX + "rule: the dispatcher calls the function of the block's own element type, with unchanged arguments, for every type.", [seq.rule_dispatch], SQN, SQA)
prop("E03", "other", SQ, SQX + "rule: delayed_delete_vector holds exactly the elements a std::vector would hold.", [seq.rule_vector], SQN, SQA)
prop("E04", "other", SQ, "Every loop-unrolling and SIMD variant of the position adjustment of both layouts is compiled from the current headers and interpreted abstractly (SIMD "
     "registers as lanes, remainders with explicit quotients); rule: delta is added to exactly the positions from the start index to the end, nothing else is written.",
     [seq.rule_positions], SQN, ["positions are 64-bit", "std::vector behaves as the standard says", "OpenMP pragmas are not enabled"])
prop("Q01", "other", "abstract interpretation of one step at an arbitrary node (lazily materialised heap x relational integer domain); the conditions under which insertion "
     "goes behind a link are the invariant the other operations are checked against",
     "insert, find, region search, size, clear, swap and the collection of nodes are compiled from the current headers and interpreted at an arbitrary node of an arbitrary tree; "
     "rule: each point is stored exactly once, lookups and searches never skip a link behind which insertion may have put a point they look for, and traversals visit every link once.",
     [quad.rule_quad], "Covers every tree built by insertion, every coordinate and every region with ordered corners. Removal is outside. Trusts boost::intrusive_ptr, std::vector and "
     "std::shared_ptr, the IR extractor and clang's lowering.", ["coordinates are integers", "region corners are ordered (x1 <= x2, y1 <= y2)", "no allocation failure"])

SGT = ("abstract interpretation of one step at an arbitrary node (lazily materialised heap x relational integer domain) with loops summarised per round; interval per node, "
       "induction over the tree")
prop("G01", "other", SGT,
     "Building (copying the segments, collecting and sorting the keys, the chain of leaves, the pairing of leaves and of every inner level, the marking of each segment), searching, insertion, "
     "erasure and iteration over results are compiled from the current headers; each recursive step is interpreted at an arbitrary node, each loop at an arbitrary round. Rule: node intervals tile, a segment marks exactly "
     "the nodes whose union is the segment, a query visits exactly the nodes whose interval contains the point and reports their marks once, erasure removes exactly the marks of the segment.",
     [seg.rule_seg], "Covers trees of any size, all segments and points. Trusts std::sort/unique/map/deque/vector/unique_ptr models, boost::intrusive_ptr, the IR extractor and clang's lowering. operator==, copy and "
     "erase_if are outside.", ["keys are integers", "no allocation failure"])
prop("F07", "other", SGT,
     "build_tree and both search_tree overloads of flat_segment_tree are compiled from the current headers; each level and round of building and the descent at an arbitrary inner node are interpreted. Rule: intervals of the "
     "children tile the interval of the node, the descent follows the child whose interval contains the key, and ends at the leaf whose segment contains it; value, start and end reported are that leaf's.",
     [seg.rule_flat], "Covers trees of any size and all keys. Trusts the container models, the IR extractor and clang's lowering.", ["keys are integers", "the leaf list is canonical (decided by F02)"])

prop("X01", "other", "abstract interpretation of the LLVM IR of the real headers over a specification-level model of the element store: one arbitrary element is followed, positions are polynomials in rows, columns and indices, "
     "loops are summarised with inferred linear bounds",
     "The accessors, setters, emptying operations, copy from a sequence, transpose, walk over the whole matrix, numeric, size and empty of multi_type_matrix are compiled from the current headers on top of a store whose operations are modelled by their specification (decided for the real store by M01-M07) and interpreted for an arbitrary matrix size and content; "
     "one arbitrary cell (row, column) is followed. Rule: the call reads, writes or visits exactly the store positions column * rows + row of the cells it names, with the values it is given, and reports or rejects accordingly.",
     [mtx.rule_mtx], "Covers all sizes, contents and arguments of the listed operations; copy from another matrix, resize and walks over ranges or two matrices are outside (X02). "
     "Trusts the store's specification (M01-M07), the IR extractor and clang's lowering.", ["row and column counts do not overflow size_t when multiplied", "no allocation failure"])
prop("S01", "other", "abstract interpretation over a table of symbolic length (relational integer domain, order facts between each key and the string, loops summarised by the indices they exclude)",
     "Construction, find in both forms, find_key with both key finders and size are compiled from the current headers and interpreted over a table of n entries, n arbitrary; the function objects handed to "
     "the standard searches are interpreted for every order of their arguments. Rule: an entry that is returned was compared equal; nothing is returned only when every index of the table is excluded; "
     "no entry outside the table is read.",
     [ss.rule_lookup], "Covers tables of any length with distinct keys in ascending order, and every string and value. Trusts std::lower_bound, upper_bound, find_if, unordered_map and string_view comparison, the IR extractor and clang's lowering.",
     ["keys are distinct and ascending, as the class requires", "values are integers", "no allocation failure"])
