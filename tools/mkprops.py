#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

DOM = ("A feasible parameter tuple is (v,k,l,u) of integers with 1<=k<=v-2, 0<=l<=k-1, 0<=u<=k and (v-k-1)u = k(k-l-1).")

prop("C01", "Every produced matrix is a strongly regular graph with the asked parameters",
 "For every feasible parameter tuple (v,k,l,u), every complete matrix the enumeration produces is a symmetric 0/1 matrix of order v with zero diagonal, k ones in each row, exactly l common neighbours for every adjacent pair and exactly u for every non-adjacent pair of distinct vertices. Parameter tuples for which no such graph exists produce nothing.",
 ["inputs"], DOM + " Quantifies over all of them and over every matrix produced.",
 "test_solve compares only as many matrices as the shorter of the two lists has, for 15 parameter tuples; an extra wrong matrix at the end, or a wrong matrix for any other tuple, is never looked at.",
 ["srg/solver.py", "srg/srg.py", "srg/gauss_elim.py"],
 [("row by row search", "srg/solver.py:solve/advance"), ("row constraint system", "srg/srg.py:Question.from_matrix"), ("contradictions end a branch", "srg/gauss_elim.py:_remove_zerokeys, srg/solver.py:raiseExceptionIfNotSolvableAfterwards")],
 ["results of the enumeration"], [("partial matrix", "rows fixed so far", "srg/srg.py:SRG")])

prop("C02", "The enumeration misses no strongly regular graph",
 "For every feasible parameter tuple, every strongly regular graph with these parameters, under every labelling of its vertices, is isomorphic to at least one matrix the enumeration produces. More precisely: relabel the graph by choosing an edge for the first two vertices and then repeatedly any vertex of the first block of not yet distinguished vertices, always listing neighbours first; the resulting matrix is itself among the produced ones.",
 ["inputs"], "All feasible parameter tuples, all strongly regular graphs with them, all labellings and all choices made while relabelling. " + DOM,
 "The tests zip the produced list with the stored list, so a shorter (even empty) production passes; no graph outside the stored lists is ever looked for.",
 ["srg/solver.py", "srg/srg.py", "srg/unique.py", "srg/bounds.py", "srg/fork.py"],
 [("complete enumeration of rows", "srg/solver.py:advance/solve_question"), ("symmetry breaking by equal columns", "srg/solver.py:reduce_col, srg/srg.py:Answer.binarize")],
 ["results of the enumeration"])

prop("C03", "A partial matrix is only ever extended by consistent rows",
 "For every canonical partial matrix of a feasible parameter tuple, each row by which the search extends it repeats the already known column, has a zero on the diagonal and exactly k ones, and has exactly l (if adjacent) or u (if not) common neighbours with each earlier row. The earlier rows are kept unchanged.",
 ["inputs", "histories"], "All feasible parameter tuples and all partial matrices (2 to v-1 rows) reachable from the two starting rows, including those that cannot be completed.",
 "The tests look at extensions of the two starting rows only, and accept any list that contains one expected row; wrong additional rows are called candidates and ignored.",
 ["srg/solver.py", "srg/srg.py", "srg/gauss_elim.py"],
 [("row constraint system", "srg/srg.py:Question.from_matrix"), ("deduction and case split", "srg/solver.py:solve_question")],
 ["the partial matrices returned by one extension step"])

prop("C04", "No consistent row is missed when a partial matrix is extended",
 "For every canonical partial matrix of a feasible parameter tuple, every row that agrees with all earlier rows (as in C03) and that lists its ones first within each block of so far indistinguishable columns is produced by the extension step. If there is no such row the step returns no extension instead of failing.",
 ["inputs", "histories"], "All feasible parameter tuples and all reachable partial matrices (2 to v-1 rows), also of orders far above those the tests enumerate.",
 "The tests check that one of the expected third rows is found, for 15 tuples; missing rows deeper in the search only show up as missing results, which the zipped comparison hides.",
 ["srg/solver.py", "srg/srg.py", "srg/fork.py", "srg/bounds.py"],
 [("case split over the smallest bound", "srg/solver.py:fork_enum"), ("bounds", "srg/bounds.py")],
 ["the partial matrices returned by one extension step"])

prop("C05", "Results are canonical, pairwise distinct and reproducible",
 "For every feasible parameter tuple, all produced matrices (and all partial matrices produced by one extension step) are pairwise different, start with the canonical first two rows, and are canonical: whenever two later columns agree in all earlier rows, a row never has 0 in the earlier and 1 in the later of the two. Running the enumeration again yields the same set.",
 ["inputs", "histories"], "All feasible parameter tuples and every pair of produced matrices; all reachable partial matrices.",
 "A duplicate or non-canonical matrix behind the first expected ones is cut off by the zipped comparison; partial matrices are not compared at all.",
 ["srg/solver.py", "srg/srg.py", "srg/unique.py"],
 [("bucket representation of a row", "srg/srg.py:Answer.binarize"), ("disjoint case split", "srg/fork.py:enum")],
 ["results of the enumeration"])

prop("C06", "Solving a row question yields exactly its solutions, each once",
 "Given a 0/1 system of equations with non-negative right-hand side, a total quota that the equations imply, and buckets of identical adjacent columns with their capacities, the solver yields exactly the 0/1 vectors that satisfy every equation and the capacities with the ones leading in each bucket of indistinguishable positions, each exactly once. An unsatisfiable question yields nothing and raises nothing.",
 ["inputs"], "All questions whose equations imply the quota (for example contain the sum of all unknowns), whose identical columns are adjacent, and whose capacities equal the bucket sizes, satisfiable or not, with or without already decided buckets.",
 "The tests solve 15 questions (one per tuple) and accept if any one produced vector is expected.",
 ["srg/solver.py", "srg/srg.py", "srg/gauss_elim.py", "srg/bounds.py", "srg/fork.py", "srg/unique.py"],
 [("stack of open questions", "srg/solver.py:solve_question")],
 ["vectors yielded for a question"], [("question", "A, b, quota, bounds, partially known answer", "srg/srg.py:Question")])

prop("C07", "Every deduction step preserves the solutions of a question",
 "Each simplification applied to a question (merging identical columns, eliminating equations, fixing unknowns that must be zero, reading off unknowns that stand alone in an equation) leaves the set of full 0/1 answers the question describes unchanged, up to listing ones first among columns it merged. A step reports that there is no solution only if there is none.",
 ["inputs", "histories"], "All well-formed questions (columns of identical coefficients adjacent, quota implied), in particular every intermediate question of every search; steps in any order.",
 "The tests apply one step to one question and check only internal consistency of the outcome, never that solutions survive.",
 ["srg/solver.py", "srg/gauss_elim.py", "srg/bounds.py", "srg/unique.py"],
 [("merging", "srg/solver.py:reduce_col"), ("elimination", "srg/solver.py:eliminate"), ("zeros", "srg/solver.py:zero_in_b"), ("single unknowns", "srg/solver.py:only_1_element_in_row")],
 ["question before and after a step"])

prop("C08", "A case split partitions the solutions",
 "When the search splits a question it fixes one unknown to different values in the sub-questions, whose solution sets are pairwise disjoint and together are exactly the solutions of the split question; right-hand sides, quota and capacities of each sub-question account for the fixed value. Working on one sub-question leaves the split question and the others as they were. The values tried for an unknown are exactly those from 0 to its capacity for which the remaining capacities can still absorb the remaining quota.",
 ["inputs"], "All well-formed questions with at least one unknown and every choice of unknown.",
 "Not tested directly; in the solver tests a lost or repeated case is hidden by the zipped comparison.",
 ["srg/fork.py", "srg/solver.py"],
 [("range of values", "srg/fork.py:enum"), ("sub-questions", "srg/solver.py:fork_enum")],
 ["sub-questions of a split"])

prop("C09", "Enumerations do not interfere with each other or with their inputs",
 "Any number of enumerations and row questions, started from the same or different inputs and consumed step by step in any interleaving, abandoned half way, restarted on the same input, or with their earlier results overwritten by the caller, each produce exactly what they produce when run alone. The partial matrix handed in is never modified, and asking the same question object again gives the same answers.",
 ["schedules", "histories"], "All schedules of start, advance-one-result, overwrite-result, abandon and restart over several concurrently open enumerations and questions, including from several threads.",
 "Every test consumes one enumeration at a time to the end on fresh inputs.",
 ["srg/solver.py", "srg/srg.py", "srg/bounds.py"],
 [("copies at a split", "srg/solver.py:fork_enum"), ("copy of a question", "srg/srg.py:Question.copy/Answer.copy"), ("new matrix per row", "srg/srg.py:SRG.append_and_return_new")],
 ["values yielded by each open enumeration, the inputs afterwards"])

prop("C10", "The search always terminates normally",
 "For every feasible parameter tuple the enumeration ends after finitely many steps and raises nothing: contradictory branches, partial matrices without extension and parameter tuples without any graph simply contribute no result. This also holds for large orders such as disjoint unions of cliques and complete multipartite graphs with more than a hundred vertices.",
 ["inputs", "histories"], "All feasible parameter tuples (with and without graphs, u=0 and u=k included) and all reachable partial matrices.",
 "The tests run 15 tuples of at most 17 vertices, all of which have graphs.",
 ["srg/solver.py", "srg/srg.py", "srg/gauss_elim.py", "srg/unique.py"],
 [("dead ends end a branch", "srg/solver.py:solve_question/advance (NoSolution)"), ("each split fixes an unknown", "srg/solver.py:fork_enum"), ("level by level work list", "srg/solver.py:solve")],
 ["termination and exceptions of the enumeration"])

prop("C11", "Elimination keeps exactly the non-negative integer solutions",
 "For every 0/1 system of equations with non-negative right-hand sides, elimination returns a 0/1 system over the same unknowns, again with non-negative right-hand sides, that has exactly the same non-negative integer solutions; it reports a contradiction only if the system has no such solution. Sorting the equations keeps every equation with its right-hand side, in ascending order of right-hand sides; elimination leaves its arguments untouched.",
 ["inputs"], "All 0/1 matrices (any number of rows and columns, more than 63 columns included) and all non-negative right-hand sides, consistent or not.",
 "No test calls elimination directly except through whole solver runs.",
 ["srg/gauss_elim.py"],
 [("subtracting contained rows", "srg/gauss_elim.py:_gauss_elim/_elim"), ("encoding of rows", "srg/gauss_elim.py:_encode/_decode"), ("row sort", "srg/gauss_elim.py:sort")],
 ["result of an elimination"])

prop("C12", "Grouping equal adjacent columns is lossless",
 "Compressing a 0/1 matrix into one column per run of equal adjacent columns and expanding it again with the reported multiplicities gives back the matrix. The reported multiplicities are positive, the reported positions are the starts of the runs, and neighbouring kept columns differ.",
 ["inputs"], "All non-empty 0/1 matrices, also with more than 63 rows.",
 "Only a hand-run demonstration on one matrix exists.",
 ["srg/unique.py"], [("run-length encoding", "srg/unique.py:reduce/expand")], ["result of compress and expand"])

prop("C13", "Bounded placements are enumerated exactly",
 "For every non-negative total and every non-empty list of non-negative bounds, the enumeration of placements yields every tuple of non-negative integers below the bounds with that total exactly once, in ascending lexicographic order, and nothing else.",
 ["inputs"], "All totals and all bound lists, including zero bounds, totals that cannot be reached, and lists of up to a few hundred bounds.",
 "Not covered by any test.",
 ["srg/partition.py"], [("recursive enumeration", "srg/partition.py:enum")], ["tuples yielded"])

prop("C14", "A decided answer expands to leading ones in each bucket",
 "Given bucket start positions, a total length and a decided number for each bucket, expansion gives the vector of that length in which each bucket holds its number of ones before its zeros. Answers with undecided buckets or with more ones than a bucket has places are rejected rather than expanded; bucket sizes reported are the distances between successive starts and add up to the length.",
 ["inputs"], "All strictly increasing bucket starts beginning at 0, all lengths above the last start, all decided, undecided and overfull values.",
 "Exercised only through whole solver runs.",
 ["srg/srg.py"], [("expansion", "srg/srg.py:Answer.binarize"), ("bucket sizes", "srg/srg.py:Answer.quota")], ["expanded vector, bucket sizes"])

prop("C15", "Sorting results orders them and loses none",
 "Sorting any list of adjacency matrices of one order returns the same matrices (as a multiset, including repeated ones) ordered ascending by their upper triangles read row by row. The order of the input list does not matter and the input is left unchanged.",
 ["inputs"], "All finite lists or iterators of symmetric 0/1 matrices of equal order.",
 "Sorting is only used by the tests to compare, on lists that are mostly sorted already.",
 ["srg/sorter.py"], [("comparison of upper triangles", "srg/sorter.py:_cmp_srg_matrix/sort")], ["sorted list"])

prop("C16", "Maximizing a matrix only relabels it, canonically and never downwards",
 "For every symmetric 0/1 matrix with zero diagonal and at least two vertices, the maximized matrix is the same graph with vertices relabelled while the first vertex stays first; it is canonical (whenever two later columns agree in all earlier rows, the earlier one is not smaller) and its upper triangle, read row by row, is not smaller than that of the input. Exchanging two vertices gives exactly the matrix with these two rows and columns exchanged; the inputs are left unchanged.",
 ["inputs"], "All simple graphs, all orders, including complete and empty graphs and vertices adjacent to all others.",
 "Two fixed matrices are compared to two fixed results.",
 ["srg/sorter.py"], [("block-wise sorting", "srg/sorter.py:AdjMat"), ("exchange", "srg/sorter.py:swap/swap_and_verify")], ["maximized matrix"])

prop("C17", "Complement of graph and of parameters agree and are involutions",
 "Complementing an adjacency matrix toggles exactly the off-diagonal entries in a new matrix, and doing it twice gives the original back. Complementing parameters twice gives the original parameters, keeps the counting identity, and the complement of a strongly regular graph is strongly regular with exactly the complemented parameters.",
 ["inputs"], "All simple graphs; all feasible parameter tuples; all strongly regular graphs.",
 "Checked on the stored matrices only, for the matrix identity only.",
 ["srg/utils.py"], [("complement", "srg/utils.py:complement/complement_vklu")], ["complement matrix and parameters"])

prop("C18", "Spectrum and determinant follow from the parameters exactly",
 "For every feasible tuple that passes the integrality conditions, the reported eigenvalue/multiplicity pairs are k once and the larger and smaller root of x^2-(l-u)x-(k-u), with positive multiplicities that add up to v and weighted eigenvalues that add up to 0. The reported determinant is the exact integer product of the eigenvalues to their multiplicities, equal to the determinant of every such graph.",
 ["inputs"], DOM + " Restricted to tuples with integral multiplicities; conference tuples with irrational roots included.",
 "The tests compare with a floating point determinant of stored matrices of at most 28 vertices.",
 ["srg/utils.py"], [("eigenvalues", "srg/utils.py:eig"), ("determinant", "srg/utils.py:determinant"), ("conference test", "srg/utils.py:conference")], ["eigenvalue list, determinant"])

prop("C19", "The stored solutions are genuine, canonical, distinct and complete",
 "Every stored matrix is a strongly regular graph with the parameters in its problem's name (and declared with it), is canonical, and is stored once. For every stored problem other than (25,12,5,6), (26,10,3,4) and (29,14,6,7), which are declared partial, every canonical relabelling of every strongly regular graph with these parameters is stored; for problems of up to 20 vertices the stored list is the sorted result of the enumeration.",
 ["configurations", "inputs"], "All stored problems and matrices, all strongly regular graphs with their parameters, all canonical relabellings.",
 "The tests check the matrix identity of stored matrices and compare a common prefix with the enumeration for up to 17 vertices; missing, repeated or non-canonical matrices pass.",
 ["srg/database/__init__.py", "srg/database/problem_28_12_6_4.py", "srg/database/problem_16_9_4_6.py"],
 [("stored lists", "srg/database/problem_*.py"), ("lookup", "srg/database/__init__.py:get_solutions")], ["stored lists returned by lookup"])

prop("C20", "The command line prints the full sorted enumeration and rejects bad tuples",
 "Called with a feasible tuple, the command line prints the tuple and then every matrix of the enumeration, in full and in ascending order, each once, and succeeds. Called with a tuple that violates the counting identity, or with a wrong number of or non-integer arguments, it fails without printing any matrix.",
 ["inputs", "configurations"], "All feasible tuples (any order, above 31 vertices too), all violating tuples and malformed argument lists.",
 "No test runs the command line.",
 ["srg/__main__.py", "srg/utils.py", "srg/pprint.py", "srg/sorter.py"], [("command line", "srg/__main__.py"), ("check of the counting identity", "srg/utils.py:assert_srg")], ["standard output and exit status"])

prop("C21", "The stored-solution commands show exactly what is stored",
 "Listing without a tuple names exactly the stored problems, each name determining its tuple; listing with a stored tuple prints exactly its stored matrices; drawing writes one picture per stored matrix, showing exactly its vertices and edges, into the current directory. Given a tuple, an unknown command, a violated counting identity or a tuple that is not stored makes the command fail without showing any matrix or writing any picture.",
 ["inputs", "configurations"], "All stored problems, all commands and argument lists.",
 "No test runs this command line or draws.",
 ["srg/database/__main__.py", "srg/database/__init__.py"], [("command line", "srg/database/__main__.py"), ("listing, lookup, drawing", "srg/database/__init__.py:list_problems/extract_vklu/get_solutions/draw")], ["standard output, exit status, files written, edges drawn"])

prop("C22", "The row question describes exactly the constraints on the next row",
 "For every feasible tuple the two starting rows are the canonical ones, and from every partial matrix the tuple is recovered exactly. The question set up for the next row has as its solutions (all unknowns 0/1) exactly the continuations that satisfy every common-neighbour and degree requirement; it is refused as unsolvable exactly when some requirement is already exceeded by the known part.",
 ["inputs"], "All feasible tuples and all partial matrices of 2 to v-1 rows, also of more than 127 vertices and also non-extendable ones.",
 "The set-up is only run on the 15 starting positions, with the outcome seen only through the solver.",
 ["srg/srg.py", "srg/solver.py"], [("starting rows", "srg/solver.py:_seed"), ("recovering the tuple", "srg/srg.py:vklu"), ("equations", "srg/srg.py:Question.from_matrix")], ["starting rows, recovered tuple, equations"])

prop("C23", "Bound tightening is exact about what single equations imply",
 "Tightening replaces each capacity by the smallest of itself and the right-hand sides of the equations its unknown occurs in, so that no solution within the old capacities is lost; unknowns are reported as zero exactly when their capacity is zero. Unknowns standing alone in an equation are all reported, each once, together with an equation in which they stand alone, and no others are.",
 ["inputs"], "All 0/1 systems with non-negative right-hand sides and capacities.",
 "Only a hand-run demonstration exists, part of which is never executed.",
 ["srg/bounds.py"], [("tightening", "srg/bounds.py:lower_upper_bound"), ("zero unknowns", "srg/bounds.py:zero_bound_loc"), ("single unknowns", "srg/bounds.py:one_element_row_locs")], ["tightened capacities, reported positions"])

prop("C24", "Question and answer objects are guarded values",
 "A question never takes negative right-hand sides, capacities or quota, nor an answer whose number of undecided buckets differs from its number of columns: such an update or creation is refused and leaves existing objects as they were. A question is only created with one right-hand side per equation and one capacity per column. An answer is only created with as many values as bucket starts, the starts ascending from 0 to below its length. Copies are equal to their original and share no state with it under any later update of either; two objects are equal exactly when all their components are.",
 ["histories", "inputs"], "All sequences of creating, copying, updating (valid and invalid) and comparing questions and answers.",
 "Not tested.",
 ["srg/srg.py"], [("guards", "srg/srg.py:Question setters"), ("copy and equality", "srg/srg.py:Question.copy/__eq__, Answer.copy/__eq__")], ["components after each operation, refused updates"])

prop("C25", "The debugging wrapper does not change a step",
 "Wrapping a step for debugging leaves its return value, its effect on the question and any no-solution report exactly as without it. The only addition is that an outcome that violates the question's invariants (negative numbers, mismatched sizes, more ones than a bucket has places, unsatisfied equations without unknowns) is reported as an assertion failure, exactly in these cases.",
 ["inputs", "histories"], "All steps and all questions, including steps that corrupt the question or report no solution.",
 "The wrapper is not enabled in any test.",
 ["srg/utils.py", "srg/srg.py"], [("wrapper", "srg/utils.py:debug"), ("invariants", "srg/srg.py:Question._invariant_check")], ["result, question and exception with and without wrapper"])

prop("C26", "The parameter guard accepts exactly the tuples of the counting identity",
 "The guard passes a tuple of integers (v,k,l,u) if (v-k-1)u = k(k-l-1) and refuses it otherwise. Accepted tuples remain accepted under complementing the parameters, and refused ones remain refused.",
 ["inputs"], "All integer tuples.",
 "No test calls the guard.",
 ["srg/utils.py"], [("guard", "srg/utils.py:assert_srg")], ["acceptance or refusal"])

prop("C27", "Finished and unfinished partial matrices are separated without loss",
 "A partial matrix counts as finished exactly when it has as many rows as columns; separating a batch puts each member into exactly one of the two groups, keeping order and identity. Appending a row adds the mirrored column entries, a zero diagonal and the given remainder below the unchanged earlier rows, refuses a remainder of the wrong length, and leaves the original and all others as they were.",
 ["inputs", "histories"], "All batches (lists or iterators) of partial matrices at mixed stages, all remainders.",
 "Only exercised through whole runs in which all members of a batch are at the same stage.",
 ["srg/solver.py", "srg/srg.py"], [("separation", "srg/solver.py:partition_by_done"), ("append", "srg/srg.py:SRG.append_and_return_new"), ("finished", "srg/srg.py:SRG.solved")], ["groups, appended matrix"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
