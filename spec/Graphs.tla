------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Complete adjacency matrices: their order, relabelling, complement.      *)
(***************************************************************************)
EXTENDS SRGCore

\* upper triangle read row by row
RECURSIVE UpperFrom(_, _)
UpperFrom(m, i) == IF i >= Len(m) THEN << >> ELSE SubSeq(m[i], i + 1, Len(m)) \o UpperFrom(m, i + 1)
Upper(m) == UpperFrom(m, 1)

\* -1, 0, 1: matrices of the same order compared by their upper triangles
Least(D) == CHOOSE x \in D : \A y \in D : x <= y
Compare(a, b) ==
  LET n == Len(a)
      D == {i \in 1..n : SubSeq(a[i], i + 1, n) # SubSeq(b[i], i + 1, n)}
  IN IF D = {} THEN 0
     ELSE LET i == Least(D)
              j == Least({x \in (i + 1)..n : a[i][x] # b[i][x]})
          IN IF a[i][j] < b[i][j] THEN -1 ELSE 1

\* all simple graphs on n vertices
GraphOf(n, E) == [i \in 1..n |-> [j \in 1..n |-> IF {i, j} \in E THEN 1 ELSE 0]]
Pairs(n) == {{i, j} : i, j \in 1..n} \ {{i} : i \in 1..n}
AllGraphs(n) == {GraphOf(n, E) : E \in SUBSET Pairs(n)}

Complement(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> IF i = j THEN 0 ELSE 1 - m[i][j]]]
Exchange(n, a, b) == [i \in 1..n |-> IF i = a THEN b ELSE IF i = b THEN a ELSE i]

\* occurrences of x in the sequence s
Count(x, s) == Cardinality({j \in DOMAIN s : s[j] = x})

----------------------------------------------------------------------------
\* C15: out is the sorted result for the list given: the clauses that fail
SortFaults(given, sorted) ==
  (IF Len(given) # Len(sorted) \/ \E j \in DOMAIN given : Count(given[j], given) # Count(given[j], sorted)
   THEN {"not the same matrices"} ELSE {}) \cup
  (IF \E j \in 1..(Len(sorted) - 1) : Len(sorted[j]) = Len(sorted[j + 1]) /\ Compare(sorted[j], sorted[j + 1]) > 0
   THEN {"not ascending"} ELSE {})

\* C16: max is a maximized m, by the witness pi: the clauses that fail
MaxFaults(m, max, pi) ==
  (IF ~ IsGraph(max) \/ Len(max) # Len(m) THEN {"not a graph of the same order"} ELSE
    (IF pi = << >> \/ ~ IsPerm(pi, Len(m)) THEN {"not a relabelling"}
     ELSE IF Relabel(m, pi) # max THEN {"not this relabelling"}
     ELSE IF pi[1] # 1 THEN {"first vertex moved"} ELSE {}) \cup
    (IF ~ Canonical(max) THEN {"not canonical"} ELSE {}) \cup
    (IF Compare(m, max) > 0 THEN {"smaller than before"} ELSE {}))
=============================================================================
