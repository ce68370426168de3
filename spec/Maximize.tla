------------------------------ MODULE Maximize ------------------------------
(***************************************************************************)
(* Maximizing a matrix (C16): row after row, the later columns that agree  *)
(* in all earlier rows (a block) are reordered so that those with a one    *)
(* come first, everything else staying in place.  Blocks of one row are    *)
(* independent and are handled in any order; ties keep their order when    *)
(* Stable.  pi tells which original vertex stands where.                   *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS MaxOrder, Stable
VARIABLES m, pi, row, todo, cur
vars == <<m, pi, row, todo, cur>>

\* blocks of the columns after row r that agree in the rows before r
BlockOf(g, r, c) == {d \in (r + 1)..Len(g) : SameColumn(g, r - 1, c, d)}
BlocksOf(g, r) == {BlockOf(g, r, c) : c \in (r + 1)..Len(g)}

Init == /\ \E n \in 2..MaxOrder : m \in AllGraphs(n)
        /\ pi = [j \in 1..Len(m) |-> j]
        /\ row = 1 /\ todo = BlocksOf(m, 1) /\ cur = m

\* positions of block B, rearranged: those with a one first
MinE(S) == CHOOSE x \in S : \A y \in S : x <= y
Nth(S, k) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1
Rearranged(g, r, B, f) ==        \* f: order of the ones and zeros of B (a permutation of B)
  [j \in 1..Len(g) |-> IF j \in B THEN f[j] ELSE j]
StableOrder(g, r, B) ==
  LET one == {c \in B : g[r][c] = 1}
      zero == B \ one
      place(c) == Cardinality({d \in B : d < c}) + 1
  IN [c \in B |-> IF place(c) <= Cardinality(one) THEN Nth(one, place(c)) ELSE Nth(zero, place(c) - Cardinality(one))]
Orders(g, r, B) ==
  IF Stable THEN {StableOrder(g, r, B)}
  ELSE { f \in [B -> B] : /\ {f[c] : c \in B} = B
                          /\ \A c, d \in B : c < d => g[r][f[c]] >= g[r][f[d]] }

SortBlock == \E B \in todo : \E f \in Orders(cur, row, B) :
               /\ LET p == Rearranged(cur, row, B, f) IN
                  /\ cur' = Relabel(cur, p)
                  /\ pi' = [j \in 1..Len(cur) |-> pi[p[j]]]
               /\ todo' = todo \ {B}
               /\ UNCHANGED <<m, row>>
NextRow == /\ todo = {} /\ row < Len(cur)
           /\ row' = row + 1 /\ todo' = BlocksOf(cur, row + 1)
           /\ UNCHANGED <<m, pi, cur>>
Next == SortBlock \/ NextRow
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Relabelled == IsPerm(pi, Len(m)) /\ Relabel(m, pi) = cur
FirstStays == pi[1] = 1
RowsDone == \A r \in 1..(row - 1) : CanonRow(cur, r - 1, cur[r])
NeverDown == [][Compare(cur, cur') <= 0]_cur
AtEnd == (row = Len(cur) /\ todo = {}) => MaxFaults(m, cur, pi) = {}
\* with ties broken arbitrarily the result is still a canonical relabelling that
\* fixes the first vertex, but it may be smaller than what it started from
AtEndAnyTies == (row = Len(cur) /\ todo = {}) => MaxFaults(m, cur, pi) \subseteq {"smaller than before"}
Ends == <>(row = Len(cur) /\ todo = {})
=============================================================================
