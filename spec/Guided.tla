------------------------------- MODULE Guided -------------------------------
(***************************************************************************)
(* The relabelling of property C02: choose an edge for the first two       *)
(* vertices, then repeatedly any vertex of the first block of not yet      *)
(* distinguished vertices, listing neighbours first.  Every behaviour ends *)
(* with a canonical matrix all of whose rows the search of SRGCore finds.  *)
(***************************************************************************)
EXTENDS SRGCore, TLC
CONSTANTS Graphs        \* sequence of [p |-> tuple, g |-> adjacency matrix]

VARIABLES which, chosen, blocks
vars == <<which, chosen, blocks>>

G == Graphs[which].g
P == Graphs[which].p
N == Len(G)

\* split every block into neighbours of x first, the others after, dropping empty parts
RECURSIVE Refine(_, _)
Refine(B, x) ==
  IF B = << >> THEN << >>
  ELSE LET H == Head(B) \ {x}
           a == {y \in H : G[x][y] = 1}
           b == {y \in H : G[x][y] = 0}
       IN (IF a = {} THEN << >> ELSE <<a>>) \o (IF b = {} THEN << >> ELSE <<b>>) \o Refine(Tail(B), x)

Init == /\ which \in 1..Len(Graphs)
        /\ chosen = << >> /\ blocks = <<1..N>>

Pick == /\ blocks # << >>
        /\ \E x \in Head(blocks) :
              /\ chosen' = Append(chosen, x)
              /\ blocks' = Refine(blocks, x)
        /\ which' = which

Spec == Init /\ [][Pick]_vars

----------------------------------------------------------------------------
\* the order in which the vertices end up, whatever order remains inside blocks:
\* rows of chosen vertices do not depend on it
RECURSIVE Flat(_)
Flat(B) == IF B = << >> THEN << >> ELSE
  LET S == Head(B)
      RECURSIVE AsSeq(_)
      AsSeq(T) == IF T = {} THEN << >> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o AsSeq(T \ {x})
  IN AsSeq(S) \o Flat(Tail(B))
Order == chosen \o Flat(blocks)
Rows  == [i \in 1..Len(chosen) |-> [j \in 1..N |-> G[chosen[i]][Order[j]]]]

IsOrder == IsPerm(Order, N)
StartsWithSeed == Len(chosen) >= 2 => SubSeq(Rows, 1, 2) = Seed(P)
RowsCanonical == Canonical(Rows)
RowsConsistent == Len(chosen) >= 2 => PrefixFaults(Rows, P) = {}
RowsFound == \A R \in 2..(Len(chosen) - 1) : Rows[R + 1] \in NextRows(SubSeq(Rows, 1, R), P)
LastRowFound == Len(chosen) >= 3 => Rows[Len(chosen)] \in NextRows(SubSeq(Rows, 1, Len(chosen) - 1), P)
EndsSRG == (blocks = << >>) => IsSRG(Rows, P) /\ Rows = Relabel(G, chosen)
=============================================================================
