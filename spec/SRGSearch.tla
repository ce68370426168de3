----------------------------- MODULE SRGSearch -----------------------------
(***************************************************************************)
(* The search as a state machine: one branch of the search tree at a time  *)
(* (every partial matrix the search can hold is a reachable state).        *)
(*   p : the parameter tuple,  m : the partial matrix                      *)
(***************************************************************************)
EXTENDS SRGCore
CONSTANTS Lo, Hi        \* orders explored

VARIABLES p, m
vars == <<p, m>>

Init == /\ p \in FeasibleSet(Lo, Hi)
        /\ m = Seed(p)

Solved == Len(m) = PV(p)

Extend == /\ ~ Solved
          /\ \E row \in NextRows(m, p) : m' = Append(m, row)
          /\ p' = p

Next == Extend
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
\* every reachable partial matrix has consistent rows (C03) in canonical form (C05)
Consistent    == PrefixFaults(m, p) = {}
CanonicalRows == Canonical(m)
\* finished ones are strongly regular graphs with the asked parameters (C01)
Sound         == Solved => IsSRG(m, p)
\* filling blocks of equal columns finds exactly the rows of the definition (C03, C04)
DefinitionAgrees == (~ Solved /\ PV(p) <= 8) => NextRows(m, p) = NextRowsByDefinition(m, p)
\* the tuple can be read off any partial matrix (C22)
Recoverable ==
  LET k == Cardinality(Ones(m[1]))
      l == Dot(m[1], m[2])
  IN <<Len(m[1]), k, l>> = <<PV(p), PK(p), PL(p)>> /\ (Len(m[1]) - k - 1) * PU(p) = k * (k - l - 1)
TypeOK == Feasible(p) /\ IsBitMatrix(m, Len(m), PV(p)) /\ Len(m) \in 2..PV(p)

\* each branch grows row by row and ends (C10)
Grows == [][Len(m') = Len(m) + 1 /\ SubSeq(m', 1, Len(m)) = m]_vars
Ends  == <>[](Solved \/ NextRows(m, p) = {})
=============================================================================
