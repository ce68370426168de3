----------------------------- MODULE SRGLevels -----------------------------
(***************************************************************************)
(* The enumeration as the work list the solver keeps: all partial matrices *)
(* of one length are extended, finished ones become results, the others    *)
(* make up the next level.                                                 *)
(***************************************************************************)
EXTENDS SRGCore
CONSTANTS Lo, Hi

VARIABLES p, todo, results, rounds
vars == <<p, todo, results, rounds>>

Init == /\ p \in FeasibleSet(Lo, Hi)
        /\ todo = {Seed(p)} /\ results = {} /\ rounds = 0

Level ==
  /\ todo # {}
  /\ LET out == UNION {{ Append(m, row) : row \in NextRows(m, p) } : m \in todo}
         done == {m \in out : Len(m) = PV(p)}
     IN /\ results' = results \cup done
        /\ todo' = out \ done
  /\ rounds' = rounds + 1
  /\ p' = p

Spec == Init /\ [][Level]_vars /\ WF_vars(Level)

Finished == todo = {}

\* all graphs of order v (upper triangles), by definition
AllGraphs(n) ==
  LET E == {<<i, j>> \in (1..n) \X (1..n) : i < j}
  IN { [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 0
                                       ELSE IF i < j THEN g[<<i, j>>] ELSE g[<<j, i>>]]]
       : g \in [E -> {0, 1}] }

\* results are sound, distinct by construction, and exactly the canonical strongly regular
\* graphs that start with the seed (C01, C02, C05)
ResultsAreSRG == \A m \in results : IsSRG(m, p) /\ Canonical(m) /\ SubSeq(m, 1, 2) = Seed(p)
Complete ==
  (Finished /\ PV(p) <= 5) =>
     results = { m \in AllGraphs(PV(p)) : IsSRG(m, p) /\ Canonical(m) /\ SubSeq(m, 1, 2) = Seed(p) }
SameLength == \A a, b \in todo : Len(a) = Len(b)
\* no extension is reached from two different partial matrices: the size of a level is the sum of its parts
NoClash ==
  Cardinality(UNION {{ Append(m, row) : row \in NextRows(m, p) } : m \in todo})
    = LET RECURSIVE Sum(_)
          Sum(S) == IF S = {} THEN 0 ELSE LET m == CHOOSE x \in S : TRUE
                                          IN Cardinality(NextRows(m, p)) + Sum(S \ {m})
      IN Sum(todo)
Bounded    == rounds <= PV(p) - 2
Terminates == <>Finished
=============================================================================
