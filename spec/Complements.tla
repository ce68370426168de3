---------------------------- MODULE Complements ----------------------------
(***************************************************************************)
(* Complements of graphs and of parameters (C17), and the counting         *)
(* identity that guards parameters (C26).  The machine keeps complementing *)
(* both.                                                                   *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS MaxOrder, MaxParam
VARIABLES m0, m, p0, p
vars == <<m0, m, p0, p>>
Init == \/ /\ \E n \in 1..MaxOrder : m0 \in AllGraphs(n)
           /\ p0 \in FeasibleSet(Len(m0), Len(m0)) \cup {<<>>}
           /\ m = m0 /\ p = p0
        \/ /\ m0 = << >> /\ m = << >>
           /\ p0 \in (0..MaxParam) \X ((-2)..MaxParam) \X ((-2)..MaxParam) \X ((-2)..MaxParam)
           /\ p = p0
Next == m' = Complement(m) /\ p' = (IF p = << >> THEN p ELSE ComplementParams(p)) /\ UNCHANGED <<m0, p0>>
Spec == Init /\ [][Next]_vars

SameOrComplement == m \in {m0, Complement(m0)} /\ (p0 # << >> => p \in {p0, ComplementParams(p0)})
Involution == Complement(Complement(m)) = m /\ (p0 # << >> => ComplementParams(ComplementParams(p)) = p)
GraphStays == m0 # << >> => IsGraph(m)
Toggled == [][\A i, j \in DOMAIN m : i # j => m'[i][j] # m[i][j]]_m
\* strongly regular with p0 exactly if strongly regular with p (both defined)
Corresponds == (m0 # << >> /\ p0 # << >>) => (IsSRG(m0, p0) <=> IsSRG(m, p))
IdentityStays == p0 # << >> => (Identity(p0) <=> Identity(p))
=============================================================================
