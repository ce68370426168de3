------------------------------ MODULE Sorting ------------------------------
(***************************************************************************)
(* Results arrive in any order and are inserted one by one into a sorted   *)
(* list (C15).                                                             *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS Order, MaxLen
VARIABLES given, rest, list
vars == <<given, rest, list>>

\* number of members not larger than m
Rank(m, s) == Cardinality({j \in DOMAIN s : Compare(s[j], m) <= 0})
InsertAt(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))

Init == \E n \in 0..MaxLen : /\ given \in [1..n -> AllGraphs(Order)] /\ rest = 1..n /\ list = << >>
Next == \E j \in rest : /\ list' = InsertAt(list, Rank(given[j], list), given[j])
                        /\ rest' = rest \ {j} /\ UNCHANGED given
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* equal upper triangles belong to equal matrices
Determined == \A a, b \in {given[j] : j \in DOMAIN given} : Compare(a, b) = 0 <=> a = b
Antisymmetric == \A a, b \in {given[j] : j \in DOMAIN given} : Compare(a, b) = - Compare(b, a)
Ascending == \A j \in 1..(Len(list) - 1) : Compare(list[j], list[j + 1]) <= 0
SortedAtEnd == rest = {} => SortFaults(given, list) = {}
LossSeen == (rest # {} /\ given # << >>) => "not the same matrices" \in SortFaults(given, list)
Ends == <>(rest = {})
=============================================================================
