-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The stored solutions (C19) and what the commands on them do (C21).      *)
(* The store maps tuples to lists of matrices; requests list or draw.      *)
(***************************************************************************)
EXTENDS Graphs

\* clauses of a stored problem
StoredFaults(name, declared, mats) ==
  (IF name # declared THEN {"declared parameters"} ELSE {}) \cup
  (IF ~ Feasible(name) THEN {"infeasible name"} ELSE {}) \cup
  UNION { SRGFaults(mats[j], name) : j \in DOMAIN mats } \cup
  (IF \E j \in DOMAIN mats : ~ Canonical(mats[j]) THEN {"not canonical"} ELSE {}) \cup
  (IF \E j, k \in DOMAIN mats : j < k /\ mats[j] = mats[k] THEN {"stored twice"} ELSE {})
\* what a picture shows: vertices 1..n (positions in order of their labels) and the set of edges
Drawn(m) == [n |-> Len(m), edges |-> {<<i, j>> \in (1..Len(m)) \X (1..Len(m)) : i < j /\ m[i][j] = 1}]

----------------------------------------------------------------------------
CONSTANTS Order
VARIABLES store, req, shown, pics, code
vars == <<store, req, shown, pics, code>>
Tuples == FeasibleSet(4, Order)
RECURSIVE All(_, _)
All(m, p) == IF Len(m) = PV(p) THEN {m} ELSE UNION { All(Append(m, r), p) : r \in NextRows(m, p) }
RECURSIVE Listed(_)
Listed(T) == IF T = {} THEN << >> ELSE LET x == CHOOSE a \in T : TRUE IN <<x>> \o Listed(T \ {x})
Complete == [p \in Tuples |-> Listed(All(Seed(p), p))]
None == <<0, 0, 0, 0>>
Init == /\ \E D \in SUBSET Tuples : Cardinality(D) <= 2 /\ store = [p \in D |-> Complete[p]]
        /\ req \in {"list", "draw", "other"} \X (Tuples \cup {None, <<5, 2, 1, 1>>})
        /\ shown = << >> /\ pics = << >> /\ code = -1
Answerable == req[1] # "other" /\ req[2] \in DOMAIN store /\ Identity(req[2])
Refuse == /\ code = -1 /\ req[2] # None /\ ~ Answerable /\ code' = 1 /\ UNCHANGED <<store, req, shown, pics>>
Names == /\ code = -1 /\ req[2] = None /\ code' = 0 /\ UNCHANGED <<store, req, shown, pics>>
Show == /\ code = -1 /\ Answerable
        /\ LET have == IF req[1] = "list" THEN shown ELSE pics
               n == Len(have) + 1
               all == store[req[2]]
           IN IF n > Len(all) THEN code' = 0 /\ UNCHANGED <<shown, pics>>
              ELSE /\ UNCHANGED code
                   /\ IF req[1] = "list" THEN shown' = Append(shown, all[n]) /\ UNCHANGED pics
                                        ELSE pics' = Append(pics, Drawn(all[n])) /\ UNCHANGED shown
        /\ UNCHANGED <<store, req>>
Next == Refuse \/ Names \/ Show
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
StoreGood == \A p \in DOMAIN store : StoredFaults(p, p, store[p]) = {}
Kept == [][store' = store]_vars
Failed == code = 1 => shown = << >> /\ pics = << >>
Answered == (code = 0 /\ req[2] # None) =>
   IF req[1] = "list" THEN shown = store[req[2]] /\ pics = << >>
   ELSE shown = << >> /\ Len(pics) = Len(store[req[2]])
        /\ \A j, k \in DOMAIN pics : j # k => pics[j] # pics[k]      \* different matrices, different pictures
Ends == <>(code # -1)
=============================================================================
