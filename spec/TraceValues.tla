----------------------------- MODULE TraceValues -----------------------------
(***************************************************************************)
(* Recorded histories of operations on questions and answers, run through  *)
(* the heap machine of Values.  Each operation carries what was observed:  *)
(*   ok    : accepted                                                      *)
(*   heap  : all objects afterwards                                        *)
(*   eqs   : all pairs <<i, j>> of objects of one kind found equal         *)
(*   nes   : all pairs found unequal (!=)                                  *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES h, k, heap, out
V == INSTANCE Values WITH MaxHeap <- 0, MaxOps <- 0, Deep <- TRUE, hist <- << >>, shared <- {}
Ops == Ev[h].ops
O == Ops[k + 1]
TraceInit == h \in 1..Len(Ev) /\ k = 0 /\ heap = << >> /\ out = {}
SameKind(g) == {<<i, j>> \in (DOMAIN g) \X (DOMAIN g) : g[i].kind = g[j].kind}
TraceNext ==
  /\ out = {} /\ k < Len(Ops) /\ k' = k + 1 /\ h' = h
  /\ IF ~ V!Askable(heap, O) THEN out' = {"bad history"} /\ heap' = heap
     ELSE LET g == V!Apply(heap, O) IN
       /\ heap' = g
       /\ out' = If(O.ok /\ ~ V!Accepts(heap, O), "accepted what has to be refused")
                 \cup If(~ O.ok /\ V!Accepts(heap, O), "refused what has to be accepted")
                 \cup If(O.heap # g, IF O.ok THEN "other objects than expected" ELSE "refused, but changed")
                 \cup If({<<O.eqs[j][1], O.eqs[j][2]>> : j \in DOMAIN O.eqs} # {p \in SameKind(g) : V!Same(g[p[1]], g[p[2]])}, "equality")
                 \cup If({<<O.nes[j][1], O.nes[j][2]>> : j \in DOMAIN O.nes} # {p \in SameKind(g) : ~ V!Same(g[p[1]], g[p[2]])}, "inequality")
Conforms == out = {}
=============================================================================
