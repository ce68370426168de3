------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Several enumerations open at the same time (C09).  Source s has the     *)
(* results 1..Size[s] when run alone.  An enumeration is opened on a       *)
(* source, asked for one result after the other until it says it is at its *)
(* end, or dropped.  Results handed over belong to the caller, who may     *)
(* overwrite them ("spoil").  Inputs never change.                         *)
(*   open  : one record per enumeration: source, results still to come,    *)
(*           live                                                          *)
(*   held  : results handed over: <<enumeration, result, spoiled>>         *)
(* Design says what the enumerations share: "nothing", or, as mutations,   *)
(* "cursor" (one position per source) and "buffer" (results of a source    *)
(* are handed out without being copied).                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Size, MaxOpen, MaxOps, Design
VARIABLES open, held, hist, content, fault
vars == <<open, held, hist, content, fault>>

Sources == DOMAIN Size
OpenStep(op, s, sz) == Append(op, [src |-> s, left |-> 1..sz[s], live |-> TRUE])
\* what enumeration e may answer: a result still to come, or the end (-1) if there is none
MayAnswer(op, e, r) == /\ op[e].live
                       /\ IF r = -1 THEN op[e].left = {} ELSE r \in op[e].left
Answered(op, e, r) == IF r = -1 THEN [op EXCEPT ![e].live = FALSE] ELSE [op EXCEPT ![e].left = @ \ {r}]
Dropped(op, e) == [op EXCEPT ![e].live = FALSE]

----------------------------------------------------------------------------
Log(o) == hist' = Append(hist, o)
Init == /\ open = << >> /\ held = << >> /\ hist = << >> /\ fault = FALSE
        /\ content = [s \in Sources |-> [r \in 1..Size[s] |-> r]]        \* the "buffer" of the mutated design
Open(s) == /\ Len(open) < MaxOpen
           /\ open' = OpenStep(open, s, Size)
           /\ Log([op |-> "open", x |-> s, y |-> 0]) /\ UNCHANGED <<held, content, fault>>
\* the design's own choice of the next result
Gives(e) ==
  IF Design = "cursor"
  THEN LET used == UNION { (1..Size[open[e].src]) \ open[f].left : f \in {g \in DOMAIN open : open[g].src = open[e].src} }
       IN IF used = 1..Size[open[e].src] THEN {-1} ELSE {CHOOSE r \in 1..Size[open[e].src] : r \notin used}
  ELSE IF open[e].left = {} THEN {-1} ELSE {CHOOSE r \in open[e].left : \A q \in open[e].left : r <= q}
Ask(e) == /\ open[e].live
          /\ \E r \in Gives(e) :
               /\ fault' = (fault \/ ~ MayAnswer(open, e, r) \/ (r # -1 /\ content[open[e].src][r] # r))
               /\ open' = IF MayAnswer(open, e, r) THEN Answered(open, e, r) ELSE Dropped(open, e)
               /\ held' = IF r = -1 THEN held ELSE Append(held, <<e, r, FALSE>>)
          /\ Log([op |-> "next", x |-> e, y |-> 0]) /\ UNCHANGED content
Spoil(j) == /\ ~ held[j][3]
            /\ held' = [held EXCEPT ![j][3] = TRUE]
            /\ content' = IF Design = "buffer" THEN [content EXCEPT ![open[held[j][1]].src][held[j][2]] = 0] ELSE content
            /\ Log([op |-> "spoil", x |-> j, y |-> 0]) /\ UNCHANGED <<open, fault>>
Drop(e) == /\ open[e].live /\ open' = Dropped(open, e)
           /\ Log([op |-> "drop", x |-> e, y |-> 0]) /\ UNCHANGED <<held, content, fault>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E s \in Sources : Open(s)
           \/ \E e \in DOMAIN open : Ask(e) \/ Drop(e)
           \/ \E j \in DOMAIN held : Spoil(j)
Spec == Init /\ [][Next]_vars

\* an enumeration that ended by itself has handed over exactly its results, whatever the others did
Gave(e) == {held[j][2] : j \in {i \in DOMAIN held : held[i][1] = e}}
Independent == \A e \in DOMAIN open :
   /\ Gave(e) \cup open[e].left = 1..Size[open[e].src]
   /\ Gave(e) \cap open[e].left = {}
   /\ Cardinality({j \in DOMAIN held : held[j][1] = e}) = Cardinality(Gave(e))
NoFault == ~ fault
\* prints each schedule of full length (for replaying)
Emit == (Len(hist) = MaxOps \/ ~ ENABLED Next) => PrintT("SCHEDULE " \o ToJson(hist))
View == <<open, held, content, fault, Len(hist)>>
=============================================================================
