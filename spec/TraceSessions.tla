--------------------------- MODULE TraceSessions ---------------------------
(***************************************************************************)
(* Recorded histories of open enumerations are run through the machine of  *)
(* Sessions, one recorded operation per step.  An operation carries what   *)
(* was observed:                                                           *)
(*   got    : number of the result handed over (in the list of results of  *)
(*            the source when run alone), -1: end, 0: something else,      *)
(*            -2: raised, -3: did not answer                               *)
(*   inputs : per source, whether it is as it was handed in (1/0)          *)
(*   held   : what the results handed over so far and not spoiled now are  *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES h, k, open, held, out
S == INSTANCE Sessions WITH Size <- << >>, MaxOpen <- 0, MaxOps <- 0, Design <- "nothing", hist <- << >>, content <- << >>, fault <- FALSE
tvars == <<h, k, open, held, out>>

TraceInit == h \in 1..Len(Ev) /\ k = 0 /\ open = << >> /\ held = << >>
             /\ out = If(\E s \in DOMAIN Ev[h].alone : Ev[h].alone[s] = 0, "does not run alone")

Ops == Ev[h].ops
O == Ops[k + 1]
Watch(newheld) ==
  If(\E s \in DOMAIN O.inputs : O.inputs[s] # 1, "input changed")
  \cup If(O.held # [j \in DOMAIN newheld |-> IF newheld[j][3] THEN -9 ELSE newheld[j][2]], "result changed afterwards")
DoOpen == /\ O.op = "open" /\ open' = S!OpenStep(open, O.x, Ev[h].sizes) /\ held' = held
          /\ out' = Watch(held) \cup If(O.got = -2, "raises")
DoNext == /\ O.op = "next"
          /\ IF S!MayAnswer(open, O.x, O.got)
             THEN /\ open' = S!Answered(open, O.x, O.got)
                  /\ held' = IF O.got = -1 THEN held ELSE Append(held, <<O.x, O.got, FALSE>>)
                  /\ out' = Watch(held')
             ELSE /\ UNCHANGED <<open, held>>
                  /\ out' = IF O.got = -2 THEN {"raises"} ELSE IF O.got = -3 THEN {"does not answer"}
                            ELSE IF O.got = -1 THEN {"ends early"}
                            ELSE IF O.got = 0 THEN {"another result than alone"} ELSE {"result repeated"}
DoSpoil == /\ O.op = "spoil" /\ open' = open /\ held' = [held EXCEPT ![O.x][3] = TRUE]
           /\ out' = Watch(held')
DoDrop == /\ O.op = "drop" /\ open' = S!Dropped(open, O.x) /\ held' = held
          /\ out' = Watch(held) \cup If(O.got = -2, "raises") \cup If(O.got = -3, "does not answer")
TraceNext == /\ out = {} /\ k < Len(Ops)
             /\ k' = k + 1 /\ h' = h
             /\ (DoOpen \/ DoNext \/ DoSpoil \/ DoDrop)
\* a history must be consumed to its end
Stuck == k < Len(Ops) /\ out = {} /\ ~ ENABLED TraceNext
Conforms == out = {} /\ ~ Stuck
=============================================================================
