---------------------------- MODULE TraceSearch ----------------------------
(***************************************************************************)
(* Conformance of recorded searches (properties C01-C05, C10, C22).        *)
(* Want: the properties whose clauses are judged in this run.              *)
(***************************************************************************)
EXTENDS SRGCore, TraceBase
CONSTANTS Want
VARIABLES i, out

W(prop, S) == IF prop \in Want THEN S ELSE {}

(* Event "advance": the real extension step on the partial matrix m.       *)
(*   heads : first element m, then every other matrix that was found as    *)
(*           the upper part of an extension                                *)
(*   succ  : the extensions as <<index into heads, new row>>               *)
AdvanceFaults(e) ==
  LET p == e.p
      m == e.heads[1]
      R == Len(m)
      rows == [j \in DOMAIN e.succ |-> e.succ[j][2]]
      ok == e.out = "ok"
      shaped == \A j \in DOMAIN rows : IsBitRow(rows[j], PV(p))
  IN
  IF e.out = "timeout" THEN W("C10", {"C10 does not end"})
  ELSE IF e.out = "malformed" THEN {"malformed result"}
  ELSE IF ~ ok THEN W("C10", {"C10 raises"}) \cup W("C04", {"C04 fails instead of answering"})
  ELSE IF ~ shaped THEN {"shape"}
  ELSE
    W("C03", If(\E j \in DOMAIN e.succ : e.succ[j][1] # 1, "C03 earlier rows changed")
             \cup UNION { RowFaults(m, p, rows[j]) : j \in DOMAIN rows })
    \cup
    W("C05", If(Cardinality(Range(e.succ)) # Len(e.succ), "C05 repeated")
             \cup If(\E j \in DOMAIN e.succ : e.succ[j][1] = 1 /\ ~ CanonRow(m, R, rows[j]), "C05 not canonical"))
    \cup
    W("C04", If(~ (NextRows(m, p) \subseteq Range(rows)), "C04 row missed"))

(* Event "step": one row known to be a continuation (a relabelled graph).  *)
(*   m, row, g, pi : rows of Relabel(g, pi);  rows: what the code found    *)
StepFaults(e) ==
  LET R == Len(e.m)
      h == Relabel(e.g, e.pi)
  IN
  IF ~ (IsPerm(e.pi, Len(e.g)) /\ IsSRG(e.g, e.p) /\ e.m = SubSeq(h, 1, R)
        /\ PrefixFaults(SubSeq(h, 1, R + 1), e.p) = {} /\ Canonical(SubSeq(h, 1, R + 1)))
  THEN {"bad witness"}
  ELSE IF e.out = "timeout" THEN W("C10", {"C10 does not end"})
  ELSE IF e.out = "malformed" THEN {"malformed result"}
  ELSE IF e.out # "ok" THEN W("C10", {"C10 raises"}) \cup W("C02", {"C02 fails on the way to a graph"})
  ELSE W("C02", If(h[R + 1] \notin Range(e.rows), "C02 continuation missed"))

RECURSIVE AllCanonicalFrom(_, _)
AllCanonicalFrom(m, p) ==
  IF Len(m) = PV(p) THEN {m}
  ELSE UNION { AllCanonicalFrom(Append(m, row), p) : row \in NextRows(m, p) }

(* Event "solve": the whole enumeration from start (the seed or a longer   *)
(* consistent partial matrix).                                             *)
(*   results, again: first and second run;                                 *)
(*   all: judge against the complete set by definition                     *)
(*   must: relabelled graphs <<g, pi>> that have to be among the results   *)
SolveFaults(e) ==
  LET p == e.p
      m == e.start
      rs == e.results
      shaped == \A j \in DOMAIN rs : IsBitMatrix(rs[j], PV(p), PV(p))
  IN
  IF PrefixFaults(m, p) # {} \/ ~ Canonical(m) THEN {"bad start"}
  ELSE IF e.out = "timeout" THEN W("C10", {"C10 does not end"})
  ELSE IF e.out = "malformed" THEN {"malformed result"}
  ELSE IF e.out # "ok" THEN W("C10", {"C10 raises"}) \cup W("C02", If(e.must # << >>, "C02 fails before the graph"))
  ELSE
    W("C01", UNION { SRGFaults(rs[j], p) : j \in DOMAIN rs })
    \cup (IF ~ shaped THEN {"shape"} ELSE
    W("C05", If(Cardinality(Range(rs)) # Len(rs), "C05 repeated")
             \cup If(\E j \in DOMAIN rs : ~ Canonical(rs[j]), "C05 not canonical")
             \cup If(\E j \in DOMAIN rs : SubSeq(rs[j], 1, Len(m)) # m, "C05 start not kept")
             \cup If(e.twice /\ Range(e.again) # Range(rs), "C05 not reproducible"))
    \cup
    W("C02", If(e.all /\ ~ (AllCanonicalFrom(m, p) \subseteq Range(rs)), "C02 graph missed")
             \cup UNION { LET g == e.must[j][1]
                              pi == e.must[j][2]
                              h == Relabel(g, pi)
                          IN IF ~ (IsPerm(pi, Len(g)) /\ IsSRG(g, p) /\ Canonical(h) /\ SubSeq(h, 1, Len(m)) = m)
                             THEN {"bad witness"}
                             ELSE If(h \notin Range(rs), "C02 relabelled graph missed")
                          : j \in DOMAIN e.must }))

(* Event "seed" (C22): the two starting rows                               *)
SeedFaults(e) == IF e.out # "ok" THEN {"C22 raises"} ELSE If(e.rows # Seed(e.p), "C22 starting rows")

\* the same as runs <<entry, how often>>, for large orders
RECURSIVE Joined(_)
Joined(s) ==
  IF s = << >> THEN << >>
  ELSE IF Head(s)[2] = 0 THEN Joined(Tail(s))
  ELSE LET t == Joined(Tail(s)) IN
       IF t # << >> /\ t[1][1] = Head(s)[1] THEN << <<t[1][1], t[1][2] + Head(s)[2]>> >> \o Tail(t) ELSE <<Head(s)>> \o t
SeedRuns(p) == LET rem == PK(p) - PL(p) - 1 IN
  << Joined(<< <<0, 1>>, <<1, PK(p)>>, <<0, PV(p) - PK(p) - 1>> >>),
     Joined(<< <<1, 1>>, <<0, 1>>, <<1, PL(p)>>, <<0, rem>>, <<1, rem>>, <<0, PV(p) - PK(p) - 1 - rem>> >>) >>
RECURSIVE Spread(_)
Spread(s) == IF s = << >> THEN << >> ELSE [j \in 1..Head(s)[2] |-> Head(s)[1]] \o Spread(Tail(s))
ASSUME \A p \in FeasibleSet(3, 13) : <<Spread(SeedRuns(p)[1]), Spread(SeedRuns(p)[2])>> = Seed(p)
SeedRunsFaults(e) == IF e.out # "ok" THEN {"C22 raises"}
                     ELSE If(e.runs # SeedRuns(e.p), "C22 starting rows") \cup If(e.tuple # e.p, "C22 tuple")

(* Event "vklu" (C22): tuple read off a partial matrix                     *)
TuplesFaults(e) == IF e.out # "ok" THEN {"C22 raises"}
                   ELSE If(Len(e.rows) # e.want \/ \E j \in DOMAIN e.rows :
                             Len(e.rows[j]) # 8 \/ \E x \in 1..4 : e.rows[j][x] # e.rows[j][x + 4], "C22 tuple")
VkluFaults(e) == IF e.out # "ok" THEN {"C22 raises"} ELSE If(e.tuple # e.p, "C22 tuple")

(* Event "question" (C22): the equations for the next row.                 *)
(*   A, b, quota, bounds, v, loc, len: the question, or refused            *)
\* what the known part leaves of each requirement, without regard to sign
QuestionFaults(e) ==
  LET p == e.p
      m == e.m
      R == Len(m)
      n == PV(p) - R - 1
      need == Residual(m, p)
      refuse == \E j \in DOMAIN need : need[j] < 0
      coef(j) == IF j <= R THEN [c \in 1..n |-> m[j][R + 1 + c]] ELSE [c \in 1..n |-> 1]
      trivial == << [c \in 1..n |-> 0], 0 >>
      wanted == { <<coef(j), need[j]>> : j \in 1..(R+1) } \ {trivial}
      got == { <<e.A[j], e.b[j]>> : j \in DOMAIN e.A } \ {trivial}
  IN
  IF PrefixFaults(m, p) # {} THEN {"bad start"}
  ELSE IF e.out = "refused" THEN If(~ refuse, "C22 refused without need")
  ELSE IF e.out # "ok" THEN {"C22 raises"}
  ELSE If(refuse, "C22 exceeded requirement not noticed")
    \cup If(Len(e.A) # Len(e.b), "C22 shape")
    \cup (IF Len(e.A) # Len(e.b) \/ got = wanted THEN {}
          ELSE IF n > e.brute THEN If(~ (wanted \subseteq got), "C22 requirement missing")
          ELSE \* judged by solutions, not by form
             If(\E x \in [1..n -> {0,1}] :
                  (\A w \in wanted : Dot(w[1], x) = w[2])
                  # (\A w \in got : Dot(w[1], x) = w[2]), "C22 other solutions"))
    \cup If(e.quota # need[R + 1], "C22 quota")
    \cup If(e.bounds # [c \in 1..n |-> 1], "C22 capacities")
    \cup If(e.v # [c \in 1..n |-> -1], "C22 decided unknowns")
    \cup If(e.loc # [c \in 1..n |-> c - 1] \/ e.len # n, "C22 positions")

Verdict(e) ==
  CASE e.op = "advance"  -> AdvanceFaults(e)
    [] e.op = "step"     -> StepFaults(e)
    [] e.op = "solve"    -> SolveFaults(e)
    [] e.op = "seed"     -> SeedFaults(e)
    [] e.op = "seedruns" -> SeedRunsFaults(e)
    [] e.op = "vklu"     -> VkluFaults(e)
    [] e.op = "tuples"   -> TuplesFaults(e)
    [] e.op = "question" -> QuestionFaults(e)

TraceInit == i \in 1..Len(Ev) /\ out = {}
TraceNext == i > 0 /\ out' = Verdict(Ev[i]) /\ i' = -i
Conforms == out = {}
=============================================================================
