----------------------------- MODULE TraceGraph -----------------------------
(***************************************************************************)
(* Conformance of recorded sorts, maximizations, complements, spectra,     *)
(* guards and batches (C15-C18, C26, C27).                                 *)
(***************************************************************************)
EXTENDS Graphs, TraceBase
VARIABLES i, out
S == INSTANCE Spectrum WITH Lo <- 1, Hi <- 1, p <- 0, m <- 0
B == INSTANCE Big
T == INSTANCE Batches WITH N <- 1, MaxHeap <- 1, MaxBatch <- 1, heap <- 0, batch <- 0, yes <- 0, no <- 0

Bad(e) == IF e.out = "timeout" THEN {"does not end"}
          ELSE IF e.out = "malformed" THEN {"malformed result"}
          ELSE IF e.out # "ok" THEN {"raises"} ELSE {}

\* C15: one list sorted in several input orders
\* mats: the distinct matrices; given/sorted/after: sequences of indices into mats (0: something else)
SortList(e) ==
  LET M(s) == TLCEval([j \in DOMAIN s |-> e.mats[s[j]]]) IN
  IF e.out # "ok" THEN Bad(e)
  ELSE UNION { IF \E j \in DOMAIN r.sorted : r.sorted[j] = 0 THEN {"not the same matrices"}
               ELSE SortFaults(M(r.given), M(r.sorted)) \cup If(r.after # r.given, "input changed")
             : r \in Range(e.runs) }
       \cup If(\E r, s \in Range(e.runs) : r.sorted # s.sorted, "depends on the order of the input")

\* C16
Max(e) == If(e.after # e.m, "input changed")
          \cup (IF e.out # "ok" THEN Bad(e) ELSE MaxFaults(e.m, e.max, e.pi))
Swap(e) == If(e.after # e.m, "input changed")
           \cup (IF e.out # "ok" THEN Bad(e)
                 ELSE If(e.r # Relabel(e.m, Exchange(Len(e.m), e.a + 1, e.b + 1)), "not the exchange"))

\* C17
Compl(e) == If(e.after # e.m, "input changed")
            \cup (IF e.out # "ok" THEN Bad(e)
                  ELSE If(e.c # Complement(e.m), "not the complement") \cup If(e.cc # e.m, "no involution")
                       \cup If(e.p # << >> /\ (e.q # ComplementParams(e.p)), "parameters")
                       \cup If(e.p # << >> /\ SRGFaults(e.c, e.q) # {}, "complement not strongly regular with the complemented parameters"))
ComplP(e) == IF e.out # "ok" THEN Bad(e)
             ELSE If(e.q # ComplementParams(e.p), "parameters") \cup If(e.qq # e.p, "no involution")
                  \cup If(Identity(e.p) /\ ~ Identity(e.q), "identity lost")

\* C18: pairs are <<eigenvalue, multiplicity>>; exact: all eigenvalues are integers, given as such;
\* otherwise the second and third as round(1000 * (2 x - (l - u)))
Close(n, d) == LET t == n * n - d * 1000000 IN (IF t < 0 THEN -t ELSE t) <= 2 * (IF n < 0 THEN -n ELSE n) + 1
Spec(e) ==
  IF ~ Feasible(e.p) \/ ~ S!Integral(e.p) THEN {"bad input"}
  ELSE IF e.out # "ok" THEN Bad(e)
  ELSE If(Len(e.mult) # 3, "three pairs") \cup
    (IF Len(e.mult) # 3 THEN {} ELSE
      If(e.mult # <<1, S!Mult(e.p)[1], S!Mult(e.p)[2]>>, "multiplicities")
      \cup If(e.k # PK(e.p), "first eigenvalue")
      \cup (IF e.exact THEN If(<<e.r, e.s>> # S!Roots(e.p) \/ S!Root(S!Disc(e.p)) < 0, "roots")
            ELSE If(S!Root(S!Disc(e.p)) >= 0 /\ S!Conf(e.p) # 0, "roots not exact")
                 \cup If(e.r2 <= 0 \/ ~ Close(e.r2, S!Disc(e.p)), "larger root")
                 \cup If(e.s2 >= 0 \/ ~ Close(e.s2, S!Disc(e.p)), "smaller root")
                 \cup If(e.r2 # - e.s2, "weighted sum")))
\* parameters of any size: sum and product of the roots, number and weighted sum of the eigenvalues determine all of them
BigSpec(e) ==
  LET v == e.p[1]
      k == e.p[2]
      l == e.p[3]
      u == e.p[4]
      one == B!Small(1)
  IN IF e.out # "ok" THEN Bad(e)
     ELSE IF Len(e.mult) # 3 \/ Len(e.ev) # (IF e.exact THEN 3 ELSE 1) THEN {"three pairs"}
     ELSE If(e.mult[1] # one \/ e.mult[2][1] # 1 \/ e.mult[3][1] # 1 \/ B!Add(one, B!Add(e.mult[2], e.mult[3])) # v, "multiplicities")
       \cup If(e.ev[1] # k, "first eigenvalue")
       \cup (IF ~ e.exact THEN If(e.mult[2] # e.mult[3], "multiplicities")
             ELSE If(B!Add(e.ev[2], e.ev[3]) # B!Sub(l, u) \/ B!Mul(e.ev[2], e.ev[3]) # B!Sub(u, k)
                     \/ B!Sub(e.ev[2], e.ev[3])[1] # 1, "roots")
                  \cup If(B!Add(k, B!Add(B!Mul(e.mult[2], e.ev[2]), B!Mul(e.mult[3], e.ev[3])))[1] # 0, "weighted sum"))
Det(e) ==
  IF ~ Feasible(e.p) \/ ~ S!Integral(e.p) THEN {"bad input"}
  ELSE IF e.out # "ok" THEN Bad(e)
  ELSE If(e.det # S!Det(e.p), "determinant")
       \cup (IF e.g = << >> THEN {}
             ELSE IF ~ IsSRG(e.g, e.p) THEN {"bad input"}
             ELSE If(\E q \in {32749, 45989, 40961} : S!DetMod(e.g, q) # B!Mod(e.det, q), "not the determinant of the graph"))

\* C26: numbers as Big
GuardB(e) ==
  LET v == e.t[1]
      k == e.t[2]
      l == e.t[3]
      u == e.t[4]
      one == B!Small(1)
      holds == B!Mul(B!Sub(B!Sub(v, k), one), u) = B!Mul(k, B!Sub(B!Sub(k, l), one))
  IN IF e.out = "timeout" THEN {"does not end"}
     ELSE If(holds /\ e.out # "ok", "refused though the identity holds")
       \cup If(~ holds /\ e.out = "ok", "accepted though the identity fails")
       \cup If(e.out # e.compl, "complement judged differently")

\* C27: several rows appended to partial matrices that may share their storage; held: each result read at the end
GrowMany(e) ==
  IF e.out # "ok" THEN Bad(e)
  ELSE If(\E j \in DOMAIN e.steps :
            e.held[j] # T!AppendRow(IF e.steps[j].from = 0 THEN e.m ELSE e.held[e.steps[j].from], e.steps[j].rem), "appended row changed later")
       \cup If(e.after # e.m, "original changed")
SepBatch(e) ==
  LET done == {j \in DOMAIN e.batch : T!Done(e.batch[j].m, e.batch[j].n)} IN
  IF e.out # "ok" THEN Bad(e)
  ELSE If(e.yes # T!Select([j \in DOMAIN e.batch |-> j], done), "finished ones")
       \cup If(e.no # T!Select([j \in DOMAIN e.batch |-> j], DOMAIN e.batch \ done), "unfinished ones")
       \cup If(\E j \in DOMAIN e.batch : e.solved[j] # (j \in done), "finished or not")
       \cup If(e.after # [j \in DOMAIN e.batch |-> e.batch[j].m], "member changed")
Grow(e) ==
  If(e.after # e.m, "original changed") \cup If(e.remafter # e.rem, "remainder changed") \cup
  (IF ~ T!Fits(e.m, e.rem, e.n)
   THEN If(e.out = "ok" \/ e.out = "timeout" \/ e.out = "malformed", "remainder of the wrong length accepted")
   ELSE IF e.out # "ok" THEN Bad(e)
   ELSE If(e.r # T!AppendRow(e.m, e.rem), "appended row"))

Verdict(e) ==
  CASE e.op = "sort" -> SortList(e)
    [] e.op = "max" -> Max(e)
    [] e.op = "swap" -> Swap(e)
    [] e.op = "compl" -> Compl(e)
    [] e.op = "complp" -> ComplP(e)
    [] e.op = "spec" -> Spec(e)
    [] e.op = "bigspec" -> BigSpec(e)
    [] e.op = "det" -> Det(e)
    [] e.op = "guard" -> GuardB(e)
    [] e.op = "separate" -> SepBatch(e)
    [] e.op = "append" -> Grow(e)
    [] e.op = "appends" -> GrowMany(e)

TraceInit == i \in 1..Len(Ev) /\ out = {}
TraceNext == i > 0 /\ out' = Verdict(Ev[i]) /\ i' = -i
Conforms == out = {}
=============================================================================
