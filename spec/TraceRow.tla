------------------------------ MODULE TraceRow ------------------------------
(***************************************************************************)
(* Conformance of recorded row questions, deduction steps, splits and the  *)
(* functions below them (C06, C07, C08, C11-C14, C23, C25).                *)
(***************************************************************************)
EXTENDS Systems, TraceBase
VARIABLES i, out
P == INSTANCE Placements WITH MaxLen <- 1, MaxBound <- 1, MaxTotal <- 1, s <- 0, bounds <- << >>, seen <- << >>
R == INSTANCE Runs WITH MaxRows <- 1, MaxCols <- 1, A <- << >>, pos <- 0, kept <- << >>, mult <- << >>, starts <- << >>
B == INSTANCE Buckets WITH MaxLen <- 1, loc <- << >>, n <- 0, v <- << >>, written <- << >>, done <- 0

Bad(e) == IF e.out = "timeout" THEN {"does not end"}
          ELSE IF e.out = "malformed" THEN {"malformed result"}
          ELSE IF e.out # "ok" THEN {"raises"} ELSE {}

\* long answers are recorded as their maximal runs of equal entries <<value, how often>>
RECURSIVE Joined(_, _)
Joined(rs, acc) ==
  IF rs = << >> THEN acc
  ELSE LET x == Head(rs) IN
       IF x[2] = 0 THEN Joined(Tail(rs), acc)
       ELSE IF acc # << >> /\ acc[Len(acc)][1] = x[1] THEN Joined(Tail(rs), [acc EXCEPT ![Len(acc)][2] = @ + x[2]])
       ELSE Joined(Tail(rs), Append(acc, x))
RECURSIVE BucketRuns(_, _, _)
BucketRuns(v, sizes, j) == IF j > Len(v) THEN << >> ELSE <<<<1, v[j]>>, <<0, sizes[j] - v[j]>>>> \o BucketRuns(v, sizes, j + 1)

\* C06: a question solved
SolveQ(e) ==
  LET want == Answers(e.q) IN
  IF ShapeFaults(e.q) # {} \/ ~ QuotaImplied(e.q) THEN {"bad input"}
  ELSE IF e.out # "ok" THEN Bad(e)
  ELSE If(\E j, k \in DOMAIN e.ys : j < k /\ e.ys[j] = e.ys[k], "answer repeated")
    \cup If(~ (Range(e.ys) \subseteq want), "wrong answer")
    \cup If(~ (want \subseteq Range(e.ys)), "answer missed")

\* the same with answers too long to write down
SolveRuns(e) ==
  LET q == e.q
      L == MergedLoc(q)
      want == { Joined(BucketRuns(w, B!Sizes(L, q.len), 1), << >>) : w \in GatherAll(ProperCounts(q), q.loc, L) }
  IN IF ShapeFaults(q) # {} \/ ~ QuotaImplied(q) THEN {"bad input"}
  ELSE IF e.out # "ok" THEN Bad(e)
  ELSE If(\E j, k \in DOMAIN e.ys : j < k /\ e.ys[j] = e.ys[k], "answer repeated")
    \cup If(~ (Range(e.ys) \subseteq want), "wrong answer")
    \cup If(~ (want \subseteq Range(e.ys)), "answer missed")

\* C07: one deduction step
Step(e) ==
  IF ShapeFaults(e.q) # {} \/ ~ QuotaImplied(e.q) THEN {"bad input"}
  ELSE IF e.out = "nosolution" THEN If(ProperCounts(e.q) # {}, "solutions denied")
  ELSE IF e.out # "ok" THEN Bad(e)
  ELSE StepClauses(e.q, e.r)

\* C08: one split, and the values tried
SplitQ(e) ==
  IF ShapeFaults(e.q) # {} \/ ~ QuotaImplied(e.q) THEN {"bad input"}
  ELSE IF e.out = "nosolution" THEN If(ProperCounts(e.q) # {}, "solutions denied")
  ELSE IF e.out # "ok" THEN Bad(e)
  ELSE SplitClauses(e.q, e.parts)
       \* late: each part again, after other parts have been worked on
       \cup If(\E j \in DOMAIN e.late : e.late[j] # e.parts[j], "part changed by work on another part")
       \* after: the split question, at the end
       \cup If(e.after # e.q, "split question changed")
Values(e) ==
  LET rest == SumSeq(e.bounds) - e.bounds[e.at + 1]
      want == {t \in 0..e.bounds[e.at + 1] : t <= e.quota /\ e.quota - t <= rest}
  IN IF e.out # "ok" THEN Bad(e)
     ELSE If({e.pairs[j][1] : j \in DOMAIN e.pairs} # want, "values tried")
       \cup If(Len(e.pairs) # Cardinality(want), "value tried twice")
       \cup If(\E j \in DOMAIN e.pairs : e.pairs[j][2] # e.quota - e.pairs[j][1], "remaining quota")

\* C11: elimination and row sort
Elim(e) ==
  LET C == e.cols IN
  If(e.argsA # e.A \/ e.argsb # e.b, "arguments changed") \cup
  (IF e.out = "nosolution" THEN If(~ Unsolvable(e.A, e.b, C), "solutions denied")
   ELSE IF e.out # "ok" THEN Bad(e)
   ELSE IF e.rcols # C \/ Len(e.rA) # Len(e.rb) \/ \E r \in DOMAIN e.rA : ~ IsBitRow(e.rA[r], C)
   THEN {"shape"}
   ELSE If(\E r \in DOMAIN e.rb : e.rb[r] < 0, "right-hand side negative")
        \cup (IF \E r \in DOMAIN e.rb : e.rb[r] < 0 THEN {} ELSE
              If(~ SameNonNegSolutions(e.A, e.b, e.rA, e.rb, C), "other solutions")))
\* a long elimination: equation r sums the unknowns up to r, so x is the only solution (it may be negative).
\* rows: the ones of each returned equation; each unknown leads one of them, so they determine x as well
ElimLong(e) ==
  LET n == Len(e.x)
      RECURSIVE Total(_, _)
      Total(s, j) == IF j > Len(s) THEN 0 ELSE e.x[s[j]] + Total(s, j + 1)
      negative == \E j \in 1..n : e.x[j] < 0
  IN IF e.out = "nosolution" THEN If(~ negative, "solutions denied")
     ELSE IF e.out # "ok" THEN Bad(e)
     ELSE IF e.rcols # n \/ Len(e.rows) # Len(e.rb) THEN {"shape"}
     ELSE If(\E r \in DOMAIN e.rb : e.rb[r] < 0, "right-hand side negative")
          \cup If(\E r \in DOMAIN e.rb : Total(e.rows[r], 1) # e.rb[r], "other solutions")
          \cup If({e.rows[r][1] : r \in {q \in DOMAIN e.rows : e.rows[q] # << >>}} # 1..n
                  \* when x is negative: or an equation contained in another exceeds it, so that nothing solves them
                  /\ ~ (negative /\ LET S == [r \in DOMAIN e.rows |-> Range(e.rows[r])]
                                     IN \E r, q \in DOMAIN e.rows : e.rb[r] > e.rb[q] /\ S[r] \subseteq S[q]), "more solutions")
\* occurrences of the pair (row, right-hand side)
Occ(A, b, x, y) == Cardinality({r \in DOMAIN A : A[r] = x /\ b[r] = y})
SortRows(e) ==
  IF e.out # "ok" THEN Bad(e)
  ELSE If(Len(e.rA) # Len(e.A) \/ Len(e.rb) # Len(e.b), "shape")
    \cup (IF Len(e.rA) # Len(e.A) \/ Len(e.rb) # Len(e.b) THEN {} ELSE
          If(\E j \in 1..(Len(e.rb) - 1) : e.rb[j] > e.rb[j + 1], "not ascending")
          \cup If(\E r \in DOMAIN e.A : Occ(e.A, e.b, e.A[r], e.b[r]) # Occ(e.rA, e.rb, e.A[r], e.b[r]), "equation torn apart"))

\* C12
Compress(e) ==
  IF e.out # "ok" THEN Bad(e)
  ELSE R!CompressFaults(e.A, e.kept, e.mult, e.starts)
    \cup If(e.back # e.A, "expansion differs") \cup If(e.args # e.A, "argument changed")

\* C13
Place(e) == IF e.out # "ok" THEN Bad(e) ELSE P!ListFaults(e.s, e.bounds, e.list)

\* C14
Binarize(e) ==
  If(e.sizes # B!Sizes(e.loc, e.len), "bucket sizes") \cup
  (IF B!Acceptable(e.loc, e.len, e.v)
   THEN IF e.out # "ok" THEN Bad(e) ELSE If(e.vec # Expand(e.v, e.loc, e.len), "expansion")
   ELSE If(e.out = "ok" \/ e.out = "timeout" \/ e.out = "malformed", "expanded what should be rejected"))
  \cup If(e.args # <<e.v, e.loc>>, "answer changed")

\* the same for long answers
BinRuns(e) ==
  IF B!Acceptable(e.loc, e.len, e.v)
  THEN IF e.out # "ok" THEN Bad(e)
       ELSE If(e.runs # Joined(BucketRuns(e.v, B!Sizes(e.loc, e.len), 1), << >>), "expansion")
  ELSE If(e.out = "ok" \/ e.out = "timeout" \/ e.out = "malformed", "expanded what should be rejected")

\* C23
Bounds(e) ==
  IF e.out # "ok" THEN Bad(e)
  ELSE
    LET want == [c \in 1..Len(e.bounds) |-> MinOf({e.bounds[c]} \cup {e.b[r] : r \in {s \in 1..Len(e.A) : e.A[s][c] = 1}})]
    IN If(e.tight # want, "capacity")
       \cup If({c \in 1..Len(e.tight) : e.tight[c] = 0} # {z + 1 : z \in Range(e.zeros)}, "zero capacities")
       \cup If(Len(e.zeros) # Cardinality(Range(e.zeros)), "zero reported twice")
       \cup If(e.A2 # e.A \/ e.b2 # e.b, "equations changed")
Alone(e) ==
  LET single(r) == Cardinality(Ones(e.A[r])) = 1
      want == UNION { Ones(e.A[r]) : r \in {s \in 1..Len(e.A) : single(s)} }
  IN IF e.out # "ok" THEN Bad(e)
     ELSE If({p[2] + 1 : p \in Range(e.pairs)} # want, "unknowns standing alone")
       \cup If(Len(e.pairs) # Cardinality({p[2] : p \in Range(e.pairs)}), "unknown reported twice")
       \cup If(\E p \in Range(e.pairs) : p[1] < 0 \/ p[1] >= Len(e.A) \/
                 (p[1] >= 0 /\ p[1] < Len(e.A) /\ Ones(e.A[p[1] + 1]) # {p[2] + 1}), "equation reported")

\* C25: the same step on the same question, plain and wrapped
Wrapped(e) ==
  IF e.plain.out = "ok" /\ ~ QuestionInvariant(e.plain.after)
  THEN If(e.wrapped.out # "raise:AssertionError", "violated invariant not reported")
       \cup If(e.wrapped.after # e.plain.after, "effect differs")
  ELSE If(e.wrapped.out # e.plain.out, "outcome differs")
       \cup If(e.wrapped.ret # e.plain.ret, "return value differs")
       \cup If(e.wrapped.after # e.plain.after, "effect differs")

Verdict(e) ==
  CASE e.op = "solve" -> SolveQ(e)
    [] e.op = "solveruns" -> SolveRuns(e)
    [] e.op = "step" -> Step(e)
    [] e.op = "split" -> SplitQ(e)
    [] e.op = "values" -> Values(e)
    [] e.op = "elim" -> Elim(e)
    [] e.op = "elimlong" -> ElimLong(e)
    [] e.op = "sortrows" -> SortRows(e)
    [] e.op = "compress" -> Compress(e)
    [] e.op = "place" -> Place(e)
    [] e.op = "binarize" -> Binarize(e)
    [] e.op = "binruns" -> BinRuns(e)
    [] e.op = "bounds" -> Bounds(e)
    [] e.op = "alone" -> Alone(e)
    [] e.op = "wrap" -> Wrapped(e)

TraceInit == i \in 1..Len(Ev) /\ out = {}
TraceNext == i > 0 /\ out' = Verdict(Ev[i]) /\ i' = -i
Conforms == out = {}
=============================================================================
