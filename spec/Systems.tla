------------------------------ MODULE Systems ------------------------------
(***************************************************************************)
(* Systems of 0/1 equations over bounded non-negative integers, and the    *)
(* row questions built on them.                                            *)
(*                                                                         *)
(* A question is a record                                                  *)
(*   A      : sequence of 0/1 rows, one column per undecided bucket        *)
(*   b      : right-hand sides                                             *)
(*   quota  : total of the unknowns                                        *)
(*   bounds : capacity of each unknown                                     *)
(*   v      : value of each bucket, -1 if undecided                        *)
(*   loc    : start of each bucket (from 0), len : length of the answer    *)
(***************************************************************************)
EXTENDS SRGCore

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumFrom(_, _)
SumFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumFrom(s, i + 1)

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

\* all x with A x = b and 0 <= x <= bounds (blocks of SRGCore: one per column)
Blocks(A, bounds) == TLCEval([c \in 1..Len(bounds) |-> [n |-> bounds[c], rows |-> {r \in 1..Len(A) : A[r][c] = 1}]])
Sols(A, b, bounds) ==
  LET G == Blocks(A, bounds)
      E == 1..Len(A)
  IN Fill(G, CapsFrom(G, 1, E), 1, b)

\* by definition (small systems only)
SolsByDefinition(A, b, bounds) ==
  LET C == Len(bounds) IN
  { x \in [1..C -> 0..(IF C = 0 THEN 0 ELSE MaxOf({bounds[c] : c \in 1..C}))] :
      /\ \A c \in 1..C : x[c] <= bounds[c]
      /\ \A r \in 1..Len(A) : SumSeq([c \in 1..C |-> A[r][c] * x[c]]) = b[r] }

----------------------------------------------------------------------------
\* non-negative solutions without capacities (elimination): unknowns in no equation are free
FreeCols(A, C) == {c \in 1..C : \A r \in 1..Len(A) : A[r][c] = 0}
LimitedBy(A, b, C) == TLCEval(
  [c \in 1..C |-> IF c \in FreeCols(A, C) THEN 0 ELSE MinOf({b[r] : r \in {s \in 1..Len(A) : A[s][c] = 1}})])
\* two systems over the same C unknowns have the same non-negative integer solutions
SameNonNegSolutions(A1, b1, A2, b2, C) ==
  LET S1 == Sols(A1, b1, LimitedBy(A1, b1, C))
      S2 == Sols(A2, b2, LimitedBy(A2, b2, C))
  IN S1 = S2 /\ (S1 # {} => FreeCols(A1, C) = FreeCols(A2, C))
Unsolvable(A, b, C) == Sols(A, b, LimitedBy(A, b, C)) = {}

----------------------------------------------------------------------------
Unknowns(q) == {j \in 1..Len(q.v) : q.v[j] = -1}
\* number of the column of bucket j
ColOf(q, j) == Cardinality({i \in Unknowns(q) : i <= j})
Size(q, j) == (IF j = Len(q.loc) THEN q.len ELSE q.loc[j + 1]) - q.loc[j]
Column(q, c) == [r \in 1..Len(q.A) |-> q.A[r][c]]

\* shape of a question: the clauses that fail
ShapeFaults(q) ==
  LET C == Cardinality(Unknowns(q)) IN
  (IF Len(q.A) # Len(q.b) THEN {"as many equations as right-hand sides"} ELSE {}) \cup
  (IF \E r \in 1..Len(q.A) : ~ IsBitRow(q.A[r], C) THEN {"one 0/1 column per undecided bucket"} ELSE {}) \cup
  (IF Len(q.bounds) # C THEN {"one capacity per undecided bucket"} ELSE {}) \cup
  (IF Len(q.v) # Len(q.loc) THEN {"one value per bucket"} ELSE {}) \cup
  (IF Len(q.loc) > 0 /\ (q.loc[1] # 0 \/ q.loc[Len(q.loc)] >= q.len
                          \/ \E j \in 1..(Len(q.loc) - 1) : q.loc[j] >= q.loc[j + 1])
   THEN {"bucket starts ascend"} ELSE {}) \cup
  (IF \E j \in DOMAIN q.b : q.b[j] < 0 THEN {"right-hand side negative"} ELSE {}) \cup
  (IF \E j \in DOMAIN q.bounds : q.bounds[j] < 0 THEN {"capacity negative"} ELSE {}) \cup
  (IF q.quota < 0 THEN {"quota negative"} ELSE {})

\* the answers a question describes, as number of ones per bucket
Counts(q) ==
  LET col == TLCEval([j \in 1..Len(q.v) |-> ColOf(q, j)])
  IN { [j \in 1..Len(q.v) |-> IF q.v[j] = -1 THEN x[col[j]] ELSE q.v[j]] : x \in Sols(q.A, q.b, q.bounds) }
\* answers that overfill a bucket are none
ProperCounts(q) ==
  LET size == TLCEval([j \in 1..Len(q.v) |-> Size(q, j)])
  IN { w \in Counts(q) : \A j \in 1..Len(w) : w[j] >= 0 /\ w[j] <= size[j] }

\* all solutions use up exactly the quota
QuotaImplied(q) == \A x \in Sols(q.A, q.b, q.bounds) : SumSeq(x) = q.quota

\* buckets of q gathered into the buckets of the coarser starts loc2
GroupOf(loc, j, loc2) == Cardinality({i \in 1..Len(loc2) : loc2[i] <= loc[j]})
\* index in loc at which each bucket of loc2 begins, and one past the end
Firsts(loc, loc2) == [i \in 1..(Len(loc2) + 1) |->
                        IF i > Len(loc2) THEN Len(loc) + 1 ELSE CHOOSE j \in 1..Len(loc) : loc[j] = loc2[i]]
GatherBy(w, F) == [i \in 1..(Len(F) - 1) |-> IF F[i + 1] = F[i] + 1 THEN w[F[i]] ELSE SumSeq(SubSeq(w, F[i], F[i + 1] - 1))]
GatherAll(W, loc, loc2) == IF loc = loc2 THEN W ELSE LET F == Firsts(loc, loc2) IN { GatherBy(w, F) : w \in W }

\* one vector: in each bucket the ones lead
RECURSIVE ExpandFrom(_, _, _, _)
ExpandFrom(w, loc, n, j) ==
  IF j > Len(loc) THEN << >>
  ELSE [x \in 1..((IF j = Len(loc) THEN n ELSE loc[j + 1]) - loc[j]) |-> IF x <= w[j] THEN 1 ELSE 0]
       \o ExpandFrom(w, loc, n, j + 1)
Expand(w, loc, n) == ExpandFrom(w, loc, n, 1)

\* starts after merging neighbouring undecided buckets with equal columns
MergedLoc(q) ==
  LET keep == {j \in 1..Len(q.loc) :
                 ~ (j > 1 /\ q.v[j] = -1 /\ q.v[j-1] = -1 /\ Column(q, ColOf(q, j)) = Column(q, ColOf(q, j-1)))}
      RECURSIVE Build(_)
      Build(t) == IF t > Len(q.loc) THEN << >> ELSE IF t \in keep THEN <<q.loc[t]>> \o Build(t + 1) ELSE Build(t + 1)
  IN Build(1)

\* the exact answer of a question: every full 0/1 vector, ones leading in indistinguishable places
Answers(q) ==
  LET L == MergedLoc(q) IN { Expand(w, L, q.len) : w \in GatherAll(ProperCounts(q), q.loc, L) }

----------------------------------------------------------------------------
\* a step turned question q into r: the clauses that fail
StepClauses(q, r) ==
  IF ShapeFaults(r) # {} THEN ShapeFaults(r)
  ELSE IF r.len # q.len \/ ~ ({r.loc[j] : j \in DOMAIN r.loc} \subseteq {q.loc[j] : j \in DOMAIN q.loc})
  THEN {"buckets replaced"}
  ELSE
    LET grp(j) == GroupOf(q.loc, j, r.loc)
        merged == {<<i, j>> \in (1..Len(q.loc)) \X (1..Len(q.loc)) : i < j /\ grp(i) = grp(j)}
    IN
    (IF \E e \in merged : \/ q.v[e[1]] # -1 \/ q.v[e[2]] # -1
                          \/ Column(q, ColOf(q, e[1])) # Column(q, ColOf(q, e[2]))
     THEN {"merged columns that differ"} ELSE {}) \cup
    (IF GatherAll(ProperCounts(q), q.loc, r.loc) # ProperCounts(r)
     THEN {"set of answers changed"} ELSE {}) \cup
    (IF ~ QuotaImplied(r) THEN {"quota no longer matches"} ELSE {})

\* splitting q gave the questions rs
SplitClauses(q, rs) ==
  IF \E j \in DOMAIN rs : ShapeFaults(rs[j]) # {} \/ rs[j].loc # q.loc \/ rs[j].len # q.len
  THEN {"malformed part"}
  ELSE
    (IF \E i, j \in DOMAIN rs : i < j /\ Counts(rs[i]) \cap Counts(rs[j]) # {} THEN {"parts overlap"} ELSE {}) \cup
    (IF UNION { ProperCounts(rs[j]) : j \in DOMAIN rs } # ProperCounts(q) THEN {"set of answers changed"} ELSE {}) \cup
    (IF rs # << >> /\ ~ (\E u \in Unknowns(q) : \A i \in DOMAIN rs :
            /\ rs[i].v[u] # -1
            /\ \A w \in Unknowns(q) \ {u} : rs[i].v[w] = -1
            /\ \A w \in (1..Len(q.v)) \ Unknowns(q) : rs[i].v[w] = q.v[w]
            /\ \A j \in DOMAIN rs : i # j => rs[i].v[u] # rs[j].v[u]
            /\ rs[i].quota = q.quota - rs[i].v[u])
     THEN {"not one unknown fixed to different values"} ELSE {}) \cup
    (IF \E j \in DOMAIN rs : ~ QuotaImplied(rs[j]) THEN {"quota does not account for the value"} ELSE {})

\* the invariant questions have to keep (what the debugging wrapper asserts)
QuestionInvariant(q) ==
  /\ \A j \in DOMAIN q.b : q.b[j] >= 0
  /\ \A j \in DOMAIN q.bounds : q.bounds[j] >= 0
  /\ q.rows = Len(q.b)
  /\ q.cols = Len(q.bounds)
  /\ Cardinality(Unknowns(q)) = q.cols
  /\ \A j \in DOMAIN q.v : q.v[j] <= Size(q, j)
  /\ (q.cols = 0 => \A j \in DOMAIN q.b : q.b[j] = 0)
=============================================================================
