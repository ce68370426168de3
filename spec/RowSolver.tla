----------------------------- MODULE RowSolver -----------------------------
(***************************************************************************)
(* Solving a row question: a stack of questions; the top one is simplified *)
(* by any applicable deduction, split, answered or dropped.                *)
(*   DropContradictions: the design the code had before it was repaired    *)
(*   (equations 0 = n are thrown away); the invariants refute it.          *)
(***************************************************************************)
EXTENDS Systems
CONSTANTS Rows, Cols, MaxSize, MaxB, DropContradictions

VARIABLES start, stack, answers
vars == <<start, stack, answers>>

BitRows(n) == [1..n -> {0, 1}]
\* equal columns stand next to each other
Adjacent(A, C) == \A c, d \in 1..C :
   (c < d /\ \A r \in 1..Len(A) : A[r][c] = A[r][d]) => \A e \in c..d : \A r \in 1..Len(A) : A[r][c] = A[r][e]
Starts(sizes) == [j \in 1..Len(sizes) |-> IF j = 1 THEN 0 ELSE SumSeq(SubSeq(sizes, 1, j - 1))]

Question(A, b, sizes) ==
  [A |-> A \o <<[c \in 1..Len(sizes) |-> 1]>>, b |-> b, quota |-> b[Len(b)], bounds |-> sizes,
   v |-> [j \in 1..Len(sizes) |-> -1], loc |-> Starts(sizes), len |-> SumSeq(sizes)]

Init ==
  /\ \E C \in 1..Cols : \E A \in [1..Rows -> BitRows(C)] : \E sizes \in [1..C -> 1..MaxSize] :
       \E b \in [1..(Rows + 1) -> 0..MaxB] :
         /\ Adjacent(A, C)
         /\ start = Question(A, b, sizes)
  /\ stack = <<start>>
  /\ answers = << >>

Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Replace(q) == stack' = Append(Rest, q) /\ UNCHANGED <<start, answers>>
Without(s, c) == SubSeq(s, 1, c - 1) \o SubSeq(s, c + 1, Len(s))
DropCol(A, c) == [r \in 1..Len(A) |-> Without(A[r], c)]
BucketOf(q, c) == CHOOSE j \in Unknowns(q) : ColOf(q, j) = c
NCols(q) == Len(q.bounds)

\* columns c and c+1 are equal and their buckets touch
Touching(q, c) == Column(q, c) = Column(q, c + 1) /\ BucketOf(q, c + 1) = BucketOf(q, c) + 1
CanMerge(q) == \E c \in 1..(NCols(q) - 1) : Touching(q, c)

\* two equal neighbouring columns become one with their joint capacity
Merge == /\ stack # << >>
         /\ \E c \in 1..(NCols(Top) - 1) :
              /\ Touching(Top, c)
              /\ LET q == Top
                     j == BucketOf(q, c + 1)
                 IN Replace([q EXCEPT !.A = DropCol(q.A, c + 1),
                                      !.bounds = Without([q.bounds EXCEPT ![c] = @ + q.bounds[c + 1]], c + 1),
                                      !.v = Without(q.v, j), !.loc = Without(q.loc, j)])

\* an equation contained in another one is subtracted from it
Subtract == /\ stack # << >>
            /\ \E r, s \in 1..Len(Top.A) :
                 /\ r # s
                 /\ \E c \in 1..NCols(Top) : Top.A[r][c] = 1
                 /\ \A c \in 1..NCols(Top) : Top.A[r][c] <= Top.A[s][c]
                 /\ Top.b[r] <= Top.b[s]
                 /\ Replace([Top EXCEPT !.A[s] = [c \in 1..NCols(Top) |-> Top.A[s][c] - Top.A[r][c]],
                                        !.b[s] = @ - Top.b[r]])

ZeroRow(q, r) == \A c \in 1..NCols(q) : q.A[r][c] = 0
\* equations without unknowns: satisfied ones go, others refute the question
Empty == /\ stack # << >>
         /\ \E r \in 1..Len(Top.A) :
              /\ ZeroRow(Top, r)
              /\ IF Top.b[r] = 0 \/ DropContradictions
                 THEN Replace([Top EXCEPT !.A = Without(Top.A, r), !.b = Without(Top.b, r)])
                 ELSE stack' = Rest /\ UNCHANGED <<start, answers>>

\* an equation limits each of its unknowns
Tighten == /\ stack # << >>
           /\ \E r \in 1..Len(Top.A) : \E c \in 1..NCols(Top) :
                /\ Top.A[r][c] = 1 /\ Top.bounds[c] > Top.b[r]
                /\ Replace([Top EXCEPT !.bounds[c] = Top.b[r]])

\* capacity zero decides an unknown
Zero == /\ stack # << >>
        /\ \E c \in 1..NCols(Top) :
             /\ Top.bounds[c] = 0
             /\ Replace([Top EXCEPT !.A = DropCol(Top.A, c), !.bounds = Without(Top.bounds, c),
                                    !.v[BucketOf(Top, c)] = 0])

\* fixing column c of q to t; {} if an equation is exceeded
Fixed(q, c, t) ==
  IF t > q.quota \/ \E r \in 1..Len(q.A) : q.A[r][c] = 1 /\ q.b[r] < t THEN << >>
  ELSE << [q EXCEPT !.A = DropCol(q.A, c), !.bounds = Without(q.bounds, c),
                    !.b = [r \in 1..Len(q.b) |-> q.b[r] - t * q.A[r][c]],
                    !.v[BucketOf(q, c)] = t, !.quota = @ - t] >>

\* an unknown alone in an equation is read off
Single == /\ stack # << >>
          /\ \E r \in 1..Len(Top.A) : \E c \in 1..NCols(Top) :
               /\ Top.A[r][c] = 1 /\ \A d \in 1..NCols(Top) : d # c => Top.A[r][d] = 0
               /\ stack' = Rest \o (IF Top.b[r] > Top.bounds[c] THEN << >> ELSE Fixed(Top, c, Top.b[r]))
               /\ UNCHANGED <<start, answers>>

\* try every value of one unknown that the other capacities can complement to the quota
RECURSIVE Parts(_, _, _)
Parts(q, c, t) ==
  IF t > q.bounds[c] THEN << >>
  ELSE (IF SumSeq(q.bounds) - q.bounds[c] >= q.quota - t THEN Fixed(q, c, t) ELSE << >>) \o Parts(q, c, t + 1)
Split == /\ stack # << >> /\ ~ CanMerge(Top)
         /\ \E c \in 1..NCols(Top) : stack' = Rest \o Parts(Top, c, 0)
         /\ UNCHANGED <<start, answers>>

Answer == /\ stack # << >> /\ NCols(Top) = 0
          /\ stack' = Rest
          /\ answers' = IF \E r \in 1..Len(Top.b) : Top.b[r] # 0 THEN answers
                        ELSE Append(answers, Expand(Top.v, Top.loc, Top.len))
          /\ start' = start

Next == Merge \/ Subtract \/ Empty \/ Tighten \/ Zero \/ Single \/ Split \/ Answer
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
L0 == MergedLoc(start)
Told(q) == { Expand(w, L0, q.len) : w \in GatherAll(ProperCounts(q), q.loc, L0) }
Open == UNION { Told(stack[j]) : j \in DOMAIN stack }

WellFormed  == \A j \in DOMAIN stack : ShapeFaults(stack[j]) = {} /\ QuotaImplied(stack[j])
NothingLost == Open \cup {answers[j] : j \in DOMAIN answers} = Answers(start)
EachOnce    == /\ \A i, j \in DOMAIN answers : i < j => answers[i] # answers[j]
               /\ \A i, j \in DOMAIN stack : i < j => Told(stack[i]) \cap Told(stack[j]) = {}
               /\ \A i \in DOMAIN answers : answers[i] \notin Open
FillAgrees  == \A j \in DOMAIN stack : Sols(stack[j].A, stack[j].b, stack[j].bounds) = SolsByDefinition(stack[j].A, stack[j].b, stack[j].bounds)
StepLaw     == [][ (stack # << >> /\ Len(stack') = Len(stack) /\ Rest = SubSeq(stack', 1, Len(stack) - 1) /\ answers' = answers)
                     => StepClauses(Top, stack'[Len(stack)]) \subseteq {} ]_vars
Ends        == <>(stack = << >>)
=============================================================================
