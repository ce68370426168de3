------------------------------- MODULE Runs -------------------------------
(***************************************************************************)
(* Run-length compression of equal adjacent columns: the machine reads a   *)
(* matrix column by column.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Col(A, c) == [r \in 1..Len(A) |-> A[r][c]]
NC(A) == Len(A[1])

RECURSIVE SumS(_)
SumS(s) == IF s = << >> THEN 0 ELSE Head(s) + SumS(Tail(s))

\* positions (from 0) at which a run starts, in order
Starts(A) == LET New(c) == c = 0 \/ Col(A, c + 1) # Col(A, c)
             IN SelectSeq([c \in 1..NC(A) |-> c - 1], New)
Mult(A) == LET s == Starts(A) IN [j \in 1..Len(s) |-> (IF j = Len(s) THEN NC(A) ELSE s[j + 1]) - s[j]]
Kept(A) == LET s == Starts(A) IN [r \in 1..Len(A) |-> [j \in 1..Len(s) |-> A[r][s[j] + 1]]]

\* column of the expansion of K with multiplicities m at place c
Source(m, c) == CHOOSE j \in 1..Len(m) : SumS(SubSeq(m, 1, j - 1)) < c /\ c <= SumS(SubSeq(m, 1, j))
Expanded(K, m) == [r \in 1..Len(K) |-> [c \in 1..SumS(m) |-> K[r][Source(m, c)]]]

CompressFaults(A, K, m, s) ==
  (IF m # Mult(A) THEN {"multiplicities"} ELSE {}) \cup
  (IF s # Starts(A) THEN {"starts"} ELSE {}) \cup
  (IF K # Kept(A) THEN {"kept columns"} ELSE {})

CONSTANTS MaxRows, MaxCols
VARIABLES A, pos, kept, mult, starts
vars == <<A, pos, kept, mult, starts>>
Init == /\ \E R \in 1..MaxRows : \E C \in 1..MaxCols : A \in [1..R -> [1..C -> {0, 1}]]
        /\ pos = 0 /\ kept = << >> /\ mult = << >> /\ starts = << >>
Next == /\ pos < NC(A)
        /\ pos' = pos + 1
        /\ IF kept # << >> /\ kept[Len(kept)] = Col(A, pos + 1)
           THEN mult' = [mult EXCEPT ![Len(mult)] = @ + 1] /\ UNCHANGED <<kept, starts>>
           ELSE /\ kept' = Append(kept, Col(A, pos + 1))
                /\ mult' = Append(mult, 1) /\ starts' = Append(starts, pos)
        /\ A' = A
Spec == Init /\ [][Next]_vars
AtEnd == pos = NC(A)
AsRows == [r \in 1..Len(A) |-> [j \in 1..Len(kept) |-> kept[j][r]]]
Matches  == AtEnd => CompressFaults(A, AsRows, mult, starts) = {}
Lossless == AtEnd => Expanded(AsRows, mult) = A
Differ   == \A j \in 1..(Len(kept) - 1) : kept[j] # kept[j + 1]
Positive == \A j \in DOMAIN mult : mult[j] > 0
=============================================================================
