---------------------------- MODULE Elimination ----------------------------
(***************************************************************************)
(* Eliminating contained equations, as a machine that may subtract any     *)
(* contained equation with a right-hand side that is not larger, remove    *)
(* satisfied empty equations, and report a contradictory empty one.        *)
(***************************************************************************)
EXTENDS Systems
CONSTANTS Rows, Cols, MaxB
VARIABLES A0, b0, A, b, contradiction
vars == <<A0, b0, A, b, contradiction>>

Init == /\ A0 \in [1..Rows -> [1..Cols -> {0, 1}]]
        /\ b0 \in [1..Rows -> 0..MaxB]
        /\ A = A0 /\ b = b0 /\ contradiction = FALSE

Zero(r) == \A c \in 1..Cols : A[r][c] = 0
Without(s, c) == SubSeq(s, 1, c - 1) \o SubSeq(s, c + 1, Len(s))

Subtract == \E r, s \in 1..Len(A) :
  /\ r # s /\ ~ Zero(r) /\ b[r] <= b[s]
  /\ \A c \in 1..Cols : A[r][c] <= A[s][c]
  /\ A' = [A EXCEPT ![s] = [c \in 1..Cols |-> A[s][c] - A[r][c]]]
  /\ b' = [b EXCEPT ![s] = @ - b[r]]
  /\ UNCHANGED contradiction
Remove == \E r \in 1..Len(A) : /\ Zero(r) /\ b[r] = 0
                               /\ A' = Without(A, r) /\ b' = Without(b, r) /\ UNCHANGED contradiction
Report == \E r \in 1..Len(A) : /\ Zero(r) /\ b[r] # 0
                               /\ contradiction' = TRUE /\ UNCHANGED <<A, b>>
Next == ~ contradiction /\ (Subtract \/ Remove \/ Report) /\ UNCHANGED <<A0, b0>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

SolutionsKept == SameNonNegSolutions(A0, b0, A, b, Cols)
HonestReport  == contradiction => Unsolvable(A0, b0, Cols)
NonNegative   == \A r \in 1..Len(b) : b[r] >= 0
ZeroOne       == \A r \in 1..Len(A) : IsBitRow(A[r], Cols)
\* nothing more to do: no equation contains another one it could be reduced by
Ends == <>[](contradiction \/ ~ ENABLED Next)
=============================================================================
