------------------------------ MODULE Batches ------------------------------
(***************************************************************************)
(* Partial matrices of order N grow by appended rows, are collected into   *)
(* batches and separated into finished and unfinished ones (C27).  The     *)
(* heap holds every matrix ever made; batches refer to it by number.       *)
(***************************************************************************)
EXTENDS SRGCore
CONSTANTS N, MaxHeap, MaxBatch
VARIABLES heap, batch, yes, no
vars == <<heap, batch, yes, no>>

\* the next row: mirrored column, zero diagonal, given remainder
AppendedRow(m, rem) == [i \in 1..Len(m) |-> m[i][Len(m) + 1]] \o <<0>> \o rem
AppendRow(m, rem) == Append(m, AppendedRow(m, rem))
Fits(m, rem, n) == Len(m) + 1 + Len(rem) = n
Done(m, n) == Len(m) = n
Select(s, T) == LET RECURSIVE F(_)
                    F(j) == IF j > Len(s) THEN << >> ELSE (IF s[j] \in T THEN <<s[j]>> ELSE << >>) \o F(j + 1)
                IN F(1)

Init == heap = << << [j \in 1..N |-> IF j = 2 THEN 1 ELSE 0] >> >> /\ batch = << >> /\ yes = << >> /\ no = << >>
Grow == /\ Len(heap) < MaxHeap
        /\ \E a \in DOMAIN heap : /\ ~ Done(heap[a], N)
             /\ \E rem \in [1..(N - Len(heap[a]) - 1) -> {0, 1}] : heap' = Append(heap, AppendRow(heap[a], rem))
        /\ UNCHANGED <<batch, yes, no>>
Collect == /\ Len(batch) < MaxBatch
           /\ \E a \in DOMAIN heap : batch' = Append(batch, a)
           /\ UNCHANGED <<heap, yes, no>>
Separate == /\ yes' = Select(batch, {a \in DOMAIN heap : Done(heap[a], N)})
            /\ no' = Select(batch, {a \in DOMAIN heap : ~ Done(heap[a], N)})
            /\ UNCHANGED <<heap, batch>>
Next == Grow \/ Collect \/ Separate
Spec == Init /\ [][Next]_vars
HeapKept == [][\A a \in DOMAIN heap : a \in DOMAIN heap' /\ heap'[a] = heap[a]]_heap
Mirrored == \A a \in DOMAIN heap : \A i, j \in DOMAIN heap[a] : heap[a][i][j] = heap[a][j][i] /\ heap[a][i][i] = 0
SeparatedRight == (ENABLED Separate /\ yes \o no # << >>) =>
   /\ \A j \in DOMAIN yes : Done(heap[yes[j]], N)
   /\ \A j \in DOMAIN no : ~ Done(heap[no[j]], N)
NoneLost == [][Separate => Len(yes') + Len(no') = Len(batch)]_vars
=============================================================================
