------------------------------ MODULE Buckets ------------------------------
(***************************************************************************)
(* Expanding an answer: the machine writes the vector bucket by bucket.    *)
(***************************************************************************)
EXTENDS Systems
CONSTANTS MaxLen
VARIABLES loc, n, v, written, done
vars == <<loc, n, v, written, done>>

Sizes(l, len) == [j \in 1..Len(l) |-> (IF j = Len(l) THEN len ELSE l[j + 1]) - l[j]]
Ascending(l) == \A j \in 1..(Len(l) - 1) : l[j] < l[j + 1]
Acceptable(l, len, val) == \A j \in 1..Len(l) : val[j] # -1 /\ val[j] <= Sizes(l, len)[j]

Init == /\ n \in 1..MaxLen
        /\ \E k \in 0..(n - 1) : loc \in {<<0>> \o x : x \in [1..k -> 1..(n - 1)]}
        /\ Ascending(loc)
        /\ v \in [1..Len(loc) -> -1..(MaxLen)]
        /\ written = << >> /\ done = 0
Write == /\ Acceptable(loc, n, v) /\ done < Len(loc)
         /\ written' = written \o [j \in 1..Sizes(loc, n)[done + 1] |-> IF j <= v[done + 1] THEN 1 ELSE 0]
         /\ done' = done + 1
         /\ UNCHANGED <<loc, n, v>>
Spec == Init /\ [][Write]_vars
Agrees == (done = Len(loc)) => written = Expand(v, loc, n)
Fits   == SumSeq(Sizes(loc, n)) = n
Ones2  == (done = Len(loc)) => Cardinality({p \in 1..n : written[p] = 1}) = SumSeq(v)
=============================================================================
