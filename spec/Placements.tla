----------------------------- MODULE Placements -----------------------------
(***************************************************************************)
(* All ways to place a total into bounded places, in ascending             *)
(* lexicographic order: Least is the first, Succ leads from one to the     *)
(* next.  The machine walks through all of them.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE TotalFrom(_, _)
TotalFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + TotalFrom(s, i + 1)
Min2(a, b) == IF a <= b THEN a ELSE b

IsPlacement(t, s, bounds) == /\ DOMAIN t = 1..Len(bounds)
                             /\ \A j \in 1..Len(bounds) : t[j] >= 0 /\ t[j] <= bounds[j]
                             /\ TotalFrom(t, 1) = s
Possible(s, bounds, i) == s >= 0 /\ s <= TotalFrom(bounds, i)

\* the least placement of s into the places i..: as much as possible at the end
RECURSIVE LeastIn(_, _, _, _)
LeastIn(s, bounds, i, rest) ==      \* rest: capacity behind place i
  IF i > Len(bounds) THEN << >>
  ELSE LET x == IF s > rest THEN s - rest ELSE 0
       IN <<x>> \o LeastIn(s - x, bounds, i + 1, IF i = Len(bounds) THEN 0 ELSE rest - bounds[i + 1])
LeastFrom(s, bounds, i) == LeastIn(s, bounds, i, TotalFrom(bounds, i + 1))
Least(s, bounds) == LeastFrom(s, bounds, 1)

\* the last place that can be raised by taking from later ones (0 if none); after: total of the places behind j
RECURSIVE LastRaisable(_, _, _, _)
LastRaisable(t, bounds, j, after) ==
  IF j < 1 THEN 0
  ELSE IF t[j] < bounds[j] /\ after > 0 THEN j
  ELSE LastRaisable(t, bounds, j - 1, after + t[j])
RaiseAt(t, bounds) == LastRaisable(t, bounds, Len(t) - 1, t[Len(t)])
HasSucc(t, bounds) == RaiseAt(t, bounds) # 0
Succ(t, bounds) ==
  LET j == RaiseAt(t, bounds)
  IN SubSeq(t, 1, j - 1) \o <<t[j] + 1>> \o LeastFrom(TotalFrom(t, j + 1) - 1, bounds, j + 1)

RECURSIVE Before(_, _)
Before(a, b) == IF a = << >> THEN FALSE
                ELSE Head(a) < Head(b) \/ (Head(a) = Head(b) /\ Before(Tail(a), Tail(b)))

\* a recorded list of placements: the clauses that fail
ListFaults(s, bounds, list) ==
  IF ~ Possible(s, bounds, 1) THEN (IF list # << >> THEN {"unreachable total placed"} ELSE {})
  ELSE IF list = << >> THEN {"nothing placed"}
  ELSE (IF \E j \in DOMAIN list : ~ IsPlacement(list[j], s, bounds) THEN {"not a placement"}
        ELSE (IF list[1] # Least(s, bounds) THEN {"first is not the least"} ELSE {})
          \cup (IF \E j \in 1..(Len(list) - 1) : ~ HasSucc(list[j], bounds) \/ list[j + 1] # Succ(list[j], bounds)
                THEN {"next is not the successor"} ELSE {})
          \cup (IF HasSucc(list[Len(list)], bounds) THEN {"stopped early"} ELSE {}))

CONSTANTS MaxLen, MaxBound, MaxTotal
VARIABLES s, bounds, seen
vars == <<s, bounds, seen>>
Init == /\ s \in 0..MaxTotal
        /\ \E n \in 1..MaxLen : bounds \in [1..n -> 0..MaxBound]
        /\ seen = IF Possible(s, bounds, 1) THEN <<Least(s, bounds)>> ELSE << >>
Next == /\ seen # << >> /\ HasSucc(seen[Len(seen)], bounds)
        /\ seen' = Append(seen, Succ(seen[Len(seen)], bounds))
        /\ UNCHANGED <<s, bounds>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
All == { t \in [1..Len(bounds) -> 0..MaxBound] : IsPlacement(t, s, bounds) }
OnlyPlacements == \A j \in DOMAIN seen : seen[j] \in All
Ascending == \A j \in 1..(Len(seen) - 1) : Before(seen[j], seen[j + 1])
CompleteAtEnd == (seen = << >> \/ ~ HasSucc(seen[Len(seen)], bounds)) => {seen[j] : j \in DOMAIN seen} = All
ListAccepted == (seen = << >> \/ ~ HasSucc(seen[Len(seen)], bounds)) => ListFaults(s, bounds, seen) = {}
PrefixRefused == (seen # << >> /\ HasSucc(seen[Len(seen)], bounds)) => ListFaults(s, bounds, seen) # {}
Ends == <>[](~ ENABLED Next)
=============================================================================
