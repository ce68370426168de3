------------------------------ MODULE FrontEnd ------------------------------
(***************************************************************************)
(* The command lines (C20, C21): a request is a list of words; it is read, *)
(* checked and answered, matrix after matrix, or refused.                  *)
(*   enumerating:  <tuple>                                                 *)
(*   stored:       [list|draw <tuple>]                                     *)
(* A word is an integer; Bad stands for a word that is none.               *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS MaxV, Stored       \* Stored: the tuples with stored solutions (model only)
VARIABLES words, phase, answer, shown, pictures, code
vars == <<words, phase, answer, shown, pictures, code>>

Bad == -1000000
IsTuple(w) == Len(w) = 4 /\ \A j \in 1..4 : w[j] # Bad
\* what an enumeration has to do: refuse, or show all results in ascending order
Request(w) == IF ~ IsTuple(w) THEN "refuse" ELSE IF ~ Identity(w) THEN "refuse" ELSE IF Feasible(w) THEN "show" ELSE "open"

RECURSIVE All(_, _)
All(m, p) == IF Len(m) = PV(p) THEN {m} ELSE UNION { All(Append(m, r), p) : r \in NextRows(m, p) }
RECURSIVE Ordered(_)
Ordered(T) == IF T = {} THEN << >>
              ELSE LET x == CHOOSE a \in T : \A b \in T : Compare(a, b) <= 0 IN <<x>> \o Ordered(T \ {x})

Words == LET D == 0..MaxV IN { <<v, k, l, u>> : v, k, l, u \in D } \cup { << >>, <<Bad>>, <<5, 2, 0>>, <<5, 2, 0, Bad>>, <<5, Bad, 0, 1>>, <<5, 2, 0, 1, 1>> }
Init == /\ words \in {w \in Words : Request(w) # "open"}
        /\ phase = "read" /\ answer = << >> /\ shown = << >> /\ pictures = {} /\ code = -1
Read == /\ phase = "read"
        /\ IF IsTuple(words) /\ Identity(words)
           THEN phase' = "compute" /\ UNCHANGED code
           ELSE phase' = "done" /\ code' = 1
        /\ UNCHANGED <<words, answer, shown, pictures>>
Compute == /\ phase = "compute" /\ answer' = Ordered(All(Seed(words), words)) /\ phase' = "print"
           /\ UNCHANGED <<words, shown, pictures, code>>
Show ==
  /\ phase = "print"
  /\ IF Len(shown) < Len(answer)
     THEN shown' = Append(shown, answer[Len(shown) + 1]) /\ UNCHANGED <<phase, code>>
     ELSE phase' = "done" /\ code' = 0 /\ UNCHANGED shown
  /\ UNCHANGED <<words, answer, pictures>>
Next == Read \/ Compute \/ Show
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the clauses that fail for an answered request: fails (exit code not 0), mats shown, all: what the enumeration finds
ShownFaults(w, fails, mats, all) ==
  CASE Request(w) = "refuse" -> (IF ~ fails THEN {"accepted"} ELSE {}) \cup (IF mats # << >> THEN {"matrix shown"} ELSE {})
    [] Request(w) = "show" -> (IF fails THEN {"failed"} ELSE {})
         \cup (IF {mats[j] : j \in DOMAIN mats} # all THEN {"not the enumeration"} ELSE {})
         \cup (IF \E j \in 1..(Len(mats) - 1) : Len(mats[j]) # Len(mats[j + 1]) \/ Compare(mats[j], mats[j + 1]) >= 0
               THEN {"not ascending"} ELSE {})
    [] OTHER -> {}
AnsweredRight == phase = "done" => ShownFaults(words, code # 0, shown, {answer[j] : j \in DOMAIN answer}) = {}
NothingEarly == (code # 0 /\ phase # "print") => shown = << >>
PartSeen == (phase = "print" /\ Len(shown) < Len(answer)) =>
              ShownFaults(words, FALSE, shown, {answer[j] : j \in DOMAIN answer}) # {}
Ends == <>(phase = "done")
=============================================================================
