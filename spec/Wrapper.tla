------------------------------ MODULE Wrapper ------------------------------
(***************************************************************************)
(* The debugging wrapper: it copies the question, runs the step, checks    *)
(* the question's invariant only if the step returned, and raises if the   *)
(* invariant is violated.  Compared with running the step alone.           *)
(***************************************************************************)
EXTENDS Systems
VARIABLES before, step, plain, wrapped, phase
vars == <<before, step, plain, wrapped, phase>>

\* small questions, also with wrong numbers: one or two buckets
Qs == { [A |-> A, b |-> b, quota |-> 1, bounds |-> bounds, v |-> v, loc |-> <<0, 2>>, len |-> 3, rows |-> Len(A), cols |-> cols] :
        A \in { << >>, << <<1>> >>, << <<1, 1>> >> }, b \in { << >>, <<1>>, <<0>>, <<-1>> },
        bounds \in { << >>, <<1>>, <<-1>>, <<1, 1>> }, v \in { <<-1, -1>>, <<-1, 1>>, <<2, 1>>, <<2, 2>>, <<0, 0>> }, cols \in 0..2 }
\* what a step may do: return a value with any question, or report no solution
Outcomes == [out : {"ok", "nosolution"}, ret : {0, 1}, after : Qs]
None == [out |-> "none", ret |-> 0, after |-> CHOOSE q \in Qs : TRUE]

Init == /\ before \in {q \in Qs : QuestionInvariant(q)} /\ step = None /\ plain = None /\ wrapped = None /\ phase = "start"
        /\ before = CHOOSE q \in Qs : QuestionInvariant(q) /\ q.cols = 1
\* the step is a function of the question: the same outcome both times
RunPlain == /\ phase = "start" /\ step' \in Outcomes
            /\ plain' = step' /\ phase' = "plain" /\ UNCHANGED <<before, wrapped>>
RunWrapped == /\ phase = "plain" /\ phase' = "inside"
              /\ wrapped' = step /\ UNCHANGED <<before, step, plain>>
CheckInvariant == /\ phase = "inside" /\ phase' = "done"
                  /\ wrapped' = (IF wrapped.out = "ok" /\ ~ QuestionInvariant(wrapped.after)
                       THEN [wrapped EXCEPT !.out = "assertion"] ELSE wrapped)
                  /\ UNCHANGED <<before, step, plain>>
Spec == Init /\ [][RunPlain \/ RunWrapped \/ CheckInvariant]_vars

Transparent == (phase = "done" /\ ~ (plain.out = "ok" /\ ~ QuestionInvariant(plain.after))) => wrapped = plain
ReportsExactly == phase = "done" => ((wrapped.out = "assertion") <=> (plain.out = "ok" /\ ~ QuestionInvariant(plain.after)))
                                    /\ wrapped.after = plain.after
=============================================================================
