------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Questions and answers as guarded values (C24).  The heap is a sequence  *)
(* of objects, answers [kind, v, loc, len] and questions [kind, A, b,      *)
(* quota, bounds, v, loc, len].  Operations create, copy, update and       *)
(* compare; refused operations change nothing; an update of one object     *)
(* changes no other.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

NonNeg(s) == \A j \in DOMAIN s : s[j] >= 0
Undecided(v) == Cardinality({j \in DOMAIN v : v[j] = -1})
Cols(A, c) == \A r \in DOMAIN A : Len(A[r]) = c

\* may an answer be created with these components
AnswerOk(v, loc, len) ==
  /\ Len(v) = Len(loc)
  /\ (Len(loc) > 0 => loc[1] = 0 /\ loc[Len(loc)] < len)
  /\ \A j \in 1..(Len(loc) - 1) : loc[j] < loc[j + 1]
\* ... a question (c: number of columns of A)
QuestionOk(o, c) ==
  /\ Len(o.A) = Len(o.b) /\ c = Len(o.bounds)
  /\ NonNeg(o.b) /\ NonNeg(o.bounds) /\ o.quota >= 0
  /\ AnswerOk(o.v, o.loc, o.len) /\ Undecided(o.v) = c
\* consistent objects can be copied
CanCopy(o) == IF o.kind = "a" THEN AnswerOk(o.v, o.loc, o.len) ELSE QuestionOk(o, o.c)

NewA(heap, x) == Append(heap, [kind |-> "a", v |-> x.v, loc |-> x.loc, len |-> x.len])
NewQ(heap, x) == Append(heap, [kind |-> "q", A |-> x.A, b |-> x.b, quota |-> x.quota, bounds |-> x.bounds, c |-> x.c,
                               v |-> x.v, loc |-> x.loc, len |-> x.len])
Default(c) == [v |-> [j \in 1..c |-> -1], loc |-> [j \in 1..c |-> j - 1], len |-> c]

\* is operation o accepted in this heap
Accepts(heap, o) ==
  CASE o.op = "newa" -> AnswerOk(o.x.v, o.x.loc, o.x.len)
    [] o.op = "newq" -> QuestionOk(o.x, o.x.c)
    [] o.op = "copy" -> TRUE
    [] o.op = "b" -> NonNeg(o.x)
    [] o.op = "bounds" -> NonNeg(o.x)
    [] o.op = "quota" -> o.x >= 0
    [] o.op = "answer" -> AnswerOk(o.x.v, o.x.loc, o.x.len) /\ Undecided(o.x.v) = heap[o.i].c
    [] o.op = "A" -> TRUE
    [] o.op = "poke" -> TRUE
    [] o.op = "eq" -> TRUE
\* may the operation be asked (copies of inconsistent objects are left open)
Askable(heap, o) == o.op = "copy" => CanCopy(heap[o.i])
Apply(heap, o) ==
  IF ~ Accepts(heap, o) THEN heap
  ELSE CASE o.op = "newa" -> NewA(heap, o.x)
         [] o.op = "newq" -> NewQ(heap, o.x)
         [] o.op = "copy" -> Append(heap, heap[o.i])
         [] o.op = "b" -> [heap EXCEPT ![o.i].b = o.x]
         [] o.op = "bounds" -> [heap EXCEPT ![o.i].bounds = o.x]
         [] o.op = "quota" -> [heap EXCEPT ![o.i].quota = o.x]
         [] o.op = "A" -> [heap EXCEPT ![o.i].A = o.x, ![o.i].c = o.c]
         [] o.op = "answer" -> [heap EXCEPT ![o.i].v = o.x.v, ![o.i].loc = o.x.loc, ![o.i].len = o.x.len]
         [] o.op = "poke" -> IF o.f = "A" THEN [heap EXCEPT ![o.i].A[o.r][o.j] = o.x]
                             ELSE IF o.f = "b" THEN [heap EXCEPT ![o.i].b[o.j] = o.x]
                             ELSE IF o.f = "bounds" THEN [heap EXCEPT ![o.i].bounds[o.j] = o.x]
                             ELSE IF o.f = "v" THEN [heap EXCEPT ![o.i].v[o.j] = o.x]
                             ELSE [heap EXCEPT ![o.i].loc[o.j] = o.x]
         [] o.op = "eq" -> heap
\* equal: of the same kind, all components equal
Same(a, b) == a = b

----------------------------------------------------------------------------
(* The machine, over small components.                                     *)
CONSTANTS MaxHeap, MaxOps, Deep     \* Deep: copies are deep (FALSE: the mutated design shares b and bounds)
VARIABLES heap, hist, shared
vars == <<heap, hist, shared>>
Vecs(n) == [1..n -> {-1, 0, 2}]
AnswersX == { [v |-> v, loc |-> l, len |-> n] : v \in {<<-1>>, <<0>>, <<-1, 1>>, <<-1, -1>>}, l \in {<<0>>, <<0, 1>>, <<1>>, <<0, 0>>}, n \in {1, 3} }
QuestionsX == { [A |-> A, b |-> b, quota |-> q, bounds |-> bd, c |-> Len(A[1]), v |-> a.v, loc |-> a.loc, len |-> a.len] :
                A \in {<< <<1>> >>, << <<1, 0>> >>}, b \in {<<1>>, <<-1>>, <<0, 1>>}, q \in {1, -1}, bd \in {<<1>>, <<1, 2>>, <<-2>>},
                a \in {Default(1), Default(2), [v |-> <<0, -1>>, loc |-> <<0, 1>>, len |-> 3]} }
\* the operations on object i, in sets of one kind each (TLC compares the members of a set)
Pokes(i) == {[op |-> "poke", i |-> i, f |-> "v", j |-> 1, r |-> 0, x |-> 5]}
            \cup (IF heap[i].kind = "a" THEN {}
                  ELSE {[op |-> "poke", i |-> i, f |-> "A", j |-> 1, r |-> 1, x |-> 0]}
                       \cup (IF heap[i].b = << >> THEN {} ELSE {[op |-> "poke", i |-> i, f |-> "b", j |-> 1, r |-> 0, x |-> 6]})
                       \cup (IF heap[i].bounds = << >> THEN {} ELSE {[op |-> "poke", i |-> i, f |-> "bounds", j |-> 1, r |-> 0, x |-> 0]}))
IsQ(i) == heap[i].kind = "q"
Quotas(i) == IF IsQ(i) THEN {[op |-> "quota", i |-> i, x |-> q] : q \in {3, -3}} ELSE {}
Vectors(i) == IF IsQ(i) THEN {[op |-> f, i |-> i, x |-> x] : f \in {"b", "bounds"}, x \in {<<2>>, <<-2>>, <<4, 0>>}} ELSE {}
Matrices(i) == IF IsQ(i) THEN {[op |-> "A", i |-> i, x |-> << <<0, 1>> >>, c |-> 2]} ELSE {}
AnswersOf(i) == IF IsQ(i) THEN {[op |-> "answer", i |-> i, x |-> x] : x \in {[v |-> <<-1, 1>>, loc |-> <<0, 2>>, len |-> 4], Default(2)}} ELSE {}
\* the mutated design: a poke into b or bounds of an object also hits the objects that share it
Spread(h2, o) == IF Deep \/ o.op # "poke" \/ o.f \notin {"b", "bounds"} THEN h2
                 ELSE [i \in DOMAIN h2 |-> IF <<o.i, i>> \in shared /\ h2[i].kind = "q" /\ Len(h2[i][o.f]) >= o.j
                                          THEN [h2[i] EXCEPT ![o.f][o.j] = o.x] ELSE h2[i]]
Do(o) == /\ Askable(heap, o)
         /\ heap' = Spread(Apply(heap, o), o)
         /\ shared' = IF o.op = "copy" THEN shared \cup {<<o.i, Len(heap) + 1>>, <<Len(heap) + 1, o.i>>} ELSE shared
         /\ hist' = Append(hist, o)
Init == heap = << >> /\ hist = << >> /\ shared = {}
Next == /\ Len(hist) < MaxOps
        /\ \/ Len(heap) < MaxHeap /\ \E x \in AnswersX : Do([op |-> "newa", x |-> x])
           \/ Len(heap) < MaxHeap /\ \E x \in QuestionsX : Do([op |-> "newq", x |-> x])
           \/ \E i \in DOMAIN heap :
                \/ Len(heap) < MaxHeap /\ Do([op |-> "copy", i |-> i])
                \/ \E o \in Pokes(i) : Do(o)
                \/ \E o \in Quotas(i) : Do(o)
                \/ \E o \in Vectors(i) : Do(o)
                \/ \E o \in Matrices(i) : Do(o)
                \/ \E o \in AnswersOf(i) : Do(o)
Spec == Init /\ [][Next]_vars
Last == hist[Len(hist)]
\* creation and updates through the guards never let a negative number in
GuardedQuestion(o) == NonNeg(o.b) /\ NonNeg(o.bounds) /\ o.quota >= 0
Guarded == \A i \in DOMAIN heap : heap[i].kind = "q" => GuardedQuestion(heap[i])
\* an operation on one object leaves all others as they were
Separate == [][\A i \in DOMAIN heap : (hist' # hist /\ "i" \in DOMAIN Last' /\ Last'.i # i) => heap'[i] = heap[i]]_vars
CopyEqual == (hist # << >> /\ Last.op = "copy") => Same(heap[Last.i], heap[Len(heap)])
Emit == Len(hist) = MaxOps => PrintT("HISTORY " \o ToJson(hist))
View == <<heap, Len(hist), shared>>
=============================================================================
