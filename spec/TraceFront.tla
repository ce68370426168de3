----------------------------- MODULE TraceFront -----------------------------
(***************************************************************************)
(* Conformance of recorded command lines and of the stored solutions       *)
(* (C19, C20, C21).                                                        *)
(***************************************************************************)
EXTENDS Graphs, TraceBase
VARIABLES i, out
F == INSTANCE FrontEnd WITH MaxV <- 1, Stored <- {}, words <- 0, phase <- 0, answer <- 0, shown <- 0, pictures <- 0, code <- 0
S == INSTANCE Store WITH Order <- 4, store <- 0, req <- 0, shown <- 0, pics <- 0, code <- 0

\* C20. words; fails; head: first four numbers printed; mats: matrices printed; all: results of the enumeration
Cli(e) ==
  IF e.out # "ok" THEN {"malformed output"}
  ELSE F!ShownFaults(e.words, e.fails, e.mats, Range(e.all))
       \cup (IF F!Request(e.words) = "show" THEN If(e.head # e.words, "tuple not printed")
                  \cup If(Len(e.mats) # Len(e.all), "number of matrices")
                  \cup If(\E j \in DOMAIN e.mats : SRGFaults(e.mats[j], e.words) # {}, "not strongly regular")
             ELSE {})

\* C19. one problem: name, declared, mats; full: stated to be complete; solved: the enumeration (or none)
StoredP(e) ==
  IF e.out # "ok" THEN {"unreadable"}
  ELSE S!StoredFaults(e.name, e.declared, e.mats)
       \cup (IF e.compare
             THEN If(Len(e.solved) # Len(e.mats) \/ SortFaults(e.solved, e.mats) # {}, "not the sorted enumeration")
             ELSE {})
\* a graph (given, or a stored one), relabelled canonically, has to be stored
Relab(e) ==        \* of: the number of the event with the stored problem
  LET h == Relabel(e.g, e.pi) IN
  IF ~ (IsPerm(e.pi, Len(e.g)) /\ IsSRG(e.g, e.name) /\ Canonical(h) /\ SubSeq(h, 1, 2) = Seed(e.name))
  THEN {"bad witness"}
  ELSE If(\A j \in DOMAIN Ev[e.of].mats : Ev[e.of].mats[j] # h, "relabelled graph not stored")

\* C21
Names(e) ==
  If(e.fails, "failed") \cup If(Range(e.names) # Range(e.files), "not the stored problems")
  \cup If(Len(e.names) # Cardinality(Range(e.names)), "problem named twice")
  \cup If(e.extracted # e.names, "name does not determine the tuple")
Command(e) ==      \* cmd, p, stored: is it, mats: stored matrices; shown; pics: what the pictures show; files: picture files
  LET want == [j \in DOMAIN e.mats |-> S!Drawn(e.mats[j])]
      got == [j \in DOMAIN e.pics |-> [n |-> e.pics[j].n, edges |-> Range(e.pics[j].edges)]]
  IN IF e.out # "ok" THEN {"malformed output"}
  ELSE IF ~ e.stored \/ e.cmd \notin {"list", "draw"} \/ ~ Identity(e.p)
  THEN If(~ e.fails, "accepted") \cup If(e.shown # << >>, "matrix shown") \cup If(e.files > 0, "picture written")
  ELSE If(e.fails, "failed")
       \cup (IF e.cmd = "list" THEN If(e.shown # e.mats, "not the stored matrices") \cup If(e.files > 0, "picture written")
             ELSE If(e.files # Len(e.mats), "number of pictures")
               \cup (IF ~ e.watched THEN {}
                     ELSE If(Len(got) # Len(want) \/ \E j \in DOMAIN want : Count(want[j], got) # Count(want[j], want), "picture differs from matrix")))

Verdict(e) ==
  CASE e.op = "cli" -> Cli(e)
    [] e.op = "stored" -> StoredP(e)
    [] e.op = "relabel" -> Relab(e)
    [] e.op = "names" -> Names(e)
    [] e.op = "command" -> Command(e)

TraceInit == i \in 1..Len(Ev) /\ out = {}
TraceNext == i > 0 /\ out' = Verdict(Ev[i]) /\ i' = -i
Conforms == out = {}
=============================================================================
