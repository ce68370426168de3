------------------------------ MODULE SRGCore ------------------------------
(***************************************************************************)
(* Strongly regular graphs, canonical partial adjacency matrices and the   *)
(* exact set of rows by which a partial matrix may be extended.            *)
(*                                                                         *)
(* A parameter tuple is p = <<v, k, l, u>>.  A (partial) matrix is a       *)
(* sequence of rows, a row is a sequence over {0,1}; indices start at 1,   *)
(* so row R+1 is the next row of a matrix with R rows.                     *)
(***************************************************************************)
EXTENDS Params, Integers, Sequences, FiniteSets, TLC

FeasibleSet(lo, hi) ==
  UNION {{ p \in {<<v, k, l, u>> : k \in 1..(v-2), l \in 0..(v-3), u \in 0..(v-2)} : Feasible(p) } : v \in lo..hi}

----------------------------------------------------------------------------
IsBitRow(r, n) == /\ DOMAIN r = 1..n /\ \A j \in 1..n : r[j] \in {0, 1}
IsBitMatrix(m, R, n) == DOMAIN m = 1..R /\ \A i \in 1..R : IsBitRow(m[i], n)

Ones(r) == {j \in DOMAIN r : r[j] = 1}
Dot(x, y) == Cardinality({j \in DOMAIN x : x[j] = 1 /\ y[j] = 1})

\* adjacency matrices of simple graphs
IsGraph(m) ==
  LET n == Len(m) IN
  /\ IsBitMatrix(m, n, n)
  /\ \A i \in 1..n : m[i][i] = 0
  /\ \A i \in 1..n : \A j \in (i+1)..n : m[i][j] = m[j][i]

\* strongly regular with parameters p: the clauses that fail
SRGFaults(m, p) ==
  LET v == PV(p) IN
  IF ~ IsBitMatrix(m, v, v) THEN {"shape"}
  ELSE LET N == [i \in 1..v |-> Ones(m[i])] IN
    (IF \E i \in 1..v : i \in N[i] THEN {"diagonal"} ELSE {}) \cup
    (IF \E i \in 1..v : \E j \in (i+1)..v : m[i][j] # m[j][i] THEN {"symmetry"} ELSE {}) \cup
    (IF \E i \in 1..v : Cardinality(N[i]) # PK(p) THEN {"degree"} ELSE {}) \cup
    (IF \E i \in 1..v : \E j \in (i+1)..v :
          Cardinality(N[i] \cap N[j]) # (IF j \in N[i] THEN PL(p) ELSE PU(p))
     THEN {"common neighbours"} ELSE {})
IsSRG(m, p) == SRGFaults(m, p) = {}

Relabel(m, pi) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> m[pi[i]][pi[j]]]]
IsPerm(pi, n) == DOMAIN pi = 1..n /\ {pi[i] : i \in 1..n} = 1..n

----------------------------------------------------------------------------
\* Canonical: whenever columns c < d (both after the diagonal) agree in all
\* earlier rows, the row does not have 0 in c and 1 in d.
SameColumn(m, R, c, d) == \A i \in 1..R : m[i][c] = m[i][d]
CanonRow(m, R, row) ==        \* row is (a candidate for) row R+1
  LET n == Len(row) IN
  \A c \in (R+2)..n : \A d \in (c+1)..n :
      (row[c] = 0 /\ row[d] = 1) => ~ SameColumn(m, R, c, d)
Canonical(m) == \A R \in 0..(Len(m)-1) : CanonRow(m, R, m[R+1])

\* the canonical first two rows
Seed(p) ==
  << [j \in 1..PV(p) |-> IF j >= 2 /\ j <= PK(p) + 1 THEN 1 ELSE 0],
     [j \in 1..PV(p) |-> IF \/ j = 1
                            \/ (j >= 3 /\ j <= PL(p) + 2)
                            \/ (j >= PK(p) + 2 /\ j <= 2 * PK(p) - PL(p))
                         THEN 1 ELSE 0] >>

\* row (the next one) meets every requirement: the clauses that fail
RowFaults(m, p, row) ==
  LET R == Len(m) IN
  IF ~ IsBitRow(row, PV(p)) THEN {"shape"}
  ELSE
    (IF \E i \in 1..R : row[i] # m[i][R+1] THEN {"mirror"} ELSE {}) \cup
    (IF row[R+1] # 0 THEN {"diagonal"} ELSE {}) \cup
    (IF Cardinality(Ones(row)) # PK(p) THEN {"degree"} ELSE {}) \cup
    (IF \E i \in 1..R : Dot(m[i], row) # (IF row[i] = 1 THEN PL(p) ELSE PU(p))
     THEN {"common neighbours"} ELSE {})

\* a partial matrix all of whose rows are consistent, from the seed on
PrefixFaults(m, p) ==
  (IF Len(m) < 2 \/ SubSeq(m, 1, 2) # Seed(p) THEN {"seed"} ELSE {}) \cup
  UNION { RowFaults(SubSeq(m, 1, R), p, m[R+1]) : R \in 2..(Len(m)-1) }

----------------------------------------------------------------------------
(* The next row, declaratively (usable for tiny orders only) ...           *)
NextRowsByDefinition(m, p) ==
  { row \in [1..PV(p) -> {0,1}] : RowFaults(m, p, row) = {} /\ CanonRow(m, Len(m), row) }

(* ... and by filling one block of equal columns after the other.          *)
(* A block is [n |-> number of columns, rows |-> equations it occurs in].  *)
\* what is left for each equation; the last one (R+1) is the degree
Residual(m, p) ==
  LET R == Len(m)
      known == {j \in 1..R : m[j][R+1] = 1}
  IN [i \in 1..(R+1) |->
        IF i <= R
        THEN (IF m[i][R+1] = 1 THEN PL(p) ELSE PU(p)) - Cardinality(Ones(m[i]) \cap known)
        ELSE PK(p) - Cardinality(known)]

\* maximal runs of equal columns among the columns from..n of rows 1..R
RECURSIVE RunsFrom(_, _, _, _)
RunsFrom(m, R, from, n) ==
  IF from > n THEN << >>
  ELSE LET stop == CHOOSE e \in from..n :
                     /\ \A c \in from..e : SameColumn(m, R, from, c)
                     /\ (e = n \/ ~ SameColumn(m, R, from, e + 1))
       IN << [n |-> stop - from + 1, rows |-> {i \in 1..R : m[i][from] = 1} \cup {R + 1}] >>
          \o RunsFrom(m, R, stop + 1, n)

\* capacity of blocks i.. per equation
RECURSIVE CapsFrom(_, _, _)
CapsFrom(G, i, E) ==
  IF i > Len(G) THEN << [e \in E |-> 0] >>
  ELSE LET rest == CapsFrom(G, i + 1, E)
       IN << TLCEval([e \in E |-> rest[1][e] + (IF e \in G[i].rows THEN G[i].n ELSE 0)]) >> \o rest

\* the numbers worth trying for a block: in a large block only those between what one of its
\* equations needs at least and what it takes at most
Window(g, rest, b) ==
  IF g.n < 40 \/ g.rows = {} THEN 0..g.n
  ELSE LET e == CHOOSE e \in g.rows : \A f \in g.rows : b[e] <= b[f]
           h == CHOOSE h \in g.rows : \A f \in g.rows : b[h] - rest[h] >= b[f] - rest[f]
       IN (IF b[h] > rest[h] THEN b[h] - rest[h] ELSE 0)..(IF b[e] < g.n THEN b[e] ELSE g.n)

\* all ways to give blocks i.. their numbers of ones so that every equation is met
RECURSIVE FillFrom(_, _, _, _)
FillFrom(G, C, i, b) ==
  IF i > Len(G) THEN { << >> }
  ELSE UNION { LET sub == FillFrom(G, C, i + 1, TLCEval([e \in DOMAIN b |-> IF e \in G[i].rows THEN b[e] - t ELSE b[e]]))
               IN { << t >> \o x : x \in sub }
             : t \in { t \in Window(G[i], C[i + 1], b) : \A e \in G[i].rows : b[e] >= t /\ b[e] - t <= C[i + 1][e] } }
Fill(G, C, i, b) ==
  IF \E e \in DOMAIN b : b[e] < 0 \/ b[e] > C[i][e] THEN {} ELSE FillFrom(G, C, i, b)

RECURSIVE Unpack(_, _, _)
Unpack(G, x, i) ==
  IF i > Len(G) THEN << >>
  ELSE [j \in 1..G[i].n |-> IF j <= x[i] THEN 1 ELSE 0] \o Unpack(G, x, i + 1)

NextRows(m, p) ==
  LET R == Len(m)
      G == RunsFrom(m, R, R + 2, PV(p))
      left == [i \in 1..(R+1) |-> IF i <= R THEN m[i][R+1] ELSE 0]
      b == Residual(m, p)
      E == 1..(R+1)
  IN { left \o Unpack(G, x, 1) : x \in Fill(G, CapsFrom(G, 1, E), 1, b) }
=============================================================================
