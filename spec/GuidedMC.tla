------------------------------ MODULE GuidedMC ------------------------------
EXTENDS Guided
\* circulant graphs, complete multipartite graphs and the Petersen graph
Circulant(n, S) == [i \in 1..n |-> [j \in 1..n |-> IF ((i - j) % n) \in S \/ ((j - i) % n) \in S THEN 1 ELSE 0]]
Multipartite(a, b) == [i \in 1..(a*b) |-> [j \in 1..(a*b) |-> IF (i-1) \div b = (j-1) \div b THEN 0 ELSE 1]]
Cliques(a, b) == [i \in 1..(a*b) |-> [j \in 1..(a*b) |-> IF i # j /\ (i-1) \div b = (j-1) \div b THEN 1 ELSE 0]]
Rook(n) == [i \in 1..(n*n) |-> [j \in 1..(n*n) |->
  IF i # j /\ ((i-1) \div n = (j-1) \div n \/ (i-1) % n = (j-1) % n) THEN 1 ELSE 0]]
Pairs(n) == LET RECURSIVE F(_, _)
                F(a, b) == IF a >= n THEN << >> ELSE IF b > n THEN F(a + 1, a + 2) ELSE <<<<a, b>>>> \o F(a, b + 1)
            IN F(1, 2)
Meet(x, y) == Cardinality({x[1], x[2]} \cap {y[1], y[2]})
Triangular(n) == LET Q == Pairs(n) IN [i \in 1..Len(Q) |-> [j \in 1..Len(Q) |-> IF Meet(Q[i], Q[j]) = 1 THEN 1 ELSE 0]]
Petersen == LET Q == Pairs(5) IN [i \in 1..10 |-> [j \in 1..10 |-> IF Meet(Q[i], Q[j]) = 0 THEN 1 ELSE 0]]

Small == <<
  [p |-> <<4, 2, 0, 2>>, g |-> Multipartite(2, 2)],
  [p |-> <<4, 1, 0, 0>>, g |-> Cliques(2, 2)],
  [p |-> <<5, 2, 0, 1>>, g |-> Circulant(5, {1})],
  [p |-> <<6, 3, 0, 3>>, g |-> Multipartite(2, 3)],
  [p |-> <<6, 4, 2, 4>>, g |-> Multipartite(3, 2)],
  [p |-> <<6, 2, 1, 0>>, g |-> Cliques(2, 3)],
  [p |-> <<6, 1, 0, 0>>, g |-> Cliques(3, 2)],
  [p |-> <<8, 4, 0, 4>>, g |-> Multipartite(2, 4)],
  [p |-> <<8, 6, 4, 6>>, g |-> Multipartite(4, 2)],
  [p |-> <<8, 3, 2, 0>>, g |-> Cliques(2, 4)],
  [p |-> <<9, 4, 1, 2>>, g |-> Rook(3)],
  [p |-> <<10, 3, 0, 1>>, g |-> Petersen] >>
Large == Small \o <<
  [p |-> <<9, 6, 3, 6>>, g |-> Multipartite(3, 3)],
  [p |-> <<9, 2, 1, 0>>, g |-> Cliques(3, 3)],
  [p |-> <<10, 6, 3, 4>>, g |-> Triangular(5)],
  [p |-> <<13, 6, 2, 3>>, g |-> Circulant(13, {1, 3, 4})] >>
=============================================================================
