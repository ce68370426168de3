------------------------------ MODULE Spectrum ------------------------------
(***************************************************************************)
(* Eigenvalues, multiplicities and determinants of feasible tuples (C18).  *)
(* For a strongly regular graph, A has the eigenvalue k once and the two   *)
(* roots of x^2 - (l-u) x - (k-u), whose discriminant is Disc.             *)
(***************************************************************************)
EXTENDS SRGCore, Big

\* the integer root of n, or -1
RootOf(n) == IF \E d \in 0..n : d * d = n THEN CHOOSE d \in 0..n : d * d = n ELSE -1
\* for larger numbers: bisection
RECURSIVE RootIn(_, _, _)
RootIn(n, lo, hi) == IF lo > hi THEN -1
                     ELSE LET d == (lo + hi) \div 2 IN
                          IF d * d = n THEN d ELSE IF d * d < n THEN RootIn(n, d + 1, hi) ELSE RootIn(n, lo, d - 1)
Root(n) == RootIn(n, 0, IF n < 46340 THEN n ELSE 46340)

\* multiplicities are integers
Integral(p) ==
  IF Conf(p) = 0 THEN PV(p) % 2 = 1
  ELSE LET D == Root(Disc(p)) IN
       /\ D > 0
       /\ Conf(p) % D = 0
       /\ (PV(p) - 1 - Conf(p) \div D) % 2 = 0
       /\ PV(p) - 1 - Conf(p) \div D > 0 /\ PV(p) - 1 + Conf(p) \div D > 0
\* larger and smaller multiplicities: of the larger root and of the smaller
Mult(p) == IF Conf(p) = 0 THEN <<(PV(p) - 1) \div 2, (PV(p) - 1) \div 2>>
           ELSE LET c == Conf(p) \div Root(Disc(p)) IN <<(PV(p) - 1 - c) \div 2, (PV(p) - 1 + c) \div 2>>
\* the roots, if the discriminant is a square
Roots(p) == LET D == Root(Disc(p)) IN <<(PL(p) - PU(p) + D) \div 2, (PL(p) - PU(p) - D) \div 2>>

\* the determinant, as a Big number
Det(p) ==
  IF Conf(p) = 0
  THEN Mul(Small(PK(p)), Power(PU(p) - PK(p), (PV(p) - 1) \div 2))
  ELSE Mul(Small(PK(p)), Mul(Power(Roots(p)[1], Mult(p)[1]), Power(Roots(p)[2], Mult(p)[2])))

----------------------------------------------------------------------------
\* determinant of a matrix modulo a prime below 46340, by elimination
RECURSIVE Inv(_, _, _)
Inv(a, n, e) ==            \* a^e mod n
  IF e = 0 THEN 1 ELSE LET h == Inv(a, n, e \div 2) IN IF e % 2 = 0 THEN (h * h) % n ELSE (((h * h) % n) * a) % n
RECURSIVE DetMod(_, _)
DetMod(m, q) ==
  IF Len(m) = 0 THEN 1
  ELSE IF \A r \in DOMAIN m : m[r][1] = 0 THEN 0
  ELSE LET n == Len(m)
           r == CHOOSE x \in DOMAIN m : m[x][1] # 0 /\ \A y \in DOMAIN m : m[y][1] # 0 => x <= y
           piv == m[r][1]
           inv == Inv(piv, q, q - 2)
           others == [i \in 1..(n - 1) |-> IF i < r THEN m[i] ELSE m[i + 1]]
           rest == TLCEval([i \in 1..(n - 1) |->
                     LET f == (others[i][1] * inv) % q
                     IN [j \in 1..(n - 1) |-> (others[i][j + 1] + q * q - f * m[r][j + 1]) % q]])
           d == (piv * DetMod(rest, q)) % q
       IN IF r % 2 = 1 THEN d ELSE (q - d) % q

----------------------------------------------------------------------------
CONSTANTS Lo, Hi
VARIABLES p, m
\* every feasible tuple, with every strongly regular graph on few vertices
Init == \/ p \in FeasibleSet(Lo, Hi) /\ m = << >>
Next == UNCHANGED <<p, m>>
Spec == Init /\ [][Next]_<<p, m>>
DiscPositive == Disc(p) > 0
SumsToOrder == Integral(p) => 1 + Mult(p)[1] + Mult(p)[2] = PV(p)
PositiveMult == Integral(p) => Mult(p)[1] > 0 /\ Mult(p)[2] > 0
\* the trace is zero, the squares add up to twice the edges
TraceZero == (Integral(p) /\ Conf(p) # 0) => PK(p) + Mult(p)[1] * Roots(p)[1] + Mult(p)[2] * Roots(p)[2] = 0
TraceConf == Conf(p) = 0 => 2 * PK(p) + (PV(p) - 1) * (PL(p) - PU(p)) = 0
SquareTrace == (Integral(p) /\ Conf(p) # 0) =>
   PK(p) * PK(p) + Mult(p)[1] * Roots(p)[1] * Roots(p)[1] + Mult(p)[2] * Roots(p)[2] * Roots(p)[2] = PV(p) * PK(p)
AreRoots == (Integral(p) /\ Conf(p) # 0) => \A j \in 1..2 : LET x == Roots(p)[j] IN x * x - (PL(p) - PU(p)) * x - (PK(p) - PU(p)) = 0
\* determinants agree with those computed from the definition of the eigenvalues of the complement?  (product of the roots)
Product == (Integral(p) /\ Root(Disc(p)) > 0) => Roots(p)[1] * Roots(p)[2] = PU(p) - PK(p)
=============================================================================
