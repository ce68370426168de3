---------------------------- MODULE ParamProofs ----------------------------
(***************************************************************************)
(* Facts about parameter tuples and single deductions that hold for all    *)
(* integers (the models explore them for small ones), proved with tlapm.   *)
(***************************************************************************)
EXTENDS Params, TLAPS

Tuples == Int \X Int \X Int \X Int

\* C17: complementing parameters is an involution
THEOREM Involution ==
  ASSUME NEW p \in Tuples
  PROVE  ComplementParams(ComplementParams(p)) = p
<1>1. PICK v \in Int, k \in Int, l \in Int, u \in Int : p = <<v, k, l, u>>
  BY DEF Tuples
<1>2. ComplementParams(p) = <<v, v - k - 1, v - 2 - 2 * k + u, v - 2 * k + l>>
  BY <1>1 DEF ComplementParams, PV, PK, PL, PU
<1>3. ComplementParams(<<v, v - k - 1, v - 2 - 2 * k + u, v - 2 * k + l>>)
      = <<v, v - (v - k - 1) - 1, v - 2 - 2 * (v - k - 1) + (v - 2 * k + l), v - 2 * (v - k - 1) + (v - 2 - 2 * k + u)>>
  BY DEF ComplementParams, PV, PK, PL, PU
<1>4. /\ v - (v - k - 1) - 1 = k
      /\ v - 2 - 2 * (v - k - 1) + (v - 2 * k + l) = l
      /\ v - 2 * (v - k - 1) + (v - 2 - 2 * k + u) = u
  OBVIOUS
<1> QED BY <1>1, <1>2, <1>3, <1>4

\* C17, C26: complementing keeps the counting identity, and does not create it
THEOREM IdentityKept ==
  ASSUME NEW p \in Tuples
  PROVE  Identity(p) <=> Identity(ComplementParams(p))
<1>1. PICK v \in Int, k \in Int, l \in Int, u \in Int : p = <<v, k, l, u>>
  BY DEF Tuples
<1>2. Identity(p) <=> (v - k - 1) * u = k * (k - l - 1)
  BY <1>1 DEF Identity, PV, PK, PL, PU
<1>3. Identity(ComplementParams(p)) <=>
        (v - (v - k - 1) - 1) * (v - 2 * k + l) = (v - k - 1) * ((v - k - 1) - (v - 2 - 2 * k + u) - 1)
  BY <1>1 DEF Identity, ComplementParams, PV, PK, PL, PU
<1>4. v - (v - k - 1) - 1 = k /\ (v - k - 1) - (v - 2 - 2 * k + u) - 1 = k - u
  OBVIOUS
<1>5. (v - k - 1) * (k - u) = (v - k - 1) * k - (v - k - 1) * u
  BY Z3
<1>6. k * (v - 2 * k + l) = (v - k - 1) * k - k * (k - l - 1)
  BY Z3
<1>7. (v - k - 1) * u \in Int /\ k * (k - l - 1) \in Int /\ (v - k - 1) * k \in Int
  OBVIOUS
<1>8. (k * (v - 2 * k + l) = (v - k - 1) * (k - u)) <=> ((v - k - 1) * u = k * (k - l - 1))
  BY <1>5, <1>6, <1>7, Z3
<1> QED BY ONLY <1>2, <1>3, <1>4, <1>8

LEMMA Plus == \A q \in Int, e \in Int : q >= 0 /\ e > 0 => q + 4 * e > 0
<1> TAKE q \in Int, e \in Int
<1>1. e > 0 => 4 * e > 0
  OBVIOUS
<1>2. 4 * e \in Int
  OBVIOUS
<1> QED BY <1>1, <1>2

\* C18: the discriminant of a feasible tuple is positive, so there are two different eigenvalues besides k
THEOREM TwoRoots ==
  ASSUME NEW p \in Tuples, Feasible(p)
  PROVE  Disc(p) > 0
<1>1. PICK v \in Int, k \in Int, l \in Int, u \in Int : p = <<v, k, l, u>>
  BY DEF Tuples
<1>2. l <= k - 1 /\ u <= k /\ Disc(p) = (l - u) * (l - u) + 4 * (k - u)
  BY <1>1 DEF Feasible, Disc, PV, PK, PL, PU
<1>3. \A x \in Int : x * x >= 0 /\ (x < 0 => x * x > 0)
  BY Z3
<1>4. l - u \in Int /\ (l - u) * (l - u) \in Int
  OBVIOUS
<1>5. (l - u) * (l - u) >= 0 /\ (l - u < 0 => (l - u) * (l - u) > 0)
  BY ONLY <1>3, <1>4
<1>7. CASE u < k
  <2>1. k - u \in Int /\ k - u > 0
    BY ONLY <1>7, u \in Int, k \in Int
  <2> QED BY ONLY <1>2, <1>4, <1>5, Plus, <2>1
<1>8. CASE u = k
  <2>1. l - u < 0 /\ 4 * (k - u) = 0
    BY ONLY <1>2, <1>8, l \in Int, u \in Int, k \in Int
  <2>2. (l - u) * (l - u) + 4 * (k - u) = (l - u) * (l - u)
    BY ONLY <2>1, <1>4
  <2> QED BY ONLY <1>2, <1>4, <1>5, <2>1, <2>2
<1>9. u < k \/ u = k
  BY ONLY <1>2, u \in Int, k \in Int
<1> QED BY ONLY <1>7, <1>8, <1>9

LEMMA Quarter ==
  ASSUME NEW z \in Int, NEW q \in Int, 4 * z = 0 - 4 * q
  PROVE  z = 0 - q
<1>1. z < 0 - q => 4 * z < 0 - 4 * q
  OBVIOUS
<1>2. z > 0 - q => 4 * z > 0 - 4 * q
  OBVIOUS
<1>3. ~ (z < 0 - q) /\ ~ (z > 0 - q)
  BY <1>1, <1>2
<1> QED BY ONLY <1>3, z \in Int, q \in Int

\* C18: from an integer root d of the discriminant (s = l-u, q = k-u), the roots x and y of x^2 - s x - q
THEOREM Roots ==
  ASSUME NEW s \in Int, NEW d \in Int, NEW q \in Int, NEW x \in Int, NEW y \in Int,
         2 * x = s + d, 2 * y = s - d, d * d = s * s + 4 * q
  PROVE  x + y = s /\ x * y = 0 - q
<1>1. 4 * (x * y) = (2 * x) * (2 * y)
  BY Z3
<1>2. (s + d) * (s - d) = s * s - d * d
  BY Z3
<1>3. (2 * x) * (2 * y) = (s + d) * (s - d)
  OBVIOUS
<1>4. x * y \in Int
  OBVIOUS
<1>5. s * s \in Int /\ d * d \in Int
  OBVIOUS
<1>6. 4 * (x * y) = 0 - 4 * q
  BY ONLY <1>1, <1>2, <1>3, <1>5, d * d = s * s + 4 * q, s \in Int, d \in Int, q \in Int, Z3
<1>7. x * y = 0 - q
  BY ONLY Quarter, <1>4, <1>6, q \in Int
<1>8. x + y = s
  BY ONLY 2 * x = s + d, 2 * y = s - d, x \in Int, y \in Int, s \in Int, d \in Int, Z3
<1> QED BY <1>7, <1>8

\* C08: what a case split tries for the unknown it fixes is all that can lead to the quota
THEOREM SplitReaches ==
  ASSUME NEW quota \in Nat, NEW m \in Nat, NEW rest \in Nat, NEW x \in Nat, NEW y \in Nat,
         x <= m, y <= rest, x + y = quota
  PROVE  /\ (IF quota - rest > 0 THEN quota - rest ELSE 0) <= x
         /\ x <= (IF m < quota THEN m ELSE quota)
         /\ quota - x = y
OBVIOUS
\* and everything it tries leaves a number that can still be placed
THEOREM SplitTight ==
  ASSUME NEW quota \in Nat, NEW m \in Nat, NEW rest \in Nat, NEW x \in Int,
         (IF quota - rest > 0 THEN quota - rest ELSE 0) <= x, x <= (IF m < quota THEN m ELSE quota)
  PROVE  x \in Nat /\ x <= m /\ quota - x \in Nat /\ quota - x <= rest
OBVIOUS

\* C11: an equation contained in another (its part of the sum is a, the rest r) may be taken off it,
\* and what is left has a non-negative right-hand side
THEOREM TakenOff ==
  ASSUME NEW a \in Nat, NEW r \in Nat, NEW b \in Nat, NEW c \in Nat
  PROVE  /\ (a = b /\ a + r = c) <=> (a = b /\ r = c - b)
         /\ (a = b /\ a + r = c) => c - b \in Nat
OBVIOUS

\* C23: no unknown of an equation exceeds its right-hand side
THEOREM Tightened ==
  ASSUME NEW x \in Nat, NEW r \in Nat, NEW b \in Nat, NEW cap \in Nat, x <= cap, x + r = b
  PROVE  x <= (IF b < cap THEN b ELSE cap)
OBVIOUS
=============================================================================
