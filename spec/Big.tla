-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Integers of any size: <<sign, limbs>>, sign -1, 0 or 1, limbs in base   *)
(* 1000, least significant first, no leading zero limbs.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Base == 1000

RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN << >> ELSE <<n % Base>> \o Limbs(n \div Base)
RECURSIVE Strip(_)
Strip(a) == IF a # << >> /\ a[Len(a)] = 0 THEN Strip(SubSeq(a, 1, Len(a) - 1)) ELSE a
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxN(x, y) == IF x >= y THEN x ELSE y

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN << >> ELSE <<c>>)
  ELSE LET t == At(a, i) + At(b, i) + c IN <<t % Base>> \o AddFrom(a, b, i + 1, t \div Base)
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==      \* a >= b
  IF i > Len(a) THEN << >>
  ELSE LET t == a[i] - At(b, i) - c IN <<IF t < 0 THEN t + Base ELSE t>> \o SubFrom(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
CmpMag(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))

\* times a number below 10^6
RECURSIVE TimesFrom(_, _, _, _)
TimesFrom(a, n, i, c) ==
  IF i > Len(a) THEN Limbs(c)
  ELSE LET t == a[i] * n + c IN <<t % Base>> \o TimesFrom(a, n, i + 1, t \div Base)
MagTimes(a, n) == Strip(TimesFrom(a, n, 1, 0))
RECURSIVE MagMulFrom(_, _, _)
MagMulFrom(a, b, i) ==
  IF i > Len(b) THEN << >>
  ELSE AddFrom(TimesFrom(a, b[i], 1, 0), <<0>> \o MagMulFrom(a, b, i + 1), 1, 0)
MagMul(a, b) == Strip(MagMulFrom(a, b, 1))

Norm(s, a) == LET x == Strip(a) IN IF x = << >> THEN <<0, << >> >> ELSE <<s, x>>
Small(n) == IF n = 0 THEN <<0, << >> >> ELSE IF n > 0 THEN <<1, Limbs(n)>> ELSE <<-1, Limbs(-n)>>
Neg(x) == <<-x[1], x[2]>>
Add(x, y) ==
  IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
  ELSE IF x[1] = y[1] THEN Norm(x[1], AddFrom(x[2], y[2], 1, 0))
  ELSE IF CmpMag(x[2], y[2]) >= 0 THEN Norm(x[1], SubFrom(x[2], y[2], 1, 0))
  ELSE Norm(y[1], SubFrom(y[2], x[2], 1, 0))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == IF x[1] = 0 \/ y[1] = 0 THEN <<0, << >> >> ELSE Norm(x[1] * y[1], MagMul(x[2], y[2]))
RECURSIVE Power(_, _)
Power(n, e) ==              \* of a number below 10^6 in absolute value
  IF e = 0 THEN Small(1)
  ELSE LET r == Power(n, e - 1)
       IN IF n = 0 THEN Small(0)
          ELSE TLCEval(<<IF n < 0 THEN -r[1] ELSE r[1], MagTimes(r[2], IF n < 0 THEN -n ELSE n)>>)
IsBig(x) == /\ x[1] \in {-1, 0, 1} /\ (x[1] = 0 <=> x[2] = << >>)
            /\ \A j \in DOMAIN x[2] : x[2][j] >= 0 /\ x[2][j] < Base
            /\ (x[2] # << >> => x[2][Len(x[2])] # 0)
RECURSIVE ModFrom(_, _, _)
ModFrom(a, p, i) == IF i > Len(a) THEN 0 ELSE (a[i] + Base * ModFrom(a, p, i + 1)) % p
\* remainder modulo p < 2*10^6
Mod(x, p) == IF x[1] < 0 THEN (p - ModFrom(x[2], p, 1)) % p ELSE ModFrom(x[2], p, 1)
=============================================================================
