------------------------------- MODULE BigMC -------------------------------
(* The arithmetic of Big agrees with TLC's integers. *)
EXTENDS Big
Values == {0,1,2,7,10,37,999,1000,1001,1999,20000,30000,-1,-3,-10,-999,-1000,-1001,-9999,-40000}
VARIABLES x, y
Init == x \in Values /\ y \in Values
Next == UNCHANGED <<x, y>>
Arith == /\ Add(Small(x), Small(y)) = Small(x + y)
         /\ Sub(Small(x), Small(y)) = Small(x - y)
         /\ Mul(Small(x), Small(y)) = Small(x * y)
         /\ IsBig(Small(x))
         /\ Mod(Small(x), 99991) = x % 99991
         /\ \A e \in 0..4 : LET RECURSIVE Pw(_)
                                Pw(k) == IF k = 0 THEN Small(1) ELSE Mul(Pw(k - 1), Small(x))
                            IN Power(x, e) = Pw(e)
=============================================================================
