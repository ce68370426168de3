----------------------------- MODULE SpectrumMC -----------------------------
(* Every strongly regular graph the search machine finds has the determinant its parameters predict. *)
EXTENDS Spectrum
CONSTANTS Primes
VARIABLES done
RECURSIVE Complete(_, _)
Complete(mm, pp) == IF Len(mm) = PV(pp) THEN {mm} ELSE UNION { Complete(Append(mm, r), pp) : r \in NextRows(mm, pp) }
InitG == /\ p \in FeasibleSet(Lo, Hi) /\ m = << >> /\ done = FALSE
NextG == ~ done /\ done' = TRUE /\ p' = p /\ m' \in Complete(Seed(p), p)
GraphsIntegral == m # << >> => Integral(p)
DetPredicted == m # << >> => \A q \in Primes : DetMod(m, q) = Mod(Det(p), q)
=============================================================================
