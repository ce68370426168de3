------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Parameter tuples p = <<v, k, l, u>>: the counting identity, the         *)
(* parameters of the complement, discriminant.  Facts that hold for all    *)
(* integers are proved in ParamProofs.                                     *)
(***************************************************************************)
EXTENDS Integers

PV(p) == p[1]
PK(p) == p[2]
PL(p) == p[3]
PU(p) == p[4]

Identity(p) == (PV(p) - PK(p) - 1) * PU(p) = PK(p) * (PK(p) - PL(p) - 1)

Feasible(p) ==
  /\ PK(p) >= 1 /\ PK(p) <= PV(p) - 2
  /\ PL(p) >= 0 /\ PL(p) <= PK(p) - 1
  /\ PU(p) >= 0 /\ PU(p) <= PK(p)
  /\ Identity(p)

ComplementParams(p) ==
  << PV(p), PV(p) - PK(p) - 1, PV(p) - 2 - 2*PK(p) + PU(p), PV(p) - 2*PK(p) + PL(p) >>

\* of x^2 - (l-u) x - (k-u), and what decides whether its roots are equally frequent
Disc(p) == (PL(p) - PU(p)) * (PL(p) - PU(p)) + 4 * (PK(p) - PU(p))
Conf(p) == 2 * PK(p) + (PV(p) - 1) * (PL(p) - PU(p))
=============================================================================
