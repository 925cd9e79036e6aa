------------------------------ MODULE ImagTime -------------------------------
(***************************************************************************)
(* First-order imaginary-time propagation.  H is a function from           *)
(* configurations to rows << <<x', <x|H|x'>>> .. >>, psi a function from   *)
(* configurations to complex numbers.                                      *)
(* A propagated state is a record [par, taus]: its own copy of the         *)
(* parameters of the wavefunction it was derived from, and the time steps  *)
(* applied to it, innermost first.                                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, BigRat
IT_Hv(H, psi, x) == CSumSeq([k \in 1..Len(H[x]) |-> CMul(H[x][k][2], psi[H[x][k][1]])])
IT_Local(H, psi, x) == CDiv(IT_Hv(H, psi, x), psi[x])
IT_Step(H, psi, tau) == TLCEval([x \in DOMAIN psi |-> CTrunc(CSub(psi[x], CScale(tau, IT_Hv(H, psi, x))), 300)])
RECURSIVE IT_Steps(_, _, _)
IT_Steps(H, psi, taus) == IF taus = <<>> THEN psi ELSE IT_Steps(H, IT_Step(H, psi, Head(taus)), Tail(taus))
IT_New(par) == [par |-> par, taus |-> <<>>]
IT_Derive(s, tau) == [s EXCEPT !.taus = Append(@, tau)]
IT_Set(s, par) == [s EXCEPT !.par = par]
=============================================================================
