------------------------------- MODULE Hilbert -------------------------------
(* Configuration spaces of electrons on sites: with given numbers of up and  *)
(* down electrons, or unconstrained (nu = -1).                               *)
EXTENDS Fermi
Space(L, nu, nd) == IF nu < 0 THEN [1..L -> 0..3] ELSE Sector(L, nu, nd)
Binom(n, k) == LET f[i \in 0..n, j \in 0..n] == IF j = 0 THEN 1 ELSE IF i = 0 THEN 0 ELSE f[i-1, j-1] + f[i-1, j] IN f[n, k]
Size(L, nu, nd) == IF nu < 0 THEN 4 ^ L ELSE Binom(L, nu) * Binom(L, nd)
\* the k-th power of a space is the space of the k-fold number of sites and electrons
Pow(s, k) == [L |-> s.L * k, nu |-> IF s.nu < 0 THEN -1 ELSE s.nu * k, nd |-> IF s.nu < 0 THEN -1 ELSE s.nd * k]
\* number of observations c of a cell of probability p among n draws is plausible: |c - np| <= z sqrt(np(1-p)) + 1
Plausible(c, n, p, z2) ==
  LET d == RSub(RAbs(RSub(RInt(c), RMul(RInt(n), p))), "1")
  IN RSign(d) <= 0 \/ RLe(RMul(d, d), RMul(z2, RMul(RInt(n), RMul(p, RSub("1", p)))))
=============================================================================
