----------------------------- MODULE ProductState ----------------------------
(***************************************************************************)
(* Defining formulas of the (log-)amplitudes of product-type states, in    *)
(* exact complex arithmetic.  Configurations are sequences of local state  *)
(* indices 0..D-1; parameters are nested sequences of complex numbers.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, BigRat
C1 == <<"1", "0">>
C0 == <<"0", "0">>
\* Gaussian process state: eps[d][m][i]
PS_Prod(eps, m, x) == CProdSeq([i \in 1..Len(x) |-> eps[x[i] + 1][m][i]])
PS_One(eps, x) == CSumSeq([m \in 1..Len(eps[1]) |-> PS_Prod(eps, m, x)])
PS_GPS(eps, copies) == CSumSeq([t \in 1..Len(copies) |-> PS_One(eps, copies[t])])
\* plaquettes pl[p][j] (sites), eps[d][p][m][j]
PS_PlaqOne(eps, pl, x) == CSumSeq([p \in 1..Len(pl) |-> CSumSeq([m \in 1..Len(eps[1][1]) |->
                              CProdSeq([j \in 1..Len(pl[p]) |-> eps[x[pl[p][j]] + 1][p][m][j]])])])
PS_Plaq(eps, pl, copies) == CSumSeq([t \in 1..Len(copies) |-> PS_PlaqOne(eps, pl, copies[t])])
\* segmented: eps[d][m][i][a][b], a-1 and b-1 the up and down particles on the sites before i
PS_Before(x, i, T) == Cardinality({j \in 1..(i - 1) : x[j] \in T})
PS_Seg(eps, x, up, dn) == CSumSeq([m \in 1..Len(eps[1]) |->
     CProdSeq([i \in 1..Len(x) |-> eps[x[i] + 1][m][i][PS_Before(x, i, up) + 1][PS_Before(x, i, dn) + 1]])])
\* Jastrow: K[i][j], holes of the two spin species
PS_JastOne(K, x) == LET L == Len(x) IN CSumSeq([k \in 1..(L * L) |->
     LET i == ((k - 1) \div L) + 1  j == ((k - 1) % L) + 1 IN
     IF x[i] \in {0, 2} /\ x[j] \in {0, 1} THEN CAdd(K[i][j], K[j][i]) ELSE C0])
PS_Jastrow(K, copies) == CSumSeq([t \in 1..Len(copies) |-> PS_JastOne(K, copies[t])])

(* Autoregressive states: f(i, s, x) is the complex logarithm of the unnormalised    *)
(* conditional of local state s at site i given the sites before it.                 *)
PS_ArWeight(eps, i, s, x) == CSumSeq([m \in 1..Len(eps[1]) |-> CMul(eps[s + 1][m][i], CProdSeq([j \in 1..(i - 1) |-> eps[x[j] + 1][m][j]]))])
PS_Tri(i, j) == (((i - 1) * i) \div 2) + j      \* parameters of site i start after those of the sites before it
PS_ArFull(eps, i, s, x) == CSumSeq([m \in 1..Len(eps[1]) |-> CMul(eps[s + 1][m][PS_Tri(i, i)], CProdSeq([j \in 1..(i - 1) |-> eps[x[j] + 1][m][PS_Tri(i, j)]]))])
PS_ArSite(epsi, i, s, x) == CSumSeq([m \in 1..Len(epsi[1]) |-> CMul(epsi[s + 1][m][i], CProdSeq([j \in 1..(i - 1) |-> epsi[x[j] + 1][m][j]]))])
PS_ArPlaq(eps, pl, mask, i, s, x) == CSumSeq([m \in 1..Len(eps[1]) |-> CMul(eps[s + 1][m][1],
      CProdSeq([j \in 1..Len(pl[i]) |-> IF mask[i][j] = 1 THEN eps[x[pl[i][j]] + 1][m][j] ELSE C1]))])
\* from the table F[i][s+1] of log-weights (local states outside allowed[i] have none) to squared modulus and phase of one copy
PS_P(F, allowed, x) == RProdSeq([i \in 1..Len(x) |->
   RDiv(RExp(RMul("2", F[i][x[i] + 1][1])), RSumSeq([s \in 1..Len(F[i]) |-> IF (s - 1) \in allowed[i] THEN RExp(RMul("2", F[i][s][1])) ELSE "0"]))])
PS_Arg(F, x) == RSumSeq([i \in 1..Len(x) |-> F[i][x[i] + 1][2]])
\* amplitude from the (probability, phase angle) of the copies: root mean probability times the direction of the summed phase factors
PS_Sym(ps, as) == LET z == CSumSeq([t \in 1..Len(as) |-> CExp(<<"0", as[t]>>)])
                  IN CScale(RDiv(RSqrt(RDiv(RSumSeq(ps), RInt(Len(ps)))), RSqrt(CAbs2(z))), z)
=============================================================================
