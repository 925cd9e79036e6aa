-------------------------------- MODULE Spin ---------------------------------
(***************************************************************************)
(* J1-J2 Heisenberg model.  A configuration is a sequence of spins -1, 1.  *)
(*   H = sum_{order o} J_o sum_{bonds of order o} S_i . S_j                *)
(* S_i . S_j is +1/4 on parallel spins; on antiparallel spins it is -1/4   *)
(* on the diagonal and 1/2 (sign rule: -1/2) for the exchange of both.     *)
(***************************************************************************)
EXTENDS Rows

\* Lattices: sites 1..Lx (chain) or 1..Lx*Ly (grid, second coordinate fastest)
ChainDist(L, pbc, i, j) == LET d == IF i > j THEN i - j ELSE j - i
                           IN IF pbc /\ L - d < d THEN L - d ELSE d
XOf(g, i) == ((i - 1) \div g.Ly) + 1
YOf(g, i) == ((i - 1) % g.Ly) + 1
Sites(g) == 1..(g.Lx * g.Ly)
Dist2(g, i, j) ==   \* squared Euclidean distance (minimum image)
  LET dx == ChainDist(g.Lx, g.pbc, XOf(g, i), XOf(g, j))
      dy == ChainDist(g.Ly, g.pbc, YOf(g, i), YOf(g, j))
  IN (dx * dx) + (dy * dy)
PairSet(g) == {p \in Sites(g) \X Sites(g) : p[1] < p[2]}
\* first and second neighbours: the two smallest distances that occur
Shell(g, o) == LET ds == {Dist2(g, p[1], p[2]) : p \in PairSet(g)}
                   d1 == CHOOSE d \in ds : \A e \in ds : d <= e
                   d2 == CHOOSE d \in ds \ {d1} : \A e \in ds \ {d1} : d <= e
               IN {p \in PairSet(g) : Dist2(g, p[1], p[2]) = (IF o = 1 THEN d1 ELSE d2)}

Swap(x, i, j) == [x EXCEPT ![i] = x[j], ![j] = x[i]]
\* cfg.bonds: sequence of [i, j, J, sr]
BondTerms(b, k, x) ==
  IF x[b.i] = x[b.j] THEN {[i |-> <<k, 0>>, to |-> x, v |-> RDiv(b.J, "4")]}
  ELSE {[i |-> <<k, 0>>, to |-> x, v |-> RNeg(RDiv(b.J, "4"))],
        [i |-> <<k, 1>>, to |-> Swap(x, b.i, b.j), v |-> IF b.sr THEN RNeg(RDiv(b.J, "2")) ELSE RDiv(b.J, "2")]}
BondsOf(cfg) ==
  LET b1 == SetToSeq(Shell(cfg.g, 1))
      b2 == IF RSign(cfg.J2) = 0 THEN <<>> ELSE SetToSeq(Shell(cfg.g, 2))
  IN [k \in 1..Len(b1) |-> [i |-> b1[k][1], j |-> b1[k][2], J |-> cfg.J1, sr |-> cfg.sr1]]
     \o [k \in 1..Len(b2) |-> [i |-> b2[k][1], j |-> b2[k][2], J |-> cfg.J2, sr |-> cfg.sr2]]
SpinTerms(cfg, x) == LET B == BondsOf(cfg) IN UNION {BondTerms(B[k], k, x) : k \in 1..Len(B)}

\* a sign rule is only meaningful (and only accepted) on a bipartite shell
Bipartite(g, o) == \E A \in SUBSET Sites(g) : \A b \in Shell(g, o) : (b[1] \in A) # (b[2] \in A)
Accepts(cfg) == /\ cfg.sr1 => Bipartite(cfg.g, 1)
                /\ (RSign(cfg.J2) # 0 /\ cfg.sr2) => Bipartite(cfg.g, 2)

Mag(x) == LET f[k \in 0..Len(x)] == IF k = 0 THEN 0 ELSE f[k-1] + x[k] IN f[Len(x)]
=============================================================================
