------------------------------- MODULE AutoReg -------------------------------
(***************************************************************************)
(* Autoregressive distributions.  Local states are 0..D-1.  A model is a   *)
(* function from prefixes (sequences of local states of the preceding      *)
(* sites) to conditional distributions (sequences of D probabilities).     *)
(* cfg: L, D, sector in {"none", "sz0", "elec"}, nu, nd (for "elec").      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, BigRat
AR_Count(y, T) == Cardinality({i \in 1..Len(y) : y[i] \in T})
\* a prefix that some configuration of the sector starts with
Feasible(cfg, y) ==
  LET rest == cfg.L - Len(y) IN
  CASE cfg.sector = "none" -> TRUE
    [] cfg.sector = "sz0" -> AR_Count(y, {0}) <= cfg.L \div 2 /\ AR_Count(y, {1}) <= cfg.L \div 2
    [] cfg.sector = "elec" -> LET u == AR_Count(y, {1, 3}) d == AR_Count(y, {2, 3})
                              IN u <= cfg.nu /\ u + rest >= cfg.nu /\ d <= cfg.nd /\ d + rest >= cfg.nd
AR_Configs(cfg) == {x \in [1..cfg.L -> 0..(cfg.D - 1)] : Feasible(cfg, x)}
AR_Prefix(x, i) == SubSeq(x, 1, i - 1)
\* clauses of a conditional distribution p at a feasible prefix y
Normalised(p, tol) == RClose(RSumSeq(p), "1", tol) /\ \A s \in 1..Len(p) : RLe("0", p[s])
MaskedOut(cfg, y, p) == \A s \in 1..Len(p) : ~Feasible(cfg, Append(y, s - 1)) => p[s] = "0"
\* probability of a configuration from the conditionals c (a function of prefixes)
Chain(c, x) == RProdSeq([i \in 1..Len(x) |-> c[AR_Prefix(x, i)][x[i] + 1]])
\* mean over symmetry copies
ChainSym(c, copies) == RDiv(RSumSeq([k \in 1..Len(copies) |-> Chain(c, copies[k])]), RInt(Len(copies)))
\* drawing with a random number u in [0,1) from unnormalised weights p: the cell whose cumulative interval contains u * total
Cum(p, k) == RSumSeq([j \in 1..k |-> p[j]])
Cell(p, u) == CHOOSE k \in 1..Len(p) : LET v == RMul(u, Cum(p, Len(p))) IN RLe(Cum(p, k - 1), v) /\ RLt(v, Cum(p, k))
\* ... up to rounding of the boundaries, but never a cell of weight zero
CellOK(p, u, k, tol) == LET t == Cum(p, Len(p)) v == RMul(u, t) e == RMul(tol, t)
                        IN RSign(p[k]) > 0 /\ RLe(RSub(Cum(p, k - 1), e), v) /\ RLt(v, RAdd(Cum(p, k), e))
=============================================================================
