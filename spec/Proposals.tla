------------------------------ MODULE Proposals -------------------------------
(***************************************************************************)
(* Proposal kernels of the samplers as exact probabilities.                *)
(* cfg.rule = "hopping":  with probability cfg.hop one electron (uniform   *)
(*   over the electrons) moves to a target site without an electron of its *)
(*   spin; otherwise a singly occupied site (uniform) exchanges its spin   *)
(*   with a singly occupied site of opposite spin.  The target is uniform  *)
(*   over the allowed sites, or drawn from row start of the symmetric      *)
(*   stochastic matrix cfg.T, in which case a target that is not allowed   *)
(*   leaves the configuration unchanged.                                   *)
(* cfg.rule = "exchange": the occupations of a uniformly drawn pair of     *)
(*   cfg.pairs are exchanged.                                              *)
(* A proposal is a record [to, s (set of sites it acts on), p].            *)
(***************************************************************************)
EXTENDS Hilbert, Spin

HasT(cfg) == Len(cfg.T) > 0
Electrons(x) == {<<i, b>> \in (1..Len(x)) \X {1, 2} : (IF b = 1 THEN UpAt(x[i]) ELSE DownAt(x[i]))}
Occ(x, i, b) == IF b = 1 THEN UpAt(x[i]) ELSE DownAt(x[i])
Single(x, i) == x[i] \in {1, 2}
Target(cfg, x, i, j, allowed) ==   \* probability of target j given start i
  IF HasT(cfg) THEN cfg.T[i][j] ELSE IF j \in allowed THEN RDiv("1", RInt(Cardinality(allowed))) ELSE "0"

HopMoves(cfg, x) ==
  {[to |-> [x EXCEPT ![m[1]] = @ - m[2], ![m[3]] = @ + m[2]], s |-> {m[1], m[3]}, k |-> <<0, m[1], m[2], m[3]>>,
    p |-> RMul(cfg.hop, RMul(RDiv("1", RInt(Cardinality(Electrons(x)))), Target(cfg, x, m[1], m[3], {j \in 1..Len(x) : ~Occ(x, j, m[2])})))]
   : m \in {q \in (1..Len(x)) \X {1, 2} \X (1..Len(x)) : Occ(x, q[1], q[2]) /\ ~Occ(x, q[3], q[2])}}
ExMoves(cfg, x) ==
  {[to |-> [x EXCEPT ![m[1]] = x[m[2]], ![m[2]] = x[m[1]]], s |-> {m[1], m[2]}, k |-> <<1, m[1], 0, m[2]>>,
    p |-> RMul(RSub("1", cfg.hop), RMul(RDiv("1", RInt(Cardinality({i \in 1..Len(x) : Single(x, i)}))),
                 Target(cfg, x, m[1], m[2], {j \in 1..Len(x) : Single(x, j) /\ x[j] # x[m[1]]})))]
   : m \in {q \in (1..Len(x)) \X (1..Len(x)) : Single(x, q[1]) /\ Single(x, q[2]) /\ x[q[1]] # x[q[2]]}}
PairMoves(cfg, x) ==
  {[to |-> Swap(x, cfg.pairs[n][1], cfg.pairs[n][2]), s |-> {cfg.pairs[n][1], cfg.pairs[n][2]}, k |-> <<2, n, 0, 0>>,
    p |-> RDiv("1", RInt(Len(cfg.pairs)))] : n \in {m \in 1..Len(cfg.pairs) : x[cfg.pairs[m][1]] # x[cfg.pairs[m][2]]}}

Props(cfg, x) == IF cfg.rule = "exchange" THEN PairMoves(cfg, x) ELSE HopMoves(cfg, x) \cup ExMoves(cfg, x)
\* probability to propose y from x; what is left over stays at x
Q(cfg, x, y) ==
  LET P == Props(cfg, x)
      tot(S) == LET q == SetToSeq(S) IN RSumSeq([k \in 1..Len(q) |-> q[k].p])
  IN IF y = x THEN RSub("1", tot({m \in P : m.to # x})) ELSE tot({m \in P : m.to = y})
Possible(cfg, x, y) == y = x \/ \E m \in Props(cfg, x) : m.to = y /\ RSign(m.p) > 0
Changed(x, y) == {i \in 1..Len(x) : x[i] # y[i]}

(***************************************************************************)
(* Metropolis acceptance for weights w (function on configurations).       *)
(***************************************************************************)
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
Acc(w, x, y) == IF RSign(w[x]) = 0 THEN "1" ELSE RMin("1", RDiv(w[y], w[x]))
=============================================================================
