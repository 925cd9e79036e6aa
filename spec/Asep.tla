-------------------------------- MODULE Asep ---------------------------------
(***************************************************************************)
(* Tilted generator of the asymmetric simple exclusion process with open   *)
(* boundaries.  cfg: alpha, gamma (injection / removal at the left end),   *)
(* beta, delta (injection / removal at the right end), p, q (hops to the   *)
(* right / left), lambda (counting field; +lambda for a particle moving to *)
(* the right, -lambda to the left).  e, em = exp(+-lambda).                *)
(* Row elements: x -> x' with rate times counting factor, diagonal minus   *)
(* the escape rate.                                                        *)
(***************************************************************************)
EXTENDS Rows

Put(x, i, v) == [x EXCEPT ![i] = v]
\* the elementary moves possible in x: [to, rate, f]
Moves(cfg, x) ==
  LET L == Len(x)
      e == RExp(cfg.lambda)
      em == RExp(RNeg(cfg.lambda))
  IN (IF x[1] = 0 THEN {[i |-> <<1, 0>>, to |-> Put(x, 1, 1), rate |-> cfg.alpha, f |-> e]}
                  ELSE {[i |-> <<2, 0>>, to |-> Put(x, 1, 0), rate |-> cfg.gamma, f |-> em]})
     \cup (IF x[L] = 0 THEN {[i |-> <<3, 0>>, to |-> Put(x, L, 1), rate |-> cfg.beta, f |-> em]}
                  ELSE {[i |-> <<4, 0>>, to |-> Put(x, L, 0), rate |-> cfg.delta, f |-> e]})
     \cup {[i |-> <<5, k>>, to |-> Put(Put(x, k, 0), k + 1, 1), rate |-> cfg.p, f |-> e] : k \in {j \in 1..(L-1) : x[j] = 1 /\ x[j+1] = 0}}
     \cup {[i |-> <<6, k>>, to |-> Put(Put(x, k, 1), k + 1, 0), rate |-> cfg.q, f |-> em] : k \in {j \in 1..(L-1) : x[j] = 0 /\ x[j+1] = 1}}
AsepTerms(cfg, x) ==
  LET M == Moves(cfg, x)
      s == SetToSeq(M)
  IN {[i |-> m.i, to |-> m.to, v |-> RMul(m.rate, m.f)] : m \in M}
     \cup {[i |-> <<0, 0>>, to |-> x, v |-> RNeg(RSumSeq([k \in 1..Len(s) |-> s[k].rate]))]}
=============================================================================
