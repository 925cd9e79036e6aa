------------------------------ MODULE MCStrata -------------------------------
(***************************************************************************)
(* Design model of stratified sampling: squared amplitudes p, a            *)
(* deterministic set D, and a chain on the complement that rejects moves   *)
(* into D.  Checked: the weights of any history form a distribution, the   *)
(* two strata together reproduce the exact expectation value when the norm *)
(* of the complement is exact, and each estimator of that norm is          *)
(* unbiased in its own sense.                                              *)
(***************************************************************************)
EXTENDS Samples, TLC
CONSTANTS N, PV, MaxLen
VARIABLES p, D, cur, q
vars == <<p, D, cur, q>>
X == 1..N
Rest == X \ D
Init == /\ p \in [X -> PV]
        /\ D \in (SUBSET X) \ {{}, X}
        /\ cur \in X \ D
        /\ q = <<>>
\* one step: propose any configuration, moves into the deterministic set are rejected
Step == /\ Len(q) < MaxLen
        /\ \E y \in X : cur' = (IF y \in D THEN cur ELSE y)
        /\ q' = Append(q, cur')
        /\ UNCHANGED <<p, D>>
Spec == Init /\ [][Step]_vars
P(x) == RInt(p[x])
Pf == [x \in X |-> P(x)]
NC == ST_Norm(Pf, Rest)
Weight(nc) == RAdd(LET f[k \in 0..N] == IF k = 0 THEN "0" ELSE IF k \in D THEN RAdd(f[k - 1], ST_Det(Pf, D, nc, k)) ELSE f[k - 1] IN f[N],
                   IF q = <<>> THEN "0" ELSE RMul(RInt(Len(q)), ST_Rest(Pf, D, nc, Len(q))))
InComplement == cur \in Rest /\ \A k \in 1..Len(q) : q[k] \in Rest
SumsToOne == q # <<>> => /\ Weight(NC) = "1"
                         /\ Weight(ST_Harmonic(Pf, Cardinality(Rest), q)) = "1"
\* exact norm: the strata reproduce the exact probabilities of the deterministic set and of the complement
Exact == /\ \A x \in D : ST_Det(Pf, D, NC, x) = RDiv(P(x), ST_Norm(Pf, X))
         /\ RMul(RInt(3), ST_Rest(Pf, D, NC, 3)) = RDiv(NC, ST_Norm(Pf, X))
\* the inverse squared amplitude averaged over the complement's distribution is its size over its norm
HarmonicConsistent ==
  LET f[k \in 0..N] == IF k = 0 THEN "0" ELSE IF k \in Rest THEN RAdd(f[k - 1], RMul(RDiv(P(k), NC), RDiv("1", P(k)))) ELSE f[k - 1]
  IN f[N] = RDiv(RInt(Cardinality(Rest)), NC)
\* the harmonic estimate is bounded by the extreme single-sample estimates
HarmonicBounded == q # <<>> => LET h == ST_Harmonic(Pf, Cardinality(Rest), q) n == RInt(Cardinality(Rest)) IN
     /\ \E k \in 1..Len(q) : RLe(RMul(n, P(q[k])), h)
     /\ \E k \in 1..Len(q) : RLe(h, RMul(n, P(q[k])))
=============================================================================
