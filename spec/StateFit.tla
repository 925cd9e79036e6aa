------------------------------ MODULE StateFit -------------------------------
(***************************************************************************)
(* Fitting an amplitude model to a data set: mini-batches are drawn one    *)
(* item after the other without repetition, with probabilities             *)
(* proportional to the weights of the items that are left; the loss of a   *)
(* batch is the mean squared deviation of the model from the targets.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, BigRat
FT_W(w, S) == RSumSeq([i \in 1..Len(w) |-> IF i \in S THEN w[i] ELSE "0"])
\* probability that the items drawn next are exactly those of B, when those of R are gone
RECURSIVE FT_Prob(_, _, _)
FT_Prob(w, B, R) == IF B = {} THEN "1"
                    ELSE LET rest == FT_W(w, (1..Len(w)) \ R)
                         IN RSumSeq([i \in 1..Len(w) |-> IF i \in B /\ RSign(w[i]) > 0 THEN RMul(RDiv(w[i], rest), FT_Prob(w, B \ {i}, R \cup {i})) ELSE "0"])
FT_Batches(N, m) == kSubset(m, 1..N)
\* dev[i] = |model - target|^2
FT_Loss(dev, B) == RDiv(FT_W(dev, B), RInt(Cardinality(B)))
\* derivative of the loss in a direction along which the model amplitudes change by da[i]
FT_Slope(a, y, da, B) == RDiv(RMul("2", RSumSeq([i \in 1..Len(a) |-> IF i \in B THEN CMul(CConj(CSub(a[i], y[i])), da[i])[1] ELSE "0"])), RInt(Cardinality(B)))
=============================================================================
