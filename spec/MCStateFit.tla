----------------------------- MODULE MCStateFit ------------------------------
(***************************************************************************)
(* Design check: the urn from which a mini-batch is drawn, for all small   *)
(* weights, and the loss of a linear model.  Configurations are emitted    *)
(* for replay into the code.                                               *)
(***************************************************************************)
EXTENDS StateFit, SequencesExt, Json
CONSTANTS MaxN, MaxW
VARIABLES w, m, drawn, pr
Init == /\ \E n \in 2..MaxN : w \in [1..n -> {RInt(k) : k \in 0..MaxW}]
        /\ m \in 1..Len(w) /\ m <= Cardinality({i \in 1..Len(w) : w[i] # "0"})
        /\ drawn = <<>> /\ pr = "1"
Done == {drawn[k] : k \in 1..Len(drawn)}
Next == /\ Len(drawn) < m
        /\ \E i \in (1..Len(w)) \ Done : /\ w[i] # "0" /\ drawn' = Append(drawn, i)
                                         /\ pr' = RMul(pr, RDiv(w[i], FT_W(w, (1..Len(w)) \ Done)))
        /\ UNCHANGED <<w, m>>
Spec == Init /\ [][Next]_<<w, m, drawn, pr>>
N == Len(w)
NoRepeat == Cardinality(Done) = Len(drawn)
Positive == RSign(pr) > 0 /\ RLe(pr, FT_Prob(w, Done, {}))
Total == drawn = <<>> => REq(RSumSeq([k \in 1..Cardinality(FT_Batches(N, m)) |-> FT_Prob(w, SetToSeq(FT_Batches(N, m))[k], {})]), "1")
Uniform == (drawn = <<>> /\ \A i \in 1..N : w[i] = w[1]) => \A B \in FT_Batches(N, m) : REq(FT_Prob(w, B, {}), RDiv("1", RInt(Cardinality(FT_Batches(N, m)))))
\* a heavier item is at least as likely to be in the batch
Incl(i) == RSumSeq([k \in 1..Cardinality(FT_Batches(N, m)) |-> LET B == SetToSeq(FT_Batches(N, m))[k] IN IF i \in B THEN FT_Prob(w, B, {}) ELSE "0"])
Monotone == drawn = <<>> => \A i, j \in 1..N : RLe(w[i], w[j]) => RLe(Incl(i), Incl(j))
Never == drawn = <<>> => \A i \in 1..N : w[i] = "0" => Incl(i) = "0"
(* a linear model a_i = f_i t of one complex parameter t, targets y_i: the average over equal shares is the loss over their union, *)
(* and the slope is the derivative                                                                                              *)
f == [i \in 1..N |-> <<RInt(i), RInt(1 - i)>>]
y == [i \in 1..N |-> <<w[i], RInt(i - 2)>>]
A(t) == [i \in 1..N |-> CMul(f[i], t)]
Dev(t) == [i \in 1..N |-> CAbs2(CSub(A(t)[i], y[i]))]
t0 == <<"1/2", "-1/3">>
Shares == Len(drawn) = m => \A B \in SUBSET Done : (2 * Cardinality(B) = m) =>
            /\ REq(FT_Loss(Dev(t0), Done), RDiv(RAdd(FT_Loss(Dev(t0), B), FT_Loss(Dev(t0), Done \ B)), "2"))
            /\ REq(FT_Slope(A(t0), y, f, Done), RDiv(RAdd(FT_Slope(A(t0), y, f, B), FT_Slope(A(t0), y, f, Done \ B)), "2"))
Slope == Len(drawn) = m => \A d \in {<<"1", "0">>, <<"0", "1">>, <<"2", "-1">>} : \A h \in {"1", "1/4"} :
            REq(RDiv(RSub(FT_Loss(Dev(CAdd(t0, CScale(h, d))), Done), FT_Loss(Dev(CSub(t0, CScale(h, d))), Done)), RMul("2", h)),
                FT_Slope(A(t0), y, [i \in 1..N |-> CMul(f[i], d)], Done))
\* moving against the slope of both directions lowers the loss for a small enough step
Descent == Len(drawn) = m => LET g == <<FT_Slope(A(t0), y, f, Done), FT_Slope(A(t0), y, [i \in 1..N |-> CMul(f[i], <<"0", "1">>)], Done)>>
                             IN g = <<"0", "0">> \/ RLt(FT_Loss(Dev(CSub(t0, CScale("1/1000", g))), Done), FT_Loss(Dev(t0), Done))
Emit == (Len(drawn) = m /\ \A k \in 1..(m - 1) : drawn[k] < drawn[k + 1]) => PrintT("BEH " \o ToJson([w |-> w, m |-> m]))
=============================================================================
