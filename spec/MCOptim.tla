------------------------------- MODULE MCOptim -------------------------------
(***************************************************************************)
(* Design checks.  (1) All histories of gradients drawn from a small set:  *)
(* the recursion has its closed form, the bias-corrected average stays     *)
(* between the extreme squared gradients, is exact for constant gradients, *)
(* and stopping and resuming from the saved average changes nothing.       *)
(* (2) All small sample sets: covariance is shift invariant, positive,     *)
(* equals that of the expanded multiset when weights are counts, and the   *)
(* sample-space solution solves the parameter-space equations.             *)
(***************************************************************************)
EXTENDS Optim, TLC, Json
CONSTANTS G, MaxSteps, Decays, Vals, ModeSet
VARIABLES mode, b, hist, v, saved, O, e, cnt
vars == <<mode, b, hist, v, saved, O, e, cnt>>
ValsQ == {<<"0", "0">>, <<"1", "0">>, <<"-1", "2">>}
ValsT == ValsQ \cup {<<"1/2", "-3">>}
Nil == <<>>
InitH == mode = "history" /\ b \in Decays /\ hist = <<>> /\ v = <<"0">> /\ saved = <<0, <<"0">>>> /\ O = Nil /\ e = Nil /\ cnt = Nil
InitS == /\ mode = "samples" /\ b = "0" /\ hist = <<>> /\ v = <<>> /\ saved = <<>>
         /\ O \in [1..2 -> [1..2 -> Vals]] /\ e \in [1..2 -> Vals] /\ cnt \in {<<1, 1>>, <<1, 2>>, <<3, 1>>}
Init == \/ ("history" \in ModeSet /\ InitH) \/ ("samples" \in ModeSet /\ InitS)
Grad == /\ mode = "history" /\ Len(hist) < MaxSteps
        /\ \E g \in G : hist' = Append(hist, g) /\ v' = OP_Ema(v, <<g>>, b)
        /\ UNCHANGED <<mode, b, saved, O, e, cnt>>
Save == mode = "history" /\ saved' = <<Len(hist), v>> /\ UNCHANGED <<mode, b, hist, v, O, e, cnt>>
Next == Grad \/ Save
Spec == Init /\ [][Next]_vars
Hist == mode = "history" /\ hist # <<>>
Hat == OP_Hat(v, b, Len(hist) - 1)[1]
Sq(k) == RMul(hist[k], hist[k])
Closed == Hist => REq(v[1], RSumSeq([k \in 1..Len(hist) |-> RMul(RMul(RSub("1", b), OP_Pow(b, Len(hist) - k)), Sq(k))]))
Between == Hist => /\ \E k \in 1..Len(hist) : RLe(Sq(k), Hat)
                   /\ \E k \in 1..Len(hist) : RLe(Hat, Sq(k))
Constant == Hist /\ (\A k \in 1..Len(hist) : hist[k] = hist[1]) => REq(Hat, Sq(1))
RECURSIVE Replay(_, _)
Replay(s, k) == IF k > Len(hist) THEN s ELSE Replay(OP_Ema(s, <<hist[k]>>, b), k + 1)
Resume == mode = "history" => Replay(saved[2], saved[1] + 1) = v
(* samples *)
Smp == mode = "samples"
W == LET t == cnt[1] + cnt[2] IN <<RDiv(RInt(cnt[1]), RInt(t)), RDiv(RInt(cnt[2]), RInt(t))>>
Oc == OP_CentreO(W, O)
ec == OP_CentreE(W, e)
\* the multiset in which sample k appears cnt[k] times
Exp(s) == [k \in 1..(cnt[1] + cnt[2]) |-> IF k <= cnt[1] THEN s[1] ELSE s[2]]
WE == [k \in 1..(cnt[1] + cnt[2]) |-> RDiv("1", RInt(cnt[1] + cnt[2]))]
Counts == Smp => /\ \A p, q \in 1..2 : OP_S(W, Oc, p, q) = OP_S(WE, OP_CentreO(WE, Exp(O)), p, q)
                 /\ OP_F(W, Oc, ec) = OP_F(WE, OP_CentreO(WE, Exp(O)), OP_CentreE(WE, Exp(e)))
                 /\ OP_Var(W, e) = OP_Var(WE, Exp(e))
Shift == Smp => LET O2 == [k \in 1..2 |-> [p \in 1..2 |-> CAdd(O[k][p], <<"3", "-2">>)]] IN OP_CentreO(W, O2) = Oc
Positive == Smp => \A x \in {<< <<"1", "0">>, <<"0", "0">> >>, << <<"1", "0">>, <<"1", "1">> >>, << <<"0", "-2">>, <<"1", "0">> >>} :
              LET y == OP_Sv(W, Oc, x) z == CSumSeq([p \in 1..2 |-> CMul(CConj(x[p]), y[p])]) IN RLe("0", z[1]) /\ z[2] = "0"
Herm == Smp => \A p, q \in 1..2 : OP_S(W, Oc, p, q) = CConj(OP_S(W, Oc, q, p))
Products == Smp => \A q \in 1..2 : LET x == [p \in 1..2 |-> IF p = q THEN <<"1", "0">> ELSE <<"0", "0">>] IN OP_Sv(W, Oc, x) = [p \in 1..2 |-> OP_S(W, Oc, p, q)]
\* sample-space (kernel) solution with regularisation l solves the parameter-space equations: x = A^H (A A^H + l)^-1 y, A = sqrt(w) Oc, scaled to avoid roots (l W^-1)
Kernel(l) == LET T(k, j) == CSumSeq([p \in 1..2 |-> CMul(Oc[k][p], CConj(Oc[j][p]))])
                 M == [k \in 1..2 |-> [j \in 1..2 |-> CAdd(T(k, j), IF k = j THEN <<RDiv(l, W[k]), "0">> ELSE <<"0", "0">>)]]
                 d == CSub(CMul(M[1][1], M[2][2]), CMul(M[1][2], M[2][1]))
             IN << CDiv(CSub(CMul(M[2][2], ec[1]), CMul(M[1][2], ec[2])), d), CDiv(CSub(CMul(M[1][1], ec[2]), CMul(M[2][1], ec[1])), d) >>
MinSR == Smp => \A l \in {"1", "1/3"} :
  LET z == Kernel(l)  x == [p \in 1..2 |-> CSumSeq([k \in 1..2 |-> CMul(CConj(Oc[k][p]), z[k])])]
      Sx == OP_Sv(W, Oc, x)  F == OP_F(W, Oc, ec)
  IN \A p \in 1..2 : CAdd(Sx[p], CScale(l, x[p])) = F[p]
\* split real system: gradient with respect to real and imaginary parts
Real == Smp => LET Os == OP_CentreO(W, OP_Split(O))  F == OP_F(W, Oc, ec)  Fs == OP_F(W, Os, ec) IN
   \A p \in 1..2 : /\ REq(Fs[p][1], F[p][1]) /\ REq(Fs[p + 2][1], F[p][2])
                   /\ \A q \in 1..2 : REq(OP_S(W, Os, p, q)[1], OP_S(W, Os, p + 2, q + 2)[1])
Emit == (mode = "history" /\ Len(hist) = MaxSteps) => PrintT("BEH " \o ToJson([b |-> b, cut |-> saved[1], hist |-> hist]))
=============================================================================
