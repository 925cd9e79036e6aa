------------------------------ MODULE MCEvidence -----------------------------
(***************************************************************************)
(* Design checks of the regression part of Supervised on all small linear  *)
(* models: the normal equations give the minimum of the regularised loss,  *)
(* weightings are counts, the weight-space evidence is the Gaussian        *)
(* likelihood of the data in data space (exact identities of determinants  *)
(* and quadratic forms), for real, circular and expanded complex models,   *)
(* and the closed-form optimum of one regularisation parameter is one.     *)
(***************************************************************************)
EXTENDS Supervised
CONSTANTS Vals, Alphas, Kinds
VARIABLES kind, K, y, S, a, cnt, m
vars == <<kind, K, y, S, a, cnt, m>>
ValsQ == {<<"1", "0">>, <<"-1/2", "2">>}
ValsT == ValsQ \cup {<<"0", "0">>, <<"0", "-1">>}
Re(z) == <<z[1], "0">>
V(k) == IF k = "real" THEN {Re(z) : z \in Vals} ELSE Vals
Init == /\ kind \in Kinds /\ K \in [1..2 -> [1..2 -> V(kind)]] /\ y = <<>> /\ S = <<>> /\ a = <<>> /\ cnt = <<>> /\ m = <<>>
Real == kind # "circular"
Make(k, KK, yy, ss, aa, cc) ==
  LET real == k # "circular"  kx == IF k = "expand" THEN SU_Split(KK) ELSE KK
      t == <<RInt(cc[1]), RInt(cc[2])>>  st == <<RMul(t[1], ss[1]), RMul(t[2], ss[2])>>
      g == SU_Gram(kx, st, real)  bb == SU_Rhs(kx, SU_Times(st, yy), real)
      rg == TLCEval(IF k = "expand" THEN [p \in 1..Len(aa) |-> RDiv(aa[p], "2")] ELSE aa)
  IN [Kx |-> kx, T |-> t, St |-> st, G |-> g, b |-> bb, reg |-> rg, M |-> SU_Mat(g, rg, "1")]
Pick == /\ m = <<>>
        /\ \E yy \in [1..2 -> V(kind)], ss \in {<<"1/2", "3">>}, cc \in {<<1, 1>>, <<2, 1>>} :
           \E aa \in (IF kind = "expand" THEN {<<p, q, p, q>> : p \in Alphas, q \in Alphas} ELSE [1..2 -> Alphas]) :
             y' = yy /\ S' = ss /\ a' = aa /\ cnt' = cc /\ m' = Make(kind, K, yy, ss, aa, cc)
        /\ UNCHANGED <<kind, K>>
Next == Pick
Spec == Init /\ [][Next]_vars
Kx == m.Kx
T == m.T
St == m.St
G == m.G
b == m.b
reg == m.reg
M == m.M
n == Len(b)
On == m # <<>>
\* solution by Cramer's rule
X == LET d == CDet(M) IN TLCEval([p \in 1..n |-> CDiv(CDet([i \in 1..n |-> [j \in 1..n |-> IF j = p THEN b[i] ELSE M[i][j]]]), d)])
Loss(x) == RAdd(RSumSeq([k \in 1..2 |-> RMul(St[k], CAbs2(CSub(y[k], CDot(Kx[k], x))))]), RSumSeq([p \in 1..n |-> RMul(reg[p], CAbs2(x[p]))]))
Minimum == On => LET x == X  l == Loss(x) IN
           /\ SU_Norm2(SU_Res(G, reg, "1", x, b)) = "0"
           /\ \A p \in 1..n : \A d \in (IF Real THEN {C1, <<"-1", "0">>} ELSE {C1, <<"-1", "0">>, <<"0", "1">>, <<"0", "-1">>}) : \A h \in {"1/8", "1"} :
                RLt(l, Loss([x EXCEPT ![p] = CAdd(@, CScale(h, d))]))
(* data space: replicated data, covariance of the data *)
N == cnt[1] + cnt[2]
R(k) == IF k <= cnt[1] THEN 1 ELSE 2
\* expanded models: 2N real data, variance 1/(2S) each
Rows == TLCEval(IF kind = "expand" THEN [k \in 1..(2 * N) |-> IF k <= N THEN [p \in 1..n |-> Re(Kx[R(k)][p])] ELSE [p \in 1..n |-> <<Kx[R(k - N)][p][2], "0">>]]
        ELSE [k \in 1..N |-> Kx[R(k)]])
Data == TLCEval(IF kind = "expand" THEN [k \in 1..(2 * N) |-> IF k <= N THEN Re(y[R(k)]) ELSE <<y[R(k - N)][2], "0">>] ELSE [k \in 1..N |-> y[R(k)]])
Var(k) == IF kind = "expand" THEN RDiv("1", RMul("2", S[R(((k - 1) % N) + 1)])) ELSE RDiv("1", S[R(k)])
C == LET rows == Rows IN TLCEval([k \in 1..Len(Data) |-> [l \in 1..Len(Data) |-> CAdd(CSumSeq([p \in 1..n |-> CScale(RDiv("1", a[p]), CMul(rows[k][p], CConj(rows[l][p])))]), IF k = l THEN <<Var(k), "0">> ELSE C0)]])
LogDet == On => LET f == IF kind = "expand" THEN RProdSeq([p \in 1..n |-> "2"]) ELSE "1" IN
   REq(RMul(CDet(C)[1], RMul(RProdSeq(a), RProdSeq([k \in 1..Len(Data) |-> RDiv("1", Var(k))]))), RMul(f, CDet(M)[1]))
Quad == On => LET q == SU_Quad(C, Data)  w == RSub(RSumSeq([k \in 1..2 |-> RMul(St[k], CAbs2(y[k]))]), SU_Quad(M, b)) IN REq(q, IF kind = "expand" THEN RMul("2", w) ELSE w)
\* the evidence is the logarithm of the Gaussian density
Ev == SU_Evidence(kind, G, b, a, "1", St, T, y, <<TRUE, TRUE>>)
Density == On => LET mm == RInt(Len(Data))  ld == RLog(CDet(C)[1])  q == SU_Quad(C, Data) IN
   RClose(Ev, IF kind = "circular" THEN RNeg(RAdd(RAdd(RMul(mm, RLog(Pi)), ld), q)) ELSE RDiv(RNeg(RAdd(RAdd(RMul(mm, RLog(RMul("2", Pi))), ld), q)), "2"), "1/1000000000")
\* optimal regularisation of feature 1 alone: s^2/(|q|^2 - s), or none at all
One(al) == SU_Evidence(kind, SU_PickM(G, <<1>>), SU_Pick(b, <<1>>), <<al>>, "1", St, T, y, <<TRUE, TRUE>>)
Null == SU_Evidence(kind, <<>>, <<>>, <<>>, "1", St, T, y, <<TRUE, TRUE>>)
Optimum == (On /\ G[1][1][1] # "0") =>
  LET f == IF kind = "expand" THEN "2" ELSE "1"  nul == TLCEval(Null)  s == RMul(f, G[1][1][1])  q2 == RMul(RMul(f, f), CAbs2(b[1]))  th == RSub(q2, s) IN
  IF RLt("0", th) THEN LET al == TLCEval(RDiv(RMul(s, s), th))  top == TLCEval(RAdd(One(al), "1/1000000000")) IN RLe(nul, top) /\ \A o \in {"1/2", "9/10", "11/10", "2", "10"} : RLe(One(RMul(o, al)), top)
  ELSE \A al \in {"1/2", "1", "10", "1000"} : RLe(One(al), RAdd(nul, "1/1000000000"))
=============================================================================
