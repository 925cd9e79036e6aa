------------------------------ MODULE Supervised -----------------------------
(***************************************************************************)
(* Supervised learning of Gaussian process states, in exact arithmetic.    *)
(* Parameters eps[d][w][i]; a configuration is given by its symmetry       *)
(* copies; refs[w] is the site whose parameters of support index w are     *)
(* linear weights, all other parameters make up the features.              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, BigRat, ProductState
(* Features *)
SU_Site(eps, w, x, r) == CProdSeq([j \in 1..Len(x) |-> IF j = r THEN C1 ELSE eps[x[j] + 1][w][j]])
SU_M(eps) == Len(eps[1])
SU_N(eps) == Len(eps) * Len(eps[1])
SU_W(eps, k) == ((k - 1) \div Len(eps)) + 1      \* support index major, local state minor
SU_D(eps, k) == ((k - 1) % Len(eps)) + 1
SU_Entry(eps, copies, refs, k) == LET w == SU_W(eps, k) IN
   CSumSeq([t \in 1..Len(copies) |-> IF copies[t][refs[w]] + 1 = SU_D(eps, k) THEN SU_Site(eps, w, copies[t], refs[w]) ELSE C0])
SU_Row(eps, copies, refs) == TLCEval([k \in 1..SU_N(eps) |-> SU_Entry(eps, copies, refs, k)])
SU_Rows(eps, set, refs) == TLCEval([i \in 1..Len(set) |-> SU_Row(eps, set[i], refs)])
SU_Ref(eps, refs) == TLCEval([k \in 1..SU_N(eps) |-> eps[SU_D(eps, k)][SU_W(eps, k)][refs[SU_W(eps, k)]]])
SU_Put(eps, refs, v) == [d \in 1..Len(eps) |-> [w \in 1..SU_M(eps) |-> [i \in 1..Len(eps[1][1]) |->
                            IF i = refs[w] THEN v[((w - 1) * Len(eps)) + d] ELSE eps[d][w][i]]]]
SU_Log(eps, copies) == PS_GPS(eps, copies)
(* A linear model K x with data y, precisions S (diagonal) and beta, and prior precisions a; real: only the real part of every inner product counts. *)
SU_Col(K, p) == [k \in 1..Len(K) |-> K[k][p]]
SU_Re(real, z) == IF real THEN <<z[1], "0">> ELSE z
SU_Gram(K, S, real) == TLCEval([p \in 1..Len(K[1]) |-> [q \in 1..Len(K[1]) |-> SU_Re(real, CSumSeq([k \in 1..Len(K) |-> CScale(S[k], CMul(CConj(K[k][p]), K[k][q]))]))]])
SU_Rhs(K, m, real) == TLCEval([p \in 1..Len(K[1]) |-> SU_Re(real, CSumSeq([k \in 1..Len(K) |-> CMul(CConj(K[k][p]), m[k])]))])
SU_Times(S, y) == TLCEval([k \in 1..Len(y) |-> CScale(S[k], y[k])])
SU_Split(K) == TLCEval([k \in 1..Len(K) |-> LET n == Len(K[k]) IN [p \in 1..(2 * n) |-> IF p <= n THEN K[k][p] ELSE CMul(<<"0", "1">>, K[k][p - n])]])
SU_SplitV(x) == TLCEval(LET n == Len(x) IN [p \in 1..(2 * n) |-> IF p <= n THEN <<x[p][1], "0">> ELSE <<x[p - n][2], "0">>])
SU_Pick(v, idx) == TLCEval([k \in 1..Len(idx) |-> v[idx[k]]])
SU_PickM(A, idx) == TLCEval([p \in 1..Len(idx) |-> [q \in 1..Len(idx) |-> A[idx[p]][idx[q]]]])
SU_Idx(P) == LET F[k \in 0..Len(P)] == IF k = 0 THEN <<>> ELSE IF P[k] THEN Append(F[k - 1], k) ELSE F[k - 1] IN F[Len(P)]
SU_Mat(G, a, beta) == TLCEval([p \in 1..Len(G) |-> [q \in 1..Len(G) |-> CAdd(CScale(beta, G[p][q]), IF p = q THEN <<a[p], "0">> ELSE C0)]])
\* residual of (beta G + a) x = beta b
SU_Res(G, a, beta, x, b) == TLCEval([p \in 1..Len(x) |-> CSub(CAdd(CScale(beta, CDot(G[p], x)), CScale(a[p], x[p])), CScale(beta, b[p]))])
SU_Norm2(v) == RSumSeq([k \in 1..Len(v) |-> CAbs2(v[k])])
\* b^H M^-1 b, exactly (bordered determinant)
SU_Quad(M, b) == LET n == Len(b)
                     B == TLCEval([p \in 1..(n + 1) |-> [q \in 1..(n + 1) |-> IF p <= n /\ q <= n THEN M[p][q] ELSE IF p <= n THEN b[p] ELSE IF q <= n THEN CConj(b[q]) ELSE C0]])
                 IN IF n = 0 THEN "0" ELSE RNeg(CDiv(CDet(B), CDet(M))[1])
SU_Det(M) == IF Len(M) = 0 THEN "1" ELSE CDet(M)[1]
(* Log evidence of the model y ~ N(0, (beta S)^-1 + K a^-1 K^H), in weight space.  t: counts of the data points (their precision is S/t), nz: data points with        *)
(* a finite logarithm, b: right-hand side (it contains the limit -t/2 of S log psi for the others).  kind: "real" (real data), "circular" (complex data and weights), *)
(* "expand" (complex data, real weights; the regularisation of the linear system is a/2).                                                                           *)
Pi == "884279719003555/281474976710656"
SU_Evidence(kind, G, b, a, beta, S, t, y, nz) ==
  LET n == Len(b)
      M == SU_Mat(G, IF kind = "expand" THEN [p \in 1..n |-> RDiv(a[p], "2")] ELSE a, beta)
      c == IF kind = "real" THEN RMul("2", Pi) ELSE Pi
      data == RSumSeq([k \in 1..Len(y) |-> IF nz[k] THEN RSub(RMul(t[k], RLog(RDiv(RMul(beta, RDiv(S[k], t[k])), c))), RMul(beta, RMul(S[k], CAbs2(y[k])))) ELSE "0"])
      logs == RSub(RSumSeq([p \in 1..n |-> RLog(a[p])]), RLog(SU_Det(M)))
      quad == RMul(RMul(beta, beta), SU_Quad(M, b))
  IN CASE kind = "real" -> RDiv(RAdd(RAdd(data, logs), quad), "2")
       [] kind = "circular" -> RAdd(RAdd(data, logs), quad)
       [] kind = "expand" -> RAdd(RAdd(data, RDiv(RSub(logs, RMul(RInt(n), RLog("2"))), "2")), quad)
=============================================================================
