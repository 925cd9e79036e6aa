--------------------------- MODULE TraceSupervised ---------------------------
(***************************************************************************)
(* Binds Supervised to the supervised-learning classes: the state is the   *)
(* parameter table and bias the code must be holding after the history so  *)
(* far; features, predictions, fits and evidences are recomputed from it.  *)
(* cfg: cls ("exp" amplitudes, "log" logarithms, "newton" one Newton step  *)
(* on the amplitudes), cplx, expand (complex weights fitted as pairs of    *)
(* reals), bias (a bias is fitted), tol, eps0.                             *)
(* Data of an event: set (copies of every configuration), y (logarithms of *)
(* the targets), zero (target amplitude zero), t (weightings), noise, iter *)
(* (noise model based on the current prediction), prior, and alpha, inf:   *)
(* regularisation of the weights in the order features, bias (of real      *)
(* parts, then of imaginary parts if expanded).                            *)
(***************************************************************************)
EXTENDS TraceBase, Supervised
Fail(ok, name) == IF ok THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r
Cutoff == "1/10000000000"
TS0(case) == [eps |-> case.cfg.eps0, bias |-> C0]
Same(a, b) == Len(a) = Len(b) /\ \A d \in 1..Len(a) : Len(a[d]) = Len(b[d]) /\ \A w \in 1..Len(a[d]) : Len(a[d][w]) = Len(b[d][w]) /\ \A i \in 1..Len(a[d][w]) : a[d][w][i] = b[d][w][i]
WithBias(cfg, K) == IF cfg.bias THEN TLCEval([k \in 1..Len(K) |-> Append(K[k], C1)]) ELSE K
LogOf(cfg, s, copies) == LET l == SU_Log(s.eps, copies) IN IF cfg.bias THEN CAdd(l, s.bias) ELSE l
Feature(cfg, s, e) == WithBias(cfg, IF Has(e, "given") THEN e.given ELSE SU_Rows(s.eps, e.set, e.refs))
\* precision of data point k, and its share of the right-hand side
Prec(cfg, s, e, noise, k) ==
  IF e.zero[k] THEN "0"
  ELSE IF cfg.cls = "log" \/ noise = "0" THEN e.t[k]
  ELSE IF e.iter THEN RDiv(e.t[k], RSub(RLog(RAdd("1", RSqrt(RAdd("1", RDiv(RMul("4", noise), RExp(RMul("2", LogOf(cfg, s, e.set[k])[1]))))))), RLog("2")))
  ELSE RDiv(e.t[k], RLog(RAdd("1", RDiv(RMul(noise, e.rw[k]), RExp(RMul("2", e.y[k][1]))))))
Kind(cfg) == IF cfg.expand THEN "expand" ELSE IF cfg.cplx THEN "circular" ELSE "real"
Prob(cfg, s, e, noise) ==
  LET K == Feature(cfg, s, e)  n == IF cfg.bias THEN Len(K[1]) - 1 ELSE Len(K[1])
      Kx == IF cfg.expand THEN SU_Split(K) ELSE K
      S == TLCEval([k \in 1..Len(K) |-> Prec(cfg, s, e, noise, k)])
      y == TLCEval([k \in 1..Len(K) |-> CSub(e.y[k], CMul(e.prior, CSumSeq([p \in 1..n |-> K[k][p]])))])
      m == TLCEval([k \in 1..Len(K) |-> IF e.zero[k] THEN <<RDiv(RNeg(e.t[k]), "2"), "0">> ELSE CScale(S[k], y[k])])
      real == Kind(cfg) # "circular"
      beta == IF cfg.cls = "log" THEN RDiv("1", noise) ELSE "1"
      G == SU_Gram(Kx, S, real)
  IN [K |-> K, Kx |-> Kx, S |-> S, y |-> y, b |-> SU_Rhs(Kx, m, real), G |-> G, beta |-> beta, valid |-> TLCEval([p \in 1..Len(G) |-> RLt(Cutoff, RAbs(G[p][p][1]))])]
Active(P, inf) == SU_Idx([p \in 1..Len(P.valid) |-> P.valid[p] /\ ~inf[p]])
RegOf(cfg, alpha) == IF cfg.expand THEN TLCEval([p \in 1..Len(alpha) |-> RDiv(alpha[p], "2")]) ELSE alpha
\* weights (deviations from the prior mean) behind a parameter table and a bias
Weights(cfg, e, eps, bias) ==
  LET r == SU_Ref(eps, e.refs)  v == TLCEval([k \in 1..Len(r) |-> CSub(r[k], e.prior)])
      u == IF cfg.bias THEN Append(v, bias) ELSE v
  IN IF cfg.expand THEN SU_SplitV(u) ELSE u
Small(r, tol, ref) == RLe(SU_Norm2(r), RMul(RMul(tol, tol), RAdd(ref, "1/1000000000000000000000000")))
OffRefs(eps, refs, after) == \A d \in 1..Len(eps) : \A w \in 1..Len(eps[1]) : \A i \in 1..Len(eps[1][1]) : i # refs[w] => after[d][w][i] = eps[d][w][i]
\* weights that are not fitted: those of vanishing features keep their value, those with infinite regularisation take the prior mean (deviation zero)
RestOk(cfg, s, e, valid, inf, x, old) ==
  Fail(\A p \in 1..Len(x) : (~valid[p]) => CClose(x[p], old[p], cfg.tol), "a parameter with vanishing features changed")
  \cup Fail(\A p \in 1..Len(x) : (valid[p] /\ inf[p]) => CClose(x[p], C0, cfg.tol), "a parameter with infinite regularisation is not at the prior mean")
LinFails(cfg, s, e, alpha, inf, noise, x, old) ==
  LET P == Prob(cfg, s, e, noise)  A == Active(P, inf)
      xa == SU_Pick(x, A)  ra == SU_Pick(RegOf(cfg, alpha), A)  ba == SU_Pick(P.b, A)
      r == SU_Res(SU_PickM(P.G, A), ra, P.beta, xa, ba)
      ref == RAdd(RMul(RMul(P.beta, P.beta), SU_Norm2(ba)), SU_Norm2([p \in 1..Len(A) |-> CScale(ra[p], xa[p])]))
  IN Fail(Len(A) = 0 \/ Small(r, cfg.tol, ref), "the new parameters do not solve the regularised weighted normal equations")
     \cup RestOk(cfg, s, e, P.valid, inf, x, old)
(* one Newton step on sum_k t |psi_k - exp(K x)|^2 / noise + regularisation, if the Hessian is positive definite *)
NewtonFails(cfg, s, e, x, old) ==
  LET K == Feature(cfg, s, e)  Kx == IF cfg.expand THEN SU_Split(K) ELSE K  N == Len(K)  n == Len(Kx[1])
      beta == IF e.noise = "0" THEN "1" ELSE RDiv("1", e.noise)
      P == TLCEval([k \in 1..N |-> CExp(LogOf(cfg, s, e.set[k]))])
      d == TLCEval([k \in 1..N |-> CSub(CExp(e.y[k]), P[k])])
      rg == RegOf(cfg, e.alpha)
      u == TLCEval([k \in 1..N |-> CScale(RMul(beta, e.t[k]), CMul(CConj(d[k]), P[k]))])
      v == TLCEval([k \in 1..N |-> RMul(RMul(beta, e.t[k]), CAbs2(P[k]))])
      valid == TLCEval([p \in 1..n |-> RLt(Cutoff, RSumSeq([k \in 1..N |-> RSqrt(CAbs2(Kx[k][p]))]))])
      A == SU_Idx([p \in 1..n |-> valid[p] /\ ~e.inf[p]])
      g == TLCEval([p \in 1..Len(A) |-> <<RSub(RMul(rg[A[p]], old[A[p]][1]), CSumSeq([k \in 1..N |-> CMul(u[k], Kx[k][A[p]])])[1]), "0">>])
      H == TLCEval([p \in 1..Len(A) |-> [q \in 1..Len(A) |-> <<RAdd(CSumSeq([k \in 1..N |-> CSub(CScale(v[k], CMul(Kx[k][A[p]], CConj(Kx[k][A[q]]))), CMul(u[k], CMul(Kx[k][A[p]], Kx[k][A[q]])))])[1], IF p = q THEN rg[A[p]] ELSE "0"), "0">>]])
      minor(k) == CDet([p \in 1..k |-> [q \in 1..k |-> H[p][q]]])[1]
      pd == \A k \in 1..Len(A) : RLt("0", minor(k))
      dx == TLCEval([p \in 1..Len(A) |-> CSub(x[A[p]], old[A[p]])])
      r == TLCEval([p \in 1..Len(A) |-> CAdd(CDot(H[p], dx), g[p])])
  IN Fail(Len(A) = 0 \/ (IF pd THEN Small(r, cfg.tol, SU_Norm2(g)) ELSE Small(dx, cfg.tol, "1")), "the new parameters are not one Newton step away")
     \cup RestOk(cfg, s, e, valid, e.inf, x, old)
FitFails(cfg, s, e) ==
  LET old == Weights(cfg, e, s.eps, s.bias)  x == Weights(cfg, e, e.after, e.bias) IN
  Fail(OffRefs(s.eps, e.refs, e.after), "parameters away from the reference sites changed")
  \cup Fail(cfg.bias \/ e.bias = C0, "a bias appeared")
  \cup (IF cfg.cls = "newton" THEN NewtonFails(cfg, s, e, x, old) ELSE LinFails(cfg, s, e, e.alpha, e.inf, e.noise, x, old))
(* evidence *)
Evid(cfg, s, e, alpha, inf, noise) ==
  LET P == Prob(cfg, s, e, noise)  A == Active(P, inf) IN
  SU_Evidence(Kind(cfg), SU_PickM(P.G, A), SU_Pick(P.b, A), SU_Pick(alpha, A), P.beta, P.S, e.t, P.y, [k \in 1..Len(P.y) |-> ~e.zero[k]])
Up == "4097/4096"
Down == "4095/4096"
\* derivative with respect to the logarithm of a positive parameter
LogDer(up, down) == RMul(RSub(up, down), "2048")
AlphaDer(cfg, s, e, p) == LogDer(Evid(cfg, s, e, [e.alpha EXCEPT ![p] = RMul(@, Up)], e.inf, e.noise), Evid(cfg, s, e, [e.alpha EXCEPT ![p] = RMul(@, Down)], e.inf, e.noise))
NoiseDer(cfg, s, e) == LogDer(Evid(cfg, s, e, e.alpha, e.inf, RMul(e.noise, Up)), Evid(cfg, s, e, e.alpha, e.inf, RMul(e.noise, Down)))
Scaled(al, f) == TLCEval([p \in 1..Len(al) |-> RMul(al[p], f)])
CommonDer(cfg, s, e) == LogDer(Evid(cfg, s, e, Scaled(e.alpha, Up), e.inf, e.noise), Evid(cfg, s, e, Scaled(e.alpha, Down), e.inf, e.noise))
EvidFails(cfg, s, e) ==
  (IF Has(e, "lml") THEN Fail(RClose(e.lml, Evid(cfg, s, e, e.alpha, e.inf, e.noise), "1/100000000"), "the reported log marginal likelihood is not the log evidence") ELSE {})
  \cup (IF Has(e, "da") THEN LET P == Prob(cfg, s, e, e.noise)  A == Active(P, e.inf) IN
          Fail(\A k \in 1..Len(e.at) : (\E j \in 1..Len(A) : A[j] = e.at[k]) => RClose(RMul(e.da[k], e.alpha[e.at[k]]), AlphaDer(cfg, s, e, e.at[k]), "1/100000"), "the reported derivative is not that of the evidence (regularisation)") ELSE {})
  \cup (IF Has(e, "dn") THEN Fail(RClose(RMul(e.dn, e.noise), NoiseDer(cfg, s, e), "1/100000"), "the reported derivative is not that of the evidence (noise)") ELSE {})
\* e.path: sequence of [alpha, inf] of successive single updates
GrowFails(cfg, s, e) ==
  LET ev == TLCEval([k \in 1..Len(e.path) |-> Evid(cfg, s, e, e.path[k].alpha, e.path[k].inf, e.noise)]) IN
  Fail(\A k \in 1..(Len(ev) - 1) : RLe(ev[k], RAdd(ev[k + 1], RMul("1/10000000", RAdd("1", RAbs(ev[k]))))), "an update of the regularisation lowered the evidence")
\* hyperparameters after an optimisation: e.from (noise before), e.wrt: which derivatives vanish
OptFails(cfg, s, e) ==
  (IF "alpha" \in {e.wrt[k] : k \in 1..Len(e.wrt)} THEN Fail(RLe(RAbs(CommonDer(cfg, s, e)), "1/100"), "the evidence is not stationary in the optimised regularisation") ELSE {})
  \cup (IF "noise" \in {e.wrt[k] : k \in 1..Len(e.wrt)} THEN Fail(RLe(RAbs(NoiseDer(cfg, s, e)), "1/100"), "the evidence is not stationary in the optimised noise") ELSE {})
  \cup (IF "each" \in {e.wrt[k] : k \in 1..Len(e.wrt)} THEN LET A == Active(Prob(cfg, s, e, e.noise), e.inf) IN
          Fail(\A p \in 1..Len(A) : RLe(RAbs(AlphaDer(cfg, s, e, A[p])), "1/100"), "the evidence is not stationary in the optimised regularisation") ELSE {})
  \cup (IF Has(e, "from") THEN Fail(RLe(Evid(cfg, s, e, e.alpha, e.inf, e.from), RAdd(Evid(cfg, s, e, e.alpha, e.inf, e.noise), "1/1000000")), "optimising the noise lowered the evidence") ELSE {})
CloseRows(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A k \in 1..Len(a[i]) : CClose(a[i][k], b[i][k], tol)
TSFailed(case, s, e) ==
  LET cfg == case.cfg IN
  CASE e.op = "assign" -> Fail(Same(e.got, e.eps), "assigned parameters were not taken over")
    [] e.op = "features" -> Fail(CloseRows(e.K, Feature(cfg, s, e), cfg.tol), "the feature matrix is not the one of the current parameters") \cup Fail(Same(e.got, s.eps), "computing features changed the parameters")
    [] e.op = "predict" -> Fail(Len(e.val) = Len(e.set) /\ \A k \in 1..Len(e.set) : LET l == LogOf(cfg, s, e.set[k]) IN
                                   IF cfg.cls = "log" THEN CClose(e.val[k], l, cfg.tol) ELSE CCloseRel(e.val[k], CExp(l), cfg.tol), "the prediction is not that of the current parameters")
                           \cup Fail(Same(e.got, s.eps), "a prediction changed the parameters")
    [] e.op = "fit" -> FitFails(cfg, s, e)
    [] e.op = "weights" -> LinFails(cfg, s, e, e.alpha, e.inf, e.noise, e.x, e.x)
    [] e.op = "evid" -> EvidFails(cfg, s, e)
    [] e.op = "grow" -> GrowFails(cfg, s, e)
    [] e.op = "opt" -> OptFails(cfg, s, e)
    [] e.op = "same" -> Fail(Same(e.a, e.b), "the processes hold different parameters")
TSAfter(case, s, e) ==
  CASE e.op = "assign" -> [s EXCEPT !.eps = e.eps]
    [] e.op = "fit" -> [eps |-> e.after, bias |-> e.bias]
    [] OTHER -> s
=============================================================================
