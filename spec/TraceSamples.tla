----------------------------- MODULE TraceSamples ----------------------------
(***************************************************************************)
(* Binds Samples to the code.  The wavefunction is a Gaussian process      *)
(* state with the parameters cfg.eps (log-amplitudes and log-derivatives   *)
(* are recomputed), the operator is given by its rows cfg.H, a sequence of *)
(* <<x, << <<y, h>> .. >> >>.                                              *)
(***************************************************************************)
EXTENDS TraceBase, Samples, ProductState
Fail(ok, name) == IF ok THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r
Confs(cfg) == {cfg.H[k][1] : k \in 1..Len(cfg.H)}
RowOf(cfg, x) == cfg.H[CHOOSE k \in 1..Len(cfg.H) : cfg.H[k][1] = x][2]
\* log-derivative with respect to eps[d][m][i]
DLog(eps, d, m, i, x) == IF x[i] + 1 # d THEN C0 ELSE CProdSeq([j \in 1..Len(x) |-> IF j = i THEN C1 ELSE eps[x[j] + 1][m][j]])
Psi(cfg, r) == IF Has(r, "eps") /\ Has(cfg, "H") THEN [x \in Confs(cfg) |-> CExp(PS_One(r.eps, x))] ELSE <<>>
Probs(r) == IF Has(r, "p") THEN [x \in {r.p[k][1] : k \in 1..Len(r.p)} |-> r.p[CHOOSE k \in 1..Len(r.p) : r.p[k][1] = x][2]] ELSE <<>>
UT0(case) == LET cfg == case.cfg IN
   [u |-> IF Has(cfg, "n") THEN US_Empty(cfg.n, cfg.max) ELSE <<>>, ks |-> <<>>, w |-> <<>>, nc |-> "0",
    eps |-> IF Has(cfg, "eps") THEN cfg.eps ELSE <<>>,
    psi |-> Psi(cfg, cfg), p |-> Probs(cfg)]
Pos(e) == {k \in 1..Len(e.xs) : e.w[k] # "0"}
Where(ks, x) == CHOOSE j \in 1..Len(ks) : ks[j] = x
Locals(cfg, s) == [k \in 1..Len(s.ks) |-> W_Local(RowOf(cfg, s.ks[k]), s.psi, s.ks[k])]
Force(cfg, s, d, m, i) == W_Force(s.w, Locals(cfg, s), [k \in 1..Len(s.ks) |-> DLog(s.eps, d, m, i, s.ks[k])])
Grad(cfg, s, d, m, i) == LET F == Force(cfg, s, d, m, i)
                         IN IF cfg.real THEN <<RMul("2", F[1]), "0">> ELSE CScale("2", F)
(* stratified *)
Rest(s, D) == DOMAIN s.p \ D
SeqSum(w, I) == LET f[k \in 0..Len(w)] == IF k = 0 THEN "0" ELSE IF k \in I THEN RAdd(f[k - 1], w[k]) ELSE f[k - 1] IN f[Len(w)]
StFails(cfg, s, e) ==
  LET D == {cfg.det[k] : k \in 1..Len(cfg.det)}
      I == {k \in 1..Len(e.xs) : e.xs[k] \in D}
      J == (1..Len(e.xs)) \ I
      n == Cardinality(J)
      q == LET g[k \in 0..Len(e.xs)] == IF k = 0 THEN <<>> ELSE IF k \in J THEN Append(g[k - 1], e.xs[k]) ELSE g[k - 1] IN g[Len(e.xs)]
      nd == ST_Norm(s.p, D)
      C == Rest(s, D)
      Nc == Cardinality(C)
      wd == SeqSum(e.w, I)                        \* nd / (nd + nc)
      nc == RSub(RDiv(nd, wd), nd)                \* estimate implied by the weights
      mu == RDiv(ST_Norm(s.p, C), RInt(Nc))
      var == RSub(RDiv(ST_Norm([x \in C |-> RMul(s.p[x], s.p[x])], C), RInt(Nc)), RMul(mu, mu))
      dev == RSub(RDiv(nc, RInt(Nc)), mu)
  IN Fail(Cardinality(I) = Cardinality(D) /\ {e.xs[k] : k \in I} = D, "the deterministic set does not appear exactly once")
     \cup Fail(n = cfg.ns, "the number of sampled configurations is wrong")
     \cup Fail({e.xs[k] : k \in J} \subseteq C, "a sampled configuration is not in the space")
     \cup Fail(RClose(SeqSum(e.w, 1..Len(e.w)), "1", cfg.tol), "the weights do not sum to one")
     \cup Fail(\A k \in I : RClose(RMul(e.w[k], nd), RMul(wd, s.p[e.xs[k]]), cfg.tol), "deterministic weights are not proportional to the squared amplitudes")
     \cup Fail(\A k, l \in J : RClose(RMul(e.w[k], "1000"), RMul(e.w[l], "1000"), cfg.tol), "sampled configurations have different weights")
     \cup (CASE cfg.mode = "harmonic" -> Fail(RClose(nc, ST_Harmonic(s.p, Nc, q), cfg.tol), "the norm of the complement is not the estimate from the samples")
             [] cfg.mode = "uniform" -> Fail(RLe(RMul(RMul(dev, dev), RInt(cfg.nr)), RAdd(RMul("49", var), "1/100000000000000000000")), "the norm of the complement is not estimated by a uniform average over it")
             [] cfg.mode = "normalised" -> Fail(RClose(wd, nd, cfg.tol), "deterministic weights are not the probabilities of the normalised model"))
SPlausible(k, n, p, z2) == LET e == RSub(RInt(k), RMul(RInt(n), p))
                           IN RLe(RMul(e, e), RAdd(RMul(z2, RMul(RInt(n), RMul(p, RSub("1", p)))), RMul(z2, "1")))
UTFailed(case, s, e) ==
  LET cfg == case.cfg IN
  CASE e.op \in {"batch", "params"} -> {}
    [] e.op = "result" ->
         LET u == s.u IN
         Fail(US_Done(u), "sampling stopped before the requested number of distinct samples or the step limit")
         \cup Fail(Len(e.xs) = cfg.n /\ Len(e.w) = cfg.n, "the number of entries is not the requested number")
         \cup Fail(Cardinality(Pos(e)) = Len(u.ks) /\ {e.xs[k] : k \in Pos(e)} = {u.ks[k] : k \in 1..Len(u.ks)}, "the entries with weight are not the distinct samples, each once")
         \cup Fail(\A k \in Pos(e) : e.xs[k] \in {u.ks[j] : j \in 1..Len(u.ks)} => RClose(e.w[k], US_Share(u, Where(u.ks, e.xs[k])), cfg.tol), "a weight is not the share of its configuration")
    [] e.op = "expect" ->
         IF ~ \A k \in 1..Len(s.ks) : s.ks[k] \in Confs(cfg) THEN {"a sample is not in the space"} ELSE
         LET v == Locals(cfg, s) IN
         Fail(CClose(e.mean, W_Mean(s.w, v), cfg.tol), "the expectation value is not the weighted mean of the local energies")
         \cup Fail(RClose(e.var, W_Var(s.w, v), cfg.tol), "the variance is not the weighted variance of the local energies")
         \cup (IF Has(e, "grad") THEN Fail(\A d \in 1..Len(e.grad) : \A m \in 1..Len(e.grad[1]) : \A i \in 1..Len(e.grad[1][1]) :
                 CClose(e.grad[d][m][i], Grad(cfg, s, d, m, i), cfg.tol), "the gradient is not the weighted covariance of log-derivatives and local energies") ELSE {})
         \cup (IF Has(e, "force") THEN Fail(\A d \in 1..Len(e.force) : \A m \in 1..Len(e.force[1]) : \A i \in 1..Len(e.force[1][1]) :
                 CClose(e.force[d][m][i], Force(cfg, s, d, m, i), cfg.tol), "the forces are not the weighted covariance of log-derivatives and local energies") ELSE {})
    [] e.op = "strata" -> IF \E k \in 1..Len(e.xs) : e.xs[k] \notin DOMAIN s.p THEN {"a configuration is not in the space"} ELSE StFails(cfg, s, e)
    [] e.op = "freq" ->      \* occurrences of the complement's configurations among independent chains
         LET D == {cfg.det[k] : k \in 1..Len(cfg.det)}  C == Rest(s, D)  t == ST_Norm(s.p, C) IN
         Fail(\A x \in C : LET c == {k \in 1..Len(e.counts) : e.counts[k][1] = x} IN
                SPlausible(IF c = {} THEN 0 ELSE e.counts[CHOOSE k \in c : TRUE][2], e.n, RDiv(s.p[x], t), "49"), "complement samples do not follow the squared amplitudes")
UTAfter(case, s, e) ==
  CASE e.op = "batch" -> [s EXCEPT !.u = US_Batch(@, e.xs)]
    \* new parameters (what was sampled before is void)
    [] e.op = "params" -> [UT0(case) EXCEPT !.eps = IF Has(e, "eps") THEN e.eps ELSE <<>>, !.psi = Psi(case.cfg, e), !.p = Probs(e)]
    [] e.op \in {"result", "strata"} -> [s EXCEPT !.ks = e.xs, !.w = e.w]
    [] OTHER -> s
=============================================================================
