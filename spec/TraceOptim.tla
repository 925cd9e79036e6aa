------------------------------ MODULE TraceOptim -----------------------------
(***************************************************************************)
(* Binds Optim to the optimisation drivers, preconditioners and geometric  *)
(* tensors.  The wavefunction is a Gaussian process state with parameters  *)
(* eps[d][m][i]; samples, weights and parameters are recorded and          *)
(* everything else is recomputed from the formulas.                        *)
(***************************************************************************)
EXTENDS TraceBase, Optim, ProductState
Fail(ok, name) == IF ok THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r
NP(eps) == Len(eps) * Len(eps[1]) * Len(eps[1][1])
\* p-th parameter in row-major order
At(eps, p) == LET I == Len(eps[1][1])  M == Len(eps[1]) IN eps[((p - 1) \div (I * M)) + 1][(((p - 1) \div I) % M) + 1][((p - 1) % I) + 1]
Flat(eps) == TLCEval([p \in 1..NP(eps) |-> At(eps, p)])
DLog(eps, x, p) == LET I == Len(eps[1][1])  M == Len(eps[1])  d == ((p - 1) \div (I * M)) + 1  m == (((p - 1) \div I) % M) + 1  i == ((p - 1) % I) + 1
                   IN IF x[i] + 1 # d THEN C0 ELSE CProdSeq([j \in 1..Len(x) |-> IF j = i THEN C1 ELSE eps[x[j] + 1][m][j]])
Oof(e) == TLCEval([k \in 1..Len(e.xs) |-> [p \in 1..NP(e.eps) |-> DLog(e.eps, e.xs[k], p)]])
Wof(e) == IF Has(e, "w") THEN e.w ELSE [k \in 1..Len(e.xs) |-> RDiv("1", RInt(Len(e.xs)))]
RowOf(cfg, x) == cfg.H[CHOOSE k \in 1..Len(cfg.H) : cfg.H[k][1] = x][2]
Confs(cfg) == {cfg.H[k][1] : k \in 1..Len(cfg.H)}
Local(cfg, eps, x) == LET row == RowOf(cfg, x)  l == PS_One(eps, x)
                      IN CSumSeq([k \in 1..Len(row) |-> CMul(row[k][2], CExp(CTrunc(CSub(PS_One(eps, row[k][1]), l), 80)))])
Eof(cfg, e) == TLCEval([k \in 1..Len(e.xs) |-> Local(cfg, e.eps, e.xs[k])])
\* log-derivatives, vectors and local energies as the linear system of the given mode sees them
ModeO(mode, cplx, O) == CASE mode = "real" -> OP_RealO(O) [] mode = "complex" /\ cplx -> OP_Split(O) [] OTHER -> O
ModeV(mode, cplx, x) == IF mode # "holomorphic" /\ cplx THEN OP_SplitV(x) ELSE x
ModeE(mode, v) == IF mode = "real" THEN OP_RealV(v) ELSE v
Small(r, tol, ref) == RLe(OP_Norm2(r), RMul(RMul(tol, tol), RAdd(ref, "1/1000000000000000000000000")))
NDof(cfg) == IF cfg.cplx THEN 2 * cfg.np ELSE cfg.np
OT0(case) == [k |-> 0, ema |-> IF Has(case.cfg, "init") THEN [p \in 1..NDof(case.cfg) |-> case.cfg.init] ELSE <<>>]
ReV(v) == TLCEval([p \in 1..Len(v) |-> v[p][1]])
\* gradient of a driver step: twice the real part of the covariance of log-derivatives and local energies
StepB(cfg, e, w, Oc) == LET F == OP_F(w, Oc, OP_CentreE(w, ModeE(cfg.mode, Eof(cfg, e)))) IN TLCEval([p \in 1..Len(F) |-> <<RTrunc(RMul("2", F[p][1]), 160), "0">>])
Solved(w, Oc, diag, cs, cd, x, b, tol) ==
  LET dx == [p \in 1..Len(x) |-> CScale(RMul(cd, diag[p]), x[p])] IN Small(OP_Res(w, Oc, diag, cs, cd, x, b), tol, RAdd(OP_Norm2(b), OP_Norm2(dx)))
\* combined view of a step: everything that the verdict and the next state need
StepOf(cfg, s, e) == LET w == Wof(e)  Oc == OP_CentreO(w, ModeO(cfg.mode, cfg.cplx, Oof(e)))  b == StepB(cfg, e, w, Oc) IN
                     [w |-> w, Oc |-> Oc, b |-> b, ema |-> LET m == OP_Ema(s.ema, ReV(b), cfg.decay) IN TLCEval([p \in 1..Len(b) |-> RTrunc(m[p], 300)])]
PreB(cfg, e) == ModeV(cfg.mode, cfg.cplx, Flat(e.g))
PreEma(cfg, s, e) == OP_Ema(s.ema, ReV(PreB(cfg, e)), cfg.decay)
InSpace(cfg, e) == \A k \in 1..Len(e.xs) : e.xs[k] \in Confs(cfg)
Fin(v) == \A p \in 1..Len(v) : REq(v[p][1], v[p][1]) /\ REq(v[p][2], v[p][2])
StepFails(cfg, s, e) ==
  LET t == StepOf(cfg, s, e)  x == ModeV(cfg.mode, cfg.cplx, Flat(e.dp))  diag == OP_Diag(OP_Hat(t.ema, cfg.decay, s.k), cfg.reg)
      E == Eof(cfg, e)
  IN Fail(Solved(t.w, t.Oc, diag, "1", cfg.shifts[s.k + 1], x, t.b, cfg.tol), "the update does not solve the regularised linear system")
     \cup Fail(\A p \in 1..NP(e.eps) : CClose(At(e.after, p), CSub(At(e.eps, p), CScale(cfg.lr, At(e.dp, p))), "1/1000000000000"), "the parameters were not moved by the update")
     \cup Fail(CClose(e.mean, OP_Mean(t.w, E), "1/1000000000"), "the reported energy is not the mean of the local energies")
PreFails(cfg, s, e) ==
  LET w == Wof(e)  Oc == OP_CentreO(w, ModeO(cfg.mode, cfg.cplx, Oof(e)))  ema == PreEma(cfg, s, e)
      x == ModeV(cfg.mode, cfg.cplx, Flat(e.x))  diag == OP_Diag(OP_Hat(ema, cfg.decay, s.k), cfg.reg)  l == cfg.shifts[s.k + 1]
  IN Fail(Solved(w, Oc, diag, RSub("1", l), l, x, PreB(cfg, e), cfg.tol), "the preconditioned gradient does not solve the regularised linear system")
(* minimal-norm update *)
MinFails(cfg, e) ==
  LET w == Wof(e)  Oc == OP_CentreO(w, ModeO(IF cfg.mode = "real" THEN "real" ELSE "holomorphic", cfg.cplx, Oof(e)))
      E == Eof(cfg, e)  ec == OP_CentreE(w, ModeE(cfg.mode, E))  x == Flat(e.dp)
      F == OP_F(w, Oc, ec)  Sx == OP_Sv(w, Oc, x)
      r == [p \in 1..Len(F) |-> CSub(Sx[p], F[p])]
      rr == IF cfg.cplx THEN r ELSE OP_RealV(r)
      q == [p \in 1..Len(F) |-> CSub(CSumSeq([k \in 1..Len(w) |-> CMul(CConj(Oc[k][p]), e.z[k])]), x[p])]
  IN Fail(Small(rr, cfg.tol, OP_Norm2(F)), "the update does not solve the weighted least-squares problem")
     \cup Fail(Small(q, cfg.tol, OP_Norm2(x)), "the update is not the minimal-norm solution")
     \cup Fail(CClose(e.mean, OP_Mean(w, E), "1/100000000"), "the reported mean is not the weighted mean of the local energies")
     \cup Fail(RClose(e.var, OP_Var(w, E), "1/100000000"), "the reported variance is not the weighted variance of the local energies")
(* geometric tensors *)
Gs(e) == IF e.kind = "rms" THEN RSub("1", e.shift) ELSE "1"
DiagOf(e, n) == IF e.kind = "rms" THEN LET v == IF e.mode # "holomorphic" /\ e.cplx THEN ReV(OP_SplitV(Flat(e.ema))) ELSE ReV(Flat(e.ema)) IN OP_Diag(v, e.reg)
                ELSE [p \in 1..n |-> "1"]
Eye(n, q) == [p \in 1..n |-> IF p = q THEN C1 ELSE C0]
ApplyM(e, w, Oc, diag, x) == LET Sx == OP_Sv(w, Oc, x) IN
   TLCEval([p \in 1..Len(x) |-> CAdd(CScale(Gs(e), IF e.mode = "holomorphic" THEN Sx[p] ELSE CRe(Sx[p])), CScale(RMul(e.shift, diag[p]), x[p]))])
Diff(a, b) == TLCEval([p \in 1..Len(a) |-> CSub(a[p], b[p])])
QgtFails(cfg, e) ==
  LET w == Wof(e)  Oc == OP_CentreO(w, ModeO(e.mode, e.cplx, Oof(e)))  n == Len(Oc[1])  diag == DiagOf(e, n) IN
  (IF Has(e, "M") THEN Fail(Len(e.M) = n /\ \A q \in 1..n : LET c == ApplyM(e, w, Oc, diag, Eye(n, q)) IN \A p \in 1..n : CClose(e.M[p][q], c[p], cfg.tol),
       "the dense matrix is not the weighted covariance plus its diagonal term") ELSE {})
  \cup (IF Has(e, "v") THEN Fail(Small(Diff(ApplyM(e, w, Oc, diag, ModeV(e.mode, e.cplx, Flat(e.v))), ModeV(e.mode, e.cplx, Flat(e.y))), cfg.tol, OP_Norm2(Flat(e.y))),
       "the matrix-vector product is not that of the covariance plus its diagonal term") ELSE {})
  \cup (IF Has(e, "b") THEN LET x == ModeV(e.mode, e.cplx, Flat(e.x))  b == ModeV(e.mode, e.cplx, Flat(e.b)) IN
       Fail(Small(Diff(ApplyM(e, w, Oc, diag, x), b), e.stol, OP_Norm2(b)), "the linear solve does not invert the matrix") ELSE {})
OTFailed(case, s, e) ==
  LET cfg == case.cfg IN
  CASE e.op = "step" -> IF ~InSpace(cfg, e) THEN {"a sample is not in the space"} ELSE IF ~Fin(Flat(e.dp)) THEN {"the update is not finite"} ELSE StepFails(cfg, s, e)
    [] e.op = "pre" -> IF ~Fin(Flat(e.x)) THEN {"the preconditioned gradient is not finite"} ELSE PreFails(cfg, s, e)
    [] e.op = "minsr" -> IF ~InSpace(cfg, e) THEN {"a sample is not in the space"} ELSE IF ~Fin(Flat(e.dp)) THEN {"the update is not finite"} ELSE MinFails(cfg, e)
    [] e.op = "qgt" -> QgtFails(cfg, e)
    [] e.op = "same" -> Fail(\A p \in 1..Len(e.a) : CClose(e.a[p], e.b[p], cfg.tol), "two runs or processes that have to agree differ")
OTAfter(case, s, e) ==
  CASE e.op = "step" -> [k |-> s.k + 1, ema |-> StepOf(case.cfg, s, e).ema]
    [] e.op = "pre" -> [k |-> s.k + 1, ema |-> PreEma(case.cfg, s, e)]
    [] OTHER -> s
=============================================================================
