---------------------------- MODULE TraceStateFit ----------------------------
(***************************************************************************)
(* Binds StateFit to the state fitting driver.  The batch of a step is not *)
(* visible from outside: it is the set of items that explains the reported *)
(* loss, and that same set has to explain the parameter change.            *)
(* cfg: an autoregressive model as in TraceProduct, xs, ys (data set), w   *)
(* (drawing weights), m (items per step, all processes together), lr, tol, *)
(* cplx.  The specification state is the current parameters and the drawn  *)
(* sets of the steps so far.                                               *)
(***************************************************************************)
EXTENDS TraceProduct, StateFit
FHas(r, f) == f \in DOMAIN r
With(cfg, p) == IF FHas(p, "phase") THEN [cfg EXCEPT !.eps = p.eps, !.phase = p.phase] ELSE [cfg EXCEPT !.eps = p.eps]
FAmp(cfg, p, x) == CTrunc(ArAmp(With(cfg, p), Copies(cfg, x)), 120)
FAmps(cfg, p) == TLCEval([i \in 1..Len(cfg.xs) |-> FAmp(cfg, p, cfg.xs[i])])
FDev(cfg, a) == TLCEval([i \in 1..Len(a) |-> CAbs2(CSub(a[i], cfg.ys[i]))])
\* batches that explain a loss
Explain(cfg, dev, loss) == TLCEval({B \in FT_Batches(Len(dev), cfg.m) : RClose(FT_Loss(dev, B), loss, cfg.tol)})
\* all entries of a parameter array
Idx(v) == {<<d, k, i>> : d \in 1..Len(v), k \in 1..Len(v[1]), i \in 1..Len(v[1][1])}
Bump(p, f, j, z) == [p EXCEPT ![f][j[1]][j[2]][j[3]] = CAdd(@, z)]
\* change of the amplitudes of the items of B per unit change of entry j of field f in direction z (symmetric difference quotient with step h)
DAmp(cfg, p, f, j, z, B, h) ==
  LET up == Bump(p, f, j, CScale(h, z))  dn == Bump(p, f, j, CScale(RNeg(h), z))
  IN TLCEval([i \in 1..Len(cfg.xs) |-> IF i \in B THEN CScale(RDiv("1", RMul("2", h)), CSub(FAmp(cfg, up, cfg.xs[i]), FAmp(cfg, dn, cfg.xs[i]))) ELSE C0])
\* extrapolated slope and an estimate of its error
FSlope(cfg, p, a, f, j, z, B) ==
  LET s1 == FT_Slope(a, cfg.ys, DAmp(cfg, p, f, j, z, B, "1/4096"), B)
      s2 == FT_Slope(a, cfg.ys, DAmp(cfg, p, f, j, z, B, "1/2048"), B)
  IN <<RDiv(RSub(RMul("4", s1), s2), "3"), RAbs(RSub(s1, s2))>>
Entry(v, j) == v[j[1]][j[2]][j[3]]
Along(cfg, d, g) == RLe(RAbs(RSub(d, RMul(cfg.lr, g[1]))), RAdd(g[2], RMul(cfg.gtol, RAdd("1", RAdd(RAbs(d), RAbs(g[1]))))))
Moved1(cfg, p, q, a, B) == \A f \in (DOMAIN p) \cap {"eps", "phase"} : \A j \in Idx(p[f]) :
   LET d == CSub(Entry(p[f], j), Entry(q[f], j)) IN
   /\ Along(cfg, d[1], FSlope(cfg, p, a, f, j, C1, B))
   /\ IF cfg.cplx THEN Along(cfg, d[2], FSlope(cfg, p, a, f, j, <<"0", "1">>, B)) ELSE RClose(d[2], "0", cfg.gtol)
Same1(p, q) == \A f \in (DOMAIN p) \cap {"eps", "phase"} : \A j \in Idx(p[f]) : CClose(Entry(p[f], j), Entry(q[f], j), "1/1000000000000")
Plaus(k, n, p) == LET e == RSub(RInt(k), RMul(RInt(n), p)) IN RLe(RMul(e, e), RAdd(RMul("49", RMul(RInt(n), RMul(p, RSub("1", p)))), "49"))
FS0(case) == [p |-> <<>>]
FFailed(case, s, e) ==
  LET cfg == case.cfg IN
  CASE e.op = "fit" ->      \* one step from parameters e.p to e.q with reported loss e.loss
         LET a == FAmps(cfg, e.p)  B == Explain(cfg, FDev(cfg, a), e.loss) IN
         Fail(s.p = <<>> \/ Same1(s.p, e.p), "the parameters changed between two steps")
         \cup (IF B = {} THEN {"no mini-batch without repetition has the reported loss"}
               ELSE Fail(\E b \in B : Moved1(cfg, e.p, e.q, a, b), "the parameters were not moved along the gradient of the loss of the mini-batch"))
         \cup (IF FHas(e, "others") THEN Fail(\A k \in 1..Len(e.others) : Same1(e.others[k].q, e.q) /\ RClose(e.others[k].loss, e.loss, cfg.tol), "processes disagree on the loss or the parameters") ELSE {})
    [] e.op = "draws" ->    \* losses of many steps at fixed parameters e.p: the values e.losses, in the order e.seq
         LET dev == FDev(cfg, FAmps(cfg, e.p))  n == Len(e.seq)
             all == FT_Batches(Len(dev), cfg.m)
             expl == TLCEval([k \in 1..Len(e.losses) |-> Explain(cfg, dev, e.losses[k])])
             num == TLCEval([k \in 1..Len(e.losses) |-> Cardinality({t \in 1..n : e.seq[t] = k})])
             times(B) == FoldSet(LAMBDA k, acc : acc + num[k], 0, {k \in DOMAIN expl : B \in expl[k]})
             pr == TLCEval([B \in all |-> FT_Prob(cfg.w, B, {})])
             lump(B) == Explain(cfg, dev, FT_Loss(dev, B))
             P(S) == RSumSeq([k \in 1..Cardinality(S) |-> pr[SetToSeq(S)[k]]])
             twice == Cardinality({t \in 1..(n - 1) : expl[e.seq[t]] = expl[e.seq[t + 1]]})
             ps == RSumSeq([k \in 1..Cardinality(all) |-> LET B == SetToSeq(all)[k] IN RMul(pr[B], P(lump(B)))])
         IN Fail(\A k \in DOMAIN expl : expl[k] # {}, "no mini-batch without repetition has the reported loss")
            \cup Fail(\A B \in all : Plaus(times(B), n, P(lump(B))), "mini-batches are not drawn in proportion to the squared target amplitudes")
            \cup Fail(\A B \in all : RSign(P(lump(B))) = 0 => times(B) = 0, "an item of zero target amplitude was drawn")
            \cup Fail(Plaus(twice, n - 1, ps), "successive mini-batches are not independent")
    [] e.op = "same" -> Fail(e.a = e.b, e.what)
FAfter(case, s, e) == IF e.op = "fit" THEN [s EXCEPT !.p = e.q] ELSE s
=============================================================================
