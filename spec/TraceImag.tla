------------------------------ MODULE TraceImag ------------------------------
(***************************************************************************)
(* Binds ImagTime to the code.  The wavefunction is a Gaussian process     *)
(* state; the specification state holds, for every state object of the     *)
(* history, its parameters, its time steps and its exact amplitudes.       *)
(* cfg: rows = << <<x, << <<x', element>> .. >> >> .. >> (whole sector),   *)
(* pars = << eps, .. >> (parameter sets), tol.                             *)
(***************************************************************************)
EXTENDS TraceBase, ImagTime, ProductState
Fail(ok, name) == IF ok THEN {} ELSE {name}
Sector(cfg) == {cfg.rows[k][1] : k \in 1..Len(cfg.rows)}
HOf(cfg) == TLCEval([x \in Sector(cfg) |-> cfg.rows[CHOOSE k \in 1..Len(cfg.rows) : cfg.rows[k][1] = x][2]])
Bare(cfg, p) == TLCEval([x \in Sector(cfg) |-> CExp(CTrunc(PS_One(cfg.pars[p], x), 80))])
Fresh(s, st) == st @@ [vec |-> IT_Steps(s.H, s.bare[st.par], st.taus)]
IS0(case) == LET cfg == case.cfg  b == TLCEval([p \in 1..Len(cfg.pars) |-> Bare(cfg, p)]) IN
             [H |-> HOf(cfg), bare |-> b, sts |-> << [vec |-> b[1]] @@ IT_New(1) >>]
Amps(s, v, e, tol) == Fail(\A k \in 1..Len(e.xs) : e.xs[k] \in DOMAIN v /\ CClose(e.vals[k], v[e.xs[k]], tol), "the amplitude is not that of the propagated state (" \o e.how \o ")")
IFailed(case, s, e) ==
  LET cfg == case.cfg IN
  CASE e.op = "derive" -> {}
    [] e.op = "set" -> {}
    [] e.op = "kept" -> Fail(e.before = e.after, "the samples a state holds changed although only " \o e.how)
    [] e.op = "amps" -> Amps(s, s.sts[e.of].vec, e, cfg.tol)          \* amplitudes reported by state e.of
    [] e.op = "step" -> Amps(s, IT_Step(s.H, s.sts[e.of].vec, e.tau), e, cfg.tol)   \* amplitudes of one further step, not stored as a state
    [] e.op = "eloc" -> LET v == s.sts[e.of].vec IN
         Fail(\A k \in 1..Len(e.xs) : e.xs[k] \in DOMAIN v /\ CClose(CMul(e.vals[k], v[e.xs[k]]), IT_Hv(s.H, v, e.xs[k]), cfg.tol), "the local energy is not that of the propagated state")
IAfter(case, s, e) ==
  CASE e.op = "derive" -> [s EXCEPT !.sts = Append(@, LET p == s.sts[e.of] IN [p EXCEPT !.taus = Append(@, e.tau), !.vec = IT_Step(s.H, p.vec, e.tau)])]
    [] e.op = "set" -> [s EXCEPT !.sts[e.of] = LET p == s.sts[e.of] IN [p EXCEPT !.par = e.par, !.vec = IT_Steps(s.H, s.bare[e.par], p.taus)]]
    [] OTHER -> s
=============================================================================
