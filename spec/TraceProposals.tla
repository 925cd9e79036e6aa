--------------------------- MODULE TraceProposals ----------------------------
(***************************************************************************)
(* Binds Proposals to the code.                                            *)
(* case.cfg: the rule (see Proposals), sector, and for chains the table    *)
(*   w = << <<x, log|psi(x)| or "zero">> .. >>, pow (machine power), tol.  *)
(* A chain is observed through its proposals (sites, occupations, log      *)
(* amplitude seen by the sampler) and its recorded configurations; whether *)
(* a proposal was accepted is hidden.  The specification state is the set  *)
(* of [x, acc] (configuration, accepted moves) the chain may be in.        *)
(***************************************************************************)
EXTENDS TraceBase, Proposals
Fail(ok, name) == IF ok THEN {} ELSE {name}
Tab(cfg) == [y \in {cfg.w[k][1] : k \in 1..Len(cfg.w)} |-> cfg.w[CHOOSE k \in 1..Len(cfg.w) : cfg.w[k][1] = y][2]]
PS0(case) == [t |-> IF "w" \in DOMAIN case.cfg THEN Tab(case.cfg) ELSE <<>>, S |-> {}, lost |-> FALSE]
InSector(cfg, y) == IF cfg.rule = "exchange" THEN Len(y) = cfg.L /\ (\A i \in 1..cfg.L : y[i] \in {-1, 1}) /\ Cardinality({i \in 1..cfg.L : y[i] = 1}) = cfg.nu
                    ELSE IsConf(cfg.L, y) /\ NUp(y) = cfg.nu /\ NDown(y) = cfg.nd
Zero(t, y) == t[y] = "zero"
\* acceptance probability
A(cfg, t, x, y) == IF Zero(t, y) THEN "0" ELSE IF Zero(t, x) THEN "1" ELSE RMin("1", RExp(RMul(cfg.pow, RSub(t[y], t[x]))))
\* one-step kernel of the Metropolis chain
P1(cfg, t, x, y) ==
  IF x # y THEN RMul(Q(cfg, x, y), A(cfg, t, x, y))
  ELSE RSub("1", LET o == SetToSeq({m.to : m \in Props(cfg, x)} \ {x}) IN RSumSeq([k \in 1..Len(o) |-> RMul(Q(cfg, x, o[k]), A(cfg, t, x, o[k]))]))
Cells(e, y) == LET c == {k \in 1..Len(e.counts) : e.counts[k][1] = y} IN IF c = {} THEN 0 ELSE e.counts[CHOOSE k \in c : TRUE][2]
\* k-step distribution from x, truncated to 60 binary digits
Dist(cfg, t, x, k) ==
  LET D == DOMAIN t
      M == [a \in D |-> [b \in D |-> IF b = a \/ \E m \in Props(cfg, a) : m.to = b THEN RTrunc(P1(cfg, t, a, b), 60) ELSE "0"]]
      step[j \in 0..k] == IF j = 0 THEN [b \in D |-> IF b = x THEN "1" ELSE "0"]
                          ELSE LET o == SetToSeq(D) IN [b \in D |-> RTrunc(RSumSeq([i \in 1..Len(o) |-> RMul(step[j-1][o[i]], M[o[i]][b])]), 60)]
  IN step[k]
\* the updated configuration; the first entry of a repeated site counts
Upd(x, sites, occ) == [i \in 1..Len(x) |-> LET h == {k \in 1..Len(sites) : sites[k] = i}
                         IN IF h = {} THEN x[i] ELSE occ[CHOOSE k \in h : \A j \in h : k <= j]]
After1(cfg, s, e, h) == \* possible successors of h = [x, acc] for proposal event e
  LET y == Upd(h.x, e.sites, e.occ)
  IN IF ~(y \in DOMAIN s.t) \/ ~Possible(cfg, h.x, y) THEN {}
     ELSE IF ~Zero(s.t, y) /\ ~RClose(e.logre, s.t[y], cfg.tol) THEN {}
     ELSE (IF ~Zero(s.t, y) THEN {[x |-> y, acc |-> h.acc + 1]} ELSE {})
          \cup (IF Zero(s.t, y) \/ RLt(s.t[y], RAdd(s.t[h.x], cfg.tol)) THEN {h} ELSE {})
Succ(cfg, s, e) == UNION {After1(cfg, s, e, h) : h \in s.S}

PFailed(case, s, e) ==
  LET cfg == case.cfg IN
  CASE e.op = "proposal" ->
         Fail(InSector(cfg, e.y), "a proposal leaves the sector")
         \cup Fail(Cardinality(Changed(e.x, e.y)) <= 2, "a proposal changes more than two sites")
         \cup Fail("sites" \in DOMAIN e => \A i \in Changed(e.x, e.y) : \E k \in 1..Len(e.sites) : e.sites[k] = i, "a changed site is not reported")
         \cup Fail(InSector(cfg, e.y) => Possible(cfg, e.x, e.y), "a proposal is not a move of the rule")
    [] e.op = "kernel" ->
         LET O == {e.counts[k][1] : k \in 1..Len(e.counts)}
             T == {m.to : m \in Props(cfg, e.x)} \cup {e.x}
         IN Fail(\A y \in O : InSector(cfg, y), "a proposal leaves the sector")
            \cup Fail(\A y \in O : InSector(cfg, y) => Possible(cfg, e.x, y), "a proposal is not a move of the rule")
            \cup Fail(\A y \in T : Plausible(Cells(e, y), e.n, Q(cfg, e.x, y), "49"), "proposal frequencies differ from the rule's probabilities")
    [] e.op = "transition" -> \* frequencies after e.k steps from e.x
         LET D == Dist(cfg, s.t, e.x, e.k)
             O == {e.counts[k][1] : k \in 1..Len(e.counts)}
         IN Fail(O \subseteq DOMAIN s.t, "the chain leaves the sector")
            \cup Fail(\A y \in O \cap DOMAIN s.t : ~Zero(s.t, y) \/ Zero(s.t, e.x), "a configuration of probability zero was accepted")
            \cup Fail(\A y \in DOMAIN s.t : Plausible(Cells(e, y), e.n, D[y], "49"), "transition frequencies are not those of the Metropolis chain")
    [] e.op = "start" -> Fail(e.x \in DOMAIN s.t, "the chain starts outside the sector")
    [] e.op = "propose" ->
         Fail(s.lost \/ Succ(cfg, s, e) # {}, "no Metropolis history explains the proposal and the amplitude the sampler saw")
    [] e.op = "recorded" ->
         Fail(s.lost \/ \E h \in s.S : h.x = e.x, "the recorded configuration is not reachable by the accepted moves")
         \cup (IF "acc" \in DOMAIN e THEN Fail(s.lost \/ \E h \in s.S : h.x = e.x /\ h.acc = e.acc, "the acceptance counter is not the number of accepted moves") ELSE {})
    [] e.op = "step" ->   \* one unobserved step
         Fail(Possible(cfg, e.x, e.y), "a step is not a move of the rule")
         \cup Fail(e.y \in DOMAIN s.t /\ (e.x = e.y \/ ~Zero(s.t, e.y)), "a configuration of probability zero was accepted")
    [] e.op = "counter" -> \* e.changed <= accepted <= e.n; equal when the rule never proposes the configuration itself
         Fail(e.changed <= e.acc /\ e.acc <= e.n /\ (e.exact => e.acc = e.changed), "the acceptance counter is not the number of accepted moves")
         \cup Fail(e.steps = e.n, "the step counter is not the number of steps")
PAfter(case, s, e) ==
  CASE e.op = "start" -> [s EXCEPT !.S = {[x |-> e.x, acc |-> e.acc]}, !.lost = FALSE]
    [] e.op = "propose" -> [s EXCEPT !.S = Succ(case.cfg, s, e)]
    [] e.op = "recorded" -> [s EXCEPT !.S = {h \in s.S : h.x = e.x /\ ("acc" \in DOMAIN e => h.acc = e.acc)}]
    [] OTHER -> s
=============================================================================
