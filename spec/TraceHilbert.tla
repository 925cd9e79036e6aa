---------------------------- MODULE TraceHilbert -----------------------------
(* Binds Hilbert to the code.  case.cfg: L, nu, nd (-1: unconstrained).      *)
EXTENDS TraceBase, Hilbert
Fail(ok, name) == IF ok THEN {} ELSE {name}
Sp(cfg) == Space(cfg.L, cfg.nu, cfg.nd)
HS0(case) == Sp(case.cfg)
Elems(q) == {q[i] : i \in 1..Len(q)}
HFailed(case, s, e) ==
  CASE e.op = "enumerate" ->
         Fail(e.n = Cardinality(s), "the number of states is wrong")
         \cup Fail(Len(e.states) = Cardinality(s) /\ Elems(e.states) = s, "the enumerated states are not the configurations of the space")
    [] e.op = "index" ->    \* e.pairs = << <<x, number, back>> .. >>
         Fail(\A k \in 1..Len(e.pairs) : e.pairs[k][1] = e.pairs[k][3], "a state is not recovered from its number")
         \cup Fail({e.pairs[k][2] : k \in 1..Len(e.pairs)} = 0..(Cardinality(s) - 1) /\ Len(e.pairs) = Cardinality(s), "state numbers are not a numbering of the space")
    [] e.op = "member" -> Fail(\A k \in 1..Len(e.xs) : e.in[k] = (e.xs[k] \in s), "membership is wrong")
    [] e.op = "power" ->
         LET t == Pow(case.cfg, e.k) IN
         Fail(e.N = t.L, "a power has the wrong number of sites")
         \cup Fail(e.n = Size(t.L, t.nu, t.nd), "a power has the wrong number of states")
         \cup Fail(\A k \in 1..Len(e.xs) : e.xs[k] \in Space(t.L, t.nu, t.nd), "a power contains a wrong configuration")
    [] e.op = "random" ->
         Fail(e.shape = e.want, "random states have the wrong shape")
         \cup Fail(\A k \in 1..Len(e.xs) : e.xs[k] \in s, "a random state lies outside the space")
    [] e.op = "frequencies" ->  \* e.counts = << <<x, c>> .. >> over the whole space, e.n draws
         Fail(\A k \in 1..Len(e.counts) : e.counts[k][1] \in s, "a random state lies outside the space")
         \cup Fail(\A x \in s : LET c == {k \in 1..Len(e.counts) : e.counts[k][1] = x}
                                IN Plausible(IF c = {} THEN 0 ELSE e.counts[CHOOSE k \in c : TRUE][2], e.n, RDiv("1", RInt(Cardinality(s))), "49"),
                   "random states are not uniformly distributed")
    [] e.op = "pair frequencies" ->  \* counts of (x, y) for consecutive draws, e.n pairs
         Fail(\A p \in s \X s : LET c == {k \in 1..Len(e.counts) : e.counts[k][1] = p[1] /\ e.counts[k][2] = p[2]}
                                IN Plausible(IF c = {} THEN 0 ELSE e.counts[CHOOSE k \in c : TRUE][3], e.n, RDiv("1", RInt(Cardinality(s) * Cardinality(s))), "49"),
              "consecutive random states are not independent")
    [] e.op = "stream" -> Fail(e.same = e.wantsame, "random states do not depend on the seed as they should")
HAfter(case, s, e) == s
=============================================================================
