----------------------------- MODULE TraceProduct ----------------------------
(***************************************************************************)
(* Binds Symmetry and ProductState to the code: every amplitude the code   *)
(* returned is recomputed from the parameters; amplitudes of symmetry      *)
(* related configurations and the copies the symmetry helpers produce are  *)
(* compared with the group derived from the graph.                         *)
(* cfg: model, eps (or K), G (sequence of operations), pl, mask, sp, tol.  *)
(***************************************************************************)
EXTENDS TraceBase, ProductState, Symmetry, FastUpdate, SequencesExt
Fail(ok, name) == IF ok THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r
\* local states allowed at site i of a configuration whose magnetisation is fixed to zero
ArAllowed(cfg, y) == [i \in 1..Len(y) |-> {s \in 0..(cfg.D - 1) : cfg.sector = "none" \/ (PS_Before(y, i, {s}) < (Len(y) \div 2))}]
ArTable(cfg, y) == [i \in 1..Len(y) |-> [s \in 1..cfg.D |->
   CASE cfg.model = "ar" -> PS_ArWeight(cfg.eps, i, s - 1, y)
     [] cfg.model = "arfull" -> PS_ArFull(cfg.eps, i, s - 1, y)
     [] cfg.model = "arsite" -> PS_ArSite(cfg.eps[i], i, s - 1, y)
     [] cfg.model = "arplaq" -> PS_ArPlaq(cfg.eps, cfg.pl, cfg.mask, i, s - 1, y)]]
ArAmp(cfg, copies) ==
  LET T == [t \in 1..Len(copies) |-> ArTable(cfg, copies[t])]
      ps == [t \in 1..Len(copies) |-> PS_P(T[t], ArAllowed(cfg, copies[t]), copies[t])]
      as == [t \in 1..Len(copies) |-> PS_Arg(T[t], copies[t])]
      a == PS_Sym(ps, as)
  IN IF Has(cfg, "phase") THEN CMul(a, CExp(<<"0", PS_One(cfg.phase, copies[1])[1]>>)) ELSE a
Copies(cfg, x) == [t \in 1..Len(cfg.G) |-> SY_Copy(x, cfg.G[t])]
Value(cfg, x) ==
  CASE cfg.model = "gps" -> PS_GPS(cfg.eps, Copies(cfg, x))
    [] cfg.model = "plaq" -> PS_Plaq(cfg.eps, cfg.pl, Copies(cfg, x))
    [] cfg.model = "seg" -> PS_Seg(cfg.eps, x, IF cfg.D = 4 THEN {1, 3} ELSE {1}, IF cfg.D = 4 THEN {2, 3} ELSE {0})
    [] cfg.model = "jastrow" -> PS_Jastrow(cfg.K, Copies(cfg, x))
    [] OTHER -> ArAmp(cfg, Copies(cfg, x))
EdgeSet(cfg) == {{cfg.edges[k][1], cfg.edges[k][2]} : k \in 1..Len(cfg.edges)}
PG(cfg) == SY_Group(cfg.L, EdgeSet(cfg), cfg.auto, cfg.flip)
\* the specification state: the group of the case and the amplitudes revealed so far
PS0(case) == [G |-> IF Has(case.cfg, "edges") THEN PG(case.cfg) ELSE IF Has(case.cfg, "G") THEN Range(case.cfg.G) ELSE {}, seen |-> <<>>]
Bag(q) == [y \in {q[k] : k \in 1..Len(q)} |-> Cardinality({k \in 1..Len(q) : q[k] = y})]
PBag(x, G) == [y \in SY_Orbit(x, G) |-> SY_Mult(x, G, y)]
\* electron positions of one spin species
Elec(x, T) == LET F[i \in 0..Len(x)] == IF i = 0 THEN <<>> ELSE IF x[i] \in T THEN Append(F[i - 1], i) ELSE F[i - 1] IN F[Len(x)]
Moved(g, q) == [k \in 1..Len(q) |-> SY_Pos(g, q[k])]
\* sign picked up by the fermions of x when the sites are relabelled by g
FSign(g, x) == SY_Sign(Moved(g, Elec(x, {1, 3}))) * SY_Sign(Moved(g, Elec(x, {2, 3})))
PFailed(case, s, e) ==
  LET cfg == case.cfg IN
  CASE e.op = "amp" ->     \* e.val: log-amplitude of product states, amplitude of autoregressive ones
         Fail(CClose(e.val, Value(cfg, e.x), cfg.tol), "the amplitude is not given by the defining formula")
    [] e.op = "copies" ->  \* e.c: copies of e.x in the order of the code
         Fail(Bag(e.c) = PBag(e.x, s.G), "the symmetry copies are not the orbit of the configuration under the group")
         \cup Fail(Bag(e.c1) = Bag(e.c), "the copies depend on the batch")
    [] e.op = "inverse" -> \* update of sites e.q to e.o (from configuration e.x, copies e.c), mapped to e.s[t], e.p[t] for every copy t
         Fail(Len(e.s) = Len(e.c) /\ Len(e.p) = Len(e.c), "the inverse symmetry has another number of operations")
         \cup Fail(\A t \in 1..Len(e.c) : FU_Apply(e.c[t], e.s[t], e.p[t]) = e.d[t], "the inverse symmetry does not map an update to the copies")
    [] e.op = "value" ->   \* amplitude of a configuration (relative to the largest one of the case)
         LET rel == {k \in 1..Len(s.seen) : \E g \in s.G : SY_Copy(s.seen[k][1], g) = e.x} IN
         Fail(\A k \in rel : \E g \in s.G : /\ SY_Copy(s.seen[k][1], g) = e.x
                                            /\ CClose(e.val, IF cfg.fermions /\ FSign(g, s.seen[k][1]) < 0 THEN CScale("-1", s.seen[k][2]) ELSE s.seen[k][2], cfg.tol),
              "symmetry related configurations have different amplitudes")
         \cup Fail(CClose(e.val, e.val, cfg.tol), "the amplitude is not a number")
PAfter(case, s, e) == IF e.op = "value" THEN [s EXCEPT !.seen = Append(@, <<e.x, e.val>>)] ELSE s
=============================================================================
