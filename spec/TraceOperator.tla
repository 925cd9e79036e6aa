---------------------------- MODULE TraceOperator ----------------------------
(***************************************************************************)
(* Binds Operators to the code: rows reported by an operator object, local *)
(* energies reported by a variational state, and operator metadata.        *)
(* case.cfg: the operator (kind, couplings), tol, and for local energies   *)
(* the wavefunction as a table psi = << <<x, amplitude>> .. >>.            *)
(***************************************************************************)
EXTENDS TraceBase, Operators

Fail(ok, name) == IF ok THEN {} ELSE {name}
\* The state: the wavefunction's current table, the operator in use, and the local energies seen.
\* Events "psi" (new parameters) and "with" (another operator of the same kind) change it.
PsiOf(t) == [y \in {t[k][1] : k \in 1..Len(t)} |-> t[CHOOSE k \in 1..Len(t) : t[k][1] = y][2]]
OS0(case) == [psi |-> IF "psi" \in DOMAIN case.cfg THEN PsiOf(case.cfg.psi) ELSE <<>>, es |-> <<>>, with |-> <<>>]
\* e.with overrides couplings of the case
Current(cfg, s) == IF s.with = <<>> THEN cfg ELSE [f \in DOMAIN cfg |-> IF f \in DOMAIN s.with THEN s.with[f] ELSE cfg[f]]

\* e.x, e.conn = << <<x', mel>> .. >>
RowFailed(cfg, e) ==
  LET T == Terms(cfg, e.x)
      rep == {[i |-> k, to |-> e.conn[k][1], v |-> e.conn[k][2][1]] : k \in 1..Len(e.conn)}
      live == {t \in rep : RSign(t.v) # 0}
      all == Targets(T) \cup Targets(rep)
  IN Fail(\A t \in live : Valid(cfg, e.x, t.to), "a connected configuration is invalid or breaks a conservation law (" \o e.op \o ")")
     \cup Fail(\A k \in 1..Len(e.conn) : RClose(e.conn[k][2][2], "0", cfg.tol), "an element has a spurious imaginary part (" \o e.op \o ")")
     \cup Fail(\A y \in all : RClose(SumFor(rep, y), SumFor(T, y), cfg.tol), "the row is not the operator's row (" \o e.op \o ")")
     \cup (IF cfg.kind = "asep" /\ RSign(cfg.lambda) = 0
           THEN Fail(RClose(RowSum(rep), "0", cfg.tol), "probability is not conserved at zero counting field (" \o e.op \o ")") ELSE {})

\* e.x, e.eloc
LocFailed(cfg, s, e) ==
  LET T == Terms(cfg, e.x)
  IN IF ~Covers(T, s.psi, e.x) THEN {"harness: amplitude table incomplete"}
     ELSE Fail(CClose(e.eloc, LocalEnergy(T, s.psi, e.x), cfg.tol), "the local energy is not that of the operator (" \o e.op \o ")")

\* e.tR, e.eR: local density matrices, flattened row-major; e.h, e.eri: integrals to contract with.
\* They are conjugate to t_pq = h_pq - 1/2 sum_r (pr|rq) and to (pq|rs).
RdmFailed(cfg, s, e) ==
  LET L == Len(e.x)
      cfg2 == [cfg EXCEPT !.h = e.h, !.eri = e.eri]
      T == Terms(cfg2, e.x)
      Dig(k, d) == (((k - 1) \div (L ^ d)) % L) + 1
      t(p, q) == RSub(e.h[p][q], RDiv(RSumSeq([r \in 1..L |-> e.eri[p][r][r][q]]), "2"))
      one == CSumSeq([k \in 1..(L * L) |-> CScale(t(Dig(k, 1), Dig(k, 0)), e.tR[k])])
      two == CSumSeq([k \in 1..(L ^ 4) |-> CScale(e.eri[Dig(k, 3)][Dig(k, 2)][Dig(k, 1)][Dig(k, 0)], e.eR[k])])
  IN Fail(CClose(CAdd(one, two), LocalEnergy(T, s.psi, e.x), cfg.tol),
          "the local density matrices do not contract to the local energy (" \o e.op \o ")")

\* e.mean, e.var over the last e.n local energies
LastOf(s, n) == SubSeq(s.es, (Len(s.es) - n) + 1, Len(s.es))
ExpFailed(cfg, s, e) ==
  LET E == LastOf(s, e.n)
      n == RInt(e.n)
      m == CScale(RDiv("1", n), CSumSeq(E))
      v == RDiv(RSumSeq([k \in 1..e.n |-> CAbs2(CSub(E[k], m))]), n)
  IN Fail(CClose(e.mean, m, cfg.tol), "the expectation value is not the mean local energy")
     \cup Fail(RClose(e.var, v, cfg.tol), "the variance is not that of the local energies")

\* e.claim, e.rows = << [x, conn] .. >> : the operator's Hermiticity claim against its own full matrix
HermFailed(cfg, e) ==
  LET El(x, y) == SumFor(Terms(cfg, x), y)
      C == e.space
  IN Fail(e.claim => \A a \in 1..Len(C) : \A b \in 1..Len(C) : RClose(El(C[a], C[b]), El(C[b], C[a]), cfg.tol),
          "the operator claims to be Hermitian but is not")
     \cup Fail((~e.claim) => \E a \in 1..Len(C) : \E b \in 1..Len(C) : ~RClose(El(C[a], C[b]), El(C[b], C[a]), cfg.tol) \/ ~e.strict,
          "the operator claims not to be Hermitian but is")

\* e.x, e.from, e.to (sites), e.spin, e.sign, e.y: the hopping primitive the operators are built from
HopFailed(e) ==
  LET o == IF e.spin = 1 THEN 0 ELSE Len(e.x)
      k == Cre(Ann(Ket(e.x), e.from + o), e.to + o)
  IN Fail(e.sign = k.s, "a single hop has the wrong sign (" \o e.op \o ")")
     \cup Fail(e.y = IF k.s = 0 THEN e.x ELSE Conf(Len(e.x), k.c), "a single hop gives the wrong configuration (" \o e.op \o ")")

OFailed(case, s, e) == LET cfg == Current(case.cfg, s) IN
  CASE "psi" \in DOMAIN e \/ "with" \in DOMAIN e -> {}
    [] "sign" \in DOMAIN e -> HopFailed(e)
    [] "rejected" \in DOMAIN e -> Fail(e.rejected = ~Accepts(cfg), "a sign rule is accepted if and only if its bonds form a bipartite graph")
    [] "eloc" \in DOMAIN e -> LocFailed(cfg, s, e)
    [] "tR" \in DOMAIN e -> RdmFailed(cfg, s, e)
    [] "mean" \in DOMAIN e -> ExpFailed(cfg, s, e)
    [] "claim" \in DOMAIN e -> HermFailed(cfg, e)
    [] OTHER -> RowFailed(cfg, e)
OAfter(case, s, e) == CASE "eloc" \in DOMAIN e -> [s EXCEPT !.es = Append(@, e.eloc)]
                       [] "psi" \in DOMAIN e -> [s EXCEPT !.psi = PsiOf(e.psi)]
                       [] "with" \in DOMAIN e -> [s EXCEPT !.with = e.with]
                       [] OTHER -> s
=============================================================================
