--------------------------- MODULE TraceDeterminant --------------------------
(***************************************************************************)
(* Binds Determinant (and the product factors of ProductState) to the      *)
(* code: every amplitude is recomputed exactly from the parameters.        *)
(* cfg: kind; P: maps of the sites, one per symmetry operation; further    *)
(* fields per kind.                                                        *)
(***************************************************************************)
EXTENDS TraceBase, Determinant, ProductState, Symmetry
Fail(ok, name) == IF ok THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r
DS0(case) == <<>>
Cop(G, x) == [t \in 1..Len(G) |-> SY_Copy(x, G[t])]
Factor(cfg, x) == CMul(IF Has(cfg, "K") THEN CExp(PS_Jastrow(cfg.K, Cop(cfg.KG, x))) ELSE C1,
                       IF Has(cfg, "eps") THEN CExp(PS_GPS(cfg.eps, Cop(cfg.EG, x))) ELSE C1)
(* Slater: cfg.U[m] (2L x N), or cfg.up[m], cfg.dn[m]; cfg.rot: << <<cos, sin, weight>> .. >> *)
NDet(cfg) == IF Has(cfg, "U") THEN Len(cfg.U) ELSE Len(cfg.up)
Mat(cfg, m) == IF Has(cfg, "U") THEN cfg.U[m] ELSE DT_Block(cfg.up[m], cfg.dn[m], Len(cfg.up[m][1]), Len(cfg.dn[m][1]))
One(cfg, m, r, t, x) ==
  IF Has(cfg, "up") /\ cfg.rot[r][2] = "0" /\ cfg.rot[r][1] = "1"
  THEN CMul(DT_Sel(cfg.up[m], [k \in 1..Len(DT_Up(x)) |-> cfg.P[t][DT_Up(x)[k]]]), DT_Sel(cfg.dn[m], [k \in 1..Len(DT_Dn(x)) |-> cfg.P[t][DT_Dn(x)[k]]]))
  ELSE DT_Sel(DT_Rotate(Mat(cfg, m), cfg.rot[r][1], cfg.rot[r][2]), DT_Pos(x, cfg.P[t]))
Sum3(cfg, x, f(_, _, _)) == CSumSeq([m \in 1..NDet(cfg) |-> CSumSeq([r \in 1..Len(cfg.rot) |-> CSumSeq([t \in 1..Len(cfg.P) |-> f(m, r, t)])])])
SlaterVal(cfg, x) ==
  LET D == [m \in 1..NDet(cfg) |-> [r \in 1..Len(cfg.rot) |-> [t \in 1..Len(cfg.P) |-> One(cfg, m, r, t, x)]]] IN
  CASE cfg.comb = "sum" -> Sum3(cfg, x, LAMBDA m, r, t : CScale(cfg.rot[r][3], D[m][r][t]))
    [] cfg.comb = "kernel" -> CSinh(Sum3(cfg, x, LAMBDA m, r, t : CScale(cfg.coef[m], D[m][r][t])))
    [] cfg.comb = "projective" -> CSumSeq([t \in 1..Len(cfg.P) |-> CSinh(CSumSeq([m \in 1..NDet(cfg) |-> CScale(cfg.coef[m], D[m][1][t])]))])
    [] cfg.comb = "prod" -> CSumSeq([t \in 1..Len(cfg.P) |-> CProdSeq([m \in 1..NDet(cfg) |-> CSinh(D[m][1][t])])])
(* Orbitals depending on the configuration: Phi(d, t, x), rows x columns *)
Plus(A, B) == [i \in 1..Len(A) |-> [k \in 1..Len(A[1]) |-> CAdd(A[i][k], B[i][k])]]
BackPhi(cfg, d, t, x) ==   \* W[site][local state] corrections per operation t
  LET W == cfg.W[d][t]
      S[i \in 0..Len(x)] == IF i = 0 THEN IF Has(cfg, "orb") THEN cfg.orb[d] ELSE [r \in 1..Len(W[1][1]) |-> DT_Zero(Len(W[1][1][1]))]
                            ELSE Plus(S[i - 1], W[i][x[i] + 1])
  IN S[Len(x)]
CpdPhi(cfg, x) == [a \in 1..Len(cfg.ceps) |-> DT_Cpd(cfg.ceps[a], IF Has(cfg, "env") THEN [k \in 1..Len(cfg.env[a]) |-> x[cfg.env[a][k]]] ELSE x)]
Cols(A, a, b) == [i \in 1..Len(A) |-> SubSeq(A[i], a, b)]
FromPhi(cfg, A, x, p) ==
  LET nu == Len(DT_Up(x))
      u == [k \in 1..Len(DT_Up(x)) |-> p[DT_Up(x)[k]]]
      d == [k \in 1..Len(DT_Dn(x)) |-> p[DT_Dn(x)[k]]]
  IN CASE cfg.style = "restricted" -> CMul(DT_Sel(A, u), DT_Sel(A, d))
       [] cfg.style = "unrestricted" -> CMul(DT_Sel(Cols(A, 1, nu), u), DT_Sel(Cols(A, nu + 1, Len(A[1])), d))
       [] cfg.style = "general" -> DT_Sel(A, DT_Pos(x, p))
BackVal(cfg, x) == CSumSeq([d \in 1..Len(cfg.W) |-> CSumSeq([t \in 1..Len(cfg.P) |-> FromPhi(cfg, BackPhi(cfg, d, t, x), x, cfg.P[t])])])
(* Pfaffian states on electron positions y in 1..2L; P maps positions *)
PfRot(f, c, s) == LET L == Len(f) IN [i \in 1..(2 * L) |-> [j \in 1..(2 * L) |->
   LET z == f[((i - 1) % L) + 1][((j - 1) % L) + 1] IN
   CASE i <= L /\ j <= L -> CScale(RNeg(RMul(c, s)), z)
     [] i <= L /\ j > L -> CScale(RMul(c, c), z)
     [] i > L /\ j <= L -> CScale(RNeg(RMul(s, s)), z)
     [] OTHER -> CScale(RMul(c, s), z)]]
PfVal(cfg, y) == CSumSeq([t \in 1..Len(cfg.P) |-> LET q == [k \in 1..Len(y) |-> cfg.P[t][y[k]]] IN
     IF cfg.kind = "pfaffian" THEN DT_Pfaffian(DT_Skew(cfg.F, q))
     ELSE CSumSeq([r \in 1..Len(cfg.rot) |-> CScale(cfg.rot[r][3], DT_Pfaffian(DT_Skew(PfRot(cfg.f, cfg.rot[r][1], cfg.rot[r][2]), q)))])])
Value(cfg, x) ==
  CASE cfg.kind = "slater" -> CMul(SlaterVal(cfg, x), Factor(cfg, x))
    [] cfg.kind = "backflow" -> CMul(BackVal(cfg, x), Factor(cfg, x))
    [] cfg.kind = "cpd" -> FromPhi(cfg, CpdPhi(cfg, x), x, cfg.P[1])
    [] OTHER -> PfVal(cfg, x)
DFailed(case, s, e) ==
  LET cfg == case.cfg IN
  CASE e.op = "amp" -> Fail(CClose(e.val, Value(cfg, e.x), cfg.tol), "the amplitude is not the stated combination of determinants")
    [] e.op = "pf" ->  Fail(CClose(e.val, DT_Pfaffian(e.a), cfg.tol), "the returned value is not the Pfaffian")
    [] e.op = "pfdot" -> Fail(CClose(e.val, CScale("1/2", DT_LogDetDot(e.a, e.b)), cfg.tol), "the derivative of the log-Pfaffian is wrong")
DAfter(case, s, e) == s
=============================================================================
