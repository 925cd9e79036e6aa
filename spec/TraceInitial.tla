----------------------------- MODULE TraceInitial ----------------------------
(***************************************************************************)
(* Binds Initial to the code.  The specification state is the set of       *)
(* arrays initialised so far (tag: which initialiser, shape, type; root:   *)
(* which key; dev: standardised deviates).                                 *)
(* events: real   [vals, shape, want, dtype, wantd, sigma, tag, root]      *)
(*         circle [vals (complex), phase, ..]                              *)
(*         orth   [mats, scale, ..]   entry moments via dev as well        *)
(***************************************************************************)
EXTENDS TraceBase, Initial
Fail(ok, name) == IF ok THEN {} ELSE {name}
N0(case) == <<>>
Dev(e) == IF e.op = "real" THEN [i \in 1..Len(e.vals) |-> RDiv(RSub(e.vals[i], "1"), e.sigma)]
          ELSE [i \in 1..Len(e.phase) |-> RDiv(e.phase[i], e.sigma)]
Law(d, shape) ==
     Fail(IN_Centred(d), "initial parameters are not centred as documented")
  \cup Fail(IN_Width(d), "initial parameters do not have the requested width")
  \cup Fail(IN_Skew(d) /\ IN_Tail(d), "initial parameters are not normally distributed")
  \cup Fail(IN_Indep(d, shape), "neighbouring initial parameters are correlated")
  \cup Fail(Cardinality({d[i] : i \in 1..Len(d)}) + 3 >= Len(d), "initial parameters repeat")
Common(e) == Fail(e.shape = e.want, "initial parameters have the wrong shape") \cup Fail(e.dtype = e.wantd, "initial parameters have the wrong number type")
Histories(s, e, v) == UNION { IF p.tag # e.tag THEN {} ELSE IF p.root = e.root
      THEN Fail(p.vals = v, "the same key gave different parameters")
      ELSE Fail(p.vals # v, "different keys gave the same parameters") : p \in {s[k] : k \in 1..Len(s)} }
Flat(m) == LET r[i \in 0..Len(m)] == IF i = 0 THEN <<>> ELSE r[i-1] \o m[i] IN r[Len(m)]
NFailed(case, s, e) ==
  CASE e.op = "real" -> Common(e) \cup Histories(s, e, e.vals) \cup (IF e.law THEN Law(TLCEval(Dev(e)), e.shape) ELSE {})
    [] e.op = "circle" -> Common(e) \cup Histories(s, e, e.vals)
         \cup Fail(\A i \in 1..Len(e.vals) : RClose(CAbs2(e.vals[i]), "1", case.cfg.tol), "complex initial parameters are not of unit modulus")
         \cup Fail(\A i \in 1..Len(e.vals) : CClose(CExp(<<"0", e.phase[i]>>), e.vals[i], case.cfg.tol), "complex initial parameters are not their phases")
         \cup (IF e.law THEN Law(TLCEval(Dev(e)), e.shape) ELSE {})
    [] e.op = "orth" -> Common(e) \cup Histories(s, e, e.mats)
         \cup Fail(\A k \in 1..Len(e.mats) : IN_Orthonormal(e.mats[k], e.scale, case.cfg.tol), "orbital matrices are not orthonormal up to the requested scale")
         \cup Fail(\A k, l \in 1..Len(e.mats) : k # l => e.mats[k] # e.mats[l], "two matrices of a stack are the same")
         \cup Fail(e.complex => \E i \in 1..Len(e.mats[1]) : e.mats[1][i][1][2] # "0", "complex orbitals have no imaginary part")
    [] e.op = "together" ->   \* parameters of different arrays of one model, or of one array over many keys (entries of orthonormal columns average to zero)
         Fail(\A a, b \in 1..Len(e.sets) : a < b => e.sets[a] # e.sets[b] /\ IN_Uncorr(e.sets[a], e.sets[b]), "different parameters of a model are correlated")
    [] e.op = "distinct" -> Fail(\A a, b \in 1..Len(e.sets) : a < b => \A k \in 1..Len(e.sets[a]) : \A l \in 1..Len(e.sets[b]) : e.sets[a][k] # e.sets[b][l], "different arrays of a model hold the same orbitals")
    [] e.op = "signs" -> Fail(\A k \in 1..Len(e.sums) : IN_Seven(e.sums[k], RInt(e.n)), "entries of orbital matrices are not symmetric around zero")
NAfter(case, s, e) ==
  CASE e.op \in {"real", "circle"} -> Append(s, [tag |-> e.tag, root |-> e.root, vals |-> e.vals])
    [] e.op = "orth" -> Append(s, [tag |-> e.tag, root |-> e.root, vals |-> e.mats])
    [] OTHER -> s
=============================================================================
