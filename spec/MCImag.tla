-------------------------------- MODULE MCImag -------------------------------
(***************************************************************************)
(* Design check: histories in which states are derived from each other by  *)
(* time steps and have their parameters replaced, for several small        *)
(* operators (Hermitian, non-Hermitian, complex).  The amplitude of every  *)
(* state is that of its parent times one minus tau times the parent's      *)
(* local energy, steps commute, and a state is untouched by what happens   *)
(* to its relatives.  Histories are emitted for replay into the code.      *)
(***************************************************************************)
EXTENDS ImagTime, SequencesExt, Json
CONSTANTS MaxActs, Taus, Ops
VARIABLES op, sts, hist, from
X == 1..3
Mat(a) == [x \in X |-> [y \in X |-> <<y, a[x][y]>>]]
z(r) == <<r, "0">>
HOps == << Mat(<< <<z("1"), z("2"), z("0")>>, <<z("2"), z("-1"), <<"0", "1">> >>, <<z("0"), <<"0", "-1">>, z("3")>> >>),
           Mat(<< <<z("-1"), z("1"), z("0")>>, <<z("1"), z("-2"), z("1")>>, <<z("0"), z("1"), z("-1")>> >>),
           Mat(<< <<z("0"), <<"1", "1">>, z("1/2")>>, <<z("0"), z("5"), z("-1")>>, << <<"2", "-1">>, z("1"), z("-3")>> >>) >>
Pars == << <<z("1"), z("2"), z("-1")>>, << <<"1", "1">>, z("1/3"), <<"0", "-2">> >> >>
H == HOps[op]
TauTab == << "1/7", "2", "-1/3", "0" >>
Vec(s) == IT_Steps(H, Pars[s.par], [k \in 1..Len(s.taus) |-> TauTab[s.taus[k]]])
Init == op \in Ops /\ sts = <<IT_New(1)>> /\ hist = <<>> /\ from = <<0>>
Derive == \E k \in 1..Len(sts) : \E t \in Taus :
            /\ Len(sts[k].taus) < 3
            /\ sts' = Append(sts, IT_Derive(sts[k], t)) /\ from' = Append(from, k)
            /\ hist' = Append(hist, [act |-> "derive", of |-> k, t |-> t])
SetPar == \E k \in 1..Len(sts) : \E p \in 1..2 :
            /\ p # sts[k].par
            /\ sts' = [sts EXCEPT ![k] = IT_Set(@, p)] /\ from' = [j \in 1..Len(from) |-> IF j = k \/ from[j] = k THEN 0 ELSE from[j]]
            /\ hist' = Append(hist, [act |-> "set", of |-> k, t |-> p])
Next == Len(hist) < MaxActs /\ (Derive \/ SetPar) /\ op' = op
Spec == Init /\ [][Next]_<<op, sts, hist, from>>
\* relation to the parent, as long as neither had its parameters replaced
LocalForm == \A k \in 1..Len(sts) : from[k] # 0 =>
   LET a == Vec(sts[from[k]])  b == Vec(sts[k])  tau == TauTab[Last(sts[k].taus)]
   IN \A x \in X : IF CAbs2(a[x]) = "0" THEN TRUE ELSE CClose(b[x], CMul(a[x], CSub(z("1"), CScale(tau, IT_Local(H, a, x)))), "1/1000000000000000000000000")
Commute == \A k \in 1..Len(sts) : LET a == Vec(sts[k])  b == Vec([sts[k] EXCEPT !.taus = Reverse(@)]) IN \A x \in X : CClose(a[x], b[x], "1/1000000000000000000000000")
Two == \A k \in 1..Len(sts) : Len(sts[k].taus) = 2 =>
   LET p == Pars[sts[k].par]  h == [x \in X |-> IT_Hv(H, p, x)]  hh == [x \in X |-> IT_Hv(H, h, x)]  t == TauTab[sts[k].taus[1]]  u == TauTab[sts[k].taus[2]]  v == Vec(sts[k])
   IN \A x \in X : CClose(v[x], CAdd(CSub(p[x], CScale(RAdd(t, u), h[x])), CScale(RMul(t, u), hh[x])), "1/1000000000000000000000000")
\* generator with zero row sums leaves the uniform state alone
Stationary == op = 2 => \A t \in Taus : LET u == [x \in X |-> z("1")] IN IT_Step(H, u, TauTab[t]) = u
Linear == \A t \in Taus : LET a == Pars[1] b == Pars[2] IN \A x \in X :
   IT_Step(H, [y \in X |-> CAdd(a[y], b[y])], TauTab[t])[x] = CTrunc(CAdd(CSub(a[x], CScale(TauTab[t], IT_Hv(H, a, x))), CSub(b[x], CScale(TauTab[t], IT_Hv(H, b, x)))), 300)
Own == [][\A k \in 1..Len(sts) : sts'[k] # sts[k] => hist'[Len(hist')] .of = k]_<<sts, hist>>
Emit == (Len(hist) = MaxActs /\ op = 1) => PrintT("BEH " \o ToJson(hist))
=============================================================================
