----------------------------- MODULE MCFastUpdate ----------------------------
(***************************************************************************)
(* Design check: the incremental algorithm of the product states (divide   *)
(* out the old factor, multiply the new one, per symmetry copy through the *)
(* inverse site map), with non-zero parameters in the field of 7 elements. *)
(* Along every history of full evaluations, commits and discarded trials   *)
(* the cached products are those of the cached configuration.              *)
(***************************************************************************)
EXTENDS FastUpdate, TLC
CONSTANTS L, D, MaxK
VARIABLES x, prod, trial
P == 7
Inv(a) == CHOOSE b \in 1..(P - 1) : (a * b) % P = 1
Eps(o, i) == 1 + (((o * 5) + (i * i) + (o * i)) % (P - 1))
Shift(i) == IF i = L THEN 1 ELSE i + 1
ShiftInv(i) == IF i = 1 THEN L ELSE i - 1
\* symmetry copies: identity, translation, flip, both: copy[i] = F(x[map(i)])
T == 1..4
Map(t, i) == IF t \in {2, 4} THEN Shift(i) ELSE i
MapInv(t, i) == IF t \in {2, 4} THEN ShiftInv(i) ELSE i
F(t, o) == IF t \in {3, 4} THEN (D - 1) - o ELSE o
Prod(f, n) == LET g[i \in 0..n] == IF i = 0 THEN 1 ELSE (g[i-1] * f[i]) % P IN g[n]
Fresh(c) == [t \in T |-> Prod([i \in 1..L |-> Eps(F(t, c[Map(t, i)]), i)], L)]
Configs == [1..L -> 0..(D - 1)]
\* the algorithm
Alg(c, p, sites, occ) == [t \in T |-> (p[t] * Prod([k \in 1..Len(sites) |->
       (Eps(F(t, occ[k]), MapInv(t, sites[k])) * Inv(Eps(F(t, c[sites[k]]), MapInv(t, sites[k])))) % P], Len(sites))) % P]
Updates(c) == UNION {{[s |-> q, o |-> FU_Occ(c, y, q)] : q \in FU_Lists(c, y, k)} : y \in Configs, k \in 1..MaxK}
None == <<>>
Init == x = None /\ prod = None /\ trial = None
Full == \E y \in Configs : x' = y /\ prod' = Fresh(y) /\ trial' = None
Commit == x # None /\ \E u \in Updates(x) : x' = FU_Apply(x, u.s, u.o) /\ prod' = Alg(x, prod, u.s, u.o) /\ trial' = None
Trial == x # None /\ \E u \in Updates(x) : UNCHANGED <<x, prod>> /\ trial' = <<FU_Apply(x, u.s, u.o), Alg(x, prod, u.s, u.o)>>
Next == Full \/ Commit \/ Trial
Spec == Init /\ [][Next]_<<x, prod, trial>>
CacheFresh == x # None => prod = Fresh(x)
TrialFresh == trial # None => trial[2] = Fresh(trial[1])
Convention == x # None => \A u \in Updates(x) : FU_WellFormed(x, u.s, u.o)
=============================================================================
