------------------------------ MODULE MCAutoReg ------------------------------
(***************************************************************************)
(* Design check of AutoReg: sites are drawn one after the other from       *)
(* conditionals that may depend on the prefix in any way (weights derived  *)
(* from it, masked to the sector).  Every feasible prefix has a feasible   *)
(* continuation, the process ends exactly in the sector, its probabilities *)
(* are those of the chain rule and sum to one, and the interval draw picks *)
(* each local state for exactly its share of the random numbers.           *)
(***************************************************************************)
EXTENDS AutoReg, TLC, Json
CONSTANTS Models
VARIABLES m, y
QuickModels == {[L |-> 4, D |-> 2, sector |-> "none", nu |-> 0, nd |-> 0], [L |-> 4, D |-> 2, sector |-> "sz0", nu |-> 0, nd |-> 0],
                [L |-> 6, D |-> 2, sector |-> "sz0", nu |-> 0, nd |-> 0], [L |-> 3, D |-> 2, sector |-> "none", nu |-> 0, nd |-> 0],
                [L |-> 3, D |-> 4, sector |-> "elec", nu |-> 2, nd |-> 1], [L |-> 2, D |-> 4, sector |-> "none", nu |-> 0, nd |-> 0]}
ThoroughModels == QuickModels \cup {[L |-> 8, D |-> 2, sector |-> "sz0", nu |-> 0, nd |-> 0], [L |-> 5, D |-> 2, sector |-> "none", nu |-> 0, nd |-> 0],
                [L |-> 4, D |-> 4, sector |-> "elec", nu |-> 2, nd |-> 2], [L |-> 2, D |-> 2, sector |-> "sz0", nu |-> 0, nd |-> 0]}
\* weights 0..3 from the prefix; a prefix with only weight zero left gives equal weights
Hash(q, s) == LET f[i \in 0..Len(q)] == IF i = 0 THEN 5 ELSE ((f[i-1] * 3) + q[i] + i) % 17 IN (f[Len(q)] + (s * 7)) % 4
W(q) == LET a == [s \in 1..m.D |-> IF Feasible(m, Append(q, s - 1)) THEN Hash(q, s) ELSE 0]
        IN IF \E s \in 1..m.D : a[s] > 0 THEN a ELSE [s \in 1..m.D |-> IF Feasible(m, Append(q, s - 1)) THEN 1 ELSE 0]
Tot(q) == LET w == W(q) f[k \in 0..m.D] == IF k = 0 THEN 0 ELSE f[k-1] + w[k] IN f[m.D]
P(q) == [s \in 1..m.D |-> RDiv(RInt(W(q)[s]), RInt(Tot(q)))]
Init == m \in Models /\ y = <<>>
Next == /\ Len(y) < m.L
        /\ \E s \in 0..(m.D - 1) : Feasible(m, Append(y, s)) /\ y' = Append(y, s)
        /\ m' = m
Spec == Init /\ [][Next]_<<m, y>>
NeverStuck == Len(y) < m.L => \E s \in 0..(m.D - 1) : Feasible(m, Append(y, s))
EndsInSector == Len(y) = m.L => y \in AR_Configs(m)
Cond == Len(y) < m.L => Normalised(P(y), "0") /\ MaskedOut(m, y, P(y))
\* total weight of all completions of the prefix
RECURSIVE Mass(_)
Mass(q) == IF Len(q) = m.L THEN "1" ELSE RSumSeq([s \in 1..m.D |-> IF Feasible(m, Append(q, s - 1)) THEN RMul(P(q)[s], Mass(Append(q, s - 1))) ELSE "0"])
MassOne == REq(Mass(y), "1")
Interval == Len(y) < m.L => LET N == 12 * Tot(y) IN
   \A s \in 1..m.D : /\ Cardinality({k \in 0..(N - 1) : Cell(P(y), RDiv(RInt(k), RInt(N))) = s}) = 12 * W(y)[s]
                     /\ \A k \in 0..(N - 1) : CellOK(P(y), RDiv(RInt(k), RInt(N)), Cell(P(y), RDiv(RInt(k), RInt(N))), "0")
Emit == Len(y) = m.L => PrintT("BEH " \o ToJson([cfg |-> m, x |-> y]))
Reached == TRUE
=============================================================================
