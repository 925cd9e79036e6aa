------------------------------- MODULE MCSpin --------------------------------
(***************************************************************************)
(* Design check of Spin: a walker exchanges antiparallel spins along the   *)
(* bonds of small lattices.  Checked in every reachable configuration:     *)
(* magnetisation, Hermiticity, that a sign rule changes only the sign of   *)
(* the spin-flip elements of its bonds, and that on a bipartite lattice    *)
(* the Marshall rule is a gauge transformation.                            *)
(***************************************************************************)
EXTENDS Operators, TLC, Json
CONSTANTS Lats
G(lx, ly, pbc) == [Lx |-> lx, Ly |-> ly, pbc |-> pbc]
QuickLats == {<<3, 1, FALSE>>, <<4, 1, FALSE>>, <<4, 1, TRUE>>, <<5, 1, TRUE>>, <<6, 1, TRUE>>, <<2, 3, FALSE>>, <<3, 2, FALSE>>, <<2, 2, TRUE>>, <<2, 3, TRUE>>, <<3, 2, TRUE>>, <<3, 3, TRUE>>}
ThoroughLats == QuickLats \cup {<<7, 1, FALSE>>, <<8, 1, TRUE>>, <<3, 3, FALSE>>, <<2, 4, FALSE>>, <<2, 4, TRUE>>, <<4, 2, TRUE>>}
VARIABLES lat, x
L(l) == l[1] * l[2]
Gr(l) == G(l[1], l[2], l[3])
Cfg(l, s1, s2) == [kind |-> "spin", g |-> Gr(l), J1 |-> "3", J2 |-> "-5/2", sr1 |-> s1, sr2 |-> s2]
\* starting configurations: k spins up, the rest down
Start(l, k) == [i \in 1..L(l) |-> IF i <= k THEN 1 ELSE -1]
Init == lat \in Lats /\ \E k \in {L(lat) \div 2, (L(lat) \div 2) + 1, 0} : x = Start(lat, k)
Next == /\ \E b \in Shell(Gr(lat), 1) : x[b[1]] # x[b[2]] /\ x' = Swap(x, b[1], b[2])
        /\ lat' = lat
Spec == Init /\ [][Next]_<<lat, x>>

Flags == {<<a, b>> : a \in BOOLEAN, b \in BOOLEAN}
Conserving == \A f \in Flags : \A y \in Targets(SpinTerms(Cfg(lat, f[1], f[2]), x)) : Mag(y) = Mag(x)
Hermitian == \A f \in {<<TRUE, FALSE>>, <<FALSE, FALSE>>} : LET c == Cfg(lat, f[1], f[2])
                                                   T == SpinTerms(c, x)
               IN \A y \in Targets(T) : REq(SumFor(T, y), SumFor(SpinTerms(c, y), x))
SignRuleOnlyFlips == LET T0 == SpinTerms(Cfg(lat, FALSE, FALSE), x)
                         T1 == SpinTerms(Cfg(lat, TRUE, TRUE), x)
                     IN Targets(T0) = Targets(T1) /\ \A y \in Targets(T0) :
                          REq(SumFor(T1, y), IF y = x THEN SumFor(T0, y) ELSE RNeg(SumFor(T0, y)))
\* Marshall gauge: only defined when the first-neighbour graph is bipartite
SubA(l, i) == (XOf(Gr(l), i) + YOf(Gr(l), i)) % 2 = 0
Bip(l) == \A b \in Shell(Gr(l), 1) : SubA(l, b[1]) # SubA(l, b[2])
Gauge(l, y) == IF Cardinality({i \in 1..L(l) : SubA(l, i) /\ y[i] = 1}) % 2 = 0 THEN "1" ELSE "-1"
Marshall == Bip(lat) => LET T0 == SpinTerms(Cfg(lat, FALSE, FALSE), x)
                            T1 == SpinTerms(Cfg(lat, TRUE, FALSE), x)
                        IN \A y \in Targets(T0) : REq(SumFor(T1, y), RMul(SumFor(T0, y), RMul(Gauge(lat, x), Gauge(lat, y))))
Emit == PrintT("BEH " \o ToJson([Lx |-> lat[1], Ly |-> lat[2], pbc |-> lat[3], x |-> x]))
=============================================================================
