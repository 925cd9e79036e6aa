---------------------------- MODULE MCDeterminant ----------------------------
(***************************************************************************)
(* Design check of Determinant: electrons hop over the sites of small      *)
(* sectors.  A determinant amplitude changes sign with the exchange of two *)
(* electrons, block orbitals factorise, a full rotation by 2 pi changes    *)
(* the sign once per electron, Pfaffians square to determinants and follow *)
(* the congruence rule, also for singular matrices.                        *)
(***************************************************************************)
EXTENDS Determinant, TLC, Json
CONSTANTS Sectors
VARIABLES sp, x
Sec(L, u, d) == [L |-> L, nu |-> u, nd |-> d]
QuickSectors == {Sec(2, 1, 1), Sec(3, 2, 1), Sec(4, 2, 2), Sec(4, 3, 1), Sec(3, 1, 2), Sec(4, 3, 2), Sec(3, 2, 2)}
ThoroughSectors == QuickSectors \cup {Sec(5, 3, 3), Sec(4, 3, 3), Sec(5, 4, 2), Sec(5, 2, 2)}
Cnt(y, T) == Cardinality({i \in 1..Len(y) : y[i] \in T})
Start(s) == [i \in 1..s.L |-> (IF i <= s.nu THEN 1 ELSE 0) + (IF i <= s.nd THEN 2 ELSE 0)]
Init == sp \in Sectors /\ x = Start(sp)
Hop(b) == \E i, j \in 1..sp.L : /\ (x[i] \div b) % 2 = 1 /\ (x[j] \div b) % 2 = 0
                                /\ x' = [x EXCEPT ![i] = @ - b, ![j] = @ + b] /\ sp' = sp
Next == Hop(1) \/ Hop(2)
Spec == Init /\ [][Next]_<<sp, x>>
InSector == Cnt(x, {1, 3}) = sp.nu /\ Cnt(x, {2, 3}) = sp.nd
N == sp.nu + sp.nd
Z(a, b) == <<RInt(((((a * 7) + (b * 5) + (a * b * 3)) % 11) - 5)), RInt((((a * 3) + (b * b)) % 7) - 3)>>
U == [i \in 1..(2 * sp.L) |-> [k \in 1..N |-> Z(i, k)]]
Up == [i \in 1..sp.L |-> [k \in 1..sp.nu |-> Z(i, k)]]
Dn == [i \in 1..sp.L |-> [k \in 1..sp.nd |-> Z(i + 2, k + 1)]]
Id == [i \in 1..sp.L |-> i]
q == DT_Pos(x, Id)
Ordered == \A i, j \in 1..N : i < j => q[i] < q[j]
Exchange == \A i, j \in 1..N : i < j => DT_Sel(U, [q EXCEPT ![i] = q[j], ![j] = q[i]]) = CScale("-1", DT_Sel(U, q))
Pauli == N >= 2 => DT_Sel(U, [q EXCEPT ![1] = q[2]]) = <<"0", "0">>
Factor == DT_Sel(DT_Block(Up, Dn, sp.nu, sp.nd), q) = CMul(DT_Sel(Up, DT_Up(x)), DT_Sel(Dn, DT_Dn(x)))
Turn == DT_Sel(DT_Rotate(U, "-1", "0"), q) = CScale(IF N % 2 = 0 THEN "1" ELSE "-1", DT_Sel(U, q))
\* a rotation by pi exchanges the spins of closed shells
Closed == {i \in 1..sp.L : x[i] = 3}
Pi == (\A i \in 1..sp.L : x[i] \in {0, 3}) => DT_Sel(DT_Rotate(U, "0", "1"), q) = DT_Sel(U, q)
F == [i \in 1..(2 * sp.L) |-> [k \in 1..(2 * sp.L) |-> Z(i, k + i)]]
PfSquare == LET A == DT_Skew(F, q) p == DT_Pfaffian(A) IN CMul(p, p) = CDet(A)
PfSwap == N >= 2 => DT_Pfaffian(DT_Skew(F, [q EXCEPT ![1] = q[2], ![2] = q[1]])) = CScale("-1", DT_Pfaffian(DT_Skew(F, q)))
\* rank-one structured (singular) selections have vanishing Pfaffian
F1 == [i \in 1..(2 * sp.L) |-> [k \in 1..(2 * sp.L) |-> CMul(Z(i, 1), Z(k, 2))]]
PfSingular == N >= 4 => DT_Pfaffian(DT_Skew(F1, q)) = <<"0", "0">>
\* zero magnetisation, no rotation: up to a sign the determinant of the pairing amplitudes
F0 == [i \in 1..(2 * sp.L) |-> [k \in 1..(2 * sp.L) |-> IF i <= sp.L /\ k > sp.L THEN Z(i, k) ELSE <<"0", "0">>]]
PfPair == sp.nu = sp.nd => DT_Pfaffian(DT_Skew(F0, q)) = CScale(IF ((sp.nu * (sp.nu - 1)) \div 2) % 2 = 0 THEN "1" ELSE "-1",
             CDet([i \in 1..sp.nu |-> [k \in 1..sp.nd |-> F0[q[i]][q[sp.nu + k]]]]))
Emit == PrintT("BEH " \o ToJson([sp |-> sp, x |-> x]))
=============================================================================
