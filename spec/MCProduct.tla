------------------------------ MODULE MCProduct ------------------------------
(***************************************************************************)
(* Design check of Symmetry and ProductState: a walk over the              *)
(* configurations of small spaces (change one site, or exchange two).      *)
(* The groups are groups, orbits are closed, symmetrised amplitudes are    *)
(* invariant, updates act consistently on every copy, and the formulas     *)
(* reduce to one another in the limits in which they must.                 *)
(***************************************************************************)
EXTENDS ProductState, Symmetry, TLC, Json
CONSTANTS Spaces
VARIABLES sp, x
Sp(L, D, k, u, d) == [L |-> L, D |-> D, kind |-> k, nu |-> u, nd |-> d]
QuickSpaces == {Sp(4, 2, "free", 0, 0), Sp(3, 2, "free", 0, 0), Sp(4, 2, "spin", 2, 2), Sp(4, 2, "spin", 3, 1), Sp(3, 2, "spin", 1, 2), Sp(5, 2, "spin", 4, 1),
                Sp(3, 4, "elec", 2, 1), Sp(4, 4, "elec", 2, 2), Sp(2, 4, "free", 0, 0), Sp(3, 3, "free", 0, 0), Sp(4, 2, "spin", 1, 3)}
ThoroughSpaces == QuickSpaces \cup {Sp(6, 2, "spin", 3, 3), Sp(5, 2, "free", 0, 0), Sp(5, 4, "elec", 2, 3), Sp(3, 4, "free", 0, 0), Sp(6, 2, "free", 0, 0)}
Cnt(y, T) == Cardinality({i \in 1..Len(y) : y[i] \in T})
In(s, y) == CASE s.kind = "free" -> TRUE
              [] s.kind = "spin" -> Cnt(y, {1}) = s.nu
              [] s.kind = "elec" -> Cnt(y, {1, 3}) = s.nu /\ Cnt(y, {2, 3}) = s.nd
Conf(s) == {y \in [1..s.L -> 0..(s.D - 1)] : In(s, y)}
Init == sp \in Spaces /\ x = CHOOSE y \in Conf(sp) : TRUE
\* single changes, or moves of two sites in constrained spaces
Move(y) == \E i \in 1..sp.L, j \in 1..sp.L : \E a \in 0..(sp.D - 1), b \in 0..(sp.D - 1) : y = [x EXCEPT ![i] = a, ![j] = b]
Next == \E y \in Conf(sp) : Move(y) /\ x' = y /\ sp' = sp
Spec == Init /\ [][Next]_<<sp, x>>
\* some fixed parameters
Z(k) == <<RInt(((k * 7) % 5) - 2), RInt(((k * 3) % 4) - 1)>>
Eps == [d \in 1..sp.D |-> [m \in 1..2 |-> [i \in 1..sp.L |-> LET z == Z((d * 11) + (m * 5) + (i * i)) IN IF z = <<"0", "0">> THEN <<"1", "1">> ELSE z]]]
Ring == {{i, (i % sp.L) + 1} : i \in 1..sp.L}
Path == {{i, i + 1} : i \in 1..(sp.L - 1)}
SeqOf(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]
Cop(y, G) == LET g == SeqOf(G) IN [k \in 1..Len(g) |-> SY_Copy(y, g[k])]
Groups == {SY_Group(sp.L, Ring, FALSE, FALSE), SY_Group(sp.L, Path, TRUE, FALSE)}
          \cup (IF sp.D = 2 THEN {SY_Group(sp.L, Ring, FALSE, TRUE), SY_Group(sp.L, Path, TRUE, TRUE)} ELSE {})
BigGroups == Groups \cup {SY_Group(sp.L, Ring, TRUE, FALSE)} \cup (IF sp.D = 2 THEN {SY_Group(sp.L, Ring, TRUE, TRUE)} ELSE {})
IsGroup == \A G \in BigGroups : /\ SY_Id(sp.L) \in G
                                /\ \A g \in G, h \in G : SY_Compose(g, h) \in G
                                /\ \A g \in G : \E h \in G : SY_Compose(g, h) = SY_Id(sp.L)
RingOrder == sp.L > 3 => Cardinality(SY_Automorphisms(sp.L, Ring)) = 2 * sp.L
Compose == \A g \in SY_Group(sp.L, Ring, TRUE, sp.D = 2), h \in SY_Group(sp.L, Path, TRUE, FALSE) : SY_Copy(SY_Copy(x, g), h) = SY_Copy(x, SY_Compose(g, h))
OrbitClosed == \A G \in BigGroups : \A y \in SY_Orbit(x, G) : SY_Orbit(y, G) = SY_Orbit(x, G) /\ SY_Mult(x, G, y) * Cardinality(SY_Orbit(x, G)) = Cardinality(G)
Invariant == \A G \in Groups : \A y \in SY_Orbit(x, G) : PS_GPS(Eps, Cop(y, G)) = PS_GPS(Eps, Cop(x, G))
JInvariant == sp.D = 4 => \A G \in Groups : \A y \in SY_Orbit(x, G) : PS_Jastrow(Eps[1] \o Eps[2] \o Eps[3], Cop(y, G)) = PS_Jastrow(Eps[1] \o Eps[2] \o Eps[3], Cop(x, G))
UpdateCopies == \A G \in BigGroups : \A g \in G : \A i \in 1..sp.L : \A a \in 0..(sp.D - 1) :
   SY_Copy([x EXCEPT ![i] = a], g) = [SY_Copy(x, g) EXCEPT ![SY_Pos(g, i)] = SY_Flip(g.f, a)]
Incremental == \A i \in 1..sp.L : \A a \in 0..(sp.D - 1) : \A m \in 1..2 :
   CMul(PS_Prod(Eps, m, [x EXCEPT ![i] = a]), Eps[x[i] + 1][m][i]) = CMul(PS_Prod(Eps, m, x), Eps[a + 1][m][i])
AllSites == <<[j \in 1..sp.L |-> j]>>
PlaqLimit == PS_PlaqOne([d \in 1..sp.D |-> <<Eps[d]>>], AllSites, x) = PS_One(Eps, x)
SegLimit == PS_Seg([d \in 1..sp.D |-> [m \in 1..2 |-> [i \in 1..sp.L |-> [a \in 1..(sp.L + 1) |-> [b \in 1..(sp.L + 1) |-> Eps[d][m][i]]]]]],
                   x, IF sp.D = 4 THEN {1, 3} ELSE {1}, IF sp.D = 4 THEN {2, 3} ELSE {0}) = PS_One(Eps, x)
FullOf == [d \in 1..sp.D |-> [m \in 1..2 |-> [k \in 1..((sp.L * (sp.L + 1)) \div 2) |->
             LET i == CHOOSE i \in 1..sp.L : PS_Tri(i, 1) <= k /\ k <= PS_Tri(i, i) IN Eps[d][m][(k - PS_Tri(i, 1)) + 1]]]]
ArLimits == \A i \in 1..sp.L : \A s \in 0..(sp.D - 1) :
   /\ PS_ArFull(FullOf, i, s, x) = PS_ArWeight(Eps, i, s, x)
   /\ PS_ArSite(Eps, i, s, x) = PS_ArWeight(Eps, i, s, x)
LastConditional == PS_ArWeight(Eps, sp.L, x[sp.L], x) = PS_One(Eps, x)
Emit == PrintT("BEH " \o ToJson([sp |-> sp, x |-> x]))
=============================================================================
