------------------------------ MODULE MCHilbert ------------------------------
(***************************************************************************)
(* Design check of Hilbert: electrons are placed one by one, first the up  *)
(* electrons, then the down electrons, each on a site that is still free   *)
(* for its spin.  Terminal configurations are exactly the space, and each  *)
(* is produced by the same number of placement histories (hence the draw   *)
(* is uniform).  Terminal states are emitted.                              *)
(***************************************************************************)
EXTENDS Hilbert, TLC, Json
CONSTANTS MaxL
VARIABLES s, up, dn     \* sector, ordered placements
Sectors == {[L |-> L, nu |-> a, nd |-> b] : L \in 1..MaxL, a \in 0..MaxL, b \in 0..MaxL}
Init == s \in {t \in Sectors : t.nu <= t.L /\ t.nd <= t.L} /\ up = <<>> /\ dn = <<>>
Img(f) == {f[i] : i \in DOMAIN f}
PlaceUp == Len(up) < s.nu /\ \E p \in (1..s.L) \ Img(up) : up' = Append(up, p) /\ UNCHANGED <<s, dn>>
PlaceDn == Len(up) = s.nu /\ Len(dn) < s.nd /\ \E p \in (1..s.L) \ Img(dn) : dn' = Append(dn, p) /\ UNCHANGED <<s, up>>
Next == PlaceUp \/ PlaceDn
Spec == Init /\ [][Next]_<<s, up, dn>>
Done == Len(up) = s.nu /\ Len(dn) = s.nd
X == [p \in 1..s.L |-> (IF p \in Img(up) THEN 1 ELSE 0) + (IF p \in Img(dn) THEN 2 ELSE 0)]
InSpace == Done => X \in Space(s.L, s.nu, s.nd)
Counted == Cardinality(Space(s.L, s.nu, s.nd)) = Size(s.L, s.nu, s.nd)
Emit == Done => PrintT("BEH " \o ToJson([L |-> s.L, nu |-> s.nu, nd |-> s.nd, x |-> X]))
\* terminal histories per sector: nu! nd! for each configuration
Fact(n) == LET f[i \in 0..n] == IF i = 0 THEN 1 ELSE i * f[i-1] IN f[n]
Inj(n, k) == {q \in [1..k -> 1..n] : \A i, j \in 1..k : i # j => q[i] # q[j]}
XOf(L, u, d) == [p \in 1..L |-> (IF p \in Img(u) THEN 1 ELSE 0) + (IF p \in Img(d) THEN 2 ELSE 0)]
Uniform == Done => Cardinality({h \in Inj(s.L, s.nu) \X Inj(s.L, s.nd) : XOf(s.L, h[1], h[2]) = X}) = Fact(s.nu) * Fact(s.nd)
=============================================================================
