------------------------------ MODULE FastUpdate -----------------------------
(***************************************************************************)
(* The contract of fast updates.  A wavefunction object holds a cached     *)
(* configuration per batch row.  An update lists sites with their new      *)
(* local states; the first entry of a site counts, later entries of the    *)
(* same site carry the cached state and have no effect.                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, BigRat
FU_First(sites, k) == \A j \in 1..(k - 1) : sites[j] # sites[k]
\* configuration after the update
FU_Apply(x, sites, occ) == [i \in 1..Len(x) |-> LET h == {k \in 1..Len(sites) : sites[k] = i}
                              IN IF h = {} THEN x[i] ELSE occ[CHOOSE k \in h : \A j \in h : k <= j]]
\* the update follows the convention
FU_WellFormed(x, sites, occ) == Len(sites) = Len(occ) /\ \A k \in 1..Len(sites) : FU_First(sites, k) \/ occ[k] = x[sites[k]]
FU_Changed(x, y) == {i \in 1..Len(x) : x[i] # y[i]}
\* update lists of length k leading from x to y
FU_Lists(x, y, k) == {q \in [1..k -> 1..Len(x)] : \A i \in FU_Changed(x, y) : \E j \in 1..k : q[j] = i}
FU_Occ(x, y, q) == [j \in 1..Len(q) |-> IF FU_First(q, j) THEN y[q[j]] ELSE x[q[j]]]
=============================================================================
