------------------------------ MODULE MCInitial ------------------------------
(***************************************************************************)
(* Design check.  (1) The machine that initialises a model: every array of *)
(* parameters gets a key split off the root key, a stack of matrices one   *)
(* more key per matrix; requests (which array, which kind, shape, number   *)
(* type, root key) arrive in any order and may repeat.  No two entries of  *)
(* one initialisation share a draw, the same request gives the same draws, *)
(* and another root key shares none.  (2) Matrices reached from unit       *)
(* vectors by exact rotations, reflections, phases and dropping columns    *)
(* keep orthonormal columns; wide ones, their transposes, have orthonormal *)
(* rows and the scale enters squared.  Histories are emitted for replay.   *)
(***************************************************************************)
EXTENDS Initial, FiniteSets, TLC, Json
CONSTANTS MaxActs, Kinds, Roots, MaxRot
VARIABLES draws, hist, mat, rot
\* a request <<kind, shape index, type, root>>; the draws are <<root, path>>
Shapes == << <<2, 2, 3>>, <<1, 3, 2>>, <<3, 2, 2>> >>
Draws(q) == LET sh == Shapes[q.shape] IN
   IF q.kind = "orth" THEN { <<q.root, "split", i>> : i \in 1..sh[1] }       \* one key per matrix
   ELSE { <<q.root, "bits", i>> : i \in 1..IN_Size(sh) }                     \* one stretch of bits per entry
I(n, i, j) == IF i = j THEN <<"1", "0">> ELSE <<"0", "0">>
Start == {[i \in 1..n |-> [j \in 1..n |-> I(n, i, j)]] : n \in 2..3}
RotRows(m, a, b, c, s) == [m EXCEPT ![a] = [j \in 1..Len(m[1]) |-> CAdd(CMul(c, m[a][j]), CMul(CConj(s), m[b][j]))],
                                    ![b] = [j \in 1..Len(m[1]) |-> CSub(CMul(CConj(c), m[b][j]), CMul(s, m[a][j]))]]
Angles == { << <<"3/5", "0">>, <<"4/5", "0">> >>, << <<"5/13", "0">>, <<"0", "12/13">> >>, << <<"0", "0">>, <<"-1", "0">> >> }
Init == draws = <<>> /\ hist = <<>> /\ mat \in Start /\ rot = 0
Request == \E k \in Kinds : \E s \in 1..Len(Shapes) : \E t \in {"real", "complex"} : \E r \in Roots :
   LET q == [kind |-> k, shape |-> s, type |-> t, root |-> r] IN
     /\ Len(hist) < MaxActs /\ rot = 0 /\ mat = (CHOOSE m \in Start : TRUE)
     /\ hist' = Append(hist, q) /\ draws' = Append(draws, Draws(q)) /\ UNCHANGED <<mat, rot>>
Rotate == /\ rot < MaxRot /\ hist = <<>> /\ rot' = rot + 1 /\ UNCHANGED <<draws, hist>>
          /\ \/ \E a, b \in 1..Len(mat) : a # b /\ \E g \in Angles : mat' = RotRows(mat, a, b, g[1], g[2])
             \/ Len(mat[1]) > 1 /\ mat' = [i \in 1..Len(mat) |-> SubSeq(mat[i], 1, Len(mat[1]) - 1)]
             \/ mat' = [mat EXCEPT ![1] = [j \in 1..Len(mat[1]) |-> CMul(<<"3/5", "-4/5">>, mat[1][j])]]
Next == Request \/ Rotate
Spec == Init /\ [][Next]_<<draws, hist, mat, rot>>
\* every matrix of a stack and every entry has its own draw
Own == \A k \in 1..Len(hist) : Cardinality(draws[k]) = IF hist[k].kind = "orth" THEN Shapes[hist[k].shape][1] ELSE IN_Size(Shapes[hist[k].shape])
Reproducible == \A k, l \in 1..Len(hist) : hist[k] = hist[l] => draws[k] = draws[l]
Separate == \A k, l \in 1..Len(hist) : hist[k].root # hist[l].root => draws[k] \cap draws[l] = {}
Scaled(m, r) == [i \in 1..Len(m) |-> [j \in 1..Len(m[1]) |-> CScale(r, m[i][j])]]
Orthonormal == IN_Orthonormal(mat, "1", "0") /\ IN_Orthonormal(IN_Transpose(mat), "1", "0")
ScaleSquared == IN_Orthonormal(Scaled(mat, "3/2"), "3/2", "0") /\ ~ IN_Orthonormal(Scaled(mat, "3/2"), "1", "1/1000")
Emit == Len(hist) = MaxActs => PrintT("BEH " \o ToJson(hist))
=============================================================================
