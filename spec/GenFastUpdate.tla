---------------------------- MODULE GenFastUpdate ----------------------------
(***************************************************************************)
(* Generates update histories of the contract for replay: a batch of three *)
(* rows, each step a full evaluation (caching or not), a commit or a trial *)
(* with k listed sites, rows moving independently.  Run in simulation.     *)
(* kind "free": all D^L configurations; "elec": nu, nd electrons (D = 4);  *)
(* "spin": nu up spins (D = 2).                                            *)
(***************************************************************************)
EXTENDS FastUpdate, TLC, Json
CONSTANT Depth
VARIABLES sp, xs, hist, start
Spaces == {[kind |-> "free", L |-> 4, D |-> 2, nu |-> 0, nd |-> 0], [kind |-> "free", L |-> 3, D |-> 4, nu |-> 0, nd |-> 0],
           [kind |-> "spin", L |-> 4, D |-> 2, nu |-> 2, nd |-> 0], [kind |-> "elec", L |-> 4, D |-> 4, nu |-> 2, nd |-> 2],
           [kind |-> "elec", L |-> 4, D |-> 4, nu |-> 3, nd |-> 1], [kind |-> "elec", L |-> 5, D |-> 4, nu |-> 3, nd |-> 2],
           [kind |-> "elec", L |-> 6, D |-> 4, nu |-> 4, nd |-> 2]}
Cnt(x, S) == Cardinality({i \in 1..Len(x) : x[i] \in S})
In(s, x) == CASE s.kind = "free" -> TRUE [] s.kind = "spin" -> Cnt(x, {1}) = s.nu
              [] s.kind = "elec" -> Cnt(x, {1, 3}) = s.nu /\ Cnt(x, {2, 3}) = s.nd
Conf(s) == {x \in [1..s.L -> 0..(s.D - 1)] : In(s, x)}
ConfOf == [s \in Spaces |-> Conf(s)]
\* (\E v \in {RandomElement(..)} binds one draw; a LET would draw again at each use)
Init == \E s \in Spaces : \E a \in {RandomElement(ConfOf[s])} : \E b \in {RandomElement(ConfOf[s])} : \E c \in {RandomElement(ConfOf[s])} :
           sp = s /\ start = <<a, b, c>> /\ xs = <<a, b, c>> /\ hist = <<>>
Kinds == <<"commit", "commit", "trial", "trial", "refresh", "full">>
Near(x, k) == {y \in ConfOf[sp] : Cardinality(FU_Changed(x, y)) <= k}
Pairs(x) == {y \in ConfOf[sp] : Cardinality(FU_Changed(x, y)) = 2}
\* local moves are as likely as arbitrary ones
Pool(x, k, local) == IF local /\ k >= 2 /\ Pairs(x) # {} THEN Pairs(x) ELSE Near(x, k)
Rec(x, y, q) == [s |-> q, o |-> FU_Occ(x, y, q), y |-> y]
Free3(kd) == \E a \in {RandomElement(ConfOf[sp])} : \E b \in {RandomElement(ConfOf[sp])} : \E c \in {RandomElement(ConfOf[sp])} :
   /\ hist' = Append(hist, [kind |-> kd, rows |-> <<[s |-> <<>>, o |-> <<>>, y |-> a], [s |-> <<>>, o |-> <<>>, y |-> b], [s |-> <<>>, o |-> <<>>, y |-> c]>>])
   /\ xs' = IF kd = "refresh" THEN <<a, b, c>> ELSE xs
Upd3(kd, k, local) ==
   \E a \in {RandomElement(Pool(xs[1], k, local))} : \E b \in {RandomElement(Pool(xs[2], k, local))} : \E c \in {RandomElement(Near(xs[3], k))} :
   \E qa \in {RandomElement(FU_Lists(xs[1], a, k))} : \E qb \in {RandomElement(FU_Lists(xs[2], b, k))} : \E qc \in {RandomElement(FU_Lists(xs[3], c, k))} :
   /\ hist' = Append(hist, [kind |-> kd, rows |-> <<Rec(xs[1], a, qa), Rec(xs[2], b, qb), Rec(xs[3], c, qc)>>])
   /\ xs' = IF kd = "commit" THEN <<a, b, c>> ELSE xs
Next == /\ Len(hist) < Depth
        /\ \E kd \in {Kinds[RandomElement(1..Len(Kinds))]} : \E k \in {IF sp.kind = "free" THEN RandomElement({1, 2, 3}) ELSE RandomElement({2, 4})} :
           \E local \in {RandomElement({TRUE, FALSE})} : IF kd \in {"commit", "trial"} THEN Upd3(kd, k, local) ELSE Free3(kd)
        /\ UNCHANGED <<sp, start>>
Spec == Init /\ [][Next]_<<sp, xs, hist, start>>
Emit == Len(hist) = Depth => PrintT("BEH " \o ToJson([sp |-> sp, start |-> start, steps |-> hist]))
InSpace == \A r \in 1..3 : In(sp, xs[r])
=============================================================================
