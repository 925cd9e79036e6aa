----------------------------- MODULE MCProposals ------------------------------
(***************************************************************************)
(* Design check of Proposals, and of the Metropolis chain built on them.   *)
(* A walker holds a configuration and a cached weight; a step proposes a   *)
(* move, computes the proposal's weight, and accepts (new configuration    *)
(* and cache) or rejects (both kept).  Checked: the sector is conserved,   *)
(* at most the reported two sites change, forward and backward proposal    *)
(* probabilities agree, detailed balance holds exactly, the cache is that  *)
(* of the current configuration in every reachable state, and the chain    *)
(* reaches every configuration of the sector that can be reached.          *)
(***************************************************************************)
EXTENDS Proposals, TLC, Json
CONSTANTS Cfgs
VARIABLES n, x, cache
F(L, nu, nd, hop, T) == [rule |-> "hopping", L |-> L, nu |-> nu, nd |-> nd, hop |-> hop, T |-> T, pairs |-> <<>>]
E(L, m, prs) == [rule |-> "exchange", L |-> L, nu |-> m, nd |-> 0, hop |-> "1", T |-> <<>>, pairs |-> prs]
RingT(L) == [i \in 1..L |-> [j \in 1..L |-> IF (j = (i % L) + 1) \/ (i = (j % L) + 1) THEN "1/2" ELSE "0"]]
Quick == << F(1, 1, 1, "1", <<>>), F(2, 1, 1, "1/2", <<>>), F(3, 2, 1, "1", <<>>), F(3, 2, 1, "1/4", <<>>), F(3, 1, 2, "1/2", RingT(3)),
            F(3, 0, 2, "1/2", <<>>), F(3, 3, 1, "3/4", <<>>), F(4, 2, 2, "1/2", <<>>), F(4, 2, 1, "1/2", RingT(4)), F(4, 2, 2, "0", <<>>),
            E(4, 2, << <<1,2>>, <<2,3>>, <<3,4>>, <<1,4>> >>), E(5, 2, << <<1,2>>, <<2,3>>, <<3,4>>, <<4,5>>, <<1,3>>, <<2,4>>, <<3,5>> >>) >>
Thorough == Quick \o << F(4, 3, 2, "1/4", <<>>), F(4, 1, 3, "2/3", RingT(4)), F(5, 2, 2, "1/2", RingT(5)), F(5, 2, 3, "1/3", <<>>) >>
Conf0(c) == IF c.rule = "exchange" THEN {y \in [1..c.L -> {-1, 1}] : Cardinality({i \in 1..c.L : y[i] = 1}) = c.nu}
            ELSE Sector(c.L, c.nu, c.nd)
\* an arbitrary weight with zeros
W(y) == LET h == LET f[i \in 0..Len(y)] == IF i = 0 THEN 1 ELSE ((f[i-1] * 5) + y[i] + 3) % 17 IN f[Len(y)] IN RInt(h)
Init == n \in 1..Len(Cfgs) /\ x \in Conf0(Cfgs[n]) /\ cache = W(x)
Propose(y) == \* accept / reject
  \/ /\ RSign(Acc([z \in {x, y} |-> W(z)], x, y)) > 0 /\ x' = y /\ cache' = W(y)
  \/ /\ RLt(Acc([z \in {x, y} |-> W(z)], x, y), "1") /\ x' = x /\ cache' = cache
Next == \E m \in Props(Cfgs[n], x) : RSign(m.p) > 0 /\ Propose(m.to) /\ n' = n
Spec == Init /\ [][Next]_<<n, x, cache>>

Conserved == x \in Conf0(Cfgs[n])
Local == \A m \in Props(Cfgs[n], x) : m.to \in Conf0(Cfgs[n]) /\ Changed(x, m.to) = m.s /\ Cardinality(m.s) = 2
Reversible == \A m \in Props(Cfgs[n], x) : REq(Q(Cfgs[n], x, m.to), Q(Cfgs[n], m.to, x))
Stochastic == RLe("0", Q(Cfgs[n], x, x))
Fresh == REq(cache, W(x))
DetailedBalance == \A m \in Props(Cfgs[n], x) : LET w == [z \in {x, m.to} |-> W(z)] IN
   (RSign(w[x]) > 0 /\ RSign(w[m.to]) > 0) =>
     REq(RMul(w[x], RMul(Q(Cfgs[n], x, m.to), Acc(w, x, m.to))), RMul(w[m.to], RMul(Q(Cfgs[n], m.to, x), Acc(w, m.to, x))))
NeverToZero == [][RSign(W(x)) > 0 => RSign(W(x')) > 0]_<<n, x, cache>>
Emit == PrintT("BEH " \o ToJson([cfg |-> Cfgs[n], x |-> x]))
=============================================================================
