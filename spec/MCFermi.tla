------------------------------- MODULE MCFermi -------------------------------
(***************************************************************************)
(* Design check of Fermi: a walker moves over configurations along         *)
(* non-zero matrix elements.  Every reachable configuration is checked and *)
(* emitted as a behaviour for replay into the code.                        *)
(***************************************************************************)
EXTENDS Operators, TLC, Json
CONSTANTS Sectors
QuickSectors == {<<1,1,0>>, <<2,1,1>>, <<3,1,2>>, <<3,2,1>>, <<3,0,2>>, <<3,3,1>>, <<3,2,2>>, <<4,2,2>>, <<4,3,1>>, <<5,4,1>>}
ThoroughSectors == QuickSectors \cup {<<4,1,3>>, <<4,0,4>>, <<5,2,2>>, <<5,3,2>>, <<5,1,4>>}
VARIABLES sec, x

P(p, q) == IF p >= q THEN ((p * (p - 1)) \div 2) + q ELSE ((q * (q - 1)) \div 2) + p
HInt(p, q) == RInt(((P(p, q) * 5) % 7) - 3)
EInt(p, q, r, s) == RInt((((P(p, q) * P(r, s) * 7) + P(p, q) + P(r, s)) % 11) - 5)
AbCfg(L) == [kind |-> "abinitio",
             h   |-> [p \in 1..L |-> [q \in 1..L |-> HInt(p, q)]],
             eri |-> [p \in 1..L |-> [q \in 1..L |-> [r \in 1..L |-> [s \in 1..L |-> EInt(p, q, r, s)]]]]]
HubCfg(L) == [kind |-> "hubbard", U |-> "8",
              edges |-> [k \in 1..L |-> <<k, IF k = L THEN 1 ELSE k + 1>>], t |-> [k \in 1..L |-> RInt(k)]]

Init == sec \in Sectors /\ x = CHOOSE y \in Sector(sec[1], sec[2], sec[3]) : TRUE
Next == /\ x' \in {y \in Targets(AbInitioTerms(AbCfg(sec[1]), x)) : y # x}
        /\ sec' = sec
Spec == Init /\ [][Next]_<<sec, x>>

InSector == IsConf(sec[1], x) /\ NUp(x) = sec[2] /\ NDown(x) = sec[3]
Conserving == \A cfg \in {AbCfg(sec[1]), HubCfg(sec[1])} : \A y \in Targets(Terms(cfg, x)) :
                 IsConf(sec[1], y) /\ NUp(y) = sec[2] /\ NDown(y) = sec[3]
Hermitian == \A cfg \in {AbCfg(sec[1]), HubCfg(sec[1])} : LET T == Terms(cfg, x) IN
                 \A y \in Targets(T) : REq(SumFor(T, y), SumFor(Terms(cfg, y), x))
AlgorithmIsOperator == SameRow(AbInitioTerms(AbCfg(sec[1]), x), AlgTerms(AbCfg(sec[1]), x))
Emit == PrintT("BEH " \o ToJson([L |-> sec[1], nu |-> sec[2], nd |-> sec[3], x |-> x]))
\* every configuration of every sector is reached (the walk is ergodic)
Ergodic == TLCGet("stats").distinct = LET Sz[S \in SUBSET Sectors] ==
              IF S = {} THEN 0 ELSE LET s == CHOOSE t \in S : TRUE IN Cardinality(Sector(s[1], s[2], s[3])) + Sz[S \ {s}]
           IN Sz[Sectors]
=============================================================================
