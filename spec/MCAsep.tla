------------------------------- MODULE MCAsep --------------------------------
(***************************************************************************)
(* Design check of Asep: the exclusion process itself.  Particles enter,   *)
(* leave and hop; every move possible in the process is a non-zero element *)
(* of the tilted generator and vice versa, at zero counting field rows sum *)
(* to zero, and reversing every move transposes the generator with the     *)
(* rates of opposite moves exchanged and the counting field inverted (the  *)
(* Gallavotti-Cohen type symmetry behind the Hermiticity claim).           *)
(***************************************************************************)
EXTENDS Operators, TLC, Json
CONSTANTS Sizes
VARIABLES x
Rates == [kind |-> "asep", lambda |-> "1/4", alpha |-> "2", gamma |-> "3", beta |-> "5", delta |-> "7", p |-> "11", q |-> "13"]
Zero == [Rates EXCEPT !.lambda = "0"]
Rev == [Rates EXCEPT !.lambda = "-1/4", !.alpha = Rates.gamma, !.gamma = Rates.alpha, !.beta = Rates.delta, !.delta = Rates.beta, !.p = Rates.q, !.q = Rates.p]
Init == \E n \in Sizes : x = [k \in 1..n |-> 0]
Next == \E m \in Moves(Rates, x) : x' = m.to
Spec == Init /\ [][Next]_x
Exclusion == \A k \in 1..Len(x) : x[k] \in {0, 1}
Conserved == REq(RowSum(AsepTerms(Zero, x)), "0")
OffDiag(cfg, a, b) == SumFor({t \in AsepTerms(cfg, a) : t.to = b /\ b # a}, b)
Reversal == \A m \in Moves(Rates, x) : RClose(OffDiag(Rates, x, m.to), OffDiag(Rev, m.to, x), "1/1000000000000")
\* distinct moves lead to distinct configurations unless the chain is a single site
Distinct == Len(x) > 1 => Cardinality({m.to : m \in Moves(Rates, x)}) = Cardinality(Moves(Rates, x))
Emit == PrintT("BEH " \o ToJson([x |-> x]))
Reached == TLCGet("stats").distinct = LET S[n \in 0..20] == IF n = 0 THEN 0 ELSE S[n-1] + (IF n \in Sizes THEN 2^n ELSE 0) IN S[20]
=============================================================================
