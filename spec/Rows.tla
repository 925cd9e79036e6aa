-------------------------------- MODULE Rows ---------------------------------
(***************************************************************************)
(* Operator rows as sets of elementary terms [i |-> tag, to |-> x', v |->  *)
(* <x|H|x'> contribution]; the row is the sum of the terms per target.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, BigRat

Targets(T) == {t.to : t \in T}
SumFor(T, y) == LET s == SetToSeq({t \in T : t.to = y}) IN RSumSeq([k \in 1..Len(s) |-> s[k].v])
SameRow(T1, T2) == \A y \in Targets(T1) \cup Targets(T2) : REq(SumFor(T1, y), SumFor(T2, y))
RowSum(T) == LET s == SetToSeq(T) IN RSumSeq([k \in 1..Len(s) |-> s[k].v])

\* local energy  sum_{x'} <x|H|x'> psi(x') / psi(x);  psi: function on configurations to complex numbers
LocalEnergy(T, psi, x) ==
  LET live == {y \in Targets(T) : RSign(SumFor(T, y)) # 0}
      s == SetToSeq(live)
  IN CDiv(CSumSeq([k \in 1..Len(s) |-> CScale(SumFor(T, s[k]), psi[s[k]])]), psi[x])
Covers(T, psi, x) == x \in DOMAIN psi /\ \A y \in Targets(T) : RSign(SumFor(T, y)) # 0 => y \in DOMAIN psi
=============================================================================
