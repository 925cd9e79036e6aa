------------------------------ MODULE MCSamples ------------------------------
(***************************************************************************)
(* Design check: batches of samples from a small alphabet arrive until the *)
(* state is complete.  The counts depend only on the concatenated stream,  *)
(* never exceed the requested number of distinct entries, and sum to the   *)
(* samples counted; stratified weights sum to one.                         *)
(***************************************************************************)
EXTENDS Samples, TLC, Json
CONSTANTS Runs, MaxBatches
VARIABLES r, s, stream, nb, hist
Run(a, n, b, m) == [a |-> a, n |-> n, b |-> b, max |-> m]   \* alphabet, requested, batch size, step limit
QuickRuns == {Run(2, 1, 2, 0), Run(2, 2, 2, 0), Run(3, 2, 2, 0), Run(3, 3, 2, 2), Run(3, 4, 2, 3), Run(3, 2, 3, 2), Run(2, 2, 1, 3), Run(3, 3, 3, 0), Run(2, 2, 4, 0)}
ThoroughRuns == QuickRuns \cup {Run(3, 4, 4, 2), Run(4, 4, 3, 0), Run(4, 3, 2, 4), Run(3, 3, 1, 0)}
Init == r \in Runs /\ s = US_Empty(r.n, r.max) /\ stream = <<>> /\ nb = 0 /\ hist = <<>>
Batches == [1..r.b -> 1..r.a]
Next == /\ ~US_Done(s) /\ nb < MaxBatches
        /\ \E b \in Batches : s' = US_Batch(s, b) /\ stream' = stream \o b /\ hist' = Append(hist, b)
        /\ nb' = nb + 1 /\ r' = r
Spec == Init /\ [][Next]_<<r, s, stream, nb, hist>>
\* counted part of the stream: up to and including the sample that completes the set
Counted == LET c == {k \in 0..Len(stream) : Cardinality({stream[j] : j \in 1..k}) >= r.n}
           IN IF c = {} THEN stream ELSE SubSeq(stream, 1, CHOOSE k \in c : \A j \in c : k <= j)
OnceEach == \A i, j \in 1..Len(s.ks) : i # j => s.ks[i] # s.ks[j]
AtMost == Len(s.ks) <= r.n
Shares == /\ US_Total(s) = Len(Counted)
          /\ \A k \in 1..Len(s.ks) : s.cs[k] = Cardinality({j \in 1..Len(Counted) : Counted[j] = s.ks[k]})
          /\ {s.ks[k] : k \in 1..Len(s.ks)} = {Counted[j] : j \in 1..Len(Counted)}
          /\ (s.ks # <<>> => REq(RSumSeq([k \in 1..Len(s.ks) |-> US_Share(s, k)]), "1"))
Limit == r.max > 0 => s.steps <= r.max
StopsWhy == US_Done(s) <=> (Len(s.ks) = r.n \/ (r.max > 0 /\ s.steps = r.max))
\* stratified weights for the alphabet: p(x) = x^2 + 1, deterministic set {1 .. d}
P == [x \in 1..r.a |-> RInt((x * x) + 1)]
Strata == \A d \in 1..(r.a - 1) : LET D == 1..d C == (1..r.a) \ D IN
   \* the exact complement norm gives every deterministic configuration its probability
   /\ \A x \in D : REq(ST_Det(P, D, ST_Norm(P, C), x), RDiv(P[x], ST_Norm(P, 1..r.a)))
   /\ \A nc \in {"1/2", "3", "17"} : REq(RAdd(RSumSeq([x \in 1..d |-> ST_Det(P, D, nc, x)]), RMul("5", ST_Rest(P, D, nc, 5))), "1")
   \* harmonic estimate is exact when the squared amplitude is constant on the samples
   /\ \A x \in C : REq(ST_Harmonic(P, 7, <<x, x, x>>), RMul("7", P[x]))
\* weighted variance is mean square minus squared mean
VarForm == s.ks # <<>> => LET w == [k \in 1..Len(s.ks) |-> US_Share(s, k)] v == [k \in 1..Len(s.ks) |-> <<RInt(s.ks[k]), RInt(1 - s.ks[k])>>] IN
   /\ REq(W_Var(w, v), RSub(RSumSeq([k \in 1..Len(w) |-> RMul(w[k], CAbs2(v[k]))]), CAbs2(W_Mean(w, v))))
   /\ W_Cov(w, v, v) = <<W_Var(w, v), "0">>
   /\ W_Force(w, v, v) = W_Cov(w, v, v)
Emit == US_Done(s) => PrintT("BEH " \o ToJson([r |-> r, hist |-> hist]))
=============================================================================
