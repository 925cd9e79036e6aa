------------------------------- MODULE Samples -------------------------------
(***************************************************************************)
(* Accumulation of distinct samples with counts, weighted estimates, and   *)
(* stratified weights.                                                     *)
(* Unique-sample state: [n, max (0: none), ks, cs, steps]; ks the distinct *)
(* configurations in order of appearance, cs how often each was counted.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, BigRat
US_Empty(n, max) == [n |-> n, max |-> max, ks |-> <<>>, cs |-> <<>>, steps |-> 0]
US_Full(s) == Len(s.ks) >= s.n
US_Done(s) == US_Full(s) \/ (s.max > 0 /\ s.steps >= s.max)
\* one sample; nothing is counted once the requested number of distinct samples is reached
US_One(s, x) == IF US_Full(s) THEN s
                ELSE LET k == {j \in 1..Len(s.ks) : s.ks[j] = x} IN
                     IF k = {} THEN [s EXCEPT !.ks = Append(@, x), !.cs = Append(@, 1)]
                     ELSE [s EXCEPT !.cs[CHOOSE j \in k : TRUE] = @ + 1]
RECURSIVE US_Many(_, _)
US_Many(s, b) == IF b = <<>> THEN s ELSE US_Many(US_One(s, Head(b)), Tail(b))
US_Batch(s, b) == IF US_Done(s) THEN s ELSE [US_Many(s, b) EXCEPT !.steps = @ + 1]
US_Total(s) == LET f[k \in 0..Len(s.cs)] == IF k = 0 THEN 0 ELSE f[k - 1] + s.cs[k] IN f[Len(s.cs)]
US_Share(s, k) == RDiv(RInt(s.cs[k]), RInt(US_Total(s)))
\* weighted estimates: sequences w of weights, v of complex values
W_Mean(w, v) == CSumSeq([k \in 1..Len(w) |-> CScale(w[k], v[k])])
W_Var(w, v) == LET m == W_Mean(w, v) IN RSumSeq([k \in 1..Len(w) |-> RMul(w[k], CAbs2(CSub(v[k], m)))])
\* force: sum_k w_k conj(O_k) (v_k - mean)
W_Force(w, v, O) == LET m == W_Mean(w, v) IN CSumSeq([k \in 1..Len(w) |-> CScale(w[k], CMul(CConj(O[k]), CSub(v[k], m)))])
\* covariance of log-derivatives
W_Cov(w, A, B) == LET a == W_Mean(w, A) b == W_Mean(w, B) IN CSumSeq([k \in 1..Len(w) |-> CScale(w[k], CMul(CConj(CSub(A[k], a)), CSub(B[k], b)))])
\* local estimator from matrix rows: row = << <<y, h>> .. >>, psi a function on configurations
W_Local(row, psi, x) == CDiv(CSumSeq([k \in 1..Len(row) |-> CMul(row[k][2], psi[row[k][1]])]), psi[x])
(* Stratified weights: p a function to squared amplitudes (unnormalised), D the deterministic set, nc the estimated norm of the complement *)
ST_Norm(p, S) == LET RECURSIVE f(_)
                     f(T) == IF T = {} THEN "0" ELSE LET x == CHOOSE x \in T : TRUE IN RAdd(p[x], f(T \ {x})) IN f(S)
ST_Det(p, D, nc, x) == RDiv(p[x], RAdd(ST_Norm(p, D), nc))
ST_Rest(p, D, nc, n) == RDiv(RDiv(nc, RAdd(ST_Norm(p, D), nc)), RInt(n))
\* importance-sampling estimate of the complement norm from samples q (drawn with probability proportional to p)
ST_Harmonic(p, Nc, q) == RDiv(RMul(RInt(Nc), RInt(Len(q))), RSumSeq([k \in 1..Len(q) |-> RDiv("1", p[q[k]])]))
=============================================================================
