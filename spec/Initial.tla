------------------------------- MODULE Initial -------------------------------
(***************************************************************************)
(* Freshly initialised parameters.                                         *)
(* Random numbers are a tree of keys: splitting a key gives new keys, a    *)
(* draw consumes a key.  Parameters are independent iff no two draws use   *)
(* the same key, and initialisation is reproducible iff it is a function   *)
(* of the root key.                                                        *)
(* Laws of the values: real parameters of product states are normal around *)
(* one, complex ones lie on the unit circle with normal phases around      *)
(* zero, stacks of orbital matrices have orthonormal columns (rows where   *)
(* the matrix is wide) up to a common scale.                               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, BigRat
RECURSIVE IN_Size(_)
IN_Size(shape) == IF shape = <<>> THEN 1 ELSE Head(shape) * IN_Size(Tail(shape))
\* distance in memory between neighbours along axis k
IN_Stride(shape, k) == IN_Size(SubSeq(shape, k + 1, Len(shape)))
IN_Sum(f, n) == RSumSeq([i \in 1..n |-> f[i]])
IN_Pow(d, p) == [i \in 1..Len(d) |-> IF p = 1 THEN d[i] ELSE IF p = 2 THEN RMul(d[i], d[i]) ELSE IF p = 3 THEN RMul(d[i], RMul(d[i], d[i])) ELSE RMul(RMul(d[i], d[i]), RMul(d[i], d[i]))]
\* |x| <= 7 sqrt(v)
IN_Seven(x, v) == RLe(RMul(x, x), RMul("49", v))
(* deviates d (a sequence of rationals) are independent standard normal as far as moments tell *)
IN_Centred(d) == IN_Seven(RSumSeq(d), RInt(Len(d)))
IN_Width(d)   == IN_Seven(RSub(RSumSeq(IN_Pow(d, 2)), RInt(Len(d))), RInt(2 * Len(d)))
IN_Skew(d)    == IN_Seven(RSumSeq(IN_Pow(d, 3)), RInt(15 * Len(d)))
IN_Tail(d)    == IN_Seven(RSub(RSumSeq(IN_Pow(d, 4)), RInt(3 * Len(d))), RInt(96 * Len(d)))
IN_Uncorr(d, e) == LET n == IF Len(d) < Len(e) THEN Len(d) ELSE Len(e) IN IN_Seven(RDot(SubSeq(d, 1, n), SubSeq(e, 1, n)), RInt(n))
IN_Lag(d, s)  == s >= Len(d) \/ IN_Uncorr(d, SubSeq(d, s + 1, Len(d)))
IN_Indep(d, shape) == \A k \in 1..Len(shape) : shape[k] > 1 => IN_Lag(d, IN_Stride(shape, k))
(* matrices are sequences of rows of complex numbers *)
IN_Transpose(m) == [j \in 1..Len(m[1]) |-> [i \in 1..Len(m) |-> m[i][j]]]
IN_RowGram(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> CDot([k \in 1..Len(m[1]) |-> CConj(m[i][k])], m[j])]]
IN_Gram(m) == IF Len(m) >= Len(m[1]) THEN IN_RowGram(IN_Transpose(m)) ELSE IN_RowGram(m)
IN_Orthonormal(m, scale, tol) == LET g == IN_Gram(m) IN
   \A i, j \in 1..Len(g) : CClose(g[i][j], <<IF i = j THEN RMul(scale, scale) ELSE "0", "0">>, tol)
=============================================================================
