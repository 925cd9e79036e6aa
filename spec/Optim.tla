-------------------------------- MODULE Optim --------------------------------
(***************************************************************************)
(* Stochastic reconfiguration in exact arithmetic.                         *)
(* A sample set is given by weights w[k], complex log-derivatives O[k][p]  *)
(* and complex local energies e[k].  Log-derivatives of complex parameters *)
(* are given with respect to real and imaginary parts where a real linear  *)
(* system is meant ("complex" mode): O_im = i O_re.                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, BigRat
I1 == <<"0", "1">>
CRe(z) == <<z[1], "0">>
OP_Mean(w, v) == CSumSeq([k \in 1..Len(w) |-> CScale(w[k], v[k])])
OP_Col(O, p) == [k \in 1..Len(O) |-> O[k][p]]
\* centred log-derivatives and local energies
OP_CentreO(w, O) == LET m == TLCEval([p \in 1..Len(O[1]) |-> OP_Mean(w, OP_Col(O, p))]) IN TLCEval([k \in 1..Len(O) |-> [p \in 1..Len(O[1]) |-> CSub(O[k][p], m[p])]])
OP_CentreE(w, e) == LET m == OP_Mean(w, e) IN TLCEval([k \in 1..Len(e) |-> CSub(e[k], m)])
OP_Var(w, e) == LET c == OP_CentreE(w, e) IN RSumSeq([k \in 1..Len(e) |-> RMul(w[k], CAbs2(c[k]))])
\* covariance matrix S[p][q] = sum_k w_k conj(Oc[k][p]) Oc[k][q] (Oc centred)
OP_S(w, Oc, p, q) == CSumSeq([k \in 1..Len(w) |-> CScale(w[k], CMul(CConj(Oc[k][p]), Oc[k][q]))])
\* products with it, through sample space
OP_Ov(Oc, x) == TLCEval([k \in 1..Len(Oc) |-> CDot(Oc[k], x)])
OP_Oh(w, Oc, y) == TLCEval([p \in 1..Len(Oc[1]) |-> CSumSeq([k \in 1..Len(w) |-> CScale(w[k], CMul(CConj(Oc[k][p]), y[k]))])])
OP_Sv(w, Oc, x) == OP_Oh(w, Oc, OP_Ov(Oc, x))
\* force: sum_k w_k conj(Oc_k) ec_k
OP_F(w, Oc, ec) == OP_Oh(w, Oc, ec)
\* split into derivatives with respect to real and imaginary parts
OP_Split(O) == TLCEval([k \in 1..Len(O) |-> LET n == Len(O[k]) IN [p \in 1..(2 * n) |-> IF p <= n THEN O[k][p] ELSE CMul(I1, O[k][p - n])]])
OP_RealO(O) == TLCEval([k \in 1..Len(O) |-> [p \in 1..Len(O[k]) |-> CRe(O[k][p])]])
OP_RealV(v) == TLCEval([k \in 1..Len(v) |-> CRe(v[k])])
OP_Join(x) == TLCEval(LET n == Len(x) \div 2 IN [p \in 1..n |-> CAdd(x[p], CMul(I1, x[p + n]))])
OP_SplitV(x) == TLCEval(LET n == Len(x) IN [p \in 1..(2 * n) |-> IF p <= n THEN <<x[p][1], "0">> ELSE <<x[p - n][2], "0">>])
OP_Norm2(v) == RSumSeq([k \in 1..Len(v) |-> CAbs2(v[k])])

(* Running average of squared gradients (real vectors of rationals) *)
RECURSIVE OP_Pow(_, _)
OP_Pow(b, n) == IF n = 0 THEN "1" ELSE RMul(b, OP_Pow(b, n - 1))
OP_Ema(v, g, b) == TLCEval([p \in 1..Len(v) |-> RAdd(RMul(b, v[p]), RMul(RSub("1", b), RMul(g[p], g[p])))])
OP_Hat(v, b, step) == TLCEval([p \in 1..Len(v) |-> RDiv(v[p], RSub("1", OP_Pow(b, step + 1)))])
OP_Diag(hat, eps) == TLCEval([p \in 1..Len(hat) |-> RAdd(RSqrt(hat[p]), eps)])
\* residual of (cs S + cd diag) x = b with S real symmetric (the real part of the covariance)
OP_Res(w, Oc, diag, cs, cd, x, b) == LET Sx == OP_Sv(w, Oc, x) IN
   TLCEval([p \in 1..Len(x) |-> CSub(CAdd(CScale(cs, CRe(Sx[p])), CScale(RMul(cd, diag[p]), x[p])), b[p])])
=============================================================================
