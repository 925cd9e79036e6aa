----------------------------- MODULE Determinant -----------------------------
(***************************************************************************)
(* Fermionic amplitudes.  A configuration x has local states 0 (empty),    *)
(* 1 (up), 2 (down), 3 (both).  The electrons are ordered by site, all up  *)
(* electrons before all down electrons.  Matrices are sequences of rows of *)
(* complex numbers; determinants and Pfaffians are exact.                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, BigRat
DT_Sites(x, T) == LET F[i \in 0..Len(x)] == IF i = 0 THEN <<>> ELSE IF x[i] \in T THEN Append(F[i - 1], i) ELSE F[i - 1] IN F[Len(x)]
DT_Up(x) == DT_Sites(x, {1, 3})
DT_Dn(x) == DT_Sites(x, {2, 3})
\* positions of the electrons in 1..2L, relabelled by a map p of the sites
DT_Pos(x, p) == LET u == DT_Up(x)  d == DT_Dn(x) IN [k \in 1..Len(u) |-> p[u[k]]] \o [k \in 1..Len(d) |-> p[d[k]] + Len(x)]
DT_Rows(U, q) == [k \in 1..Len(q) |-> U[q[k]]]
DT_Sel(U, q) == CDet(DT_Rows(U, q))
DT_Zero(n) == [k \in 1..n |-> <<"0", "0">>]
\* block-diagonal orbitals of 2L rows from separate up and down orbitals (n1, n2 columns)
DT_Block(Up, Dn, n1, n2) == [i \in 1..(2 * Len(Up)) |-> IF i <= Len(Up) THEN Up[i] \o DT_Zero(n2) ELSE DT_Zero(n1) \o Dn[i - Len(Up)]]
\* rotation of the spins of all orbitals by an angle with half-angle cosine c and sine s
DT_Rotate(U, c, s) == LET L == Len(U) \div 2 IN [i \in 1..(2 * L) |-> [k \in 1..Len(U[1]) |->
    IF i <= L THEN CSub(CScale(c, U[i][k]), CScale(s, U[i + L][k])) ELSE CAdd(CScale(s, U[i - L][k]), CScale(c, U[i][k]))]]
\* Pfaffian by expansion along the first row; A: function on (q x q) index pairs given as sequence of indices q
RECURSIVE DT_Pf(_, _)
DT_Pf(A, q) == IF Len(q) = 0 THEN <<"1", "0">>
  ELSE IF Len(q) % 2 = 1 THEN <<"0", "0">>
  ELSE CSumSeq([k \in 1..(Len(q) - 1) |->
        IF A[q[1]][q[k + 1]] = <<"0", "0">> THEN <<"0", "0">> ELSE
        CScale(IF k % 2 = 1 THEN "1" ELSE "-1",
               CMul(A[q[1]][q[k + 1]], DT_Pf(A, [j \in 1..(Len(q) - 2) |-> IF j < k THEN q[j + 1] ELSE q[j + 2]])))])
DT_Ident(n) == [k \in 1..n |-> k]
DT_Pfaffian(A) == DT_Pf(A, DT_Ident(Len(A)))
DT_Skew(F, q) == [i \in 1..Len(q) |-> [j \in 1..Len(q) |-> CSub(F[q[i]][q[j]], F[q[j]][q[i]])]]
\* derivative of log det along B
DT_LogDetDot(A, B) == CDiv(CSumSeq([i \in 1..Len(A) |-> CDet([r \in 1..Len(A) |-> IF r = i THEN B[r] ELSE A[r]])]), CDet(A))
CSinh(z) == CScale("1/2", CSub(CExp(z), CExp(CScale("-1", z))))
\* multi-particle orbital: eps[n][d][m][k], occupations occ of its environment
DT_Cpd(eps, occ) == [n \in 1..Len(eps) |-> CSumSeq([m \in 1..Len(eps[1][1]) |-> CProdSeq([k \in 1..Len(occ) |-> eps[n][occ[k] + 1][m][k]])])]
=============================================================================
