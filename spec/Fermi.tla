-------------------------------- MODULE Fermi --------------------------------
(***************************************************************************)
(* Fermionic configurations and second-quantised Hamiltonians.             *)
(*                                                                         *)
(* A configuration is a sequence of local occupations 0..3 (bit 0: up,     *)
(* bit 1: down).  It stands for the Fock state in which the occupied modes *)
(* are created in the order up sites 1..L, then down sites 1..L; a mode is *)
(* p for (site p, up) and L+p for (site p, down).                          *)
(* All numbers are rationals of module BigRat.                             *)
(***************************************************************************)
EXTENDS Rows

UpAt(o)   == o % 2 = 1
DownAt(o) == o \div 2 = 1
Modes(x)  == {p \in 1..Len(x) : UpAt(x[p])} \cup {Len(x) + p : p \in {q \in 1..Len(x) : DownAt(x[q])}}
Conf(L, S) == [p \in 1..L |-> (IF p \in S THEN 1 ELSE 0) + (IF L + p \in S THEN 2 ELSE 0)]
NUp(x)   == Cardinality({p \in 1..Len(x) : UpAt(x[p])})
NDown(x) == Cardinality({p \in 1..Len(x) : DownAt(x[p])})
IsConf(L, x) == Len(x) = L /\ \A p \in 1..L : x[p] \in 0..3
Sector(L, nu, nd) == {x \in [1..L -> 0..3] : NUp(x) = nu /\ NDown(x) = nd}

\* ladder operators on signed Fock states [s |-> -1|0|1, c |-> set of modes]
Par(S, m) == IF Cardinality({k \in S : k < m}) % 2 = 0 THEN 1 ELSE -1
Ket(x)    == [s |-> 1, c |-> Modes(x)]
Ann(k, m) == IF k.s # 0 /\ m \in k.c THEN [s |-> k.s * Par(k.c, m), c |-> k.c \ {m}] ELSE [s |-> 0, c |-> {}]
Cre(k, m) == IF k.s # 0 /\ m \notin k.c THEN [s |-> k.s * Par(k.c, m), c |-> k.c \cup {m}] ELSE [s |-> 0, c |-> {}]

SiteOf(L, m) == IF m > L THEN m - L ELSE m
SpinModes(L, m) == IF m > L THEN (L+1)..(2*L) ELSE 1..L   \* modes of the same spin

(***************************************************************************)
(* Row of an operator: the terms <x|H|x'> as a set of records, one record  *)
(* per elementary term.  x' is obtained by applying the transposed         *)
(* operator to |x>.                                                        *)
(***************************************************************************)
Term(i, k, L, v) == [i |-> i, to |-> Conf(L, k.c), v |-> IF k.s = 1 THEN v ELSE RNeg(v)]

\* H = sum_e -t_e sum_spin (c+_a c_b + c+_b c_a) + U sum_p n_up n_down
HubbardTerms(cfg, x) ==
  LET L == Len(x)
      dbl == Cardinality({p \in 1..L : x[p] = 3})
      idx == {<<e, d, s>> : e \in 1..Len(cfg.edges), d \in {1, 2}, s \in {0, L}}
      kets == [i \in idx |-> Cre(Ann(Ket(x), cfg.edges[i[1]][i[2]] + i[3]), cfg.edges[i[1]][3 - i[2]] + i[3])]
  IN {[i |-> <<0>>, to |-> x, v |-> RMul(cfg.U, RInt(dbl))]}
     \cup {Term(i, kets[i], L, RNeg(cfg.t[i[1]])) : i \in {j \in idx : kets[j].s # 0}}

\* H = sum h_pq c+_p c_q + 1/2 sum (pq|rs) c+_p c+_r c_s c_q   (p,q and r,s of equal spin)
AbInitioTerms(cfg, x) ==
  LET L == Len(x)
      S == Modes(x)
      one == {<<p, q>> \in (1..(2*L)) \X S : p \in SpinModes(L, q)}
      k1 == [i \in one |-> Cre(Ann(Ket(x), i[2]), i[1])]
      two == {i \in (1..(2*L)) \X S \X (1..(2*L)) \X S :
                 i[2] # i[4] /\ i[1] # i[3] /\ i[1] \in SpinModes(L, i[2]) /\ i[3] \in SpinModes(L, i[4])}
      k2 == [i \in two |-> Cre(Cre(Ann(Ann(Ket(x), i[2]), i[4]), i[3]), i[1])]
      s(m) == SiteOf(L, m)
  IN {Term(i, k1[i], L, cfg.h[s(i[2])][s(i[1])]) : i \in {j \in one : k1[j].s # 0}}
     \cup {Term(i, k2[i], L, RDiv(cfg.eri[s(i[2])][s(i[1])][s(i[4])][s(i[3])], "2")) : i \in {j \in two : k2[j].s # 0}}

FermiTerms(cfg, x) == IF cfg.kind = "hubbard" THEN HubbardTerms(cfg, x) ELSE AbInitioTerms(cfg, x)

(***************************************************************************)
(* The evaluation scheme used by the code (Neuscamman 2013): t = h - 1/2   *)
(* sum_r (pr|rq) and products of hops E_ia, with the sums over occupied    *)
(* and empty orbitals resolved.  AlgMatches states that it is the operator *)
(* for integrals with the usual permutation symmetry.                      *)
(***************************************************************************)
Hop(k, from, to) == Cre(Ann(k, from), to)
\* sum_{pq,spin} t_pq E_pq + 1/2 sum (pq|rs) E_pq E_rs with E_pq = sum_spin c+_p c_q
AlgTerms(cfg, x) ==
  LET L == Len(x)
      s(m) == SiteOf(L, m)
      tm == [p \in 1..L |-> [q \in 1..L |->
              RSub(cfg.h[p][q], RDiv(RSumSeq([r \in 1..L |-> cfg.eri[p][r][r][q]]), "2"))]]
      one == {<<p, q>> \in (1..(2*L)) \X (1..(2*L)) : p \in SpinModes(L, q)}
      k1 == [i \in one |-> Hop(Ket(x), i[2], i[1])]
      two == one \X one
      k2 == [i \in two |-> Hop(k1[i[2]], i[1][2], i[1][1])]
  IN {Term(i, k1[i], L, tm[s(i[2])][s(i[1])]) : i \in {j \in one : k1[j].s # 0}}
     \cup {Term(i[1] \o i[2], k2[i], L, RDiv(cfg.eri[s(i[1][2])][s(i[1][1])][s(i[2][2])][s(i[2][1])], "2")) : i \in {j \in two : k2[j].s # 0}}
=============================================================================
