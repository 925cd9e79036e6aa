----------------------------- MODULE MCSupervised ----------------------------
(***************************************************************************)
(* The feature cache as a state machine: the cached site products are      *)
(* reused, updated by one division and one multiplication per support      *)
(* index, or rebuilt, whatever the history of reference sites, data sets,  *)
(* fits and parameter assignments.  A fit with infinite regularisation     *)
(* writes the prior mean into every parameter with a non-vanishing feature.*)
(* hist records the history for replay (ignored by the exhaustive search). *)
(***************************************************************************)
EXTENDS Supervised, TLC, Json
CONSTANTS Shape, Vals, Tables, Sets, Depth
VARIABLES eps, refs, cset, cref, prod, K, hist
vars == <<eps, refs, cset, cref, prod, K, hist>>
view == <<eps, refs, cset, cref, prod>>
C(r) == <<r, "0">>
NoProd == <<>>
\* shapes: "a" three sites, one support index; "b" two sites, two support indices; "c" three sites, two support indices (replay)
L == IF Shape = "b" THEN 2 ELSE 3
M == IF Shape = "a" THEN 1 ELSE 2
\* parameter tables by number: entries cycle through a pattern, table 2 and 3 contain zeros; tables 4 and 5 differ from table 1 in one parameter (4: by very little)
Pat(n) == CASE n = 1 -> <<"1/2", "-1", "2", "3/4", "1", "-3/2", "5/4">> [] n = 2 -> <<"1", "0", "-1/2", "3/2", "0", "2">> [] OTHER -> <<"0", "1", "-1", "1/4">>
Base(n) == [d \in 1..2 |-> [w \in 1..M |-> [i \in 1..L |-> C(Pat(n)[((((d - 1) * 3) + ((w - 1) * 5) + i) % Len(Pat(n))) + 1])]]]
Table(n) == IF n < 4 THEN Base(n) ELSE [Base(1) EXCEPT ![2][1][L] = CAdd(@, C(IF n = 4 THEN "1/2097152" ELSE "3/2"))]
\* data sets by number: copies of configurations; set 3 has the shape of set 1 but one other configuration, sets 4 and 5 hold the configurations of 1 and 2 in another order
Rev(x) == [i \in 1..Len(x) |-> x[(Len(x) + 1) - i]]
Bits(k) == [i \in 1..L |-> (k \div (2^(i - 1))) % 2]
Conf(n) == CASE n = 1 -> <<1, 2, 3, 0>> [] n = 2 -> <<1, 3, 2>> [] n = 4 -> <<2, 0, 3, 1>> [] n = 5 -> <<2, 1, 3>> [] OTHER -> <<1, 2, 3, (2^L) - 1>>
Set(n) == [k \in 1..Len(Conf(n)) |-> IF n \in {2, 5} THEN <<Bits(Conf(n)[k]), Rev(Bits(Conf(n)[k]))>> ELSE <<Bits(Conf(n)[k])>>]
Init == eps = Table(1) /\ refs = [w \in 1..M |-> 1] /\ cset = 0 /\ cref = <<>> /\ prod = NoProd /\ K = <<>> /\ hist = <<>>
Scratch(e, s, r) == TLCEval([i \in 1..Len(Set(s)) |-> [w \in 1..M |-> [t \in 1..Len(Set(s)[i]) |-> SU_Site(e, w, Set(s)[i][t], r[w])]]])
Sel(e, w, x, i) == e[x[i] + 1][w][i]
Updated(s, r) == TLCEval([i \in 1..Len(Set(s)) |-> [w \in 1..M |-> [t \in 1..Len(Set(s)[i]) |-> LET x == Set(s)[i][t] IN
     IF r[w] = cref[w] THEN prod[i][w][t]
     ELSE IF CAbs2(Sel(eps, w, x, r[w])) = "0" THEN SU_Site(eps, w, x, r[w])
     ELSE CMul(CDiv(prod[i][w][t], Sel(eps, w, x, r[w])), Sel(eps, w, x, cref[w]))]]])
NewProd(s, r) == IF prod = NoProd \/ cset # s THEN Scratch(eps, s, r) ELSE IF cref # r THEN Updated(s, r) ELSE prod
FromProd(pr, s, r) == TLCEval([i \in 1..Len(Set(s)) |-> [k \in 1..(2 * M) |-> LET w == ((k - 1) \div 2) + 1  d == ((k - 1) % 2) IN
     CSumSeq([t \in 1..Len(Set(s)[i]) |-> IF Set(s)[i][t][r[w]] = d THEN pr[i][w][t] ELSE C0])]])
Log(h) == hist' = Append(hist, h)
Use(s, r) == LET pr == NewProd(s, r) IN prod' = pr /\ cset' = s /\ cref' = r /\ refs' = r /\ K' = FromProd(pr, s, r)
Features(s, r, buf) == Use(s, r) /\ eps' = eps /\ Log([op |-> "features", set |-> s, refs |-> r, buf |-> buf, v |-> "0", tab |-> 0])
Predict(s, buf) == Use(s, refs) /\ eps' = eps /\ Log([op |-> "predict", set |-> s, refs |-> refs, buf |-> buf, v |-> "0", tab |-> 0])
Valid(Km, k) == \E i \in 1..Len(Km) : CAbs2(Km[i][k]) # "0"
Fit(s, r, v, buf) == LET Km == FromProd(NewProd(s, r), s, r)  old == SU_Ref(eps, r) IN
   /\ Use(s, r)
   /\ eps' = TLCEval(SU_Put(eps, r, [k \in 1..(2 * M) |-> IF Valid(Km, k) THEN C(v) ELSE old[k]]))
   /\ Log([op |-> "fit", set |-> s, refs |-> r, buf |-> buf, v |-> v, tab |-> 0])
\* a fit whose outcome the specification leaves to the code (replay only)
Free(s, r, buf) == Depth > 0 /\ Use(s, r) /\ eps' = eps /\ Log([op |-> "free", set |-> s, refs |-> r, buf |-> buf, v |-> "0", tab |-> 0])
Assign(n) == eps' = Table(n) /\ prod' = NoProd /\ K' = <<>> /\ UNCHANGED <<refs, cset, cref>> /\ Log([op |-> "assign", set |-> 1, refs |-> refs, buf |-> FALSE, v |-> "0", tab |-> n])
Reset == prod' = NoProd /\ K' = <<>> /\ UNCHANGED <<eps, refs, cset, cref>> /\ Log([op |-> "reset", set |-> 1, refs |-> refs, buf |-> FALSE, v |-> "0", tab |-> 0])
AllRefs == [1..M -> 1..L]
Next == \/ \E s \in Sets, r \in AllRefs : Features(s, r, FALSE) \/ (\E v \in Vals : Fit(s, r, v, FALSE))
        \/ \E s \in Sets : Predict(s, FALSE)
        \/ \E n \in Tables : Assign(n)
        \/ Reset
Spec == Init /\ [][Next]_vars
\* one random step (simulation); refs is what the specification expects the code to keep using
Rnd == /\ Len(hist) < Depth
       /\ \E o \in {RandomElement(1..14)} : \E s \in {RandomElement(Sets)} : \E r \in {RandomElement(AllRefs)} : \E v \in {RandomElement(Vals)} :
          \E b \in {RandomElement({TRUE, FALSE})} : \E n \in {RandomElement(Tables)} : \E keep \in {RandomElement({TRUE, FALSE})} :
          LET ss == IF keep /\ cset # 0 THEN cset ELSE s IN
          CASE o \in 1..4 -> Features(ss, r, b) [] o \in 5..6 -> Predict(ss, b) [] o \in 7..9 -> Fit(ss, r, v, b) [] o \in 10..12 -> Free(ss, r, b)
            [] o = 13 -> Assign(n) [] OTHER -> Reset
RSpec == Init /\ [][Rnd]_vars
Fresh == prod # NoProd => prod = Scratch(eps, cset, cref)
Right == prod # NoProd => FromProd(prod, cset, cref) = SU_Rows(eps, Set(cset), cref)
Formula == prod # NoProd => \A i \in 1..Len(Set(cset)) : CDot(SU_Rows(eps, Set(cset), cref)[i], SU_Ref(eps, cref)) = SU_Log(eps, Set(cset)[i])
Emit == (Depth > 0 /\ Len(hist) = Depth) => PrintT("BEH " \o ToJson([shape |-> Shape, steps |-> hist]))
=============================================================================
