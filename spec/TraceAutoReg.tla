----------------------------- MODULE TraceAutoReg ----------------------------
(***************************************************************************)
(* Binds AutoReg to the code.  The model is an unknown function from       *)
(* prefixes to conditionals that the trace reveals: the specification      *)
(* state holds what has been revealed (c), the probabilities of            *)
(* configurations (w) and their running sum.                               *)
(***************************************************************************)
EXTENDS TraceBase, AutoReg, Hilbert
Fail(ok, name) == IF ok THEN {} ELSE {name}
Tab(cfg) == IF "w" \in DOMAIN cfg THEN [y \in {cfg.w[k][1] : k \in 1..Len(cfg.w)} |-> cfg.w[CHOOSE k \in 1..Len(cfg.w) : cfg.w[k][1] = y][2]] ELSE <<>>
AS0(case) == [c |-> <<>>, sum |-> "0", w |-> Tab(case.cfg)]
Known(s, copies) == \A k \in 1..Len(copies) : \A i \in 1..Len(copies[k]) : AR_Prefix(copies[k], i) \in DOMAIN s.c
AFailed(case, s, e) ==
  LET cfg == case.cfg IN
  CASE e.op = "cond" ->   \* conditional of site e.i at configuration e.x; e.how: "all" sites at once or "one" at a time
         LET y == AR_Prefix(e.x, e.i) IN
         IF ~Feasible(cfg, y) THEN {} ELSE
         Fail(Normalised(e.p, cfg.tol), "a conditional does not sum to one")
         \cup Fail(MaskedOut(cfg, y, e.p), "a local state that leads out of the sector has probability")
         \cup (IF y \in DOMAIN s.c THEN Fail(\A k \in 1..Len(e.p) : RClose(e.p[k], s.c[y][k], cfg.tol),
                 IF e.how = "one" THEN "conditionals of one site and of all sites disagree" ELSE "a conditional depends on later sites") ELSE {})
    [] e.op = "amp" ->    \* e.p: modulus to the machine power
         IF ~Feasible(cfg, e.x) THEN Fail(e.p = "0", "a configuration outside the sector has an amplitude")
         ELSE Fail(~Known(s, e.copies) \/ RClose(e.p, ChainSym(s.c, e.copies), cfg.tol), "the amplitude is not the product of its conditionals")
              \cup Fail(RLe("0", e.p), "the amplitude is not a number")
    [] e.op = "total" -> Fail(RClose(s.sum, "1", cfg.tol), "the squared amplitudes do not sum to one")
    [] e.op = "draw" -> Fail(CellOK(e.p, e.u, e.k, cfg.tol), "the draw does not select the cell of the random number")
    [] e.op = "cells" ->  \* frequencies of drawing from weights e.p
         LET t == RSumSeq(e.p) IN
         Fail(\A k \in 1..Len(e.p) : Plausible(e.counts[k], e.n, RDiv(e.p[k], t), "49"), "draw frequencies are not proportional to the weights")
         \cup Fail(\A k \in 1..Len(e.p) : RSign(e.p[k]) = 0 => e.counts[k] = 0, "a local state of zero probability was drawn")
    [] e.op = "samples" ->   \* e.counts = << <<x, c>> .. >>
         LET O == {e.counts[k][1] : k \in 1..Len(e.counts)} IN
         Fail(e.shape = e.want, "samples have the wrong shape")
         \cup Fail(\A x \in O : Feasible(cfg, x) /\ x \in DOMAIN s.w, "a sample lies outside the sector")
         \cup Fail(\A x \in O \cap DOMAIN s.w : RSign(s.w[x]) > 0, "a sample has probability zero")
         \cup Fail(\A x \in DOMAIN s.w : LET c == {k \in 1..Len(e.counts) : e.counts[k][1] = x}
                                IN Plausible(IF c = {} THEN 0 ELSE e.counts[CHOOSE k \in c : TRUE][2], e.n, s.w[x], "49"), "sample frequencies are not the model's probabilities")
    [] e.op = "pairs" ->     \* joint counts of two draws e.what
         Fail(\A p \in (DOMAIN s.w) \X (DOMAIN s.w) : LET c == {k \in 1..Len(e.counts) : e.counts[k][1] = p[1] /\ e.counts[k][2] = p[2]}
                IN Plausible(IF c = {} THEN 0 ELSE e.counts[CHOOSE k \in c : TRUE][3], e.n, RMul(s.w[p[1]], s.w[p[2]]), "49"),
              "samples are not independent (" \o e.what \o ")")
AAfter(case, s, e) ==
  CASE e.op = "cond" -> LET y == AR_Prefix(e.x, e.i) IN
         IF y \in DOMAIN s.c \/ ~Feasible(case.cfg, y) THEN s ELSE [s EXCEPT !.c = [z \in DOMAIN s.c \cup {y} |-> IF z = y THEN e.p ELSE s.c[z]]]
    [] e.op = "amp" -> IF e.first THEN [s EXCEPT !.sum = RAdd(s.sum, e.p)] ELSE s
    [] OTHER -> s
=============================================================================
