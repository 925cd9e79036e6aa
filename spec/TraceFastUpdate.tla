--------------------------- MODULE TraceFastUpdate ---------------------------
(***************************************************************************)
(* Binds FastUpdate to the code: the specification state is the sequence   *)
(* of cached configurations (one per batch row).  Amplitudes are scaled by *)
(* the largest amplitude of the case (cfg.tol is relative to it).          *)
(***************************************************************************)
EXTENDS TraceBase, FastUpdate
Fail(ok, name) == IF ok THEN {} ELSE {name}
US0(case) == <<>>
N(e) == Len(e.y)
Updated(s, e) == [r \in 1..N(e) |-> FU_Apply(s[r], e.s[r], e.o[r])]
UFailed(case, s, e) ==
  LET upd == e.op \in {"commit", "trial"} IN
  Fail(upd => Len(s) = N(e) /\ \A r \in 1..N(e) : FU_WellFormed(s[r], e.s[r], e.o[r]) /\ e.y[r] = Updated(s, e)[r], "(harness) malformed history")
  \cup Fail(\A r \in 1..N(e) : CClose(e.val[r], e.fresh[r], case.cfg.tol),
            IF upd THEN "the amplitude after a fast update (" \o e.op \o ") is not that of the updated configuration"
            ELSE "the amplitude depends on caching or on the batch")
UAfter(case, s, e) == IF e.op \in {"commit", "refresh"} THEN e.y ELSE s
=============================================================================
