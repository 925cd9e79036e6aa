----------------------------- MODULE TraceBase ------------------------------
(***************************************************************************)
(* Trace validation skeleton shared by all Trace*.tla modules.             *)
(*                                                                         *)
(* The driver writes one JSON object per line: a case                      *)
(*     { "id": ..., "cfg": {...}, "ev": [ event, event, ... ] }            *)
(* with one event per observed step of the real code.  A case is a         *)
(* behaviour of the specification iff every event is explained by the      *)
(* specification state reached so far.  The extending module supplies      *)
(*   S0(case)            specification state before the first event        *)
(*   Failed(case, s, e)  the set of names of clauses event e violates in   *)
(*                       state s (empty: e is an allowed step)             *)
(*   After(case, s, e)   specification state after e                       *)
(* (bound in the .cfg).  An exception raised by the code under test is an  *)
(* event of its own and is never an allowed step, so a verdict is always   *)
(* reached.  TraceAccepted holds iff all events of all cases were consumed.*)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, BigRat
CONSTANTS S0(_), Failed(_, _, _), After(_, _, _)
VARIABLES tc, tl, tst

Cases == ndJsonDeserialize(IOEnv.TRACE)
NEvents == LET f[k \in 0..Len(Cases)] == IF k = 0 THEN 0 ELSE f[k-1] + Len(Cases[k].ev) IN f[Len(Cases)]

\* a case that failed before its first step was set up has no state to start from
Started(case) == ~ (Len(case.ev) > 0 /\ "err" \in DOMAIN case.ev[1])
TInit == tc \in 1..Len(Cases) /\ tl = 1 /\ tst = IF Started(Cases[tc]) THEN S0(Cases[tc]) ELSE <<>>

Bad(case, s, e) == IF "err" \in DOMAIN e THEN {"raised an exception: " \o e.err} ELSE Failed(case, s, e)

Consume == /\ tl >= 1
           /\ tl <= Len(Cases[tc].ev)
           /\ LET e == Cases[tc].ev[tl]
                  bad == Bad(Cases[tc], tst, e)
              IN IF bad = {}
                 THEN tl' = tl + 1 /\ tst' = After(Cases[tc], tst, e)
                 ELSE /\ PrintT("BAD " \o ToJson([case |-> Cases[tc].id, event |-> tl, clauses |-> bad]))
                      /\ tl' = 0 /\ tst' = tst
           /\ tc' = tc
TNext == Consume
TSpec == TInit /\ [][TNext]_<<tc, tl, tst>>

Conforms == tl # 0
TraceAccepted == TLCGet("stats").distinct = Len(Cases) + NEvents
=============================================================================
