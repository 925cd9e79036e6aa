------------------------------- MODULE Symmetry ------------------------------
(***************************************************************************)
(* Symmetry operations on configurations of local states.  An operation is *)
(* [p |-> permutation of the sites, f |-> TRUE if the two local states are *)
(* exchanged]; the copy of x under it has x[p[i]] (exchanged) at site i.   *)
(* Groups are derived from a graph: its automorphisms and the exchange.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
SY_Flip(f, v) == IF f THEN 1 - v ELSE v
SY_Copy(x, g) == [i \in 1..Len(x) |-> SY_Flip(g.f, x[g.p[i]])]
SY_Pos(g, site) == CHOOSE i \in 1..Len(g.p) : g.p[i] = site      \* where a site ends up in the copy
SY_Id(L) == [p |-> [i \in 1..L |-> i], f |-> FALSE]
SY_Compose(g, h) == [p |-> [i \in 1..Len(g.p) |-> g.p[h.p[i]]], f |-> g.f # h.f]  \* SY_Copy(SY_Copy(x,g),h)
\* all extensions of a partial map of the first sites to adjacency preserving permutations; E: set of {a,b}
RECURSIVE SY_Ext(_, _, _)
SY_Ext(L, E, p) ==
  IF Len(p) = L THEN {p}
  ELSE LET k == Len(p) + 1
           ok == {v \in 1..L : /\ \A j \in 1..Len(p) : p[j] # v
                               /\ \A j \in 1..Len(p) : ({j, k} \in E) <=> ({p[j], v} \in E)}
       IN UNION {SY_Ext(L, E, Append(p, v)) : v \in ok}
SY_Automorphisms(L, E) == SY_Ext(L, E, <<>>)
SY_Group(L, E, auto, flip) ==
  {[p |-> p, f |-> f] : p \in (IF auto THEN SY_Automorphisms(L, E) ELSE {[i \in 1..L |-> i]}),
                        f \in (IF flip THEN {TRUE, FALSE} ELSE {FALSE})}
SY_Orbit(x, G) == {SY_Copy(x, g) : g \in G}
\* how often y occurs among the copies of x
SY_Mult(x, G, y) == Cardinality({g \in G : SY_Copy(x, g) = y})
\* sign of sorting a sequence of distinct numbers
SY_Sign(q) == IF Cardinality({ij \in (1..Len(q)) \X (1..Len(q)) : ij[1] < ij[2] /\ q[ij[1]] > q[ij[2]]}) % 2 = 0 THEN 1 ELSE -1
=============================================================================
